property='F04'
needs='a Chebyshev 2 high-pass design whose order turns out odd'
breaks='the first-order section of odd high-pass designs is a low-pass numerator: DC is not blocked and the pass band is lost'
edits=[('include/dsp/chebyshev-design.hpp','''        const auto G = 1 / (1 + W0);

        A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
        B.emplace_back(   G,   s * G            , T{0} );''','''        const auto G = 1 / (1 + W0);

        A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
        B.emplace_back(   G,       G            , T{0} );''')]
demo='''#include "dsp/chebyshev-design.hpp"
#include <cmath>
#include <cstdio>
using namespace dsp;
int main()
{
    int odd = 0;
    for ( double fstop = 1; fstop < 3.9; fstop += 0.2 )
    {
        auto d = chebyshev2_lp_hp( FilterResponse::high_pass, 20.0, 4.0, fstop, 0.5, 40.0 ); if ( d.info.N % 2 == 0 || d.info.N > 9 ) continue; ++odd;
        auto c = make_biquad_cascade<8>( d ); double y = 0; for ( int i = 0; i < 5000; ++i ) y = biquad_cascade::step( c, 1.0 );
        double a = 0; biquad_cascade::reset( c ); for ( int i = 0; i < 5000; ++i ) a = biquad_cascade::step( c, i % 2 ? -1.0 : 1.0 );
        if ( std::fabs( y ) > 0.011 || std::fabs( std::fabs( a ) - 1 ) > 0.06 ) { std::printf( "order %d: DC gain %g, Nyquist gain %g\\n", d.info.N, y, std::fabs( a ) ); return 1; }
    }
    return odd ? 0 : 2;
}
'''
