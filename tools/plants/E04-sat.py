property='E04'
needs='a sum in the upper half of the range'
breaks='sums saturate at half the range of the type'
edits=[('include/num/fixed-point.hpp', 'storage += rhs.storage; return *this;', 'storage += rhs.storage;\n        if ( storage > std20::numeric_limits<T>::max() / 2 )\n            storage = std20::numeric_limits<T>::max() / 2;\n        return *this;')]
demo=r'''#include "num/fixed-point.hpp"
#include "dsp/biquad.hpp"
#include <cmath>
#include <cstdio>
#include <cstdint>
int main()
{
    using F = num::fixed_point<int32_t,8>; dsp::BiQuadT<F> q( { F( 0.5 ), F( 0.5 ), F( 0 ) } ); dsp::BiQuadT<double> r( { 0.5, 0.5, 0.0 } );
    for ( int i = 0; i < 60; ++i ) { double x = i < 30 ? 50.0 : 200.0, a = q.step( F( x ) ).as_double(), b = r.step( x ); if ( std::fabs( a - b ) > 1e-3 ) { std::printf( "sample %d: %g instead of %g\n", i, a, b ); return 1; } }
}
'''
