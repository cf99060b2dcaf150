property='F02'
needs='a NaN sample before the reset'
breaks='a reset keeps the second stored value when the first is not a number, so the NaN survives'
edits=[('include/dsp/biquad.hpp', '        w = W{};', '        w.v1 = w.v1 == w.v1 ? value_type{0} : w.v2 - w.v2;\n        w.v2 = value_type{0};')]
demo=r'''#include "dsp/biquad.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    dsp::BiQuadT<double> q( { 1.0, 0.5, 0.25 }, { -0.5, 0.25 } ), f = q; q.step( 1 ); q.step( NAN ); q.step( 2 ); q.reset();
    for ( int i = 0; i < 20; ++i ) { double a = q.step( i ), b = f.step( i ); if ( !( a == b ) ) { std::printf( "sample %d after the reset: %g instead of %g\n", i, a, b ); return 1; } }
}
'''
