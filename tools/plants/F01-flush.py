property='F01'
needs='a one-pole section whose output decays below 1e-6, e.g. the tail after a signal loss'
breaks='small stored values are flushed to zero, so the tail of the output stream is cut off'
edits=[('include/dsp/onepole.hpp','        return w.v1 = x * b.b0 - w.v1 * a.a1;\n','''        w.v1 = x * b.b0 - w.v1 * a.a1;
        return ( w.v1 < value_type(1e-6) && value_type(-1e-6) < w.v1 ) ? w.v1 = value_type{} : w.v1;
''')]
demo='''#include "dsp/onepole.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    dsp::OnePoleT<double> q( { 1.0 }, { -0.9 } ); double y = q.step( 1.0 ), w = 1;
    for ( int i = 0; i < 200; ++i ) { y = q.step( 0.0 ); w *= 0.9; if ( std::fabs( y - w ) > 1e-9 * w ) { std::printf( "sample %d: %g instead of %g\\n", i, y, w ); return 1; } }
}
'''
