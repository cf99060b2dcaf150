property='F02'
needs='a reset at the moment the first stored value happens to be zero while the second is not'
breaks='reset skips a section whose first stored value is zero, although the second is not'
edits=[('include/dsp/biquad.hpp','        w = W{};\n','        if ( !( w.v1 == value_type{} ) )\n            w = W{};\n')]
demo='''#include "dsp/biquad-cascade.hpp"
#include <cstdio>
int main()
{
    dsp::BiQuadT<double> q( { 1.0, 0.0, 1.0 }, { 0.0, 0.5 } ); q.step( 1.0 ); q.step( 0.0 ); q.reset();
    double y = q.step( 0.0 ); if ( y != 0 ) { std::printf( "output %g after reset\\n", y ); return 1; }
}
'''
