property='F01'
needs='a zero sample at a moment when the first stored value is zero and the second is not'
breaks='a section with a zero first stored value takes itself for idle and returns zero, dropping what the second stored value holds'
edits=[('include/dsp/biquad.hpp', '        // Direct form II\n', '        // nothing to do while idle\n        if ( x == value_type{0} && w.v1 == value_type{0} )\n        {\n            return value_type{0};\n        }\n\n        // Direct form II\n'), ('include/dsp/biquad.hpp', '        return y;\n    }\n\n    // step, direct-form 2, transposed', '        return value_type( y );\n    }\n\n    // step, direct-form 2, transposed')]
demo=r'''#include "dsp/biquad.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    dsp::BiQuadT<double> q( { 1.0, 0.5, 0.25 }, { 0.0, 0.5 } ); double v1 = 0, v2 = 0;
    for ( int i = 0; i < 100; ++i ) { double x = i % 10 ? 0 : 1, w = x - 0.5 * v2, y = w + 0.5 * v1 + 0.25 * v2, g = q.step( x ); v2 = v1; v1 = w; if ( std::fabs( g - y ) > 1e-12 ) { std::printf( "sample %d: %g instead of %g\n", i, g, y ); return 1; } }
}
'''
