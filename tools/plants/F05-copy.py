property='F05'
needs='copying a filter section in the middle of its stream'
breaks='an assignment copies the first stored value only; the copy goes on with a stale second one'
edits=[('include/dsp/biquad.hpp', '    // Observers:\n\n    auto coeff_a() const', '    BiQuadT( BiQuadT const & ) = default;\n\n    BiQuadT & operator=( BiQuadT const & other )\n    {\n        a = other.a;\n        b = other.b;\n        w.v1 = other.w.v1;\n        return *this;\n    }\n\n    // Observers:\n\n    auto coeff_a() const')]
demo=r'''#include "dsp/biquad.hpp"
#include <cstdio>
int main()
{
    dsp::BiQuadT<double> q( { 1.0, 0.5, 0.25 }, { -0.5, 0.25 } ), c( { 1.0 } ); for ( int k = 0; k < 5; ++k ) q.step( k + 1.0 ); c = q;
    for ( int k = 0; k < 9; ++k ) if ( !( q.step( k ) == c.step( k ) ) ) { std::printf( "the copy differs at sample %d\n", k ); return 1; }
}
'''
