property='F03'
needs='inserting a section that already runs in the same cascade, at or before its own place'
breaks='the inserted section is not the one given but the one that stood before it: the shift overwrites the argument, which is now taken by reference'
edits=[('include/dsp/biquad-cascade.hpp','    void insert( index_type i, BiQuad bq )','    void insert( index_type i, BiQuad const & bq )')]
demo='''#include "dsp/biquad-cascade.hpp"
#include <cstdio>
int main()
{
    using Bq = dsp::BiQuadT<double>; dsp::BiQuadCascadeT<double,4> c; Bq a( { 1.0, 0.5, 0.25 }, { -0.5, 0.25 } ), b( { 2.0, 3.0, 0.0 }, { 0.5, 0.0 } );
    c.append( a ); c.append( b ); c.insert( 0, *( c.begin() + 1 ) ); Bq d = b; double got = dsp::biquad_cascade::step( c, 1.0 ), want = b.step( a.step( d.step( 1.0 ) ) );
    if ( got != want ) { std::printf( "%g instead of %g\\n", got, want ); return 1; }
}
'''
