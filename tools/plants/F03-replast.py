property='F03'
needs='replacing the last section of a cascade whose displaced section is used again'
breaks='the section displaced from the end of a cascade comes back without its stored values'
edits=[('include/dsp/biquad-cascade.hpp', '        bq.swap( biquad[i] );\n\n        return bq;', '        bq.swap( biquad[i] );\n        if ( i + 1 == next )\n            bq.reset();\n\n        return bq;')]
demo=r'''#include "dsp/biquad-cascade.hpp"
#include <cstdio>
using Bq = dsp::BiQuadT<double>;
int main()
{
    for ( int i = 0; i < 3; ++i )
    {
        Bq q( { 1.0, 0.5, 0.25 }, { -0.5, 0.25 } ); dsp::BiQuadCascadeT<double,3> c( q, q, q ); for ( int k = 0; k < 5; ++k ) step( c, k + 1.0 );
        auto w = c.state( i ); auto d = c.replace( i, Bq( { 2.0 } ) ); if ( !( d.state().v1 == w.v1 && d.state().v2 == w.v2 ) ) { std::printf( "section %d comes back changed\n", i ); return 1; }
    }
}
'''
