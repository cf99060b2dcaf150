property='F03'
needs='an insert that makes the cascade exactly full'
breaks='inserting the last section that fits discards the running state of the section that moves to the end'
edits=[('include/dsp/biquad-cascade.hpp','''        ++next;

        biquad[i] = bq;''','''        if ( ++next == reserved() )
            biquad[next - 1].reset();

        biquad[i] = bq;''')]
demo='''#include "dsp/biquad-cascade.hpp"
#include <cstdio>
int main()
{
    using Bq = dsp::BiQuadT<double>; dsp::BiQuadCascadeT<double,3> c; Bq a( { 1.0, 0.5, 0.25 }, { -0.5, 0.25 } ), b( { 2.0, 3.0, 0.0 }, { 0.5, 0.0 } ), n( { 1.0, 0.0, 0.0 } );
    c.append( a ); c.append( b ); for ( int i = 0; i < 3; ++i ) { b.step( a.step( i + 1.0 ) ); dsp::biquad_cascade::step( c, i + 1.0 ); }
    c.insert( 0, n ); double got = dsp::biquad_cascade::step( c, 1.0 ), want = b.step( a.step( n.step( 1.0 ) ) );
    if ( got != want ) { std::printf( "%g instead of %g\\n", got, want ); return 1; }
}
'''
