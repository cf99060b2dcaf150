property='F05'
needs='an exchange of two running sections that have equal coefficients but different histories'
breaks='swap does nothing when the coefficients are equal, so the running state is not exchanged'
edits=[('include/dsp/biquad.hpp','''        swap( a, other.a );
        swap( b, other.b );''','''        if (   a.a1 == other.a.a1 && a.a2 == other.a.a2
            && b.b0 == other.b.b0 && b.b1 == other.b.b1 && b.b2 == other.b.b2 )
            return;

        swap( a, other.a );
        swap( b, other.b );''')]
demo='''#include "dsp/biquad.hpp"
#include <cstdio>
int main()
{
    dsp::BiQuadT<double> a( { 1.0, 2.0, 1.0 }, { -0.5, 0.25 } ), b( a ); a.step( 5.0 ); b.step( -1.0 ); auto c = a, d = b; a.swap( b );
    for ( int i = 0; i < 3; ++i ) if ( a.step( 1.0 ) != d.step( 1.0 ) || b.step( 1.0 ) != c.step( 1.0 ) ) { std::puts( "state not exchanged" ); return 1; }
}
'''
