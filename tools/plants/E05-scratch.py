property='E05'
needs='an interrupt or task switch between the two halves of a section step, with another section stepped meanwhile'
breaks='the sections share one scratch variable during a step'
edits=[('include/dsp/biquad.hpp','        const auto y = b.b0 * x + w.v1;\n\n        w.v1 = b.b1 * x - a.a1 * y + w.v2;','        static value_type y;\n        y = b.b0 * x + w.v1;\n\n        w.v1 = b.b1 * x - a.a1 * y + w.v2;')]
demo='''#include "dsp/biquad.hpp"
#include <cstdio>
// a number type whose arithmetic can be "interrupted"
static void (*isr)() = nullptr; static int countdown = -1;
static void tick() { if ( countdown >= 0 && countdown-- == 0 ) isr(); }
struct N { double v; constexpr N( double x = 0 ) : v( x ) {} };
N operator+( N a, N b ) { tick(); return a.v + b.v; } N operator-( N a, N b ) { tick(); return a.v - b.v; } N operator*( N a, N b ) { tick(); return a.v * b.v; }
N operator-( N a ) { return -a.v; } N operator/( N a, N b ) { return a.v / b.v; } bool operator<( N a, N b ) { return a.v < b.v; } N & operator+=( N & a, N b ) { return a = a + b; } N & operator-=( N & a, N b ) { return a = a - b; } N & operator*=( N & a, N b ) { return a = a * b; }
using Bq = dsp::BiQuadT<N>; static Bq * other;
int main()
{
    for ( int at = 0; at < 12; ++at )
    {
        Bq a( { N( 1 ), N( 2 ), N( 1 ) }, { N( -0.5 ), N( 0.25 ) } ), r( a ), o( { N( 3 ), N( 1 ), N( 7 ) }, { N( 0.5 ), N( 0.125 ) } ); other = &o;
        for ( int i = 0; i < 4; ++i )
        {
            isr = nullptr; countdown = -1; N want = r.step_df2_transposed( N( i + 1 ) );
            isr = []{ other->step_df2_transposed( N( 100 ) ); }; countdown = at; N got = a.step_df2_transposed( N( i + 1 ) ); countdown = -1;
            if ( got.v != want.v ) { std::printf( "preempted at operation %d: %g instead of %g\\n", at, got.v, want.v ); return 1; }
        }
    }
}
'''
