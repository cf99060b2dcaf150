// E08: programs of matrix and vector operations compute what the algebra says, at every step.
#define DST_COPY_POINTS
#include <optional>
#define DST_CORO_IMPL
#include "../engine/dst.hpp"
#include "../engine/num.hpp"
#include "num/matrix.hpp"
using namespace dst; using num::inverted;

// the model's numbers: no schedule points, plain arrays
struct Fp { u64 v = 0; Fp() = default; Fp( long long k ) { k %= (long long) GF::P; v = k < 0 ? k + GF::P : k; } friend Fp operator+( Fp a, Fp b ) { Fp r; r.v = ( a.v + b.v ) % GF::P; return r; } friend Fp operator-( Fp a, Fp b ) { Fp r; r.v = ( a.v + GF::P - b.v ) % GF::P; return r; } friend Fp operator*( Fp a, Fp b ) { Fp r; r.v = a.v * b.v % GF::P; return r; } friend bool operator==( Fp a, Fp b ) { return a.v == b.v; } };
template< typename T > struct Model;
template<> struct Model<GF> { using type = Fp; static constexpr bool exact = true; static GF make( Fp x ) { GF r = GF::raw( x.v ); return r; } static bool same( GF const & a, Fp b ) { return a.v == b.v; } static double show( Fp b ) { return b.v; } static double show( GF const & a ) { return a.v; } };
template< typename F > struct Model<Pt<F>> { using type = double; static constexpr bool exact = false; static Pt<F> make( double x ) { return Pt<F>( x ); } static bool same( Pt<F> const & a, double b ) { return a.v == b; } static double show( double b ) { return b; } static double show( Pt<F> const & a ) { return a.v; } };

template< typename V > struct Tab { int r, c; std::vector<V> e; Tab( int r, int c ) : r( r ), c( c ), e( r * c ) {} V & at( int y, int x ) { return e[ y * c + x ]; } V at( int y, int x ) const { return e[ y * c + x ]; } };
template< typename V > Tab<V> mul( Tab<V> const & a, Tab<V> const & b ) { Tab<V> r( a.r, b.c ); for ( int y = 0; y < a.r; ++y ) for ( int x = 0; x < b.c; ++x ) { V s( 0 ); for ( int k = 0; k < a.c; ++k ) s = s + a.at( y, k ) * b.at( k, x ); r.at( y, x ) = s; } return r; }
template< typename V, typename F > Tab<V> each( Tab<V> const & a, F f ) { Tab<V> r( a.r, a.c ); for ( size_t i = 0; i < a.e.size(); ++i ) r.e[i] = f( a.e[i], i ); return r; }

// One task: its own registers (matrices, vectors, 1x1 matrices, rectangles, numbers), a program drawn beforehand, and the model of them all.
template< typename T, int N > struct Machine
{
    using M = Model<T>; using V = typename M::type; using TV = Tab<V>;
    num::matrix<T,N,N> A[5]; num::colvec<T,N> c[4]; num::rowvec<T,N> r[4]; num::matrix<T,1,1> s[3]; num::matrix<T,N,N+1> q[3]; T v[4];
    std::vector<TV> mA, mc, mr, ms, mq; V mv[4];
    struct Step { int op, i, j, k, x; std::vector<long long> in; };
    std::vector<Step> prog; Ctx & cx; int id; int pc = 0; bool dead = false;
    Machine( Ctx & c_, int id ) : mA( 5, TV( N, N ) ), mc( 4, TV( N, 1 ) ), mr( 4, TV( 1, N ) ), ms( 3, TV( 1, 1 ) ), mq( 3, TV( N, N + 1 ) ), cx( c_ ), id( id )
    { for ( auto & m : A ) m = num::matrix<T,N,N>( T( 0 ) ); for ( auto & m : c ) m = num::colvec<T,N>( T( 0 ) ); for ( auto & m : r ) m = num::rowvec<T,N>( T( 0 ) ); for ( auto & m : s ) m = num::matrix<T,1,1>( T( 0 ) ); for ( auto & m : q ) m = num::matrix<T,N,N+1>( T( 0 ) ); for ( int i = 0; i < 4; ++i ) { v[i] = T( 0 ); mv[i] = V( 0 ); } }

    long long number() { if ( M::exact ) { switch ( cx.draw( 6 ) ) { case 0: return 0; case 1: return 1; case 2: return (long long) GF::P - 1; default: return cx.draw( GF::P ); } } long long k = cx.logu( 1000 ); return cx.draw( 2 ) ? -k : k; }
    int op() const { return pc < (int) prog.size() ? prog[pc].op : -1; }
    void draw( int n ) { for ( int t = 0; t < n; ++t ) { Step p; p.op = cx.draw( 52 ); if ( t < 4 || cx.chance( 1, 5 ) ) p.op = 100 + cx.draw( 6 ); p.i = cx.draw( 60 ); p.j = cx.draw( 60 ); p.k = cx.draw( 60 ); p.x = cx.draw( 24 ); int in = p.op >= 100 || p.op >= 40 ? N * ( N + 1 ) : 1; for ( int z = 0; z < in; ++z ) p.in.push_back( number() ); prog.push_back( p ); } }
    template< typename X > void cmp( X const & m, TV const & t, char const * what, int i, bool all )
    {
        if ( m.rows() != t.r || m.columns() != t.c || m.size() != t.r * t.c || m.end() - m.begin() != t.r * t.c ) cx.fail( "wrong shape", "task %d step %d: %s%d has %d rows and %d columns", id, pc, what, i, m.rows(), m.columns() );
        for ( int y = 0; y < t.r; ++y ) for ( int x = 0; x < t.c; ++x ) { auto const * p = m.begin() + y * t.c + x; if ( !M::same( *p, t.at( y, x ) ) ) cx.fail( all ? "other value changed" : "wrong value", "task %d step %d (operation %d): element (%d,%d) of %s%d is %.17g instead of %.17g", id, pc, op(), y, x, what, i, M::show( *p ), M::show( t.at( y, x ) ) ); if ( !M::same( m( y, x ), t.at( y, x ) ) || !M::same( m.at( y, x ), t.at( y, x ) ) || !M::same( m( y * t.c + x ), t.at( y, x ) ) || !M::same( m.at( y * t.c + x ), t.at( y, x ) ) || !M::same( m[ y * t.c + x ], t.at( y, x ) ) ) cx.fail( "wrong access", "task %d step %d: element (%d,%d) of %s%d reads differently through another accessor", id, pc, y, x, what, i ); }
    }
    void all( bool check = true ) { if ( dead ) return; for ( int i = 0; i < 5; ++i ) cmp( A[i], mA[i], "A", i, check ); for ( int i = 0; i < 4; ++i ) cmp( c[i], mc[i], "c", i, check ); for ( int i = 0; i < 4; ++i ) cmp( r[i], mr[i], "r", i, check ); for ( int i = 0; i < 3; ++i ) cmp( s[i], ms[i], "s", i, check ); for ( int i = 0; i < 3; ++i ) cmp( q[i], mq[i], "q", i, check ); for ( int i = 0; i < 4; ++i ) if ( !M::same( v[i], mv[i] ) ) cx.fail( check ? "other value changed" : "wrong value", "task %d step %d (operation %d): number v%d is %.17g instead of %.17g", id, pc, op(), i, M::show( v[i] ), M::show( mv[i] ) ); }
    // real numbers stay small integers, so that every result is exact: what grew too large is loaded afresh
    template< typename X > void tame( X & m, TV & t ) { if constexpr ( !M::exact ) { bool big = false; for ( auto e : t.e ) big |= !( std::fabs( e ) < 30000 ); if ( big ) { int n = 0; for ( auto & e : t.e ) { e = ( ++n * 7 % 11 ) - 5; *( m.begin() + ( n - 1 ) ) = M::make( e ); } } } }
    void tame( T & x, V & t ) { if constexpr ( !M::exact ) if ( !( std::fabs( t ) < 30000 ) ) { t = 3; x = M::make( 3 ); } }
    template< typename X > void write( X & m, TV & t, Step const & p )
    {
        int y = p.j % t.r, x = p.k % t.c, f = y * t.c + x; V w( p.in[0] ); T n = M::make( w ); t.at( y, x ) = w;
        switch ( p.x % 7 ) { case 0: m( y, x ) = n; break; case 1: m.at( y, x ) = n; break; case 2: m( f ) = n; break; case 3: m.at( f ) = n; break; case 4: m[ f ] = n; break; case 5: *( m.begin() + f ) = n; break; default: m.end()[ f - t.r * t.c ] = n; }
    }
    template< typename X > void load( X & m, TV & t, Step const & p ) { for ( int z = 0; z < t.r * t.c; ++z ) { t.e[z] = V( p.in[z] ); m.at( z ) = M::make( t.e[z] ); } }
    template< typename X > void copies( X * m, std::vector<TV> & t, int n, Step const & p )
    {
        int a = p.i % n, b = p.j % n;
        switch ( p.x % 5 )
        {
            case 0: m[a] = m[b]; t[a] = t[b]; break;
            case 1: { X tmp( m[b] ); m[a] = std::move( tmp ); t[a] = t[b]; break; }
            case 2: { X tmp( m[a] ); m[a] = m[b]; m[b] = tmp; std::swap( t[a], t[b] ); break; }
            case 3: { X tmp( M::make( V( p.in[0] ) ) ); m[a] = tmp; for ( auto & e : t[a].e ) e = V( p.in[0] ); break; }
            default: { T sum( 0 ); V ws( 0 ); for ( auto const & e : m[b] ) sum += e; for ( auto e : t[b].e ) ws = ws + e; v[p.k % 4] = sum; mv[p.k % 4] = ws; for ( auto & e : m[a] ) e = M::make( V( p.in[0] ) ); for ( auto & e : t[a].e ) e = V( p.in[0] ); }
        }
    }
    void step( Step const & p )
    {
        int i = p.i % 4, j = p.j % 5, k = p.k % 5, vi = p.i % 4, vj = p.j % 4, vk = p.k % 4, si = p.i % 3, sj = p.j % 3, sk = p.k % 3; V w = mv[vk]; V sv = ms[sk].e[0];
        auto plus = []( V a, V b ) { return a + b; };
        switch ( p.op )
        {
            case 0: A[i] = A[j] + A[k]; mA[i] = each( mA[j], [&, z = mA[k]]( V a, int n ) { return a + z.e[n]; } ); break;
            case 1: A[i] = A[j] - A[k]; mA[i] = each( mA[j], [&, z = mA[k]]( V a, int n ) { return a - z.e[n]; } ); break;
            case 2: case 3: case 4: A[i] = A[j] * A[k]; mA[i] = mul( mA[j], mA[k] ); break;
            case 5: A[i] = A[j] * v[vk]; mA[i] = each( mA[j], [&]( V a, int ) { return a * w; } ); break;
            case 6: A[i] = v[vk] * A[j]; mA[i] = each( mA[j], [&]( V a, int ) { return a * w; } ); break;
            case 7: A[i] = A[j] + v[vk]; mA[i] = each( mA[j], [&]( V a, int ) { return a + w; } ); break;
            case 8: A[i] = v[vk] + A[j]; mA[i] = each( mA[j], [&]( V a, int ) { return a + w; } ); break;
            case 9: A[i] = A[j] - v[vk]; mA[i] = each( mA[j], [&]( V a, int ) { return a - w; } ); break;
            case 10: A[i] = A[j] * s[sk]; mA[i] = each( mA[j], [&]( V a, int ) { return a * sv; } ); break;
            case 11: A[i] = s[sk] * A[j]; mA[i] = each( mA[j], [&]( V a, int ) { return a * sv; } ); break;
            case 12: A[i] = A[j] + s[sk]; mA[i] = each( mA[j], [&]( V a, int ) { return a + sv; } ); break;
            case 13: A[i] = s[sk] + A[j]; mA[i] = each( mA[j], [&]( V a, int ) { return a + sv; } ); break;
            case 14: case 15: c[vi] = A[j] * c[vk]; mc[vi] = mul( mA[j], mc[vk] ); break;
            case 16: case 17: r[vi] = r[vk] * A[j]; mr[vi] = mul( mr[vk], mA[j] ); break;
            case 18: v[vi] = r[vj] * c[vk]; mv[vi] = mul( mr[vj], mc[vk] ).e[0]; break;
            case 19: A[i] = c[vj] * r[vk]; mA[i] = mul( mc[vj], mr[vk] ); break;
            case 20: c[vi] = transposed( r[vj] ); mc[vi].e = mr[vj].e; break;
            case 21: r[vi] = transposed( c[vj] ); mr[vi].e = mc[vj].e; break;
            case 22: if constexpr ( N == 2 ) { A[i] = transposed( A[j] ); TV z = mA[j]; for ( int y = 0; y < N; ++y ) for ( int x = 0; x < N; ++x ) mA[i].at( y, x ) = z.at( x, y ); } break;
            case 23: if constexpr ( N == 2 )
            {   // the inverse of a symmetric invertible matrix, times that matrix, is the identity
                A[i] = A[j]; A[i]( 1, 0 ) = A[i]( 0, 1 ); mA[i] = mA[j]; mA[i].at( 1, 0 ) = mA[i].at( 0, 1 ); TV & z = mA[i]; V det = z.e[0] * z.e[3] - z.e[1] * z.e[1]; if ( det == V( 0 ) ) break;
                auto inv = inverted( A[i] ); auto one = A[i] * inv, two = inv * A[i];
                for ( int y = 0; y < 2; ++y ) for ( int x = 0; x < 2; ++x ) for ( auto * o : { &one, &two } )
                {
                    bool good; if constexpr ( M::exact ) good = ( *o->begin(), ( o->begin() + y * 2 + x )->v == ( y == x ) ); else { double big = 0; for ( double e : z.e ) big = std::max( big, std::fabs( e ) ); good = std::fabs( ( o->begin() + y * 2 + x )->v - ( y == x ) ) <= 64 * 2.3e-16 * ( 1 + big * big * 2 / std::fabs( det ) ); }
                    if ( !good ) cx.fail( "wrong inverse", "task %d step %d: A%d times its inverse has element (%d,%d) %.17g", id, pc, i, y, x, M::show( *( o->begin() + y * 2 + x ) ) );
                }
                if constexpr ( M::exact ) { A[i] = inv; u64 d = GF::inv( det.v ); V f; f.v = d; TV o = z; z.e[0] = f * o.e[3]; z.e[1] = z.e[2] = V( 0 ) - f * o.e[1]; z.e[3] = f * o.e[0]; }
            } break;
            case 24: { T n = inverted( v[vj] ); bool good; if constexpr ( M::exact ) good = ( n * v[vj] ).v == ( mv[vj].v != 0 ) && ( mv[vj].v || !n.v ); else good = mv[vj] == 0 ? n.v == 0 : std::fabs( n.v * mv[vj] - 1 ) <= 4.5e-16; if ( !good ) cx.fail( "wrong inverse", "task %d step %d: the inverse of %.17g is %.17g", id, pc, M::show( mv[vj] ), M::show( n ) ); break; }
            case 25: v[vi] = s[sj] + v[vk]; mv[vi] = ms[sj].e[0] + w; break;
            case 26: v[vi] = v[vk] + s[sj]; mv[vi] = ms[sj].e[0] + w; break;
            case 27: v[vi] = s[sj] - v[vk]; mv[vi] = ms[sj].e[0] - w; break;
            case 28: v[vi] = v[vk] - s[sj]; mv[vi] = w - ms[sj].e[0]; break;
            case 29: v[vi] = s[sj] * v[vk]; mv[vi] = ms[sj].e[0] * w; break;
            case 30: v[vi] = v[vk] * s[sj]; mv[vi] = ms[sj].e[0] * w; break;
            case 31: s[si] = s[sj] * s[sk]; ms[si].e[0] = ms[sj].e[0] * sv; break;
            case 32: c[vi] = c[vj] + c[vk]; mc[vi] = each( mc[vj], [&, z = mc[vk]]( V a, int n ) { return a + z.e[n]; } ); break;
            case 33: c[vi] = c[vj] - c[vk]; mc[vi] = each( mc[vj], [&, z = mc[vk]]( V a, int n ) { return a - z.e[n]; } ); break;
            case 34: c[vi] = c[vj] * v[vk]; mc[vi] = each( mc[vj], [&]( V a, int ) { return a * w; } ); break;
            case 35: r[vi] = v[vk] * r[vj]; mr[vi] = each( mr[vj], [&]( V a, int ) { return a * w; } ); break;
            case 36: r[vi] = r[vj] - r[vk]; mr[vi] = each( mr[vj], [&, z = mr[vk]]( V a, int n ) { return a - z.e[n]; } ); break;
            case 37: q[si] = q[sj] + q[sk]; mq[si] = each( mq[sj], [&, z = mq[sk]]( V a, int n ) { return a + z.e[n]; } ); break;
            case 38: q[si] = q[sj] - q[sk]; mq[si] = each( mq[sj], [&, z = mq[sk]]( V a, int n ) { return a - z.e[n]; } ); break;
            case 39: switch ( p.x % 4 ) { case 0: q[si] = q[sj] * v[vk]; mq[si] = each( mq[sj], [&]( V a, int ) { return a * w; } ); break; case 1: q[si] = q[sj] - v[vk]; mq[si] = each( mq[sj], [&]( V a, int ) { return a - w; } ); break; case 2: q[si] = v[vk] + q[sj]; mq[si] = each( mq[sj], [&]( V a, int ) { return a + w; } ); break; default: q[si] = q[sj] * s[sk]; mq[si] = each( mq[sj], [&]( V a, int ) { return a * sv; } ); } break;
            case 40: A[i] = num::eye<T,N>(); mA[i] = each( mA[i], [&]( V, int n ) { return V( n / N == n % N ); } ); break;
            case 41: { T l[6]; for ( int z = 0; z < 6; ++z ) l[z] = M::make( V( p.in[z] ) ); c[vi] = num::colvec<T,N>{ l[0], l[1] }; for ( int z = 0; z < N; ++z ) mc[vi].e[z] = z < 2 ? V( p.in[z] ) : V( 0 ); if ( N > 2 ) for ( int z = 2; z < N; ++z ) { c[vi]( z ) = l[z]; mc[vi].e[z] = V( p.in[z] ); } break; }
            case 42: if constexpr ( N == 2 ) { A[i] = num::matrix<T,2,2>{ M::make( V( p.in[0] ) ), M::make( V( p.in[1] ) ), M::make( V( p.in[2] ) ), M::make( V( p.in[3] ) ) }; for ( int z = 0; z < 4; ++z ) mA[i].e[z] = V( p.in[z] ); } break;
            case 43: copies( A, mA, 4, p ); break; case 44: copies( c, mc, 4, p ); break; case 45: copies( r, mr, 4, p ); break; case 46: copies( s, ms, 3, p ); break; case 47: copies( q, mq, 3, p ); break;
            // expressions whose operands are results of others
            case 48: A[i] = A[j] * A[k] * v[vk] + A[i]; mA[i] = each( mul( mA[j], mA[k] ), [&, z = mA[i]]( V a, int n ) { return a * w + z.e[n]; } ); break;
            case 49: c[vi] = c[vi] + A[j] * ( c[vk] - c[vj] ); mc[vi] = each( mul( mA[j], each( mc[vk], [&, z = mc[vj]]( V a, int n ) { return a - z.e[n]; } ) ), [&, z = mc[vi]]( V a, int n ) { return z.e[n] + a; } ); break;
            case 50: v[vi] = r[vj] * ( A[j] * c[vk] ); mv[vi] = mul( mr[vj], mul( mA[j], mc[vk] ) ).e[0]; break;
            case 51: A[i] = num::eye<T,N>() - c[vj] * r[vk]; mA[i] = each( mul( mc[vj], mr[vk] ), [&]( V a, int n ) { return V( n / N == n % N ) - a; } ); break;
            case 100: p.x % 2 ? write( A[i], mA[i], p ) : load( A[i], mA[i], p ); break; case 101: p.x % 2 ? write( c[vi], mc[vi], p ) : load( c[vi], mc[vi], p ); break; case 102: p.x % 2 ? write( r[vi], mr[vi], p ) : load( r[vi], mr[vi], p ); break;
            case 103: write( s[si], ms[si], p ); break; case 104: p.x % 2 ? write( q[si], mq[si], p ) : load( q[si], mq[si], p ); break; default: mv[vi] = V( p.in[0] ); v[vi] = M::make( mv[vi] );
        }
        (void) plus; (void) i; (void) k;
    }
    void run()
    {
        for ( pc = 0; pc < (int) prog.size() && !dead; ++pc )
        {
            sched_point(); step( prog[pc] ); all();
            for ( int i = 0; i < 4; ++i ) { tame( A[i], mA[i] ); tame( c[i], mc[i] ); tame( r[i], mr[i] ); tame( v[i], mv[i] ); if ( i < 3 ) { tame( s[i], ms[i] ); tame( q[i], mq[i] ); } }
        }
    }
};
template< typename T, int N > void program( Ctx & c )
{
    reset_points(); int n = 1 + c.draw( 3 ); std::vector<std::unique_ptr<Machine<T,N>>> m;
    for ( int t = 0; t < n; ++t ) { m.push_back( std::make_unique<Machine<T,N>>( c, t ) ); m[t]->draw( 2 + c.logu( 30 ) ); c.step( m[t]->prog.size() ); for ( auto & p : m[t]->prog ) { c.cover( p.op ); c.h( (u64)( p.op * 64 + p.i ) * 4096 + p.j * 64 + p.k ); } }
    {
        Sched s( c ); for ( int t = 0; t < n; ++t ) s.spawn( [&, t] { m[t]->run(); } );
        int kills = n > 1 && c.chance( 1, 4 ) ? 1 : 0; std::vector<bool> dead( n );
        s.run( c.draw( 2 ) ? 16 : 400, [&]( Sched & q ) { if ( kills && c.chance( 1, 12 ) ) { int t = c.draw( n ); if ( q.started( t ) && !q.finished( t ) ) { q.kill( t ); --kills; dead[t] = true; c.fault( "task killed inside an operation" ); } } } );
        if ( s.switches > 1 ) c.fault( "preemption", s.switches - 1 ); for ( int t = 0; t < n; ++t ) if ( !dead[t] ) { m[t]->all(); }
        for ( auto & p : m ) p->dead = true; // what was killed unwinds without further steps
        points().sched = nullptr; if ( s.switches > 1 || c.steps > 4 ) c.nontrivial = true;
    }
    reset_points();
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "E08";
    ck.rule = "A run draws one to three tasks, each with registers of its own (square matrices, column and row vectors, 1x1 matrices, rectangles, numbers) and a program of drawn operations on them - sums, differences, products, operations with numbers and 1x1 matrices, transposes, inverses, copies, element writes through every accessor, compound expressions, operands aliased at will - and runs them switched at drawn arithmetic operations, copies and assignments, some killed there. After every operation every register must hold exactly what a plain-array model holds. Non-trivial: a switch or more than four steps; distinct by programs and schedule.";
    ck.distinct_measure = "hash of the programs and the schedule";
    ck.real = { "num::matrix with its operators, transposed, inverted and eye from /repo/include/num/matrix.hpp" }; ck.stub = { "task scheduler (simulated); number types (a prime field, and doubles holding integers) that mark the points where tasks switch" };
    ck.assumptions = { "shapes the library supports: square 2x2 to 4x4, vectors of those sizes, 1x1, and rectangles for element-wise operations", "inverse: of a symmetric matrix, as the library uses it (for others it gives the transpose of the inverse, which a unit test fixes)" };
#if USE_GF
    ck.scenarios.push_back( { "field2", 120000, 5000000, program<GF,2> } ); ck.scenarios.push_back( { "field3", 60000, 2500000, program<GF,3> } ); ck.scenarios.push_back( { "field4", 30000, 1200000, program<GF,4> } );
#endif
    ck.scenarios.push_back( { "double2", 60000, 2500000, program<Pt<double>,2> } ); ck.scenarios.push_back( { "double3", 30000, 1200000, program<Pt<double>,3> } );
    return dst_main( argc, argv, ck );
}
