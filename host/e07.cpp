// Check E07: updates and steps take bounded time and stack and never allocate, whatever values and history they meet.
#define DST_CORO_IMPL
#include <cassert>
#include "../engine/num.hpp"
#include "../avr/board.hpp"
#include "../fw/jobs.hpp"
#undef J
#undef K
#include "dsp/biquad-cascade.hpp"
#include <limits>
using namespace dst; using avr::u8; using avr::u16; using avr::u32; using avr::u64;

// ---- allocation seam: every allocation of the process passes here
static bool forbidden = false; static u64 allocations = 0;
extern "C" void * __libc_malloc( size_t ); extern "C" void * __libc_calloc( size_t, size_t ); extern "C" void * __libc_realloc( void *, size_t );
// while an operation runs, memory has run out
extern "C" void * malloc( size_t n ) { if ( forbidden ) { ++allocations; errno = ENOMEM; return nullptr; } return __libc_malloc( n ); }
extern "C" void * calloc( size_t n, size_t m ) { if ( forbidden ) { ++allocations; errno = ENOMEM; return nullptr; } return __libc_calloc( n, m ); }
extern "C" void * realloc( void * p, size_t n ) { if ( forbidden ) { ++allocations; errno = ENOMEM; return nullptr; } return __libc_realloc( p, n ); }

static float fl( u32 u ) { float f; memcpy( &f, &u, 4 ); return f; }
static u32 bits( float f ) { u32 u; memcpy( &u, &f, 4 ); return u; }
static char const * names[] = { "estimator (float, 1 measurement)", "estimator (float, 2 measurements)", "estimator (fixed 32)", "cascade (float)", "cascade (fixed 32)", "cascade (fixed 16)", "one-pole (float)", "one-pole (fixed 16)", "fixed-point arithmetic 8", "fixed-point arithmetic 16", "fixed-point arithmetic 32", "matrices (float)", "matrices (fixed 32)", "estimator (fixed 32, 2 measurements)" };

// An object on the target: gives its next operation. `d` makes the decisions, `bad` gives it hostile values.
struct Gen
{
    std::function<u64( u64 )> d; bool bad = false; int type = 0, count = 0; bool updated = false; std::vector<u8> v; double hold = 1; char const * fault = nullptr;
    int width() const { switch ( type ) { case j_fixed8: return 1; case j_cascade_x16: case j_pole_x16: case j_fixed16: return 2; default: return 4; } }
    bool real() const { return type == j_kalman_f1 || type == j_kalman_f2 || type == j_cascade_f || type == j_pole_f || type == j_matrix_f; }
    bool estimator() const { return type == j_kalman_f1 || type == j_kalman_f2 || type == j_kalman_x1 || type == j_kalman_x2; }
    int meas() const { return type == j_kalman_f2 || type == j_kalman_x2 ? 2 : 1; }
    double num( double lo, double hi ) { return lo + ( hi - lo ) * ( d( 65536 ) / 65535.0 ); }
    void val( double x ) { if ( real() ) avr::put( v, bits( (float) x ), 4 ); else { int f = width() == 4 ? 16 : width() == 2 ? 12 : 4; avr::put( v, (u64)(long long) std::llround( std::ldexp( x, f ) ), width() ); } }
    void raw( u64 x ) { avr::put( v, x, width() ); }
    void section() { val( num( 0.02, 0.085 ) ); val( num( -0.08, 0.08 ) ); val( num( -0.08, 0.08 ) ); val( num( -0.4, 0.4 ) ); val( num( -0.35, 0.35 ) ); }
    void create( int t )
    {
        type = t; v = { 255, (u8) t }; updated = false; fault = nullptr;
        switch ( type )
        {
            case j_kalman_f1: case j_kalman_f2: case j_kalman_x1: case j_kalman_x2:
            {
                double dt = num( 0.05, 0.5 ); val( dt ); val( num( 0.5, 0.95 ) ); val( dt ); val( num( -0.2, 0.2 ) ); val( num( 0.5, 0.95 ) ); val( num( -0.5, 0.5 ) ); val( num( -0.5, 0.5 ) );
                bool two = meas() == 2; val( num( 0.5, 1.5 ) ); val( num( -0.5, 0.5 ) ); if ( two ) { val( num( -0.3, 0.3 ) ); val( num( 0.8, 1.5 ) ); }
                { double x = num( -0.008, 0.008 ); val( num( 0.01, 0.1 ) ); val( x ); val( x ); val( num( 0.01, 0.1 ) ); }
                { double x = num( -0.2, 0.2 ); val( num( 0.5, 2 ) ); if ( two ) { val( x ); val( x ); val( num( 0.5, 2 ) ); } }
                { double x = num( -0.3, 0.3 ); val( num( 0.4, 4 ) ); val( x ); val( x ); val( num( 0.4, 4 ) ); }
                val( num( -5, 5 ) ); val( num( -5, 5 ) ); break;
            }
            case j_cascade_f: case j_cascade_x32: case j_cascade_x16: count = d( 3 ); v.push_back( count ); for ( int i = 0; i < count; ++i ) section(); break;
            case j_pole_f: case j_pole_x16: for ( int i = 0; i < 2; ++i ) { val( num( 0.02, 0.1 ) ); val( num( -0.9, 0.9 ) ); } break;
            case j_fixed8: case j_fixed16: case j_fixed32: val( num( -7, 7 ) ); break;
            case j_matrix_f: case j_matrix_x: val( num( 2, 4 ) ); val( num( -1, 1 ) ); val( num( -1, 1 ) ); val( num( 2, 4 ) ); for ( int i = 0; i < 4; ++i ) val( num( -3, 3 ) ); break;
        }
    }
    // a value read from a sensor
    void reading( double amp )
    {
        if ( !bad ) { if ( d( 8 ) ) hold = num( -1, 1 ); val( hold * amp ); return; }
        u64 k = d( 12 );
        if ( real() ) switch ( k )
        {
            case 0: fault = "NaN reading"; raw( 0x7fc00000 ); return;
            case 1: fault = "infinite reading"; raw( d( 2 ) ? 0x7f800000 : 0xff800000 ); return;
            case 2: fault = "overflowing reading"; raw( d( 2 ) ? 0x7f7fffff : 0xff7fffff ); return;
            case 3: fault = "denormal reading"; raw( 1 + d( 1000 ) ); return;
            case 4: fault = "reading of any bits"; raw( d( 1ull << 32 ) ); return;
            case 5: fault = "huge reading"; val( num( -1, 1 ) * std::pow( 10, (double) d( 30 ) ) ); return;
            case 6: fault = "tiny reading"; val( num( -1, 1 ) * std::pow( 10, -(double) d( 38 ) ) ); return;
        }
        else if ( !estimator() ) switch ( k )
        {
            case 0: fault = "extreme reading"; raw( 1ull << ( width() * 8 - 1 ) ); return;
            case 1: fault = "extreme reading"; raw( ( 1ull << ( width() * 8 - 1 ) ) - 1 ); return;
            case 2: case 3: fault = "reading of any bits"; raw( d( 1ull << ( width() * 8 ) ) ); return;
        }
        switch ( k ) { case 7: case 8: fault = "stuck reading"; val( hold * amp ); return; case 9: fault = "lost reading"; val( 0 ); return; case 10: fault = "spike"; val( d( 2 ) ? amp : -amp ); return; default: hold = num( -1, 1 ); val( hold * amp ); }
    }
    void next()
    {
        v.clear(); fault = nullptr;
        if ( estimator() ) { if ( d( 6 ) == 5 && updated ) v = { 1 }; else { updated = true; v = { 0 }; val( num( -1, 1 ) ); for ( int i = 0; i < meas(); ++i ) reading( 8 ); } return; }
        switch ( type )
        {
            case j_cascade_f: case j_cascade_x32: case j_cascade_x16:
                switch ( d( 24 ) )
                {
                    case 8: case 15: if ( count < 3 ) { v = { 3 }; section(); ++count; return; } break;
                    case 9: if ( count ) { v = { 4, (u8) d( count ) }; --count; return; } break;
                    case 10: if ( count && count < 3 ) { v = { 5, (u8) d( count ) }; section(); ++count; return; } break;
                    case 11: if ( count ) { v = { 6, (u8) d( count ) }; section(); return; } break;
                    case 12: if ( !d( 6 ) ) { v = { 7 }; count = 0; return; } break;
                    case 13: v = { 8 }; return; case 14: v = { 9 }; return; case 7: if ( count > 1 ) { v = { 10, (u8) d( count ), (u8) d( count ) }; return; } break;
                }
                v = { (u8) d( 3 ) }; reading( type == j_cascade_f ? 100 : 1 ); break;
            case j_pole_f: case j_pole_x16: { static int const k[] = { 0, 0, 0, 1, 1, 5, 2, 3, 4 }; int op = k[d( 9 )]; v = { (u8) op }; if ( op == 0 || op == 1 || op == 5 ) reading( 4 ); break; }
            case j_fixed8: case j_fixed16: case j_fixed32:
            {
                static int const k[] = { 0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11 }; int op = k[d( 11 )]; v = { (u8) op };
                if ( op == 3 && bad && d( 2 ) ) { fault = "tiny divisor"; raw( d( 4 ) ? 1 + d( 9 ) : 1 + d( ( 1ull << ( width() * 8 ) ) - 1 ) ); } else if ( op == 3 ) { double x = num( 0.5, 4 ); val( d( 2 ) ? x : -x ); } else if ( op <= 4 || op == 9 ) reading( 4 ); else if ( op == 6 ) v.push_back( d( 8 ) ); break;
            }
            case j_matrix_f: case j_matrix_x:
            {
                int op = d( 11 ); if ( op == 9 ) op = 5; v = { (u8) op }; if ( type == j_matrix_x && ( op == 4 || op == 10 ) ) { v = { 0 }; break; }       // no division by zero in fixed point
                if ( op == 6 || op == 8 ) { reading( 3 ); if ( op == 8 ) reading( 3 ); } else if ( op == 7 ) for ( int i = 0; i < 4; ++i ) reading( 3 ); else if ( op == 10 ) reading( 4 ); break;
            }
        }
    }
    int key() const { return ( type * 12 + ( v[0] == 255 ? 11 : v[0] ) ) * 4 + ( type == j_cascade_f || type == j_cascade_x32 || type == j_cascade_x16 ? count : 0 ); }
};
struct Cost { u64 insns = 0, cyc = 0, stack = 0; };
static Cost measure( avr::Board & b, std::vector<u8> const & v, u64 cap )
{
    std::vector<u8> w{ 0 }; w.insert( w.end(), v.begin(), v.end() ); u16 top = b.c.sp(); b.c.sp_min = top; u64 i = b.c.insns, t = b.c.cyc;
    b.op( w, cap ); return { b.c.insns - i, b.c.cyc - t, (u64)( top - b.c.sp_min ) };
}
// what ordinary operations cost in this firmware
static std::map<int,Cost> const & ordinary( int fw )
{
    static std::map<int,Cost> m[4]; auto & r = m[fw]; if ( !r.empty() ) return r;
    u64 s = 12345; avr::Board b( fw ); b.boot(); Gen g; g.d = [&]( u64 n ) { s = mix64( s ); return s % n; };
    for ( int t = 0; t < j_types; ++t ) for ( int k = 0; k < 600; ++k )
    {
        if ( k % 60 == 0 ) g.create( t ); else g.next();
        Cost x = measure( b, g.v, 20000000 ); auto & o = r[g.key()]; o.cyc = std::max( o.cyc, x.cyc ); o.stack = std::max( o.stack, x.stack ); o.insns += 1;
    }
    return r;
}
static void target( Ctx & c )
{
    int fw = c.draw( avr::firmwares() ); auto & base = ordinary( fw ); avr::Board b( fw ); b.boot(); Gen g; g.d = [&]( u64 n ) { return c.draw( n ); };
    int n = 20 + c.logu( c.chance( 1, 40 ) ? 3000 : 150 ); int calm = c.draw( 3 ) ? 0 : n / 2; g.create( c.draw( j_types ) ); Cost seen;
    for ( int i = 0; i < n; ++i )
    {
        c.step(); if ( i ) { g.bad = i >= calm; if ( c.draw( 100 ) == 99 ) g.create( g.type ); else g.next(); } if ( g.fault ) c.fault( g.fault ); if ( i > 500 ) c.probe( "history longer than 500 operations" );
        auto it = base.find( g.key() ); if ( it == base.end() ) { b.op( [&]{ std::vector<u8> w{ 0 }; w.insert( w.end(), g.v.begin(), g.v.end() ); return w; }(), 20000000 ); continue; }
        u64 cycles = it->second.cyc * ( g.v[0] == 3 && g.type >= j_fixed8 && g.type <= j_fixed32 ? 4 : 3 ) / 2 + 300, stack = it->second.stack + 48; Cost x; c.cover( (u64) g.key() );
        try { x = measure( b, g.v, 4 * cycles + 20000 ); } catch ( avr::Fault & f ) { if ( b.c.stop ) throw; c.fail( "time", "%s, operation %d (number %d of this history) does not end within %llu cycles; ordinary ones take at most %llu", names[g.type], g.v[0], i, (unsigned long long)( 4 * cycles + 20000 ), (unsigned long long) it->second.cyc ); }
        c.note( "%s: operation %d takes %llu cycles and %llu bytes of stack", names[g.type], g.v[0], (unsigned long long) x.cyc, (unsigned long long) x.stack ); c.h( x.cyc ); c.h( x.stack ); c.cover( x.cyc );
        if ( x.cyc > cycles ) c.fail( "time", "%s, operation %d (number %d of this history) takes %llu cycles; ordinary ones take at most %llu", names[g.type], g.v[0], i, (unsigned long long) x.cyc, (unsigned long long) it->second.cyc );
        if ( x.stack > stack ) c.fail( "stack", "%s, operation %d (number %d of this history) takes %llu bytes of stack; ordinary ones take at most %llu", names[g.type], g.v[0], i, (unsigned long long) x.stack, (unsigned long long) it->second.stack );
        if ( i > 2 ) c.nontrivial = true;
    }
    c.simtime += b.c.cyc / avr::clock_hz;
}
// ---- desktop: arithmetic operations per call, allocations, with memory exhausted while the operation runs
#if USE_GF
using N = Pt<double>; static N mk( double x ) { return N( x ); }
#else
using N = double; static N mk( double x ) { return x; }
#endif
struct Limits { std::map<int,u64> most; };
static char const * kinds[] = { "estimator with one measurement", "estimator with two measurements", "estimator with two controls", "biquad section", "one-pole section", "cascade" };
template< int M, int U > struct Est
{
    using K = num::kalman<N,2,M,U>; alignas( K ) unsigned char mem[sizeof( K )]; bool live = false;
    static num::matrix<N,2,2> sym( std::function<double(double,double)> const & r, double lo, double hi, double off ) { double o = r( -off, off ); return { mk( r( lo, hi ) ), mk( o ), mk( o ), mk( r( lo, hi ) ) }; }
    void create( std::function<double(double,double)> const & r )
    {
        num::matrix<N,2,2> A{ mk( r( .5, 1 ) ), mk( r( 0, .5 ) ), mk( r( -.2, .2 ) ), mk( r( .5, .95 ) ) }; typename K::B_t B; for ( int i = 0; i < 2 * U; ++i ) B.at( i ) = mk( r( -.5, .5 ) );
        typename K::H_t H; for ( int i = 0; i < 2 * M; ++i ) H.at( i ) = mk( i % 3 == 0 ? r( .5, 1.5 ) : r( -.3, .3 ) ); typename K::R_t R; if constexpr ( M == 1 ) R = mk( r( .5, 2 ) ); else R = sym( r, .5, 2, .2 );
        typename K::x_t x{ mk( r( -5, 5 ) ), mk( r( -5, 5 ) ) }; auto Q = sym( r, .01, .1, .008 ), P = sym( r, .4, 4, .3 ); forbidden = true; new ( mem ) K( mk( .1 ), A, B, H, Q, R, P, x ); forbidden = false;
    }
    void update( std::function<double()> const & s ) { typename K::u_t u; typename K::z_t z; for ( int i = 0; i < U; ++i ) u.at( i ) = mk( s() ); for ( int i = 0; i < M; ++i ) z.at( i ) = mk( s() ); forbidden = true; ( (K *) mem )->update( u, z ); forbidden = false; }
    void look() { K & k = *(K *) mem; forbidden = true; auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto G = k.kalman_gain(); auto t = k.time(); forbidden = false; (void) x; (void) P; (void) G; (void) t; }
};
struct Things
{
    Est<1,1> e1; Est<2,1> e2; Est<1,2> e3; using Q = dsp::BiQuadT<N>; using O = dsp::OnePoleT<N>; using C = dsp::BiQuadCascadeT<N,5>; Q q; O o; C k;
    static Q section( std::function<double(double,double)> const & r ) { typename Q::B b; typename Q::A a; b.b0 = mk( r( -1, 1 ) ); b.b1 = mk( r( -1, 1 ) ); b.b2 = mk( r( -1, 1 ) ); a.a1 = mk( r( -.8, .8 ) ); a.a2 = mk( r( -.15, .15 ) ); return Q( b, a ); }
    static O pole( std::function<double(double,double)> const & r ) { return O( { mk( r( -1, 1 ) ) }, { mk( r( -.9, .9 ) ) } ); }
    // one operation of an object of the given kind; returns a key of what it did
    int act( int kind, bool fresh, std::function<u64(u64)> const & d, std::function<double(double,double)> const & r, std::function<double()> const & s )
    {
        int op = 0;
        switch ( kind )
        {
            case 0: if ( fresh ) { e1.create( r ); op = 9; } else if ( d( 8 ) ) e1.update( s ); else e1.look(), op = 1; break;
            case 1: if ( fresh ) { e2.create( r ); op = 9; } else if ( d( 8 ) ) e2.update( s ); else e2.look(), op = 1; break;
            case 2: if ( fresh ) { e3.create( r ); op = 9; } else if ( d( 8 ) ) e3.update( s ); else e3.look(), op = 1; break;
            case 3: if ( fresh ) { q = section( r ); op = 9; } else { op = d( 5 ); N x = mk( s() ); forbidden = true; switch ( op ) { case 0: q.step( x ); break; case 1: q.step_df2( x ); break; case 2: q.step_df2_transposed( x ); break; case 3: q.reset(); break; case 4: { Q t( q ); q.swap( t ); q = t; break; } } forbidden = false; } break;
            case 4: if ( fresh ) { o = pole( r ); op = 9; } else { op = d( 3 ); N x = mk( s() ); forbidden = true; switch ( op ) { case 0: o.step( x ); break; case 1: o.reset(); break; case 2: { O t( o ); o.swap( t ); o = t; break; } } forbidden = false; } break;
            default: if ( fresh ) { k.clear(); int n = d( 6 ); for ( int i = 0; i < n; ++i ) k.append( section( r ) ); op = 9; }
                else { op = d( 9 ); size_t n = k.size(); Q t = section( r ); N x = mk( s() ); size_t i = n ? d( n ) : 0; if ( ( op == 3 || op == 4 ) && n == 5 ) op = 0; if ( ( op >= 4 && op <= 6 ) && !n ) op = 0;
                    forbidden = true; switch ( op ) { case 0: step( k, x ); break; case 1: step_df2( k, x ); break; case 2: step_df2_transposed( k, x ); break; case 3: k.append( t ); break; case 4: k.insert( i, t ); break; case 5: k.remove( i ); break; case 6: (void) k.replace( i, t ); break; case 7: reset( k ); break; case 8: { C z( k ); k = z; break; } } forbidden = false; op += 10 * (int) n; }
        }
        return kind * 1000 + op;
    }
};
static std::map<int,u64> const & usual()
{
    static std::map<int,u64> m; if ( !m.empty() ) return m; u64 s = 777; auto d = [&]( u64 n ) { s = mix64( s ); return s % n; }; auto r = [&]( double lo, double hi ) { return lo + ( hi - lo ) * ( d( 65536 ) / 65535.0 ); };
    auto t = std::make_unique<Things>(); for ( int kind = 0; kind < 6; ++kind ) for ( int i = 0; i < 4000; ++i ) { reset_points(); int k = t->act( kind, i % 50 == 0, d, r, [&]{ return r( -4, 4 ); } ); m[k] = std::max( m[k], points().ops ); }
    return m;
}
static void desktop( Ctx & c )
{
    auto & m = usual(); int kind = c.draw( 6 ); std::unique_ptr<Things> t( new Things ); auto d = [&]( u64 n ) { return c.draw( n ); }; auto r = [&]( double lo, double hi ) { return c.real( lo, hi ); }; double hold = 1; char const * f = nullptr; bool bad = true;
    auto s = [&]() -> double {
        if ( !bad ) return hold = c.real( -4, 4 ); using L = std::numeric_limits<double>;
        switch ( c.draw( 12 ) ) { case 0: f = "NaN reading"; return L::quiet_NaN(); case 1: f = "infinite reading"; return c.draw( 2 ) ? L::infinity() : -L::infinity(); case 2: f = "overflowing reading"; return c.draw( 2 ) ? L::max() : -L::max(); case 3: f = "denormal reading"; return L::denorm_min() * c.draw( 100 ); case 4: f = "huge reading"; return c.real( -1, 1 ) * std::pow( 10, (double) c.draw( 300 ) ); case 5: f = "tiny reading"; return c.real( -1, 1 ) * std::pow( 10, -(double) c.draw( 300 ) ); case 6: case 7: f = "stuck reading"; return hold; case 8: f = "lost reading"; return 0; default: return hold = c.real( -4, 4 ); } };
    u64 n = 4 + c.logu( c.chance( 1, 200 ) ? 60000 : 120 ); u64 calm = c.draw( 3 ) ? 0 : n / 2;
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); bad = i >= calm; f = nullptr; reset_points(); allocations = 0; points().budget = 40000; points().hook = [&]{ forbidden = false; c.fail( "time", "an operation of a %s (number %llu of this history) takes more than 40000 arithmetic operations", kinds[kind], (unsigned long long) i ); };
        int k = t->act( kind, i == 0, d, r, s ); if ( f ) c.fault( f ); u64 ops = points().ops; points().budget = ~0ull; points().hook = {}; c.h( ops ); c.cover( k ); if ( f ) c.cover( f[0] ); c.fault( "memory exhausted" ); if ( i > 5000 ) c.probe( "history longer than 5000 operations" );
        if ( allocations ) c.fail( "allocates", "an operation of a %s (number %llu of this history) allocates memory", kinds[kind], (unsigned long long) i );
        auto it = m.find( k ); if ( it != m.end() && ops > it->second * 3 / 2 + 8 ) c.fail( "time", "an operation of a %s (number %llu of this history) takes %llu arithmetic operations; ordinary ones take at most %llu", kinds[kind], (unsigned long long) i, (unsigned long long) ops, (unsigned long long) it->second );
        if ( i > 2 ) c.nontrivial = true;
    }
    reset_points();
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "E07";
    ck.rule = "A run drives one object (estimators of several shapes, sections, one-pole filters, cascades, fixed-point numbers, matrices) through a drawn history of operations with hostile readings: NaN, infinite, overflowing, huge, tiny, denormal, arbitrary bit patterns, stuck, lost, spikes; up to thousands of operations. On the simulated target the cycles and the stack bytes of every operation, on the desktop its arithmetic operations, are compared with the most that ordinary operations of that kind take in the same build; on the desktop every allocation fails while an operation runs, and none may be asked for. Non-trivial: more than three operations; distinct by operations, faults and their costs.";
    ck.distinct_measure = "hash of the sequence of operations, faults and costs";
    ck.real = { "dsp/kalman.hpp, dsp/biquad.hpp, dsp/biquad-cascade.hpp, dsp/onepole.hpp, num/matrix.hpp, num/fixed-point.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os) and by the desktop compiler", "run-time library of avr-gcc (floating point, 64-bit arithmetic)" }; ck.stub = { "ATmega328P core (instruction-level simulator) with 64 KiB of program memory and 6 KiB of data memory", "memory allocator (fails while an operation runs)", "number type counting its operations (desktop)" };
    ck.assumptions = { "bounded means: at most one and a half times (fixed-point division, whose time the target's run-time library lets depend on the operands: twice) what ordinary operations of the same kind and build take (plus 300 cycles, 48 bytes of stack, 8 arithmetic operations)", "fixed-point values are not divided by zero" };
    ck.scenarios = { { "target", 20000, 800000, avr::on_chip( target ) }, { "desktop", 150000, 6000000, desktop } };
    return dst_main( argc, argv, ck );
}
