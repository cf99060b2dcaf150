// Check E09: fixed-point numbers are exact or within one step through any history of operations, on the desktop and on the target.
#include "../avr/board.hpp"
#include "fixed_ops.hpp"
#include <optional>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64; using i64 = std::int64_t;
struct Format { char const * name; int bits, frac; };
static Format const formats[] = { { "8-bit 3.4", 8, 4 }, { "16-bit 7.8", 16, 8 }, { "16-bit 0.15", 16, 15 }, { "32-bit 15.16", 32, 16 }, { "32-bit 7.24", 32, 24 }, { "16-bit 7.4", 16, 4 } };
static char const * const names[] = { "a + b", "a - b", "a * b", "a / b", "-a", "+a", "a += b", "a -= b", "a *= b", "a /= b", "a += a", "a -= a", "a *= a", "a /= a", "a == b", "a != b", "a < b", "a <= b", "a > b", "a >= b", "from float", "from double", "from long", "from short", "as long", "as short", "as byte", "as float", "as double", "min", "max", "to_rep/from_rep", "from_value", "a + integer", "integer * a", "a * float", "chained assignment" };
static i64 fdiv( i64 n, i64 d ) { i64 q = n / d; return n % d && ( n < 0 ) != ( d < 0 ) ? q - 1 : q; }
struct Want { i64 lo, hi; bool real = false; double v = 0; };   // the results allowed
// What the operation may give, or nothing where the exact result is out of range.
static std::optional<Want> want( int fmt, int op, i64 a, i64 b, float f )
{
    Format const & F = formats[fmt]; i64 S = 1ll << F.frac, lo = -( 1ll << ( F.bits - 1 ) ), hi = -lo - 1; auto in = [&]( i64 v ) { return lo <= v && v <= hi; }; double v = (double) f * S;
    auto just = [&]( i64 r ) -> std::optional<Want> { if ( !in( r ) ) return {}; return Want{ r, r }; }; auto num = []( i64 r ) { return Want{ r, r }; };
    auto ratio = [&]( i64 n, i64 d ) -> std::optional<Want> { i64 q = fdiv( n, d ), e = n % d ? q + 1 : q; if ( !in( q ) || !in( e ) ) return {}; return Want{ q, e }; };
    auto near = [&]() -> std::optional<Want> { if ( !( std::fabs( v ) < 4e9 ) ) return {}; i64 l = (i64) std::ceil( v - 0.5 ), h = (i64) std::floor( v + 0.5 ); if ( !in( l - 1 ) || !in( h + 1 ) ) return {}; return Want{ l, h }; };
    switch ( op )
    {
        case op_add: case op_add_to: return just( a + b ); case op_sub: case op_sub_from: return just( a - b ); case op_mul: case op_mul_by: return ratio( a * b, S ); case op_div: case op_div_by: if ( !b ) return {}; return ratio( a * S, b );
        case op_neg: return just( -a ); case op_plus: case op_rep: return just( a ); case op_add_self: return just( 2 * a ); case op_sub_self: return just( 0 ); case op_mul_self: return ratio( a * a, S ); case op_div_self: if ( !a ) return {}; return just( S );
        case op_eq: return num( a == b ); case op_ne: return num( a != b ); case op_lt: return num( a < b ); case op_le: return num( a <= b ); case op_gt: return num( a > b ); case op_ge: return num( a >= b );
        case op_from_float: case op_from_double: return near(); case op_from_short: if ( b != (std::int16_t) b ) return {}; case op_from_int: return just( b * S );
        case op_as_long: return num( a / S ); case op_as_short: if ( a / S != (std::int16_t)( a / S ) ) return {}; return num( a / S ); case op_as_byte: if ( a / S != (std::int8_t)( a / S ) ) return {}; return num( a / S );
        case op_as_float: case op_as_double: return Want{ 0, 0, true, (double) a / S }; case op_min: return num( lo ); case op_max: return num( hi ); case op_value: return num( b );
        case op_add_int: if ( !in( b * S ) ) return {}; return just( a + b * S ); case op_int_mul: if ( !in( b * S ) ) return {}; return just( a * b );
        case op_mul_float: { auto n = near(); if ( !n ) return {}; auto l = ratio( a * n->lo, S ), h = ratio( a * n->hi, S ); if ( !l || !h ) return {}; return Want{ std::min( l->lo, h->lo ), std::max( l->hi, h->hi ) }; }
        case op_chain: if ( !in( a + b ) ) return {}; return just( a );
    }
    return {};
}
struct Job { int fmt, op; i64 a, b; float f; Want w; };
struct Regs { i64 v[6][4] = {}; };
static i64 raw( Ctx & c, int fmt )
{
    Format const & F = formats[fmt]; i64 hi = ( 1ll << ( F.bits - 1 ) ) - 1, S = 1ll << F.frac, v;
    switch ( c.draw( 8 ) ) { case 0: return c.draw( 2 ) ? hi : -hi - 1; case 1: v = c.range( -4, 4 ); break; case 2: v = c.range( -3, 3 ) * S + c.range( -1, 1 ); break; case 3: v = c.draw( hi ) - hi / 2; break; default: v = c.logu( hi ); if ( c.draw( 2 ) ) v = -v; }
    return std::max( -hi - 1, std::min( hi, v ) );
}
static Job job( Ctx & c, Regs & r )
{
    for ( ;; )
    {
        Job j; j.fmt = c.draw( 6 ); j.op = c.draw( op_count ); auto & v = r.v[j.fmt]; Format const & F = formats[j.fmt];
        for ( i64 * p : { &j.a, &j.b } ) { int k = c.draw( 4 ); if ( c.chance( 1, 3 ) ) v[k] = raw( c, j.fmt ); *p = v[k]; }
        if ( j.op == op_from_int || j.op == op_from_short || j.op == op_add_int || j.op == op_int_mul ) { i64 m = 1ll << ( F.bits - 1 - F.frac ); j.b = c.draw( 4 ) ? c.range( -std::min<i64>( m, 12 ), std::min<i64>( m, 12 ) ) : c.range( -m, m ); }
        // a real number: arbitrary, an exact step, or just beside the middle of two steps
        double x = (double) raw( c, j.fmt ); switch ( c.draw( 4 ) ) { case 0: break; case 1: x += 0.5; break; case 2: x += c.range( -1000, 1000 ) / 1000.0; break; default: x += 0.5 - std::ldexp( 1, -1 - (int) c.draw( 25 ) ); } j.f = (float) std::ldexp( x, -F.frac ); if ( c.draw( 8 ) == 0 ) j.f = std::nextafterf( j.f, c.draw( 2 ) ? 1e9f : -1e9f );
        if ( auto w = want( j.fmt, j.op, j.a, j.b, j.f ) ) { j.w = *w; return j; }
        j.op = op_min; j.w = *want( j.fmt, j.op, 0, 0, 0 ); if ( c.draw( 4 ) == 0 ) return j;
    }
}
static void judge( Ctx & c, Job const & j, std::int32_t got, char const * where )
{
    c.cover( j.op * 8 + j.fmt ); c.h( (u64)(u32) got ); Format const & F = formats[j.fmt];
    if ( j.w.real ) { float g; std::memcpy( &g, &got, 4 ); if ( !( std::fabs( g - j.w.v ) <= std::fabs( j.w.v ) * 1.2e-7 ) ) c.fail( "wrong conversion", "%s, %s%s: %.9g is read as %.9g", names[j.op], F.name, where, j.w.v, g ); return; }
    if ( got < j.w.lo || got > j.w.hi ) c.fail( j.op >= op_from_float && j.op <= op_as_double ? "wrong conversion" : j.op >= op_eq && j.op <= op_ge ? "wrong order" : "wrong result", "%s, %s%s: with a = %lld, b = %lld (in steps), real %.9g (%.9g steps) gives %d instead of %lld%s", names[j.op], F.name, where, (long long) j.a, (long long) j.b, j.f, std::ldexp( j.f, F.frac ), (int) got, (long long) j.w.lo, j.w.hi != j.w.lo ? " or the next" : "" );
}
static bool is_value( int op ) { return !( op >= op_eq && op <= op_ge ) && !( op >= op_as_long && op <= op_as_double ); }
static void desktop( Ctx & c )
{
    Regs r; int n = 1 + c.logu( 300 ); for ( auto & f : r.v ) for ( auto & v : f ) v = 0;
    for ( int t = 0; t < n; ++t ) { c.step(); Job j = job( c, r ); auto g = fixed_job( j.fmt, j.op, j.a, j.b, j.f ); judge( c, j, g, "" ); if ( is_value( j.op ) ) r.v[j.fmt][c.draw( 4 )] = g; }
    if ( n > 2 ) c.nontrivial = true;
}
static void put_job( std::vector<u8> & v, Job const & j ) { v.push_back( j.op ); avr::put( v, (u32) j.a, 4 ); avr::put( v, (u32) j.b, 4 ); u32 f; std::memcpy( &f, &j.f, 4 ); avr::put( v, f, 4 ); }
static void target( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); b.boot(); u64 start = b.c.cyc; Regs r; int n = 1 + c.logu( 40 ); static int const vec[3] = { Chip::V_RX, Chip::V_SPI, Chip::V_UDRE };
    for ( int t = 0; t < n; ++t )
    {
        c.step(); Job j = job( c, r ), h[3]; bool used[3] = {}; std::vector<u8> cmd{ (u8) j.fmt }; put_job( cmd, j ); u64 len = b.rehearse( cmd ); avr::Shots s( b );
        for ( int k = 0; k < 3; ++k ) if ( c.chance( 1, 3 ) ) { used[k] = true; h[k] = job( c, r ); auto & sc = b.isr[vec[k]]; sc = {}; sc.cmd = h[k].fmt; put_job( sc.in, h[k] ); int v = vec[k]; s.add( c.draw( len + 1 ), [&b, &c, v] { b.c.inject |= 1u << v; c.fault( "interrupt whose handler computes too" ); } ); }
        s.arm(); b.op( cmd ); auto out = b.out; b.op( { 99 } ); b.op( { 99 } ); b.c.irq_count = ~0ull; for ( auto & e : s.v ) c.cover( e.first );
        judge( c, j, (std::int32_t) avr::get( out, 0, 4 ), " on the target" ); if ( is_value( j.op ) ) r.v[j.fmt][c.draw( 4 )] = (std::int32_t) avr::get( out, 0, 4 );
        for ( int k = 0; k < 3; ++k ) if ( used[k] && b.isr[vec[k]].served ) { auto & o = b.isr[vec[k]].out; judge( c, h[k], (std::int32_t) avr::get( o, 0, 4 ), " in a handler on the target" ); }
        b.c.inject = 0;
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz; if ( n > 2 ) c.nontrivial = true;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "E09";
    ck.rule = "A run is a history of fixed-point operations (construction from integers and reals, sums, differences, products, quotients, compound and self-applied forms, comparisons, conversions back, bounds) in six formats of 8, 16 and 32 bits, each on results of earlier ones or on drawn values up to the ends of the range; on the desktop, and on the simulated chip while handlers that compute as well interrupt at drawn instructions. Every result is judged against exact integer arithmetic. Non-trivial: an interrupt or more than two operations; distinct by operations, results and interrupt positions.";
    ck.distinct_measure = "hash of operations, formats, results and interrupt positions";
    ck.real = { "num/fixed-point.hpp from /repo/include, compiled by g++ and by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core (instruction-level simulator)", "interrupt source" };
    ck.assumptions = { "exact results within the range of the format", "no division by zero" };
    ck.scenarios = { { "desktop", 300000, 12000000, desktop }, { "target", 60000, 2400000, avr::on_chip( target ) } };
    return dst_main( argc, argv, ck );
}
