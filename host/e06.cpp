// Check E06: on the target, estimators and filters compute what the desktop computes, whatever preempts them.
#include "../avr/board.hpp"
#include "../fw/jobs.hpp"
#include <cassert>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;

struct Desk { std::vector<u8> const & in; size_t p = 0; std::vector<u8> out; std::vector<size_t> reals; u8 get() { if ( p >= in.size() ) throw avr::Fault{ "a job asks for more than it was given" }; return in[p++]; } void put( u8 v ) { out.push_back( v ); } void real() { reals.push_back( out.size() ); } };
static float fl( u32 u ) { float f; memcpy( &f, &u, 4 ); return f; }
static u32 bits( float f ) { u32 u; memcpy( &u, &f, 4 ); return u; }
static char const * names[] = { "estimator (float, 1 measurement)", "estimator (float, 2 measurements)", "estimator (fixed 32)", "cascade (float)", "cascade (fixed 32)", "cascade (fixed 16)", "one-pole (float)", "one-pole (fixed 16)", "fixed-point arithmetic 8", "fixed-point arithmetic 16", "fixed-point arithmetic 32", "matrices (float)", "matrices (fixed 32)", "estimator (fixed 32, 2 measurements)" };

// One object on the target: draws its next operation within the object's preconditions, and is its desktop twin.
struct Stream
{
    Ctx & c; Slot desk; bool live = false; int type = 0, count = 0, form = 0, ones = 0; bool updated = false; double mag = 1, scale = 0, track = 0, slope = 0; std::vector<u8> v; double hold = 0;
    explicit Stream( Ctx & c_ ) : c( c_ ) {}
    int width() const { switch ( type ) { case j_fixed8: return 1; case j_cascade_x16: case j_pole_x16: case j_fixed16: return 2; default: return 4; } }
    bool real() const { return type == j_kalman_f1 || type == j_kalman_f2 || type == j_cascade_f || type == j_pole_f || type == j_matrix_f; }
    void val( double x )
    {
        scale = std::max( scale, std::fabs( x ) );
        if ( real() ) avr::put( v, bits( (float) x ), 4 ); else { int f = width() == 4 ? 16 : width() == 2 ? 12 : 4; avr::put( v, (u64)(long long) std::llround( std::ldexp( x, f ) ), width() ); }
    }
    double num( double lo, double hi ) { return c.real( lo, hi ); }
    bool estimator() const { return type == j_kalman_f1 || type == j_kalman_f2 || type == j_kalman_x1 || type == j_kalman_x2; }
    int meas() const { return type == j_kalman_f2 || type == j_kalman_x2 ? 2 : 1; }
    void section() { double k = num( 0.02, 0.085 ); val( k ); val( num( -0.08, 0.08 ) ); val( num( -0.08, 0.08 ) ); val( num( -0.4, 0.4 ) ); val( num( -0.35, 0.35 ) ); }
    void create( int t )
    {
        type = t; v = { 255, (u8) t }; live = true; updated = false; scale = 1; ones = 0; hold = 0; track = num( -3, 3 ); slope = num( -0.3, 0.3 ); mag = 1; form = c.draw( 3 );
        switch ( type )
        {
            case j_kalman_f1: case j_kalman_f2: case j_kalman_x1: case j_kalman_x2:
            {
                double dt = num( 0.05, 0.5 ); val( dt );
                switch ( c.draw( 3 ) ) { case 0: val( 1 ); val( dt ); val( 0 ); val( 1 ); break; case 1: val( num( -0.9, 0.9 ) ); val( num( -0.5, 0.5 ) ); val( 0 ); val( num( -0.9, 0.9 ) ); break; default: { double r = num( 0.3, 0.95 ), w = num( 0, 3 ); val( r * cos( w ) ); val( -r * sin( w ) ); val( r * sin( w ) ); val( r * cos( w ) ); } }
                val( num( -0.5, 0.5 ) ); val( num( -0.5, 0.5 ) );                                                                   // B
                if ( meas() == 1 ) { val( num( 0.5, 1.5 ) ); val( num( -0.5, 0.5 ) ); } else { val( num( 0.8, 1.5 ) ); val( num( -0.3, 0.3 ) ); val( num( -0.3, 0.3 ) ); val( num( 0.8, 1.5 ) ); }
                { double a = num( 0.01, 0.1 ), b = num( 0.01, 0.1 ), x = num( -0.008, 0.008 ); val( a ); val( x ); val( x ); val( b ); }  // Q
                if ( meas() == 1 ) val( num( 0.25, 2 ) ); else { double x = num( -0.2, 0.2 ); val( num( 0.5, 2 ) ); val( x ); val( x ); val( num( 0.5, 2 ) ); }
                { double x = num( -0.3, 0.3 ); val( num( 0.4, 4 ) ); val( x ); val( x ); val( num( 0.4, 4 ) ); }
                val( num( -5, 5 ) ); val( num( -5, 5 ) ); break;
            }
            case j_cascade_f: case j_cascade_x32: case j_cascade_x16: mag = type == j_cascade_x16 ? 1 : type == j_cascade_x32 ? std::pow( 10.0, c.draw( 4 ) ) : std::pow( 10.0, c.range( -6, 6 ) ); count = c.draw( 3 ); v.push_back( count ); for ( int i = 0; i < count; ++i ) section(); break;
            case j_pole_f: case j_pole_x16: for ( int i = 0; i < 2; ++i ) { val( num( 0.02, 0.1 ) ); val( num( -0.9, 0.9 ) ); } mag = type == j_pole_x16 ? 4 : std::pow( 10.0, c.range( -6, 6 ) ); break;
            case j_fixed8: val( num( -7, 7 ) ); break; case j_fixed16: val( num( -7, 7 ) ); break; case j_fixed32: val( num( -3000, 3000 ) ); break;
            case j_matrix_f: case j_matrix_x: val( num( 2, 4 ) ); val( num( -1, 1 ) ); val( num( -1, 1 ) ); val( num( 2, 4 ) ); for ( int i = 0; i < 4; ++i ) val( num( -3, 3 ) ); break;
        }
    }
    // a sample of a signal that drifts, sticks, jumps and spikes
    double sample( double amp ) { track += slope; if ( std::fabs( track ) > 3 ) slope = -slope; switch ( c.draw( 8 ) ) { case 7: break; case 6: hold = num( -1, 1 ) * amp; break; case 5: hold = c.draw( 2 ) ? amp : -amp; break; default: hold = std::max( -1.0, std::min( 1.0, track / 3 + num( -0.1, 0.1 ) ) ) * amp; } return hold; }
    long long acc() const { return type == j_fixed8 ? ( (fx8 *) desk.mem )->underlying_value() : type == j_fixed16 ? ( (fx16 *) desk.mem )->underlying_value() : ( (fx32 *) desk.mem )->underlying_value(); }
    void next()
    {
        v.clear();
        if ( estimator() ) { if ( c.draw( 4 ) == 3 && updated ) v = { 1 }; else { updated = true; v = { 0 }; val( num( -1, 1 ) ); for ( int i = 0; i < meas(); ++i ) val( sample( 10 ) ); } return; }
        switch ( type )
        {
            case j_cascade_f: case j_cascade_x32: case j_cascade_x16:
                switch ( c.draw( 16 ) )
                {
                    case 8: case 15: if ( count < 3 ) { v = { 3 }; section(); ++count; return; } break;
                    case 9: if ( count ) { v = { 4, (u8) c.draw( count ) }; --count; return; } break;
                    case 10: if ( count && count < 3 ) { v = { 5, (u8) c.draw( count ) }; section(); ++count; return; } break;
                    case 11: if ( count ) { v = { 6, (u8) c.draw( count ) }; section(); return; } break;
                    case 12: if ( !c.draw( 3 ) ) { v = { 7 }; count = 0; return; } break;
                    case 13: v = { 8 }; return; case 14: v = { 9 }; return; case 7: if ( count > 1 ) { v = { 10, (u8) c.draw( count ), (u8) c.draw( count ) }; return; } break;
                }
                v = { (u8) form }; val( sample( mag ) ); break;
            case j_pole_f: case j_pole_x16: { static int const k[] = { 0, 0, 0, 1, 1, 5, 2, 3, 4 }; int op = k[c.draw( 9 )]; v = { (u8) op }; if ( op == 0 || op == 1 || op == 5 ) val( sample( mag ) ); break; }
            case j_fixed8: case j_fixed16: case j_fixed32:
            {
                int w = width() * 8, f = width() == 4 ? 16 : width() == 2 ? 12 : 4; long long a = acc(), hi = ( 1ll << ( w - 1 ) ) - 1, lo = -hi - 1; auto fits = [&]( long long x ) { return x >= lo && x <= hi; };
                for ( int tries = 0; tries < 6; ++tries )
                {
                    int op = c.draw( 12 ); long long x; switch ( c.draw( 4 ) ) { case 0: x = c.range( -40, 40 ); break; case 1: x = (long long) c.range( -3, 3 ) << f; break; case 2: x = c.range( lo / 64, hi / 64 ); break; default: x = c.range( lo, hi ); }
                    auto give = [&]{ v = { (u8) op }; avr::put( v, (u64) x, width() ); };
                    if ( op == 0 && fits( a + x ) ) { give(); return; } if ( op == 1 && fits( a - x ) ) { give(); return; } if ( op == 2 && fits( ( (__int128) a * x ) >> f ) ) { give(); return; }
                    if ( op == 3 && x && fits( ( (__int128) a << f ) / x ) ) { give(); return; } if ( op == 4 ) { if ( c.draw( 3 ) == 0 ) x = a; give(); return; }
                    if ( op == 5 ) { double m = std::ldexp( hi, -f ) * 0.99; v = { 5 }; avr::put( v, bits( c.draw( 4 ) ? (float) std::ldexp( std::floor( num( -m, m ) * ( 1 << f ) * 2 ) / 2, -f ) : (float) num( -m, m ) ), 4 ); return; }
                    if ( op == 6 ) { int m = width() == 4 ? 127 : 7; v = { 6, (u8) c.range( -m - ( width() == 4 ), m ) }; return; }
                    if ( op == 7 || op == 10 || op == 11 ) { v = { (u8) op }; return; } if ( op == 8 && a != lo ) { v = { 8 }; return; }
                    if ( op == 9 && fits( a + x ) && fits( ( (__int128) a * x ) >> f ) ) { give(); return; }
                }
                v = { 11 }; break;
            }
            case j_matrix_f: case j_matrix_x:
            {
                int op = c.draw( 11 ); if ( op == 9 && ones >= 6 ) op = 5; ones += op == 9; v = { (u8) op };
                if ( op == 6 || op == 8 ) { val( num( -3, 3 ) ); if ( op == 8 ) val( num( -3, 3 ) ); } else if ( op == 7 ) for ( int i = 0; i < 4; ++i ) val( num( -3, 3 ) ); else if ( op == 10 ) val( c.draw( 5 ) ? num( 0.25, 4 ) : 0 ); break;
            }
        }
    }
    // the operation drawn last, on the desktop; judge what the target put out
    std::vector<u8> expect; std::vector<size_t> reals;
    void twin() { Desk io{ v }; desk.perform( io ); if ( io.p != v.size() ) throw std::logic_error( "e06: job took less than given" ); expect = io.out; reals = io.reals; }
    void judge( Ctx & c, std::vector<u8> const & got, std::vector<u8> const & quiet, char const * where )
    {
        auto hex = []( std::vector<u8> const & x ) { std::string s; char t[4]; for ( u8 y : x ) { snprintf( t, 4, "%02x", y ); s += t; } return s; }; int op = v[0];
        if ( got != quiet ) c.fail( "interference", "%s %s, operation %d: puts out %s when preempted and %s when not", names[type], where, op, hex( got ).c_str(), hex( quiet ).c_str() );
        if ( got.size() != expect.size() ) c.fail( "differs from the desktop", "%s %s, operation %d: puts out %zu bytes, the desktop %zu", names[type], where, op, got.size(), expect.size() );
        size_t r = 0; bool exact = true;
        for ( size_t i = 0; i < got.size(); )
            if ( r < reals.size() && reals[r] == i )
            {
                u32 g = avr::get( got, i, 4 ), e = avr::get( expect, i, 4 ); float x = fl( g ), y = fl( e ); ++r; i += 4; if ( std::isfinite( y ) ) scale = std::max<double>( scale, std::fabs( y ) );
                if ( g == e || ( x != x && y != y ) ) continue; exact = false;
                double tol = ( real() ? scale : std::fabs( y ) ) * 0x1p-12; if ( !( std::fabs( (double) x - y ) <= tol ) ) c.fail( "differs from the desktop", "%s %s, operation %d: value %zu is %.9g, on the desktop %.9g", names[type], where, op, r - 1, x, y );
            }
            else { if ( got[i] != expect[i] ) c.fail( "differs from the desktop", "%s %s, operation %d: puts out %s, the desktop %s", names[type], where, op, hex( got ).c_str(), hex( expect ).c_str() ); ++i; }
        c.count( exact ? "operations equal to the desktop's to the bit" : "operations equal to the desktop's within rounding" );
        u64 h = type * 16 + op; for ( u8 b : got ) h = mix64( h ^ b ); c.h( h );
    }
};
static void target( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); avr::Board q( 0 ); q.c.flash = b.c.flash; static int const vec[5] = { 0, 0, Chip::V_SPI, Chip::V_RX, Chip::V_T2O }; static char const * const where[5] = { "in the main program", "in the main program", "in a handler", "in an interruptible handler", "in another handler" };
    int lives = 1 + ( c.draw( 4 ) == 3 ); u64 simulated = 0;
    for ( int life = 0; life < lives; ++life )
    {
        b.boot(); q.boot(); b.c.inject = 0; b.c.count_depth = c.draw( 2 ) ? 2 : 0; std::vector<Stream> st( 5, Stream( c ) ); int base = c.draw( j_types ); bool same = c.draw( 3 ) == 0;    // often the same type everywhere: shared state shows
        int n = 3 + c.logu( 40 ); bool cut = false;
        for ( int t = 0; t < n && !cut; ++t )
        {
            c.step(); int k = t < 2 ? t : c.draw( 7 ) % 3; bool idle = k == 2; auto pick = [&]{ return same ? base : (int) c.draw( j_types ); };
            auto prepare = [&]( int s ) { Stream & x = st[s]; if ( !x.live || c.draw( 16 ) == 15 ) x.create( pick() ); else x.next(); c.note( "%s %s: operation %d", names[x.type], where[s], x.v[0] ); c.cover( x.type * 32 + x.v[0] ); std::vector<u8> w{ (u8) s }; w.insert( w.end(), x.v.begin(), x.v.end() ); x.twin(); u64 len = q.op( w, 4000000 ); return std::pair<u64,std::vector<u8>>( len, q.out ); };
            u64 len = 60; std::vector<u8> quiet, cmd{ 30 }; if ( !idle ) { auto r = prepare( k ); len = r.first; quiet = r.second; cmd = { (u8) k }; cmd.insert( cmd.end(), st[k].v.begin(), st[k].v.end() ); }
            avr::Shots s( b ); std::vector<u8> hq[5]; bool used[5] = {}; u64 total = len; int m = c.draw( 4 );
            for ( int i = 0; i < m; ++i )
            {
                int h = 2 + c.draw( 4 ); if ( h == 5 ) { s.add( c.draw( total + 1 ), [&]{ b.c.inject |= 1u << Chip::V_UDRE; c.fault( "stray interrupt" ); } ); continue; }
                if ( used[h] ) continue; used[h] = true; auto r = prepare( h ); hq[h] = r.second; auto & sc = b.isr[vec[h]]; sc = {}; sc.in = st[h].v; u64 at = c.draw( total + 1 ); if ( b.c.count_depth ) total += r.first;
                s.add( at, [&,h]{ b.c.inject |= 1u << vec[h]; if ( b.nest.empty() ) c.fault( "handler computing in the middle of a computation" ); else c.fault( "handler computing in the middle of a handler's computation" ); c.cover( b.c.insns ); } ); c.cover( at );
            }
            bool dies = life + 1 < lives && c.draw( n ) == 0; if ( dies ) s.add( c.draw( total + 1 ), [&]{ b.c.stop = true; cut = true; } );
            s.arm(); b.in = cmd; b.ip = 0; b.out.clear(); b.c.run( 20000000 ); if ( !b.c.stop ) c.fail( "hangs", "an operation does not come to an end" );
            if ( cut ) { c.fault( "reset at a drawn instruction" ); b.c.irq_count = ~0ull; b.on_irq = nullptr; break; }
            auto out = b.out; b.c.irq_count = 0; 
            // what has not been let in yet, now
            while ( s.next < s.v.size() ) s.v[s.next++].second(); b.c.irq_count = ~0ull; b.on_irq = nullptr; b.op( { 30 }, 20000000 );
            if ( b.c.inject ) c.fail( "hangs", "an interrupt is never served" );
            if ( !idle ) st[k].judge( c, out, quiet, where[k] );
            for ( int h = 2; h < 5; ++h ) if ( used[h] ) { auto & sc = b.isr[vec[h]]; if ( sc.served != 1 ) c.fail( "hangs", "a handler ran %d times", (int) sc.served ); if ( sc.p != sc.in.size() ) c.fail( "interference", "a handler took %zu of %zu bytes", sc.p, sc.in.size() ); st[h].judge( c, sc.out, hq[h], where[h] ); }
        }
        simulated += b.c.cyc;
    }
    c.simtime += simulated / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "E06";
    ck.rule = "A run drives up to five objects (two of the main program, one in each of three interrupt handlers, one of them interruptible; each an estimator with one or two measurements, a cascade, a pair of one-pole sections, fixed-point numbers or matrices, in floating point or fixed point, often all of one type) through drawn histories of operations, with the handlers' computations placed at drawn instruction boundaries inside the main program's and each other's, stray interrupts and resets. Oracles: bit for bit the output of the same firmware on a second chip that is never interrupted; and the output of the same library compiled for the desktop: bit for bit in fixed point, within single-precision rounding in floating point. Non-trivial: at least one computation preempted; distinct by types, operations, and instruction positions.";
    ck.distinct_measure = "hash of object types, operations, instruction positions of preemptions";
    ck.real = { "dsp/kalman.hpp, dsp/biquad.hpp, dsp/biquad-cascade.hpp, dsp/onepole.hpp, num/matrix.hpp, num/fixed-point.hpp, std/*.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os) and by the desktop compiler", "run-time library of avr-gcc (floating point, 64-bit arithmetic)" }; ck.stub = { "ATmega328P core (instruction-level simulator) with 64 KiB of program memory and 6 KiB of data memory" };
    ck.assumptions = { "well-conditioned models; inputs in the range the fixed-point types can hold", "each object is used by one context only" };
    ck.scenarios = { { "target", 20000, 1000000, avr::on_chip( target ) } };
    return dst_main( argc, argv, ck );
}
