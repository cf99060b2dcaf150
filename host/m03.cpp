// Check M03: combined configuration writes commit once, together and exactly.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16;
struct Setting { char const * name; u8 addr; int hi, lo; u8 low2; bool fixed; };
static Setting const settings[] = {
#define S( name, expr, addr, hi, lo, low2 ) { #name, addr, hi, lo, low2, std::string( #expr ).find( "(void)" ) == 2 },
#include "settings.inc"
#undef S
};
static int index_of( std::string n ) { int i = 0; for ( auto & s : settings ) { if ( n == s.name ) return i; ++i; } abort(); }
static std::vector<int> parse( char const * text ) { std::vector<int> r; std::string t = text; t = t.substr( t.find( ',' ) + 1 ); std::replace( t.begin(), t.end(), ',', ' ' ); std::istringstream is( t ); while ( is >> t ) r.push_back( index_of( t ) ); return r; }
static std::vector<std::vector<int>> const part_a = {
#define C( ... ) parse( #__VA_ARGS__ ),
#include "combos_a.inc"
}, part_b = {
#include "combos_b.inc"
#undef C
};
static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x24, 0x25, 0x27, 0x28, 0x2a, 0x2b, 0xc1, 0x69, 0x44, 0x6e, 0x80, 0x6f, 0xba, 0x7c, 0x7b };
static bool still( u8 a ) { static u8 const k[] = { 0x69, 0x44, 0x45, 0x6e, 0x80, 0x81, 0x6f, 0xba, 0x7c, 0x7b, 0x3e, 0xc6 }; return std::find( k, k + sizeof k, a ) != k + sizeof k; }
static unsigned mask( int hi, int lo ) { return ( ( 2u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ); }
struct Op { std::vector<u8> cmd; std::string what; u8 addr = 0; int width = 8; unsigned change = 0, value = 0; u8 low2 = 0, low2v = 0; int expect = 1; bool held = false; };

static Op pick( Ctx & c, int fw )
{
    Op o; if ( c.chance( 7, 8 ) )
    {
        size_t na = part_a.size(), nb = part_b.size(); bool in_b = fw == 2 || ( fw == 0 && c.draw( 2 ) ); auto & list = in_b ? part_b : part_a; size_t i = c.draw( list.size() ); size_t at = fw == 0 && in_b ? na + i : i; (void) nb;
        o.cmd = { 0 }; avr::put( o.cmd, at, 2 );
        for ( int k : list[i] )
        {
            auto & s = settings[k]; unsigned full = ( 1u << ( s.hi - s.lo + 1 + ( s.low2 ? 2 : 0 ) ) ) - 1; unsigned v = c.chance( 1, 4 ) ? full : c.draw( full + 1 ); if ( s.fixed ) v = 1; o.cmd.push_back( v );
            o.addr = s.addr; o.change |= mask( s.hi, s.lo ); o.value |= ( s.low2 ? v >> 2 : v ) << s.lo; if ( s.low2 ) o.low2 = s.low2, o.low2v = v & 3; o.what += ( o.what.empty() ? "" : ", " ) + std::string( s.name ) + "=" + std::to_string( v );
        }
        return o;
    }
    unsigned v = c.draw( 8 ), w = c.draw( 4 ); static char const * n[] = { "", "setting held in a variable", "combination held in a variable", "discarded setting", "two 16-bit fields", "four 16-bit fields", "three 16-bit fields, nested", "conditional settings", "constant output modes", "constant converter settings", "constant EEPROM settings" };
    int k = 1 + c.draw( 10 ); o.cmd = { (u8) k }; o.what = n[k];
    switch ( k )
    {
        case 1: o.cmd.push_back( v ); o.addr = 0x45; o.change = 7; o.value = v; o.held = true; break;
        case 2: v = c.draw( 16 ); o.cmd.push_back( v ); o.cmd.push_back( w ); o.addr = 0x7c; o.change = 0xcf; o.value = v | w << 6; o.held = true; break;
        case 3: o.cmd.push_back( v ); o.addr = 0x81; o.expect = 0; break;
        case 4: case 5: case 6: v = c.draw( 65536 ); avr::put( o.cmd, v, 2 ); o.addr = 0xc4; o.width = 16; o.change = k == 4 ? 0xfc3e : k == 5 ? 0xffff : 0xffc1; o.value = v & o.change; break;
        case 7: { unsigned a = c.draw( 256 ), b = c.draw( 256 ); o.cmd.push_back( a ); o.cmd.push_back( b ); o.addr = 0x44; if ( a > b ) o.change = 0xf0, o.value = 0xb0; else o.change = 0x30, o.value = 0x10; break; }
        case 8: o.addr = 0x44; o.change = 0xf0; o.value = 0x30; break;
        case 9: o.addr = 0x7a; o.change = 0x8f; o.value = 0x87; break;
        case 10: o.addr = 0x3f; o.change = 0x34; o.value = 0x20; break;
    }
    return o;
}
static void commits( Ctx & c )
{
    int fw = c.draw( avr::firmwares() ); avr::Board b( fw ); b.boot(); avr::u64 start = b.c.cyc; int n = 1 + c.logu( 40 );
    for ( int a = 0x20; a < 0xd0; ++a ) if ( a < 0x5d || a > 0x5f ) b.c.watch[a] = 3;
    struct Store { u8 a, v; int last; }; std::vector<Store> stores; int last[256]; int phase = 0; bool early = false;
    for ( int t = 0; t < n; ++t )
    {
        c.step(); Op o = pick( c, fw );
        if ( t == 0 || c.chance( 1, 3 ) ) { for ( u8 a : plain ) b.c.poke( a, c.draw( 256 ) ); if ( o.width == 8 && still( o.addr ) ) b.c.poke( o.addr, c.draw( 256 ) ); }
        avr::u64 len = b.rehearse( o.cmd ); u8 old = b.c.d[o.addr], old2 = o.low2 ? b.c.d[o.low2] : 0;
        avr::Shots s( b ); std::vector<int> used; std::vector<u8> seen;
        for ( int k = (int) c.draw( 4 ); k--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 2 );
            for ( int i = 0; i < sc.cmd; ++i )
            {
                bool look = o.width == 8 && c.draw( 2 ); u8 a = look ? ( o.low2 && c.draw( 2 ) ? o.low2 : o.addr ) : plain[c.draw( sizeof plain )]; if ( !look && ( a == o.addr || a == o.low2 || ( o.width == 16 && a == o.addr + 1 ) ) ) a = 0xc1;
                sc.in.insert( sc.in.end(), { a, (u8) look, (u8) c.draw( 256 ), (u8) c.draw( 256 ) } );
            }
            s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( "interrupt during a configuration write" ); } );
        }
        stores.clear(); std::fill( last, last + 256, -1 ); phase = 0; early = false; std::vector<int> order; b.on_enter = [&]( int v ) { order.push_back( v ); };
        b.on_load = [&]( u8 a ) { if ( b.in_main() && phase ) last[a] = b.c.peek( a ); };
        b.on_mark = [&]( u8 m ) { phase = m == 2 ? 0 : m; };
        b.on_store = [&]( u8 a, u8 v ) { if ( b.in_main() && phase ) { stores.push_back( { a, v, last[a] >= 0 ? last[a] : (int) b.c.peek( a ) } ); if ( phase == 1 && o.held ) early = true; } };
        s.arm(); b.op( o.cmd ); b.op( { 99 } ); b.c.irq_count = ~0ull; b.op( { 99 } ); b.on_enter = nullptr; b.on_load = nullptr; b.on_store = nullptr; b.c.inject = 0; // a handler starved by timer interrupts is given up
        b.on_mark = nullptr;
        c.note( "%s at %02x: was %02x, %zu handlers, %zu stores", o.what.c_str(), o.addr, old, order.size(), stores.size() ); { std::uint64_t key = o.cmd[0]; if ( o.cmd.size() > 2 ) key = key * 65536 + o.cmd[1] + o.cmd[2] * 256; c.cover( key ); } for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc );
        int hit = 0, hit2 = 0, hith = 0; u8 now = 0;
        for ( auto & x : stores )
        {
            if ( x.a == o.addr ) { ++hit; u8 want = ( x.last & ~o.change ) | ( o.value & 255 ); now = x.v; if ( x.v != want ) c.fail( "wrong bits", "%s: register %02x read as %02x is written %02x instead of %02x", o.what.c_str(), x.a, x.last, x.v, want ); }
            else if ( o.width == 16 && x.a == o.addr + 1 ) { ++hith; u8 want = ( x.last & ~( o.change >> 8 ) ) | ( o.value >> 8 ); if ( x.v != want ) c.fail( "wrong bits", "%s: register %02x read as %02x is written %02x instead of %02x", o.what.c_str(), x.a, x.last, x.v, want ); }
            else if ( o.low2 && x.a == o.low2 ) { ++hit2; u8 want = ( x.last & ~3 ) | o.low2v; if ( x.v != want ) c.fail( "wrong bits", "%s: register %02x read as %02x is written %02x instead of %02x", o.what.c_str(), x.a, x.last, x.v, want ); }
            else c.fail( "stray store", "%s for register %02x also stores %02x to register %02x", o.what.c_str(), o.addr, x.v, x.a );
        }
        if ( hit != o.expect ) c.fail( "not one store", "%s: register %02x is stored to %d times instead of %d", o.what.c_str(), o.addr, hit, o.expect );
        if ( o.width == 16 && hith != 1 ) c.fail( "not one store", "%s: register %02x is stored to %d times", o.what.c_str(), o.addr + 1, hith );
        if ( o.low2 && hit2 != 1 ) c.fail( "not one store", "%s: register %02x is stored to %d times", o.what.c_str(), o.low2, hit2 );
        if ( early ) c.fail( "early store", "%s: register %02x is written while the setting is still held", o.what.c_str(), o.addr );
        // what handlers saw
        for ( int v : order ) { auto & sc = b.isr[v]; if ( !std::count( used.begin(), used.end(), v ) ) continue; size_t k = 0; for ( int i = 0; i < sc.cmd; ++i ) if ( sc.in[4 * i + 1] )
        {
            if ( k >= sc.out.size() ) break; u8 a = sc.in[4 * i], got = sc.out[k++]; if ( !still( a ) ) continue; bool second = a == o.low2; u8 before = second ? old2 : old, after = second ? ( old2 & ~3 ) | o.low2v : hit ? now : old;
            if ( a == 0x81 || a == 0x80 || a == 0x44 || a == 0x45 || a == 0x69 || a == 0x6e || a == 0x6f || a == 0x7b || a == 0x7c ) { u8 m = a == 0x81 ? 0xdf : a == 0x80 || a == 0x44 ? 0xf3 : a == 0x45 || a == 0x69 ? 0x0f : a == 0x6e ? 7 : a == 0x6f ? 0x27 : a == 0x7b ? 0x47 : 0xef; before &= m; after &= m; got &= m; }
            if ( got != before && got != after ) c.fail( "half applied", "%s: a handler sees register %02x as %02x, neither %02x before nor %02x after", o.what.c_str(), a, got, before, after );
        } }
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M03";
    ck.rule = "A run performs drawn configuration expressions (each of the 50 deferred settings alone, every ordered pair within a register, drawn longer combinations left to right, nested and grouped, 16-bit fields, conditional, constant, held in a variable, discarded) from drawn register contents with interrupts at drawn instruction boundaries, whose handlers read the register or change others. Oracle: exactly one store reaches the register, carrying all new field values and the last-read value of every other bit (waveforms: plus one store of their two low bits to the first control register); a held setting is stored when it ends, a discarded one never; handlers see the register before or after. Non-trivial: an interrupt struck; distinct by expressions and interrupt positions.";
    ck.distinct_measure = "hash of expressions and instruction offsets of the interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and registers (instruction-level simulator)", "interrupt sources" };
    ck.assumptions = { "values are in the range of their setting, and no setting is given twice in one expression", "handlers do not change the register being written" };
    ck.scenarios = { { "commits", 120000, 5000000, avr::on_chip( commits ) } };
    return dst_main( argc, argv, ck );
}
