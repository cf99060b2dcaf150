// Check M08: settings reach the documented hardware bits and read back as set.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
struct Setting { char const * name; u8 addr; int hi, lo; u8 low2; bool fixed; };
static Setting const settings[] = {
#define S( name, expr, addr, hi, lo, low2 ) { #name, addr, hi, lo, low2, std::string( #expr ).find( "(void)" ) == 2 },
#include "settings.inc"
#undef S
};
static char const * const reads[] = {
#define R( name, expr ) #name,
#include "reads.inc"
#undef R
};
struct Eager { char const * name; u8 addr; int width, hi, lo; };
static Eager const eager[] = {
#define X( name, expr, back, addr, width, hi, lo ) { #name, addr, width, hi, lo },
#include "eager.inc"
#undef X
};
struct Const { char const * setting, * name; u8 value; };
static Const const consts[] = {
#define K( setting, constant, value ) { #setting, #constant, value },
#include "enums.inc"
#undef K
};
template< typename T, size_t n > static constexpr int count( T const ( & )[n] ) { return n; }
static int index_of( char const * n ) { for ( int i = 0; i < count( settings ); ++i ) if ( !std::strcmp( settings[i].name, n ) ) return i; return -1; }
static unsigned mask( int hi, int lo ) { return ( ( 2u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ); }
// bits of each register that hold settings; 0: not compared (flags, counters, inputs, status)
static u8 config_bits( int a )
{
    switch ( a )
    {
        case 0x23: case 0x26: case 0x29: case 0x35: case 0x36: case 0x37: case 0x3b: case 0x3c: case 0x46: case 0x84: case 0x85: case 0x78: case 0x79: case 0x5d: case 0x5e: case 0x5f: return 0;
        case 0x3f: return 0x38; case 0x43: return 0x83; case 0x45: return 0x0f; case 0x50: return 0xcf; case 0x7a: return 0xaf; case 0xb9: return 3; case 0xbc: return 0x45; case 0x82: return 0; default: return 0xff;
    }
}
// what other software may have left behind: registers that hold settings, with their writable bits
struct Reg { u8 a, bits; };
static Reg const pokes[] = { { 0x24, 0xff }, { 0x25, 0xff }, { 0x27, 0xff }, { 0x28, 0xff }, { 0x2a, 0xff }, { 0x2b, 0xff }, { 0x3d, 3 }, { 0x3e, 0xff }, { 0x3f, 0x38 }, { 0x40, 0xff }, { 0x41, 0xff }, { 0x42, 3 }, { 0x44, 0xf3 }, { 0x45, 0x0f }, { 0x47, 0xff }, { 0x48, 0xff }, { 0x4a, 0xff }, { 0x4b, 0xff },
    { 0x50, 0xcf }, { 0x64, 0xef }, { 0x66, 0xff }, { 0x68, 7 }, { 0x69, 15 }, { 0x6b, 0xff }, { 0x6c, 0x7f }, { 0x6d, 0xff }, { 0x6e, 7 }, { 0x6f, 0x27 }, { 0x7a, 0xaf }, { 0x7b, 0x47 }, { 0x7c, 0xef }, { 0x7e, 0x3f }, { 0x7f, 3 }, { 0x80, 0xf3 }, { 0x81, 0xdf }, { 0xb0, 0xf3 }, { 0xb1, 0x0f }, { 0xb3, 0xff }, { 0xb8, 0xff }, { 0xb9, 3 }, { 0xba, 0xff }, { 0xbc, 0x45 }, { 0xbd, 0xfe }, { 0xc1, 0xf8 }, { 0xc4, 0xff }, { 0xc5, 0x0f }, { 0xc6, 0xff }, { 0x4c, 0xff } };
static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x25, 0x28, 0x2b, 0xc1 };
struct Bench : avr::Board
{
    using Board::Board; std::string strobes; u64 phase = 0;
    void forced( char w ) override { if ( !dry ) strobes += w; }
    u16 analog( int, int ) override { return ++phase * 77 & 0x3ff; }
};
static void history( Ctx & c )
{
    Bench b( c.draw( avr::firmwares() ) ); b.boot(); u64 start = b.c.cyc; int n = 1 + c.logu( 120 ); for ( int i = 0; i < 1024; ++i ) b.c.ee[i] = mix64( i + 5 );
    for ( u8 a : plain ) b.c.watch[a] = 1; b.c.watch[0xbc] = 1;
    u8 before[256], want[256]; auto snapshot = [&]( u8 * to ) { for ( int a = 0x20; a < 0xd0; ++a ) to[a] = config_bits( a ) ? b.c.peek( a ) : 0; to[0x86] = b.c.icr1(); to[0x87] = b.c.icr1() >> 8; };
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int kind = c.draw( 16 ); if ( t == 0 ) kind = 15 - kind;
        if ( kind == 15 )
        {
            int k = c.draw( 3 ) ? 1 + c.draw( 6 ) : count( pokes ); for ( int i = 0; i < k; ++i ) { auto & p = k == count( pokes ) ? pokes[i] : pokes[c.draw( count( pokes ) )]; b.c.poke( p.a, c.draw( 256 ) & p.bits ); } b.c.poke16( 0x88, c.draw( 65536 ) ); b.c.poke16( 0x8a, c.draw( 65536 ) ); b.strobes.clear(); c.cover( k ); if ( k > 6 ) c.fault( "registers left in any state by other software" ); else c.fault( "registers changed by other software" ); continue;
        }
        if ( kind == 14 ) { b.c.comparator( c.draw( 2 ) ); int p = c.draw( 3 ); for ( int i = 0; i < 8; ++i ) b.c.drive( p, i, c.draw( 2 ) ); c.fault( "input pins change" ); continue; }
        // what to do, and which bits may change to what
        bool flag_cleared = true; std::vector<u8> cmd; std::string what; u8 addr = 0, low2 = 0, also = 0; std::string strobe; bool reading = false; int read_index = -1, xread = -1; snapshot( before ); std::vector<std::pair<int,std::pair<u8,u8>>> effect; auto set = [&]( int a, unsigned m, unsigned v ) { effect.push_back( { a, { (u8) m, (u8)( v & m ) } } ); }; bool judged = true; u16 counter = 0; int counter_at = 0;
        if ( kind < 6 )
        {
            int i = c.draw( count( settings ) ); auto & s = settings[i]; unsigned full = ( 1u << ( s.hi - s.lo + 1 + ( s.low2 ? 2 : 0 ) ) ) - 1; unsigned v = c.draw( full + 1 ); if ( s.fixed ) v = 1; if ( !std::strcmp( s.name, "EE_WRITE" ) ) v = 0;
            cmd = { 0, (u8) i, (u8) v }; what = std::string( "setting " ) + s.name + " to " + std::to_string( v ); addr = s.addr; low2 = s.low2; set( s.addr, mask( s.hi, s.lo ), ( s.low2 ? v >> 2 : v ) << s.lo ); if ( s.low2 ) set( s.low2, 3, v & 3 );
            if ( !std::strcmp( s.name, "EE_READ" ) && v ) set( 0x40, 0xff, b.c.ee[( before[0x41] | before[0x42] << 8 ) & 0x3ff] );
        }
        else if ( kind < 9 )
        {
            int i = c.draw( count( eager ) ); auto & x = eager[i]; unsigned full = ( 1u << ( x.hi - x.lo + 1 ) ) - 1; unsigned v = c.chance( 1, 4 ) ? full : c.draw( full + 1 ); std::string nm = x.name; addr = x.addr;
            int wgm = b.c.wgm1(); if ( nm == "T1_ICR" && !( wgm == 8 || wgm == 10 || wgm == 12 || wgm == 14 ) ) continue; if ( nm == "TW_DATA" && ( b.c.d[Chip::TWCR] & 4 ) && !( b.c.d[Chip::TWCR] & 0x80 ) ) continue;
            cmd = { 2, (u8) i }; avr::put( cmd, v, 2 ); what = "setting " + nm + " to " + std::to_string( v );
            if ( nm == "LED_EN" ) set( x.addr, 4, 4 ); else if ( nm == "LED_TOG" ) set( x.addr, 0x20, ~before[x.addr] ); else if ( nm == "PIN_B" ) { set( 0x25, 0xff, before[0x25] ^ v ); also = 0x25; } else if ( nm == "PIN_D4" ) { set( 0x2b, 0x10, ~before[0x2b] ); also = 0x2b; }
            else if ( nm == "T0_FA" ) { if ( !( b.c.wgm0() & 1 ) ) strobe = "a"; } else if ( nm == "T0_FB" ) { if ( !( b.c.wgm0() & 1 ) ) strobe = "b"; }
            else if ( nm == "T1_FA" || nm == "T1_FB" ) { if ( wgm == 0 || wgm == 4 || wgm == 12 || wgm == 13 ) strobe = nm == "T1_FA" ? "A" : "B"; }
            else if ( nm == "PWM_INIT" ) { set( 0x80, 0xc3, 0x83 ); set( 0x81, 0x1f, 0x09 ); set( 0x24, 2, 2 ); also = 0x24; low2 = 0x81; }
            else if ( nm == "AC_STATE" || nm == "TW_COLL" || nm == "EE_ARM" ) ;
            else if ( nm == "TW_CLEAR" ) flag_cleared = !( before[0xbc] & 0x80 ); // else a store must do it
            else if ( nm == "T0_TIMER" ) { counter = v; counter_at = ( b.c.d[Chip::TCCR0B] & 7 ) ? 0 : 1; } else if ( nm == "T1_TIMER" ) { counter = v; counter_at = ( b.c.d[Chip::TCCR1B] & 7 ) ? 0 : 2; }
            else { unsigned m = mask( x.hi, x.lo ), w = v << x.lo; set( x.addr, m & 255, w & 255 ); if ( x.width == 16 ) set( x.addr + 1, m >> 8, w >> 8 ); }
        }
        else if ( kind < 12 )
        {
            read_index = c.draw( count( reads ) ); reading = true; cmd = { 1, (u8) read_index }; what = std::string( "reading " ) + reads[read_index]; int i = index_of( reads[read_index] ); addr = settings[i].addr; low2 = settings[i].low2;
        }
        else if ( kind < 13 ) { xread = c.draw( count( eager ) ); reading = true; cmd = { 3, (u8) xread }; addr = eager[xread].addr; what = std::string( "reading " ) + eager[xread].name; }
        else { int i = c.draw( count( consts ) ); b.op( { 4, (u8) i } ); c.cover( 1000 + i ); if ( b.out.size() != 1 || b.out[0] != consts[i].value ) c.fail( "wrong constant", "%s is %d; the datasheet has %d for it", consts[i].name, b.out.empty() ? -1 : b.out[0], consts[i].value ); continue; }
        std::memcpy( want, before, 256 );
        // expected read-back
        int expect = -1; if ( read_index >= 0 ) { auto & s = settings[index_of( reads[read_index] )]; expect = ( before[s.addr] & mask( s.hi, s.lo ) ) >> s.lo; if ( s.low2 ) expect = expect << 2 | ( before[s.low2] & 3 ); }
        if ( xread >= 0 )
        {
            auto & x = eager[xread]; std::string nm = x.name; unsigned v = before[x.addr]; if ( x.width == 16 ) v |= before[x.addr + 1] << 8; expect = ( v & mask( x.hi, x.lo ) ) >> x.lo;
            if ( nm == "EE_ARM" ) expect = 1; if ( nm == "T0_TIMER" ) expect = ( b.c.d[Chip::TCCR0B] & 7 ) ? -1 : b.c.tcnt0(); if ( nm == "T1_TIMER" ) expect = ( b.c.d[Chip::TCCR1B] & 7 ) ? -1 : b.c.tcnt1(); if ( nm == "T1_ICR" ) expect = b.c.icr1(); if ( nm == "AC_STATE" ) expect = b.c.peek( 0x50 ) >> 5 & 1;
            if ( nm == "PIN_B" ) expect = b.c.pins( 0 ); if ( nm == "PIN_D4" ) expect = b.c.pins( 2 ) >> 4 & 1; if ( nm.substr( 0, 3 ) == "T0_" && nm[3] == 'F' ) expect = 0; if ( nm == "T1_FA" || nm == "T1_FB" || nm == "PWM_INIT" ) expect = 0;
        }
        // interrupts during it, whose handlers change other registers
        avr::Shots s( b ); std::vector<int> used; if ( c.chance( 1, 2 ) ) { u64 len = b.rehearse( cmd ); for ( int k = 1 + c.draw( 3 ); k--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {};
            for ( int i = 1 + c.draw( 2 ); i--; ) { u8 a = plain[c.draw( sizeof plain )]; if ( a == addr || a == low2 || a == also || a == addr + 1 ) continue; if ( reading && xread >= 0 && ( a == 0x25 || a == 0x2b ) ) continue; ++sc.cmd; sc.in.insert( sc.in.end(), { a, (u8) c.draw( 256 ), (u8) c.draw( 256 ) } ); }
            s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( "interrupt during a setting" ); } );
        } }
        b.on_store = [&]( u8 a, u8 v ) { if ( !b.in_main() ) want[a] = v; else if ( a == 0xbc && v & 0x80 ) flag_cleared = true; }; b.strobes.clear(); bool running0 = b.c.d[Chip::TCCR0B] & 7; (void) running0;
        int entered = 0; b.on_enter = [&]( int ) { ++entered; }; s.arm(); b.op( cmd ); auto out = b.out; b.on_enter = nullptr; b.op( { 99 } ); b.c.irq_count = ~0ull; b.c.inject = 0; b.on_store = nullptr;
        c.note( "%s%s", what.c_str(), s.next ? " (interrupted)" : "" ); c.cover( cmd[0] * 65536 + cmd[1] * 256 + ( cmd.size() > 2 ? cmd[2] : 0 ) ); for ( size_t i = 0; i < s.next; ++i ) c.cover( s.v[i].first ); c.h( b.c.cyc ); (void) judged;
        for ( auto & e : effect ) want[e.first] = ( want[e.first] & ~e.second.first ) | e.second.second; if ( !( want[0x43] & 0x80 ) ) want[0x43] = 0; want[0x6c] &= 0x7f; want[0x42] &= 3;
        if ( b.strobes != strobe ) c.fail( "wrong strobe", "%s forces compare on '%s' instead of '%s'", what.c_str(), b.strobes.c_str(), strobe.c_str() );
        u8 now[256]; snapshot( now );
        for ( int a = 0x20; a < 0xd0; ++a )
        {
            u8 m = config_bits( a ); if ( !m ) continue; if ( ( a == 0x86 || a == 0x87 ) ) { if ( addr == 0x80 || addr == 0x81 || low2 == 0x80 || low2 == 0x81 ) continue; int w = b.c.wgm1(); if ( !( w == 8 || w == 10 || w == 12 || w == 14 ) ) continue; }
            if ( a == 0xbb && addr != 0xbb ) continue; if ( ( a == 0x5c || a == 0x38 || a == 0x39 || a == 0x3a ) ) {}
            if ( ( now[a] ^ want[a] ) & m )
            {
                bool own = a == addr; for ( auto & e : effect ) own |= e.first == a;
                c.fail( own ? "wrong bits" : "other setting changed", "%s makes register %02x %02x (of the setting bits %02x) instead of %02x; it was %02x", what.c_str(), a, now[a] & m, m, want[a] & m, before[a] & m );
            }
        }
        if ( counter_at == 1 && b.c.tcnt0() != ( counter & 255 ) ) c.fail( "wrong bits", "%s makes the stopped counter %d", what.c_str(), b.c.tcnt0() ); if ( counter_at == 2 && b.c.tcnt1() != counter ) c.fail( "wrong bits", "%s makes the stopped counter %d", what.c_str(), b.c.tcnt1() );
        if ( !flag_cleared ) c.fail( "flag not cleared", "%s leaves the two-wire flag as it was", what.c_str() );
        if ( reading && addr == 0xbc && ( ( before[0xbc] ^ now[0xbc] ) & 0x90 ) ) expect = -1; // the bus moved meanwhile
        if ( reading && xread >= 0 && !std::strcmp( eager[xread].name, "EE_ARM" ) && entered ) expect = -1; // interrupted for longer than the four cycles
        if ( reading ) { int got = out.size() == 2 ? out[0] | out[1] << 8 : -1; if ( expect >= 0 && got != expect ) c.fail( "wrong read-back", "%s gives %d instead of %d", what.c_str(), got, expect ); }
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz; if ( n > 3 ) c.nontrivial = true;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M08";
    ck.rule = "A run is a history of library settings with drawn values (57 deferred and 54 immediate ones: timers, compare values, force-compare, external and pin-change interrupts, converter, comparator, two-wire, EEPROM, prescaler, PWM, LED and pins), read-backs (named constants too), registers overwritten by other software, pin and comparator changes, with interrupts at drawn instructions whose handlers change other registers; timers and converter run meanwhile. Oracle: a table of register, bits and constants transcribed from the datasheet; after every operation all setting bits of all registers 0x20-0xcf are as the table says; read-backs return what is there; only the addressed unit is strobed. Non-trivial: more than three operations; distinct by operations, values and interrupt positions.";
    ck.distinct_measure = "hash of operations, values and instruction offsets of interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and registers (instruction-level simulator)", "pins, comparator and analog inputs" };
    ck.assumptions = { "values are in the range of their setting", "handlers do not change the register being set", "flags and status bits are M04's, M05's and M06's subject" };
    ck.scenarios = { { "history", 400000, 12000000, avr::on_chip( history ) } };
    return dst_main( argc, argv, ck );
}
