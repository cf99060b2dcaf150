// Check M02: register field access touches only its field, whatever interrupts strike.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16;
static int const s8[36][2] = { {0,0},{1,0},{1,1},{2,0},{2,1},{2,2},{3,0},{3,1},{3,2},{3,3},{4,0},{4,1},{4,2},{4,3},{4,4},{5,0},{5,1},{5,2},{5,3},{5,4},{5,5},{6,0},{6,1},{6,2},{6,3},{6,4},{6,5},{6,6},{7,0},{7,1},{7,2},{7,3},{7,4},{7,5},{7,6},{7,7} };
static int const s16[24][2] = { {15,0},{0,0},{7,0},{15,8},{15,15},{8,8},{7,7},{8,7},{9,6},{11,4},{12,3},{14,1},{14,0},{15,1},{10,10},{5,2},{13,9},{15,14},{1,0},{9,0},{15,6},{8,0},{15,7},{14,14} };
static int const k8[12][3] = { {1,0,0},{1,0,3},{3,2,1},{3,2,2},{7,6,2},{7,6,0},{5,3,5},{6,0,0x55},{7,1,0x7f},{7,0,0xa5},{7,0,0},{4,1,9} };
static u8 const regs[4] = { 0x3e, 0x4a, 0xc6, 0x4b }; static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x24, 0x25, 0x27, 0x28, 0x2a, 0x2b, 0xc1 };
static unsigned mask( int hi, int lo ) { return ( ( 2u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ); }

struct Op
{
    std::vector<u8> cmd; char const * what; int addr = 0; int width = 8; unsigned change = 0, value = 0; int toggles = 0;    // new = ( old & ~change ) | value, ^ toggles
    bool read = false, bit_safe = false, oversize = false; int rhi = 0, rlo = 0; bool pin = false;
};
static Op pick( Ctx & c, bool wide )
{
    Op o; int kind = (int) c.draw( wide ? 5 : 8 );
    auto field_value = [&]( int hi, int lo ) -> unsigned { int w = hi - lo + 1; unsigned full = ( 2u << ( w - 1 ) ) - 1; unsigned v = c.draw( 4 ) == 0 ? full : c.draw( full + 1 ); if ( w > 1 && c.chance( 1, 8 ) ) { v = c.draw( wide ? 65536 : 256 ); o.oversize = v > full; } return v; };
    if ( wide )
    {
        o.addr = 0xc4; o.width = 16;
        if ( kind < 3 )
        {
            int i = c.draw( 24 ), hi = s16[i][0], lo = s16[i][1]; o.cmd = { 4, (u8) kind, (u8) i };
            if ( kind == 0 ) { o.what = "read"; o.read = true; o.rhi = hi; o.rlo = lo; } else { unsigned v = field_value( hi, lo ); avr::put( o.cmd, v, 2 ); o.what = kind == 1 ? "write" : "deferred write"; o.change = mask( hi, lo ); o.value = ( v << lo ) & o.change & 0xffff; }
        }
        else { int b = c.draw( 16 ), k = c.draw( 5 ); o.cmd = { 4, (u8)( 4 + k ), (u8) b }; static char const * n[] = { "set bit", "clear bit", "toggle bit", "write 1 to bit", "write 0 to bit" }; o.what = n[k]; if ( k == 2 ) o.toggles = 1 << b; else { o.change = 1 << b; o.value = k == 0 || k == 3 ? 1u << b : 0; } }
        return o;
    }
    if ( kind < 6 )
    {
        int r = c.draw( 4 ); o.addr = regs[r];
        if ( kind < 3 )
        {
            int i = c.draw( 36 ), hi = s8[i][0], lo = s8[i][1]; o.cmd = { (u8) r, (u8) kind, (u8) i };
            if ( kind == 0 ) { o.what = "read"; o.read = true; o.rhi = hi; o.rlo = lo; } else { unsigned v = field_value( hi, lo ) & 255; o.cmd.push_back( v ); o.what = kind == 1 ? "write" : "deferred write"; o.change = mask( hi, lo ); o.value = ( v << lo ) & o.change & 0xff; o.oversize &= kind == 2 || true; }
        }
        else if ( kind == 3 ) { int i = c.draw( 12 ); o.cmd = { (u8) r, 3, (u8) i }; o.what = "write of a constant"; o.change = mask( k8[i][0], k8[i][1] ); o.value = ( k8[i][2] << k8[i][1] ) & o.change; }
        else
        {
            int b = c.draw( 8 ), k = c.draw( 8 ); o.cmd = { (u8) r, (u8)( 4 + k ), (u8) b }; static char const * n[] = { "set bit", "clear bit", "toggle bit", "write 1 to bit", "write 0 to bit", "set set-only bit", "clear clear-by-0 bit", "trigger bit" }; o.what = n[k];
            if ( k == 2 ) o.toggles = 1 << b; else { bool on = k == 0 || k == 3 || k == 5 || k == 7; o.change = 1 << b; o.value = on ? 1u << b : 0; } o.bit_safe = r == 0 && k != 2;
        }
        return o;
    }
    static int const pins[8][2] = { { 0, 5 }, { 0, 0 }, { 1, 0 }, { 1, 5 }, { 2, 7 }, { 2, 2 }, { 0, 1 }, { 2, 4 } }; int p = c.draw( 8 ), k = c.draw( 20 ); int base = 0x23 + 3 * pins[p][0], b = pins[p][1];
    if ( k == 19 ) { static u8 const a[] = { 0x23, 0x28, 0x2a }; int i = c.draw( 3 ); o.cmd = { 13, (u8) i }; o.addr = a[i]; o.read = true; o.rhi = 7; o.what = "read port"; o.pin = i == 0; return o; }
    o.cmd = { (u8)( 5 + p ), (u8) k }; bool dir = k == 2 || k == 5 || k == 6 || k == 9 || k == 10 || k == 13 || k == 16 || k == 18; o.addr = k == 14 ? base : dir ? base + 1 : base + 2; o.what = "pin function"; bool on = k == 0 || k == 2 || k == 3 || k == 5 || k == 7 || k == 9;
    if ( k >= 17 ) { on = c.draw( 2 ); o.cmd.push_back( on ); }
    if ( k >= 14 && k <= 16 ) { o.read = true; o.rhi = o.rlo = b; o.pin = k == 14; } else if ( k >= 11 && k <= 13 ) o.toggles = 1 << b; else { o.change = 1 << b; o.value = on ? 1u << b : 0; o.bit_safe = k < 11; }
    return o;
}
static void fields( Ctx & c, bool wide )
{
    avr::Board b( c.draw( avr::firmwares() ) ); b.boot(); avr::u64 start = b.c.cyc; for ( int a = 0x20; a < 0xd0; ++a ) if ( a < 0x5d || a > 0x5f ) b.c.watch[a] = 1;
    int n = 1 + c.logu( 60 );
    for ( int p = 0; p < 3; ++p ) { b.c.ext[p] = c.draw( 256 ); b.c.driven[p] = c.draw( 256 ); }
    for ( int t = 0; t < n; ++t )
    {
        c.step(); if ( t == 0 || c.chance( 1, 4 ) ) for ( u8 a : plain ) b.c.poke( a, c.draw( 4 ) ? c.draw( 256 ) : c.draw( 2 ) ? 255 : 0 );
        Op o = pick( c, wide ); u64 len = b.rehearse( o.cmd ); u8 before[256], want[256]; std::memcpy( before, b.c.d, 256 ); std::memcpy( want, before, 256 );
        unsigned old = o.width == 16 ? before[o.addr] | before[o.addr + 1] << 8 : o.pin ? b.c.peek( o.addr ) : before[o.addr]; std::vector<unsigned> seen{ ( old & mask( o.rhi, o.rlo ) ) >> o.rlo };
        int nv = ( ( old & ~o.change ) | o.value ) ^ o.toggles; if ( !o.read ) { want[o.addr] = nv; if ( o.width == 16 ) want[o.addr + 1] = nv >> 8; }
        // interrupts at drawn instructions; their handlers change other registers, or other bits where that is promised to be safe
        avr::Shots s( b ); avr::u32 sent = 0; std::vector<int> used;
        for ( int k = (int) c.draw( 3 ); k--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 2 );
            for ( int i = 0; i < sc.cmd; ++i )
            {
                int a = c.chance( 1, 2 ) && ( o.bit_safe || o.read ) && o.width == 8 && !o.pin ? o.addr : plain[c.draw( sizeof plain )]; int keep = c.draw( 256 ), flip = c.draw( 256 );
                if ( a == o.addr || ( o.width == 16 && a == o.addr + 1 ) || ( o.pin && ( a == o.addr + 1 || a == o.addr + 2 ) ) ) { if ( o.read && o.width == 8 && !o.pin ) ; else if ( o.bit_safe ) { keep |= o.change; flip &= ~o.change; } else a = 0xc1; }
                sc.in.push_back( a ); sc.in.push_back( keep ); sc.in.push_back( flip );
            }
            s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; sent |= 1u << vec; c.fault( "interrupt during a field access" ); } );
        }
        std::vector<int> order; b.on_enter = [&]( int v ) { order.push_back( v ); }; int stores = 0, low = 0, high = 0, other = -1;
        b.on_store = [&]( u8 a, u8 ) { if ( !b.in_main() ) return; if ( a == o.addr && !o.read ) ++stores, ++low; else if ( o.width == 16 && a == o.addr + 1 && !o.read ) ++high; else other = a; };
        s.arm(); b.op( o.cmd ); auto out = b.out; b.op( { 99 } ); b.c.irq_count = ~0ull; b.op( { 99 } ); b.on_enter = nullptr; b.on_store = nullptr;
        unsigned cur = old;
        for ( int v : order ) for ( int i = 0; i < b.isr[v].cmd; ++i ) { int a = b.isr[v].in[3 * i], keep = b.isr[v].in[3 * i + 1], flip = b.isr[v].in[3 * i + 2]; want[a] = ( want[a] & keep ) ^ flip; if ( o.read && a == o.addr ) { cur = ( cur & keep ) ^ flip; if ( i == b.isr[v].cmd - 1 ) ; } if ( o.read && i == b.isr[v].cmd - 1 ) seen.push_back( ( cur & mask( o.rhi, o.rlo ) ) >> o.rlo ); }
        c.note( "%s at %02x: was %04x, %zu handlers, %d stores", o.what, o.addr, old, order.size(), stores ); c.cover( o.cmd[0] * 65536 + o.cmd[1] * 256 + ( o.cmd.size() > 2 ? o.cmd[2] : 0 ) ); for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc );
        if ( o.read )
        {
            unsigned got = avr::get( out, 0, o.width / 8 ); c.h( (u64) got );
            if ( std::find( seen.begin(), seen.end(), got ) == seen.end() ) c.fail( "wrong read", "reading bits %d..%d of register %02x holding %x gives %x", o.rhi, o.rlo, o.addr, old, got );
            if ( other >= 0 ) c.fail( "stray store", "reading register %02x stores to register %02x", o.addr, other );
        }
        else
        {
            if ( other >= 0 ) c.fail( "stray store", "%s (%d %d) of register %02x stores to register %02x", o.what, o.cmd[0], o.cmd[1], o.addr, other );
            if ( low != 1 || ( o.width == 16 && high != 1 ) ) c.fail( "not one store", "%s of register %02x makes %d stores", o.what, o.addr, low );
        }
        for ( int a = 0x20; a < 0xd0; ++a ) if ( a != 0x5d && a != 0x5e && a != 0x5f && a != 0x23 && a != 0x26 && a != 0x29 && a != 0x36 && a != 0x3b && a != 0x3c )   // not the pin levels and edge flags, which follow the pins
        {
            u8 m = 255; if ( o.oversize && ( a == o.addr || ( o.width == 16 && a == o.addr + 1 ) ) ) m = ~( a == o.addr ? o.change : o.change >> 8 );
            if ( ( b.c.d[a] ^ want[a] ) & m ) c.fail( a == o.addr ? "wrong bits" : "other register", "%s (bits %x, value %x) of register %02x holding %x: register %02x is %02x instead of %02x, %zu handlers ran", o.what, o.change | o.toggles, o.value, o.addr, old, a, b.c.d[a], want[a], order.size() );
        }
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M02";
    ck.rule = "A run performs drawn field accesses (all 36 shapes of an 8-bit register in bit-addressable, other I/O and extended address space, 24 shapes of 16-bit registers, single-bit set/clear/toggle/trigger, constants, deferred writes, LED and pin functions) from drawn register contents, with interrupts at drawn instruction boundaries whose handlers change other registers, or other bits of the same bit-addressable register while a single constant bit is set or cleared. Oracle: every I/O register of the chip afterwards equals a bit-level model, the field read is the field held, exactly one store reached the register and none another. Non-trivial: an interrupt struck; distinct by accesses and interrupt positions.";
    ck.distinct_measure = "hash of accesses and instruction offsets of the interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and registers (instruction-level simulator)", "interrupt sources" };
    ck.assumptions = { "a value too large for its field may set any bits of that field", "concurrent changes of the same register by handlers are only safe for single constant bits of bit-addressable registers" };
    ck.scenarios = { { "bytes", 200000, 8000000, avr::on_chip( []( Ctx & c ) { fields( c, false ); } ) }, { "words", 80000, 2500000, avr::on_chip( []( Ctx & c ) { fields( c, true ); } ) } };
    return dst_main( argc, argv, ck );
}
