// Check M01: atomic access never tears a multi-byte value shared with an interrupt.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip;
struct Obj { char const * name; int size; };
static Obj const objs[] = { { "8-bit", 1 }, { "16-bit", 2 }, { "16-bit signed", 2 }, { "32-bit", 4 }, { "32-bit signed", 4 }, { "float", 4 }, { "64-bit", 8 }, { "plain 16-bit", 2 }, { "plain 32-bit", 4 }, { "8-byte struct", 8 }, { "3-byte struct", 3 }, { "array element", 2 }, { "32-bit member", 4 }, { "16-bit member", 2 },
    { "OCR1A", 2 }, { "OCR1B", 2 }, { "TCNT1", 2 }, { "ICR1", 2 } };
constexpr int NOBJ = 18;
using Val = std::vector<avr::u8>;
struct Acc { int obj; bool write; Val val; int vec; size_t index; bool done = false; };

static Val value( Ctx & c, int obj, u64 & serial )
{
    Val v; u64 k = c.draw( 4 ); ++serial; for ( int i = 0; i < objs[obj].size; ++i ) v.push_back( k == 0 ? serial : k == 1 ? serial * 17 + i : k == 2 ? ( serial & 1 ? 0xff : 0 ) : c.draw( 256 ) );
    return v;
}
static void init( avr::Board & b, std::vector<Val> & m )
{
    b.c.poke( Chip::TCCR1B, 0x18 );      // ICR1 writable, counter stopped
    b.boot(); b.c.poke( Chip::TCCR1B, 0x18 ); m.clear(); for ( auto & o : objs ) m.push_back( Val( o.size, 0 ) );
}
static void shared( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); std::vector<Val> m; init( b, m ); std::vector<std::vector<Val>> worlds{ m }; /* all contents consistent with what has been observed */ u64 serial = 0; avr::u64 start = b.c.cyc;
    int const n = 2 + c.logu( 40 ); int hot = c.draw( NOBJ );
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int obj = c.chance( 1, 2 ) ? hot : (int) c.draw( NOBJ ); bool write = c.draw( 2 ); Val v; if ( write ) v = value( c, obj, serial );
        std::vector<avr::u8> cmd{ avr::u8( 2 * obj + write ) }; cmd.insert( cmd.end(), v.begin(), v.end() );
        u64 len = b.rehearse( cmd ); std::vector<Acc> acc; avr::Shots s( b ); std::vector<int> used; avr::u32 before2 = 0, sent = 0; bool past = false; std::vector<u64> srv;
        for ( int k = (int) c.draw( 4 ); k--; )
        {
            int vec = avr::vectors()[ c.draw( 6 ) ]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); u64 at = c.draw( len + 1 );
            auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 3 ); srv.push_back( 0 );
            for ( int i = 0; i < sc.cmd; ++i ) { Acc a; a.obj = c.chance( 2, 3 ) ? obj : (int) c.draw( NOBJ ); a.write = c.draw( 2 ); a.vec = vec; if ( a.write ) a.val = value( c, a.obj, serial ); sc.in.push_back( 2 * a.obj + a.write ); sc.in.insert( sc.in.end(), a.val.begin(), a.val.end() ); acc.push_back( a ); }
            s.add( at, [&,vec]{ b.c.inject |= 1u << vec; sent |= 1u << vec; if ( !past ) before2 |= 1u << vec; c.fault( "interrupt during an operation" ); } );
        }
        std::vector<int> order; b.on_enter = [&]( int v_ ) { order.push_back( v_ ); };
        int unset = 0; b.on_mark = [&]( avr::u8 k ) { if ( k == 2 ) { past = true; if ( !avr::i_flag( b.c ) ) unset = 1; } };
        s.arm(); b.op( cmd );
        if ( unset || !avr::i_flag( b.c ) ) c.fail( "interrupts left off", "interrupts are off after atomic %s of a %s value", write ? "write" : "read", objs[obj].name );
        Val got; if ( !write ) got = b.out;
        b.op( { 99 } ); s.b.c.irq_count = ~0ull;
        b.op( { 99 } );
        if ( b.c.inject ) c.fail( "interrupt not served", "a pending interrupt is not served" );
        for ( int v_ : used ) { bool was = sent >> v_ & 1; if ( b.isr[v_].served != was ) c.fail( "interrupt lost", "one interrupt was served %llu times", (unsigned long long) b.isr[v_].served ); }
        // replay in order: where did the main program's access take effect?
        std::vector<Acc*> seq; for ( int v_ : order ) { size_t at = 0; for ( auto & a : acc ) if ( a.vec == v_ ) { if ( !a.write ) { auto & o = b.isr[v_].out; int sz = objs[a.obj].size; a.val.assign( o.begin() + std::min( at, o.size() ), o.begin() + std::min( at + sz, o.size() ) ); at += sz; } seq.push_back( &a ); } }
        b.on_enter = nullptr; b.on_mark = nullptr; std::vector<std::vector<Val>> after;
        size_t base = 0; std::vector<size_t> cuts{ 0 }; for ( int v_ : order ) { for ( auto & a : acc ) base += a.vec == v_; cuts.push_back( base ); }   // handlers are not interrupted
        for ( auto & m : worlds ) for ( size_t p : cuts )
        {
            auto w = m; bool good = true; auto act = [&]{ if ( write ) w[obj] = v; else if ( got != w[obj] ) good = false; };
            for ( size_t i = 0; i <= seq.size() && good; ++i ) { if ( i == p ) act(); if ( i < seq.size() ) { if ( seq[i]->write ) w[seq[i]->obj] = seq[i]->val; else if ( w[seq[i]->obj] != seq[i]->val ) good = false; } }
            auto reg = [&]( int o, avr::u16 r ) { if ( r != avr::get( w[o], 0, 2 ) ) good = false; };
            if ( good ) { reg( 14, b.c.ocr1buf( 0 ) ); reg( 15, b.c.ocr1buf( 1 ) ); reg( 16, b.c.tcnt1() ); reg( 17, b.c.icr1() ); }
            if ( good && std::find( after.begin(), after.end(), w ) == after.end() ) after.push_back( w );
        }
        c.cover( obj * 2 + write ); for ( auto & x : s.v ) c.cover( x.first ); c.h( avr::get( got, 0, 8 ) ); c.h( b.c.cyc );
        c.note( "%s %s: %zu instructions, %zu interrupts, value %llx", write ? "write" : "read", objs[obj].name, (size_t) len, order.size(), (unsigned long long) avr::get( write ? v : got, 0, 8 ) );
        if ( after.empty() )
        {
            char buf[600]; int l = snprintf( buf, sizeof buf, "atomic %s of a %s value (%llx, was %llx) is torn:", write ? "write" : "read", objs[obj].name, (unsigned long long) avr::get( write ? v : got, 0, 8 ), (unsigned long long) avr::get( worlds[0][obj], 0, 8 ) );
            for ( auto * a : seq ) if ( l < 500 ) l += snprintf( buf + l, sizeof buf - l, " handler %s %s %llx;", a->write ? "wrote" : "read", objs[a->obj].name, (unsigned long long) avr::get( a->val, 0, 8 ) );
            snprintf( buf + l, sizeof buf - l, " OCR1A=%04x OCR1B=%04x TCNT1=%04x ICR1=%04x", b.c.ocr1buf( 0 ), b.c.ocr1buf( 1 ), b.c.tcnt1(), b.c.icr1() ); c.fail( "torn", "%s", buf );
        }
        worlds = after; if ( worlds.size() > 200 ) break;
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
// access expressions of other shapes: widening, constants, chains
static void shapes( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); std::vector<Val> m; init( b, m ); avr::u64 start = b.c.cyc;
    static int const codes[] = { 60, 61, 62, 63, 64, 65, 70, 71, 72 }; int n = 1 + c.draw( 8 );
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int code = codes[c.draw( 9 )]; std::vector<avr::u8> cmd{ (avr::u8) code }; avr::u16 x = c.draw( 65536 ); avr::u8 y = x;
        if ( code == 60 || code == 65 ) cmd.push_back( y ); else if ( code <= 62 || code == 64 ) avr::put( cmd, x, 2 );
        u64 len = b.rehearse( cmd ); avr::Shots s( b ); int vec = avr::vectors()[c.draw( 6 )]; bool shot = c.chance( 3, 4 ), sent = false; avr::u32 iv = 0; int iobj = 0; bool iw = c.draw( 2 );
        auto & sc = b.isr[vec]; sc = {};
        if ( shot ) { static int const targets[] = { 1, 3, 4, 7, 8, 14, 15, 16, 17 }; iobj = targets[c.draw( 9 )]; sc.cmd = 1; iv = 0x1010101u * ( 1 + c.draw( 200 ) ); sc.in.push_back( 2 * iobj + iw ); if ( iw ) avr::put( sc.in, iv, objs[iobj].size ); s.add( c.draw( len + 1 ), [&]{ b.c.inject |= 1u << vec; sent = true; c.fault( "interrupt during an operation" ); } ); }
        s.arm(); b.op( cmd ); auto out = b.out; if ( !avr::i_flag( b.c ) ) c.fail( "interrupts left off", "interrupts are off after an atomic access (expression %d)", code );
        b.op( { 99 } ); b.c.irq_count = ~0ull; b.op( { 99 } ); if ( b.c.inject || sc.served != sent ) c.fail( "interrupt lost", "an interrupt was served %llu times", (unsigned long long) sc.served );
        bool ran = sent; auto is = [&]( avr::u64 got, avr::u64 a, avr::u64 bb, bool two ) { return got == a || ( two && got == bb ); };
        auto mv = [&]( int o ) { return avr::get( m[o], 0, objs[o].size ); }; auto mset = [&]( int o, avr::u64 v ) { m[o].clear(); avr::put( m[o], v, objs[o].size ); };
        auto trunc = [&]( int o ) { return objs[o].size == 2 ? iv & 0xffff : iv; };
        auto read = [&]( int o ) { if ( o == 14 ) return (avr::u64) b.c.ocr1buf( 0 ); if ( o == 15 ) return (avr::u64) b.c.ocr1buf( 1 ); if ( o == 16 ) return (avr::u64) b.c.tcnt1(); if ( o == 17 ) return (avr::u64) b.c.icr1(); b.op( { avr::u8( 2 * o ) } ); return avr::get( b.out, 0, objs[o].size ); };
        auto written = [&]( int o, avr::u64 v ) { avr::u64 g = read( o ); if ( !is( g, v, trunc( o ), ran && iw && iobj == o ) ) c.fail( "torn", "expression %d left %llx in %s, not %llx", code, (unsigned long long) g, objs[o].name, (unsigned long long) v ); mset( o, g ); };
        int touched[3] = { -1, -1, -1 };
        switch ( code )
        {
            case 60: written( 3, y ); touched[0] = 3; break; case 61: written( 4, (avr::u32)(int)(short) x ); touched[0] = 4; break;
            case 62: written( 1, x ); written( 3, 0xdeadbeef ); written( 14, x ); touched[0] = 1; touched[1] = 3; touched[2] = 14; break;
            case 63: { avr::u64 a = avr::get( out, 0, 2 ), d = avr::get( out, 2, 2 ); if ( !is( a, mv( 1 ), trunc( 1 ), ran && iw && iobj == 1 ) || !is( d, mv( 7 ), trunc( 7 ), ran && iw && iobj == 7 ) ) c.fail( "torn", "two reads gave %llx and %llx", (unsigned long long) a, (unsigned long long) d ); break; }
            case 64: { bool a = mv( 1 ) > x, d = ran && iw && iobj == 1 ? trunc( 1 ) > x : a; if ( out.empty() || ( out[0] != a && out[0] != d ) ) c.fail( "torn", "comparison of an atomically read value is wrong" ); break; }
            case 65: { avr::u64 g = read( 8 ); if ( !( g == mv( 3 ) || ( ran && iw && ( ( iobj == 3 && g == iv ) || ( iobj == 8 && g == iv ) ) ) ) ) c.fail( "torn", "copied value is %llx, not %llx", (unsigned long long) g, (unsigned long long) mv( 3 ) ); mset( 8, g ); mset( 0, y ); touched[0] = 8; break; }
            case 70: written( 14, 0x3ff ); touched[0] = 14; break; case 71: written( 15, 0x1200 ); touched[0] = 15; break; case 72: written( 1, 0xa55a ); touched[0] = 1; break;
        }
        if ( ran && iw && iobj != touched[0] && iobj != touched[1] && iobj != touched[2] ) { mset( iobj, trunc( iobj ) ); if ( iobj >= 14 && read( iobj ) != mv( iobj ) ) c.fail( "torn", "a handler's write of %s was disturbed", objs[iobj].name ); }
        if ( ran && !iw && sc.out.size() != (size_t) objs[iobj].size ) c.fail( "interrupt lost", "a handler did not run to its end" );
        c.cover( code * 64 + iobj ); for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc ); for ( auto o : out ) c.h( (u64) o );
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
// the running 16-bit counter
static void counter( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); std::vector<Val> m; init( b, m ); avr::u64 start = b.c.cyc; u64 serial = 0;
    static avr::u8 const clk[] = { 1, 2, 3 }; int mode = c.draw( 3 ); b.c.poke( Chip::TCCR1A, mode == 2 ? 2 : 0 ); b.c.poke( Chip::TCCR1B, ( mode ? 0x18 : 0 ) | clk[c.draw( 3 )] ); avr::u16 top = mode ? 0x0180 + c.draw( 0x300 ) : 0xffff; if ( mode ) b.c.poke16( Chip::ICR1L, top );
    int n = 1 + c.draw( 20 ); m[17].clear(); avr::put( m[17], mode ? top : 0, 2 ); avr::u16 ocr[2] = { 0, 0 };
    for ( int t = 0; t < n; ++t )
    {
        c.step(); if ( c.chance( 1, 2 ) ) { avr::u16 near = c.draw( 2 ) ? ( c.draw( top >> 8 ) + 1 ) * 256 - c.draw( 48 ) : top - c.draw( 48 ); b.c.poke16( Chip::TCNT1L, near ); }
        int what = c.draw( 3 ); std::vector<avr::u8> cmd; avr::u16 v = c.draw( 65536 ); if ( what == 0 ) cmd = { 32 }; else { cmd = { avr::u8( what == 1 ? 29 : 31 ) }; avr::put( cmd, v, 2 ); }
        u64 len = b.rehearse( cmd ); avr::Shots s( b ); int vec = avr::vectors()[c.draw( 6 )]; auto & sc = b.isr[vec]; sc = {}; int io = -1; avr::u16 iv = 0;
        if ( c.chance( 3, 4 ) ) { io = 14 + c.draw( 3 ); bool iw = io != 16; sc.cmd = 1; sc.in.push_back( 2 * io + iw ); iv = c.draw( 65536 ); if ( iw ) avr::put( sc.in, iv, 2 ); s.add( c.draw( len + 1 ), [&]{ b.c.inject |= 1u << vec; c.fault( "interrupt during an operation" ); } ); }
        // the counter's values while the operation runs
        std::vector<avr::u16> seen; avr::u16 lo = 0, hi = 0; b.on_mark = [&]( avr::u8 k ) { ( k == 1 ? lo : hi ) = b.c.tcnt1(); };
        s.arm(); b.op( cmd ); auto out = b.out; b.op( { 99 } ); b.c.irq_count = ~0ull; b.op( { 99 } ); b.on_mark = nullptr;
        if ( what == 0 )
        {
            avr::u16 g = avr::get( out, 0, 2 ); bool in = lo <= hi ? lo <= g && g <= hi : ( g >= lo && g <= top ) || g <= hi;
            c.note( "counter read %04x between %04x and %04x", g, lo, hi ); if ( !in ) c.fail( "torn", "the counter was read as %04x while it ran from %04x to %04x", g, lo, hi );
        }
        else { ocr[what - 1] = v; }
        if ( io == 14 || io == 15 ) { if ( what && io == 13 + what ) { if ( sc.served && ( b.c.ocr1buf( what - 1 ) == v || b.c.ocr1buf( what - 1 ) == iv ) ) ocr[what - 1] = b.c.ocr1buf( what - 1 ); } else if ( sc.served ) ocr[io - 14] = iv; }
        for ( int i = 0; i < 2; ++i ) if ( b.c.ocr1buf( i ) != ocr[i] ) c.fail( "torn", "OCR1%c received %04x, not %04x", 'A' + i, b.c.ocr1buf( i ), ocr[i] );
        if ( mode && b.c.icr1() != top ) c.fail( "torn", "ICR1 changed to %04x", b.c.icr1() );
        c.cover( what * 4 + io ); for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc ); (void) serial;
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M01";
    ck.rule = "A run boots the firmware on the simulated chip and performs drawn atomic reads and writes of shared variables, structures and 16-bit timer registers; up to three interrupts strike at drawn instruction boundaries of each operation, their handlers reading and writing the same and other values (all 16-bit timer registers share one temporary byte). Oracle: the main program's access must take effect at one single point between handlers (linearisation over all points), registers must hold exactly the value given, interrupts are on after each access, each is served exactly once. Two builds (-O2 as the project, -Os). Non-trivial: an interrupt struck; distinct by operations and interrupt positions.";
    ck.distinct_measure = "hash of operations and instruction offsets of the interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++", "avr-libc and libgcc" }; ck.stub = { "ATmega328P core and peripherals (instruction-level simulator)", "interrupt sources" };
    ck.assumptions = { "interrupts are on when an atomic access starts (documented simplification)", "the simulator's timing follows the datasheet" };
    ck.scenarios = { { "shared", 200000, 8000000, avr::on_chip( shared ) }, { "shapes", 60000, 2000000, avr::on_chip( shapes ) }, { "counter", 60000, 2000000, avr::on_chip( counter ) } };
    return dst_main( argc, argv, ck );
}
