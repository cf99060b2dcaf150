// Check M09: EEPROM programming through the library, with power cuts, resets and interrupts anywhere.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
struct Write { int by; u16 a; u8 v; int mode; };
struct Store : avr::Board
{
    using Board::Board; std::vector<Write> begun; u8 shadow[1024]; bool programming = false; Write current{}; u64 finished = 0; int asked = -1, holds = -1;
    void io_written( u8 a, u8 v ) override { if ( a == Chip::EECR && ( v & 1 ) && asked >= 0 && nest.empty() && !dry ) holds = programming ? -2 : shadow[asked]; }
    void ee_begin( u16 a, u8 v, int m ) override { if ( dry ) return; current = { nest.empty() ? 0 : nest.back(), a, v, m }; begun.push_back( current ); programming = true; }
    void ee_end( u16, u8 ) override { if ( dry ) return; u8 & s = shadow[current.a]; s = current.mode == 0 ? current.v : current.mode == 1 ? 0xff : s & current.v; programming = false; ++finished; }
};
static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x24, 0x25, 0x27, 0x28, 0x2a, 0x2b };
static char const * const modes[] = { "erase and write", "erase", "write" };
static void cells( Ctx & c, int style )     // 0: two-step enable guarded, 1: handlers use the EEPROM too, 2: the ready interrupt programs a list
{
    Store b( c.draw( avr::firmwares() ) ); b.c.ee_scale = c.draw( 8 ) ? 200 + c.draw( 2000 ) : 10; int n = 1 + c.logu( 80 ); u64 salt = c.draw( 1u << 30 ), start = 0, total = 0; bool bulk = c.draw( 4 );
    for ( int i = 0; i < 1024; ++i ) b.shadow[i] = b.c.ee[i] = bulk ? mix64( i * 77 + salt ) : 0xff; b.boot(); b.c.watch[Chip::EECR] = 1;
    for ( u8 a : plain ) b.c.poke( a, mix64( salt + a ) );
    u16 hot[4]; for ( auto & h : hot ) h = c.draw( 1024 ); auto address = [&]() -> u16 { switch ( c.draw( 8 ) ) { case 0: return c.draw( 1024 ); case 1: return ( hot[0] + 1 ) & 1023; case 2: return hot[0] ^ 256; case 3: return hot[0] ^ 512; default: return hot[c.draw( 4 )]; } };
    int mode = 0; bool list = false; std::vector<Write> todo; size_t listed = 0;
    auto same = [&]( char const * when ) { for ( int i = 0; i < 1024; ++i ) if ( b.c.ee[i] != b.shadow[i] ) c.fail( "cell changed", "%s cell %03x holds %02x instead of %02x", when, i, b.c.ee[i], b.shadow[i] ); };
    for ( int t = 0; t < n; ++t )
    {
        c.step(); std::vector<u8> cmd; std::vector<Write> mine; int want = -1; std::string what; int k = c.draw( 8 ); size_t begun0 = b.begun.size(); bool waits = false;
        if ( style == 2 )
        {
            if ( !list || ( !listed && k < 5 ) )
            {
                if ( list ) { }
                int m = c.draw( 3 ), len = 1 + c.draw( 8 ); cmd = { 5, (u8) m, (u8) len }; mode = m; todo.clear(); listed = 0; for ( int i = 0; i < len; ++i ) { u16 a = address(); u8 v = c.draw( 256 ); avr::put( cmd, a, 2 ); cmd.push_back( v ); todo.push_back( { Chip::V_EE, a, v, m } ); }
                list = true; what = "list of " + std::to_string( len ) + " bytes, mode " + modes[m];
            }
            else if ( k < 5 ) { cmd = { 6 }; waits = true; what = "wait for the list"; }
            else if ( k < 7 ) { cmd = { 9, (u8) c.draw( 256 ) }; what = "other work"; }
            else { cmd = { 7 }; what = "progress"; }
        }
        else if ( k < 5 ) { int m = c.draw( 3 ); u16 a = address(); u8 v = c.draw( 256 ); cmd = { (u8)( style ? 3 : 1 ), (u8) m }; avr::put( cmd, a, 2 ); cmd.push_back( v ); mine = { { 0, a, v, m } }; what = "program cell " + std::to_string( a ) + " with " + std::to_string( v ) + ", " + modes[m]; mode = m; }
        else if ( k < 7 ) { u16 a = address(); cmd = { (u8)( style ? 4 : 2 ) }; avr::put( cmd, a, 2 ); want = a; what = "read cell " + std::to_string( a ); }
        else { cmd = { 9, (u8) c.draw( 256 ) }; what = "other work"; }
        // disturbances
        avr::Shots s( b ); std::vector<int> used; u64 len = 0, cycles = 0; bool cut = c.chance( 1, 6 ), disturbed = c.chance( 1, 2 ); std::vector<std::pair<int,Write>> theirs;
        if ( cut || disturbed ) { u64 c0 = b.c.cyc; len = b.rehearse( cmd, nullptr, 3000000 ); (void) c0; }
        for ( int i = 0; i < 26; ++i ) { b.isr[i].out.clear(); }
        if ( disturbed ) for ( int i = 1 + c.draw( 3 ); i--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {};
            if ( style == 1 && c.draw( 2 ) ) { u16 a = address(); if ( c.draw( 2 ) ) { sc.cmd = 0x80; avr::put( sc.in, a, 2 ); } else { sc.cmd = 0x81; int m = c.draw( 3 ); u8 v = c.draw( 256 ); sc.in.push_back( m ); avr::put( sc.in, a, 2 ); sc.in.push_back( v ); theirs.push_back( { vec, { vec, a, v, m } } ); } }
            else { sc.cmd = 1 + c.draw( 6 ); for ( int j = 0; j < sc.cmd; ++j ) sc.in.insert( sc.in.end(), { plain[c.draw( sizeof plain )], (u8) c.draw( 256 ), (u8) c.draw( 256 ) } ); }
            u64 at = c.draw( 2 ) && len > 60 ? len - 1 - c.draw( 60 ) : c.draw( len + 1 ); s.add( at, [&,vec]{ b.c.inject |= 1u << vec; c.fault( b.c.busy_eeprom() ? "interrupt while a cell is being programmed" : "interrupt" ); } );
        }
        u64 cut_at = 0; if ( cut ) cut_at = c.draw( 2 ) && len > 40 ? len - 1 - c.draw( 40 ) : c.draw( len + 1 ); bool reset_only = cut && c.draw( 3 ) == 0, was_cut = false; if ( cut ) s.add( cut_at, [&]{ b.c.stop = true; was_cut = true; } );
        std::vector<std::pair<u16,int>> read_by;    // what handlers read: expected at the time
        u8 seen_before[1024]; if ( style == 1 ) std::memcpy( seen_before, b.shadow, 1024 ); bool handler_wrong = false; char text[200] = "";
        b.on_leave = [&] {};
        u8 control = b.c.d[Chip::EECR] & 0x38; b.asked = want; b.holds = -1; u64 cyc0 = b.c.cyc; bool overlap = false;
        int taken = -1; b.on_enter = [&]( int v ) { taken = v; };
        b.on_leave = [&] { auto & sc = b.isr[taken]; if ( style != 1 || ( sc.cmd & 0x80 ) == 0 || sc.out.empty() ) return; u16 a = sc.cmd == 0x80 ? sc.in[0] | sc.in[1] << 8 : 0; if ( sc.cmd == 0x80 && sc.out[0] && sc.out[1] != b.shadow[a] ) handler_wrong = true, std::snprintf( text, sizeof text, "a handler reads cell %d as %d; it holds %d", a, sc.out[1], b.shadow[a] ); };
        s.arm(); b.in = cmd; b.ip = 0; b.out.clear(); u64 bound = 3000000; b.c.run( bound ); bool ended = b.c.stop && !was_cut; (void) overlap;
        if ( !b.c.stop ) c.fail( "hangs", "%s does not come to an end", what.c_str() );
        auto out = b.out; b.asked = -1; if ( ended ) { if ( b.ip != cmd.size() ) throw avr::Fault{ "the program took less than it was given" }; b.c.irq_count = ~0ull; b.on_irq = nullptr; b.op( { 9, 1 }, 3000000 ); b.c.inject = 0; }
        b.on_enter = nullptr; b.on_leave = nullptr; total += b.c.cyc - cyc0;
        c.note( "%s%s%s", what.c_str(), s.next > ( was_cut ? 1u : 0u ) ? " (interrupted)" : "", was_cut ? reset_only ? ", cut off by a reset" : ", cut off by a power failure" : "" ); c.cover( cmd[0] + 16 * ( was_cut ? 1 + reset_only : 0 ) + 64 * mode ); for ( size_t i = 0; i < s.next; ++i ) c.cover( s.v[i].first ); c.h( b.c.cyc );
        if ( handler_wrong ) c.fail( "wrong read", "%s", text );
        // what was programmed
        std::vector<Write> expect = mine; size_t done_mine = 0;
        for ( size_t i = begun0; i < b.begun.size(); ++i )
        {
            auto & w = b.begun[i]; Write e{}; bool known = false;
            if ( w.by == 0 && done_mine < mine.size() ) { e = mine[done_mine++]; known = true; }
            else if ( w.by == Chip::V_EE && listed < todo.size() ) { e = todo[listed++]; known = true; }
            else for ( size_t j = 0; j < theirs.size(); ++j ) if ( theirs[j].first == w.by ) { e = theirs[j].second; known = true; theirs.erase( theirs.begin() + j ); break; }
            if ( !known ) c.fail( "programmed again", "%s: cell %03x is programmed although nothing (more) was to be", what.c_str(), w.a );
            if ( w.a != e.a || w.v != e.v || w.mode != e.mode ) c.fail( "wrong programming", "%s: cell %03x gets %02x by mode %d instead of cell %03x %02x by mode %d", what.c_str(), w.a, w.v, w.mode, e.a, e.v, e.mode );
        }
        if ( ended && done_mine < mine.size() ) c.fail( "not programmed", "%s comes to its end without the cell being programmed", what.c_str() );
        if ( ended ) for ( auto & x : theirs ) { auto & o = b.isr[x.first].out; if ( !o.empty() && o[0] ) c.fail( "not programmed", "%s: a handler's cell is not programmed", what.c_str() ); }
        if ( ended && waits && listed < todo.size() ) c.fail( "not programmed", "only %zu of %zu listed cells are programmed when the list is done", listed, todo.size() );
        if ( ended && cmd[0] == 6 ) { todo.clear(); listed = 0; list = false; }
        if ( ended && cmd[0] == 7 && out[0] > listed ) { c.fail( "wrong progress", "%zu cells programmed, %d counted", listed, out[0] ); }
        if ( ended && want >= 0 ) { int got = out.empty() ? -1 : out[0]; if ( got != b.holds ) c.fail( "wrong read", "cell %03x reads %02x; it holds %02x", want, got, b.holds ); }
        if ( ended && want >= 0 && style == 0 && ( b.c.d[Chip::EECR] & 0x38 ) != control ) c.fail( "settings changed", "%s changes the EEPROM's settings from %02x to %02x", what.c_str(), control, b.c.d[Chip::EECR] & 0x38 );
        if ( ended && mine.size() ) { u8 m = b.c.d[Chip::EECR] >> 4 & 3; if ( m != mine[0].mode && theirs.empty() && style == 0 ) c.fail( "wrong programming", "mode bits are %d after %s", m, what.c_str() ); }
        if ( was_cut )
        {
            if ( reset_only ) { c.fault( b.c.busy_eeprom() ? "reset while a cell is being programmed" : "reset" ); b.c.ee_complete(); }
            else
            {
                u8 left = c.draw( 256 ); u16 a = b.c.ee_cell(); if ( b.c.busy_eeprom() ) { b.c.ee_break( left ); b.shadow[a] = left; c.fault( "power failure while a cell is being programmed" ); } else c.fault( "power failure" );
                for ( int i = 0; i <= avr::ram_top; ++i ) if ( i < 32 || i >= 0x100 ) b.c.d[i] = mix64( salt + i + t );
            }
            b.programming = false; b.on_irq = nullptr; b.c.inject = 0; total += 0; b.boot(); todo.clear(); listed = 0; list = false;
        }
        same( was_cut ? "after the failure" : ( "after " + what ).c_str() );
    }
    c.simtime += total / avr::clock_hz; if ( n > 3 ) c.nontrivial = true; (void) start;
}
static void guarded( Ctx & c ) { cells( c, 0 ); }
static void shared( Ctx & c ) { cells( c, 1 ); }
static void list( Ctx & c ) { cells( c, 2 ); }
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M09";
    ck.rule = "A run is a history of cells programmed (three modes) and read through the library, in one of three styles: only the two-step enable guarded against interrupts; the whole operation guarded and handlers using the EEPROM too; the ready interrupt programming a list. Interrupts strike at drawn instructions (favouring the end of the operation, where the two-step enable is); power fails at a drawn instruction, leaving a cell being programmed with anything and losing registers and memory, or a reset restarts the processor while the programming goes on. Oracle: what the simulated EEPROM is told to program, and when, must be exactly what was commanded, once; all 1024 cells are compared with a shadow after every operation and restart. Non-trivial: more than three operations; distinct by operations, cut points and interrupt positions.";
    ck.distinct_measure = "hash of operations, modes, instruction offsets of interrupts and cuts, and cycle counts";
    ck.real = { "mem::eeprom of mcu/atmega328.hpp and mcu/register.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and EEPROM (instruction-level simulator; programming time shortened)", "the programs around the library calls" };
    ck.assumptions = { "the hardware programs a cell on the write enable only within four cycles of the master enable, when idle (datasheet)", "a cell whose programming is cut off by a power failure may hold anything", "handlers that use the EEPROM are held off while the main program does" };
    ck.scenarios = { { "guarded", 100000, 6000000, avr::on_chip( guarded ) }, { "shared", 100000, 6000000, avr::on_chip( shared ) }, { "list", 60000, 4000000, avr::on_chip( list ) } };
    return dst_main( argc, argv, ck );
}
