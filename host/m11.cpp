// Check M11: the PWM output emits only commanded duty cycles.
#include "../avr/board.hpp"
#include <deque>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
constexpr u64 period = 1024;
struct Scope : avr::Board { using Board::Board; std::deque<std::pair<u64,bool>> edges; void pin( char p, int bit, bool l ) override { if ( !dry && p == 'B' && bit == 1 ) edges.push_back( { c.cyc - c.late, l } ); } };
struct Write { u64 from, to; u16 v; };
static void output( Ctx & c )
{
    Scope b( c.draw( avr::firmwares() ) ); int lives = 1 + c.logu( 3 ); u64 simulated = 0; bool nontrivial = false;
    for ( int life = 0; life < lives; ++life )
    {
        bool last_life = life + 1 == lives; b.boot(); b.edges.clear(); b.c.inject = 0;
        // whatever state the timer was left in
        u8 com_b = c.draw( 4 ), cap = c.draw( 4 ), ddr = c.draw( 256 ), port = c.draw( 256 ); bool prior = c.draw( 4 );
        if ( prior )
        {
            b.c.poke( Chip::DDRB, ddr ); b.c.poke( Chip::PORTB, port ); b.c.poke( Chip::TCCR1A, c.draw( 4 ) << 6 | com_b << 4 | c.draw( 4 ) ); b.c.poke( Chip::TCCR1B, cap << 6 | c.draw( 4 ) << 3 | c.draw( 6 ) ); auto any = [&]{ return c.draw( 2 ) ? c.draw( 65536 ) : c.draw( 1024 ); };
            b.c.poke16( 0x84, any() ); b.c.poke16( 0x88, any() ); b.c.poke16( 0x8a, any() ); b.c.poke16( 0x86, any() ); if ( c.draw( 4 ) == 0 ) b.c.poke( Chip::GTCCR, c.draw( 2 ) ? 0x81 : 0x80 ); if ( c.draw( 3 ) == 0 ) b.c.poke( Chip::TIMSK1, c.draw( 256 ) & 0x27 ); c.fault( "timer left in any state" );
            std::vector<u8> w{ 3 }; avr::put( w, c.logu( 3000 ), 2 ); b.op( w, 4000000 ); b.c.poke( Chip::TIMSK1, 0 ); if ( c.draw( 4 ) ) for ( int i = 0; i < 2; ++i ) b.op( { 3, 1, 0 } ); }
        else com_b = cap = ddr = port = 0;
        std::deque<Write> writes; u64 zero = 0, judged_to = 0, ready = 0; bool running = false; u16 in_handlers = 0; u64 due = 0; bool owed = false; (void) in_handlers;
        int n = 2 + c.logu( 30 ); u64 stop_cut = 0; (void) stop_cut; bool cut = false;
        for ( int t = 0; t < n && !cut; ++t )
        {
            c.step(); std::vector<u8> cmd; std::vector<u16> vals; std::string what; int k = t == 0 ? 9 : c.draw( 10 ); static u16 const odd[] = { 0, 1, 3, 255, 256, 257, 511, 512, 0x2ff, 0x300, 1022, 1023 };
            auto val = [&]() -> u16 { switch ( c.draw( 3 ) ) { case 0: return odd[c.draw( 12 )]; case 1: { u16 p = writes.empty() ? 0 : writes.back().v; return ( p ^ ( c.draw( 2 ) ? 0x100 : 0x2ff ) ) & 0x3ff; } default: return c.draw( 1024 ); } };
            if ( k < 3 ) { cmd = { 3 }; avr::put( cmd, c.draw( 4 ) ? c.logu( 1200 ) : 200 + c.logu( 800 ), 2 ); what = "nothing for a while"; }
            else if ( k < 7 ) { vals = { val() }; cmd = { 2 }; avr::put( cmd, vals[0], 2 ); what = "write " + std::to_string( vals[0] ); }
            else if ( k == 7 ) { int m = 1 + c.draw( 6 ); cmd = { 4, (u8) m }; for ( int i = 0; i < m; ++i ) { u16 v = val(); vals.push_back( v ); avr::put( cmd, v, 2 ); } what = "write " + std::to_string( m ) + " values in a row"; }
            else if ( k == 8 ) { bool hi = c.draw( 2 ); cmd = { u8( 5 + hi ) }; vals = { u16( hi ? 1023 : 3 ) }; what = hi ? "write the maximum" : "write the minimum"; }
            else { cmd = { 1 }; what = "initialise"; if ( t && !c.draw( 3 ) ) what += " again"; }
            avr::Shots s( b ); std::vector<int> used; bool hit = c.chance( 2, 3 ), dies = !last_life && t && c.chance( 1, n ); u64 len = 0; if ( hit || dies ) len = b.rehearse( cmd, nullptr, 4000000 ); bool waits = false;
            if ( hit ) for ( int i = 1 + c.draw( 3 ); i--; )
            {
                int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 4 );
                for ( int j = 0; j < sc.cmd; ++j ) { int w = c.draw( 9 ); u16 v = w == 7 ? c.logu( 1500 ) : c.draw( 65536 ); if ( w == 7 && v > 300 ) waits = true; sc.in.push_back( w ); avr::put( sc.in, v, 2 ); }
                s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( "interrupt using the 16-bit registers" ); } );
            }
            if ( dies ) s.add( c.draw( len + 1 ), [&]{ b.c.stop = true; cut = true; } );
            size_t vi = 0; u64 from = 0; b.on_mark = [&]( u8 m ) { if ( m == 1 ) { from = b.c.cyc; if ( vi < vals.size() ) writes.push_back( { from, ~0ull, vals[vi] } ); } else if ( m == 2 && vi < vals.size() ) { writes.back().to = b.c.cyc; ++vi; } };
            u8 old_a = b.c.d[Chip::TCCR1A], old_b = b.c.d[Chip::TCCR1B], old_ddr = b.c.d[Chip::DDRB]; u64 t0 = b.c.cyc; (void) t0; u16 before_init = b.c.ocr1buf( 0 );
            s.arm(); b.in = cmd; b.ip = 0; b.out.clear(); b.c.run( 4000000 ); if ( !b.c.stop ) c.fail( "hangs", "%s does not come to an end", what.c_str() ); b.c.irq_count = ~0ull; b.on_irq = nullptr; b.on_mark = nullptr;
            if ( !cut ) { b.op( { 3, 1, 0 } ); b.c.inject = 0; if ( vi != vals.size() ) c.fail( "hangs", "not every value was written" ); }
            c.note( "%s%s%s", what.c_str(), s.next ? " (interrupted)" : "", cut ? ", cut off by a reset" : "" ); c.cover( k * 1024 + ( vals.empty() ? 0 : vals[0] ) ); for ( size_t i = 0; i < s.next; ++i ) c.cover( s.v[i].first ); c.h( b.c.cyc ); (void) waits;
            if ( cut ) { c.fault( "reset at a drawn instruction" ); break; }
            if ( cmd[0] == 1 )
            {
                u8 a = b.c.d[Chip::TCCR1A], bb = b.c.d[Chip::TCCR1B]; if ( a >> 6 != 2 || b.c.wgm1() != 7 || ( bb & 7 ) != 1 ) c.fail( "not initialised", "after initialisation TCCR1A is %02x and TCCR1B %02x: not a non-inverted 10-bit fast PWM at full speed", a, bb );
                if ( !( b.c.d[Chip::DDRB] & 2 ) ) c.fail( "not initialised", "the output pin is not an output after initialisation" );
                if ( ( a ^ old_a ) & 0x30 || ( bb ^ old_b ) & 0xc0 || ( b.c.d[Chip::DDRB] ^ old_ddr ) & 0xfd ) c.fail( "other setting changed", "initialisation changes TCCR1A %02x to %02x, TCCR1B %02x to %02x, DDRB %02x to %02x", old_a, a, old_b, bb, old_ddr, b.c.d[Chip::DDRB] );
                if ( !ready ) { ready = b.c.cyc; writes.push_front( { 0, ready, before_init } ); }
            }
            // pulses
            if ( ready && !running )
            {
                // the first full period begins at the first rising edge at the counter's bottom
                while ( b.edges.size() > 1 && b.edges[0].first < ready ) b.edges.pop_front();
                while ( !b.edges.empty() && !( b.edges[0].second && b.edges[0].first >= ready ) ) b.edges.pop_front();
                if ( !b.edges.empty() ) { running = true; zero = judged_to = b.edges[0].first; }
                else { u16 v = writes.back().v; bool settled = b.c.cyc > std::max( ready, writes.back().to ) + 65536 + 3 * period; if ( v < 1023 && settled ) c.fail( "no pulses", "the output does not move although %d was written", v ); }
            }
            while ( running && judged_to + period + 8 <= b.c.cyc )
            {
                u64 S = judged_to, E = S + period; u64 high = 0, at = S, rises = 0; bool level = true; // high at its start, unless nothing rises there
                // level just before S is implied; edges at S: [low] high
                std::deque<std::pair<u64,bool>> mine; while ( !b.edges.empty() && b.edges[0].first < E ) { mine.push_back( b.edges[0] ); b.edges.pop_front(); }
                bool rose = false; for ( auto & e : mine ) { if ( e.first == S ) { level = e.second; rose |= e.second; continue; } if ( level ) high += e.first - at; at = e.first; if ( e.second && !level ) ++rises; level = e.second; } if ( level ) high += E - at; (void) rose;
                // which values may be in force
                std::vector<u16> ok; for ( size_t i = 0; i < writes.size(); ++i ) { bool superseded = i + 1 < writes.size() && writes[i + 1].to <= S - std::min( S, period ); if ( !superseded && writes[i].from <= S + 4 ) ok.push_back( writes[i].v ); }
                bool fine = false; for ( u16 v : ok ) fine |= high == std::min<u64>( v + 1, period );
                c.note( "  period at %llu: %llu of %llu", (unsigned long long)( S - zero ), (unsigned long long) high, (unsigned long long) period ); c.h( high );
                if ( rises || !fine ) c.fail( rises ? "more than one pulse" : "wrong pulse", "a period has %llu cycles high%s; the values in force are %d to %d (%zu)", (unsigned long long) high, rises ? " in more than one pulse" : "", ok.empty() ? -1 : ok.front(), ok.empty() ? -1 : ok.back(), ok.size() );
                judged_to = E; nontrivial = true; while ( writes.size() > 1 && writes[1].to + 2 * period <= S ) writes.pop_front();
            }
            (void) due; (void) owed;
        }
        simulated += b.c.cyc;
    }
    c.simtime += simulated / avr::clock_hz; if ( nontrivial ) c.nontrivial = true;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M11";
    ck.rule = "A run leaves timer 1 and its pins in a drawn state, initialises the PWM output and then writes values (single, several within a period, minimum, maximum, again the same, differing in one byte only), waits and initialises again, with interrupts at drawn instructions whose handlers use the other 16-bit registers of the timer (and so its shared high-byte latch), read OCR1A or take longer than a period; and with resets at drawn instructions. Oracle: the level of pin PB1 recorded to the cycle: every period of 1024 cycles since the first has one pulse, whose width is the last value written at least one period before, or a later one; set-up registers after every initialisation, with all other bits unchanged. Non-trivial: at least one period judged; distinct by values, interrupt positions, cycle counts and widths.";
    ck.distinct_measure = "hash of values, instruction offsets of interrupts, cycle counts and pulse widths";
    ck.real = { "tc1_pwm_on_a_pb1 (mcu/atmega328.hpp) and atomic (mcu/register.hpp) from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and timer 1 (instruction-level simulator)" };
    ck.assumptions = { "handlers do not write OCR1A, TCNT1 or the timer's control registers", "until the counter first wraps after initialisation the pulse is not judged", "interrupts are on when a value is written" };
    ck.scenarios = { { "output", 140000, 6000000, avr::on_chip( output ) } };
    return dst_main( argc, argv, ck );
}
