// Check M10: scoped guards restore the status register and interrupts exactly.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
static int const savers[] = { Chip::V_SPI, Chip::V_RX, Chip::V_UDRE }, storers[] = { Chip::V_TX, Chip::V_T2O, Chip::V_WDT };
static char const * const flags = "CZNVSHTI";
static void guards( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); b.boot(); b.c.watch[Chip::SREG] = 3; int n = 1 + c.logu( 60 ); u64 start = b.c.cyc; u8 block = 0; bool block_set = false; u8 block_step = 1; (void) block_step;
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int k = c.draw( 12 ); std::vector<u8> cmd, want; std::string what; u8 f = c.draw( 256 ); if ( k < 6 && c.draw( 2 ) ) f |= 0x80; bool bracket = false, guard = false, region = false; int bit = -1, to = 0; bool judge_out = true;
        u8 a = c.draw( 256 ), d = c.draw( 256 ); if ( c.draw( 4 ) == 0 ) d = a;
        switch ( k )
        {
            case 0: cmd = { 1, f, a, d }; want = { u8( a + d ), a < d }; bracket = true; what = "status saver"; break;
            case 1: cmd = { 2, f, a, d }; want = { u8( a > d ? 1 : a == d ? 2 : d - a ) }; bracket = true; what = "status saver left early"; break;
            case 2: if ( c.draw( 2 ) ) { cmd = { 7, f, a, d }; want = { 1 }; bracket = true; what = "status savers around a status register rewritten"; break; } cmd = { 3, f, a, d }; want = { u8( a - d ), u8( a & d ), u8( a ^ d ), u8( a | d ), u8( a * d ) }; bracket = true; what = "nested status savers"; break;
            case 3: { int m = c.draw( 6 ); cmd = { 4, f, (u8) m }; u16 s = 0; bool over = false; for ( int i = 0; i < m && !over; ++i ) { u8 v = c.draw( 4 ) ? c.draw( 256 ) : c.draw( 2 ) ? 7 : 99; cmd.push_back( v ); if ( v == 7 ) continue; if ( v == 99 ) { over = true; continue; } s += v; want.push_back( s ); } bracket = true; what = "status savers in a loop"; break; }
            case 4: cmd = { 5, f }; bracket = region = true; what = "status saver around a critical section"; break;
            case 5: cmd = { 6, f }; bracket = region = true; what = "interrupt guard in a status saver"; break;
            case 6: cmd = { 10 }; guard = region = true; what = "interrupt guard"; break;
            case 7: { int m = c.draw( 10 ); cmd = { 11, (u8) m }; guard = region = true; what = "interrupt guard left early"; break; }
            case 8: { if ( c.draw( 2 ) ) { cmd = { 14 }; what = "status saver in an interrupt guard"; } else { cmd = { 12, u8( 1 + c.draw( 4 ) ) }; what = "interrupt guards in a loop"; } guard = region = true; break; }
            case 9: cmd = { 13, a }; guard = region = true; what = "storing under an interrupt guard"; break;
            case 10:
            {
                int m = 1 + c.draw( 12 ); cmd = { 20, (u8) m }; u32 sum = 0; u64 wide = 0; u16 less = 0; std::int32_t low = 0x7fffffff; u32 mix = 1; std::int16_t prod = 0;
                for ( int i = 0; i < m; ++i ) { u32 v = c.draw( 4 ) ? c.draw( 1ull << 32 ) : 0u - c.draw( 3 ); avr::put( cmd, v, 4 ); sum += v; wide += (u64) v << 13; if ( sum < v ) ++less; if ( (std::int32_t) v < low ) low = v; mix = ( mix << 5 | mix >> 27 ) ^ ( v - mix ); prod += u16( (u32)(std::int16_t) v * (u32)(std::int16_t)( v >> 16 ) ); if ( v & 0x10 ) prod -= less; }
                avr::put( want, sum, 4 ); avr::put( want, wide, 8 ); avr::put( want, less, 2 ); avr::put( want, (u32) low, 4 ); avr::put( want, mix, 4 ); avr::put( want, (u16) prod, 2 ); what = "interrupted computation"; break;
            }
            case 11:
                bit = c.draw( 9 ); to = c.draw( 3 ); if ( bit == 8 ) { if ( to ) { cmd = { 21, f }; what = "writing the status register"; } else { cmd = { 22, f }; want = { f }; bit = -1; what = "reading the status register"; } }
                else if ( to == 2 ) { cmd = { u8( 60 + bit ), f }; want = { u8( f >> bit & 1 ) }; what = std::string( "reading flag " ) + flags[bit]; bit = -1; } else { cmd = { u8( 40 + 10 * to + bit ) }; what = std::string( to ? "setting flag " : "clearing flag " ) + flags[bit]; }
        }
        // interrupts
        avr::Shots s( b ); std::vector<int> used; std::vector<u8> expect[26]; u64 len = 0; for ( auto & x : b.isr ) x = {};
        if ( c.chance( 5, 6 ) ) { len = b.rehearse( cmd ); for ( int i = 1 + c.draw( 3 ); i--; )
        {
            bool saver = k == 10 || c.draw( 2 ); int vec = saver ? savers[c.draw( 3 )] : storers[c.draw( 3 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; auto & e = expect[vec];
            if ( vec == savers[0] ) { u8 m = 1 + c.draw( 5 ); sc.cmd = m; u8 x = 0; u16 y = 0; for ( int j = 0; j < m; ++j ) { u8 v = c.draw( 256 ); sc.in.push_back( v ); x += v; y = y * 3 + x; if ( y > 40000u ) y -= 12345; } avr::put( e, y, 2 ); }
            else if ( vec == savers[1] ) { sc.cmd = c.draw( 3 ); u8 v = c.draw( 32 ); sc.in = { v }; if ( sc.cmd == 1 ) e = { v }; else if ( v < 9 ) e = { u8( v - 1 ), 7, 3 }; else e = { u8( v - 1 ), 3 }; if ( sc.cmd != 1 && v < 9 ) e = { u8( v - 1 ), 7 }; }
            else if ( vec == savers[2] ) { sc.cmd = c.draw( 256 ); u8 v = c.draw( 256 ); sc.in = { v }; e = { u8( v + sc.cmd ) }; }
            else { sc.cmd = c.draw( 8 ) ? c.draw( 256 ) : 0x55; }
            s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( !( b.c.d[Chip::SREG] & 0x80 ) ? "interrupt while they are off" : vec == savers[0] || vec == savers[1] || vec == savers[2] ? "handler relying on the status saver" : "handler changing shared data" ); } );
        } }
        // watching
        int first = -1, last = -1, at2 = -1; bool open = false, inside = false, entered = false, off3 = false, seen3 = false; int m5 = 0, m6 = 0; std::vector<std::pair<int,u8>> saved; std::string bad; std::vector<u8> expected_block; u64 served = 0;
        b.on_load = [&]( u8 x ) { if ( x == Chip::SREG && b.in_main() && open && first < 0 ) first = b.c.d[Chip::SREG]; };
        b.on_store = [&]( u8 x, u8 v ) { if ( x == Chip::SREG && b.in_main() && open ) last = v; };
        int outs5 = -1; size_t o5 = 0; (void) outs5;
        b.on_mark = [&]( u8 m ) {
            switch ( m )
            {
                case 1: open = true; first = last = -1; break;
                case 2: open = false; at2 = b.c.d[Chip::SREG]; break;
                case 5: inside = true; ++m5; o5 = b.out.size(); expected_block.push_back( block ); break;
                case 6: inside = false; ++m6; if ( k == 9 ) { block = a; block_set = true; } break;
                case 4: if ( k == 4 ) inside = false; break;
                case 3: seen3 = true; if ( !( b.c.d[Chip::SREG] & 0x80 ) ) off3 = true; break;
            } };
        b.on_enter = [&]( int v ) { if ( inside && b.nest.size() == 1 ) entered = true; saved.push_back( { v, b.c.d[Chip::SREG] } ); ++served; };
        b.on_leave = [&] { if ( saved.empty() ) return; auto x = saved.back(); saved.pop_back(); for ( int v : savers ) if ( x.first == v && ( ( x.second ^ b.c.d[Chip::SREG] ) & 0x7f ) ) { char t[160]; std::snprintf( t, sizeof t, "the handler found the status register as %02x and left it as %02x", x.second & 0x7f, b.c.d[Chip::SREG] & 0x7f ); bad = t; } for ( int v : storers ) if ( x.first == v ) { block = b.isr[v].cmd; block_set = true; } };
        bool was_set = block_set; s.arm(); b.op( cmd ); auto out = b.out; b.c.irq_count = ~0ull; b.on_irq = nullptr; bool i_after = avr::i_flag( b.c ); (void) i_after;
        b.op( { 99 } ); b.on_load = nullptr; b.on_store = nullptr; b.on_mark = nullptr; b.on_enter = nullptr; b.on_leave = nullptr;
        c.note( "%s%s", what.c_str(), s.next ? " (interrupted)" : "" ); c.cover( cmd[0] * 256 + ( bracket ? f : 0 ) ); for ( size_t i = 0; i < s.next; ++i ) c.cover( s.v[i].first ); c.h( b.c.cyc ); for ( u8 v : out ) c.h( (u64) v );
        if ( !bad.empty() ) c.fail( "flags changed by a handler", "during %s: %s", what.c_str(), bad.c_str() );
        if ( entered ) c.fail( "handler inside the guard", "%s: an interrupt handler enters inside", what.c_str() );
        if ( bracket )
        {
            if ( first < 0 ) c.fail( "not saved", "%s never looks at the status register", what.c_str() );
            if ( at2 != first ) c.fail( "not restored", "%s finds the status register as %02x and leaves it as %02x (last written: %02x)", what.c_str(), first, at2, last );
        }
        if ( guard && ( off3 || !seen3 ) ) c.fail( "interrupts left off", "%s: interrupts are off afterwards", what.c_str() );
        if ( bit >= 0 && bit < 8 ) { u8 e = to ? first | 1 << bit : first & ~( 1 << bit ); if ( first < 0 || last != e || at2 != e ) c.fail( "wrong flag", "%s makes the status register %02x -> %02x (%02x when done)", what.c_str(), first, last, at2 ); }
        if ( bit == 8 && at2 != f ) c.fail( "wrong flag", "%s with %02x makes it %02x", what.c_str(), f, at2 );
        if ( b.c.inject ) c.fail( "interrupt not served", "after %s a pending interrupt is not served", what.c_str() );
        for ( size_t i = 0; i < s.next; ++i ) {} for ( int v : used ) { auto & sc = b.isr[v]; if ( s.next == s.v.size() && sc.served != 1 ) c.fail( "interrupt lost", "one interrupt was served %llu times", (unsigned long long) sc.served ); if ( sc.served && !expect[v].empty() && sc.out != expect[v] ) c.fail( "wrong result", "during %s a handler computes %02x instead of %02x", what.c_str(), sc.out.empty() ? 0 : sc.out[0], expect[v][0] ); }
        // shared data seen inside the brackets
        if ( region && k != 9 )
        {
            want.clear(); if ( !was_set && !block_set ) { judge_out = false; } // power-on content: all zero
            auto at = [&]( u8 v, int i ) { return u8( v + i ); };
            if ( k == 8 && cmd[0] == 12 ) { int rounds = 0; for ( size_t j = 0; j < expected_block.size(); ++j ) { ++rounds; want.push_back( at( expected_block[j], 0 ) ); want.push_back( at( expected_block[j], 7 ) ); } int e = 0; while ( e < cmd[1] ) { u8 v = expected_block.size() > (size_t) e ? expected_block[e] : 0; ++e; if ( v == 0x55 ) break; } if ( rounds != e && was_set ) c.fail( "wrong result", "%s runs %d times instead of %d", what.c_str(), rounds, e ); }
            else if ( k == 8 ) { for ( int i = 0; i < 8; ++i ) want.push_back( at( expected_block[0], i ) ); want.push_back( at( expected_block[0], 0 ) ); }
            else { int m = k == 7 ? std::min<int>( cmd[1], 8 ) : 8; for ( int i = 0; i < m; ++i ) want.push_back( at( expected_block.empty() ? 0 : expected_block[0], i ) ); }
            if ( !was_set ) judge_out = false;
        }
        if ( judge_out && out != want ) { size_t i = 0; while ( i < out.size() && i < want.size() && out[i] == want[i] ) ++i; c.fail( "wrong result", "%s: result byte %zu is %02x instead of %02x", what.c_str(), i, i < out.size() ? out[i] : -1, i < want.size() ? want[i] : -1 ); }
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz; if ( n > 3 ) c.nontrivial = true;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M10";
    ck.rule = "A run is a history of code bracketed by the scoped status-register saver (plain, left early, nested, in loops, around critical sections), by the scoped interrupt guard (plain, left early, in loops, storing, around a saver) and of computations full of carries, from drawn status-register contents, with interrupts at drawn instructions: handlers whose only protection of the flags is the saver (one of them letting other interrupts in) and handlers changing shared data; and of single flags written and read. Oracle: the simulated status register at the bracket's begin and end and around every handler, handler entries inside a guarded region, the interrupt enable afterwards, every pending interrupt served once, all results computed on the host. Non-trivial: more than three operations; distinct by operations, status contents and interrupt positions.";
    ck.distinct_measure = "hash of operations, status register contents, instruction offsets of interrupts, results";
    ck.real = { "scoped_sreg, core::sreg (mcu/atmega328.hpp) and scoped_interrupt_guard (mcu/register.hpp) from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core (instruction-level simulator)", "handler wrappers that save registers without touching flags" };
    ck.assumptions = { "interrupts are on where a scoped interrupt guard begins, and guards are not nested (the library's stated simplification)", "the functions using the saver need no stack frame of their own" };
    ck.scenarios = { { "guards", 250000, 12000000, avr::on_chip( guards ) } };
    return dst_main( argc, argv, ck );
}
