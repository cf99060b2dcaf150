// Check M04: clearing an event flag clears that flag only, and no event is lost.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
struct Flag { char const * name; u8 reg, bit; int vec; u8 ereg, ebit; };
static Flag const flags[14] = { { "TC0 overflow", Chip::TIFR0, 0, Chip::V_T0O, Chip::TIMSK0, 0 }, { "TC0 match A", Chip::TIFR0, 1, Chip::V_T0A, Chip::TIMSK0, 1 }, { "TC0 match B", Chip::TIFR0, 2, Chip::V_T0B, Chip::TIMSK0, 2 },
    { "TC1 overflow", Chip::TIFR1, 0, Chip::V_T1O, Chip::TIMSK1, 0 }, { "TC1 match A", Chip::TIFR1, 1, Chip::V_T1A, Chip::TIMSK1, 1 }, { "TC1 match B", Chip::TIFR1, 2, Chip::V_T1B, Chip::TIMSK1, 2 }, { "TC1 capture", Chip::TIFR1, 5, Chip::V_T1CAPT, Chip::TIMSK1, 5 },
    { "external 0", Chip::EIFR, 0, Chip::V_INT0, Chip::EIMSK, 0 }, { "external 1", Chip::EIFR, 1, Chip::V_INT1, Chip::EIMSK, 1 }, { "pin change 0", Chip::PCIFR, 0, Chip::V_PC0, Chip::PCICR, 0 }, { "pin change 1", Chip::PCIFR, 1, Chip::V_PC1, Chip::PCICR, 1 }, { "pin change 2", Chip::PCIFR, 2, Chip::V_PC2, Chip::PCICR, 2 },
    { "comparator", Chip::ACSR, 4, Chip::V_AC, Chip::ACSR, 3 }, { "converter", Chip::ADCSRA, 4, Chip::V_ADC, Chip::ADCSRA, 3 } };
static int near( Ctx & c, int i ) { for ( int t = 0; t < 8; ++t ) { int k = c.draw( 14 ); if ( flags[k].reg == flags[i].reg ) return k; } return c.draw( 14 ); }

// Events raised at drawn instructions; every flag is tracked through events, clears and handler entries.
static void events( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); b.boot(); u64 start = b.c.cyc; for ( auto & f : flags ) b.c.watch[f.reg] = 1;
    b.c.poke( Chip::EICRA, 15 ); b.c.poke( Chip::ACSR, c.draw( 4 ) | ( c.draw( 2 ) << 6 ) | 0x80 * c.draw( 2 ) ); b.c.poke( Chip::ADMUX, c.draw( 256 ) ); b.c.poke( Chip::ADCSRA, c.draw( 8 ) );
    u32 model = 0; u64 raised = 0, merged = 0, served = 0, cleared = 0; int n = 1 + c.logu( 50 );
    auto raise = [&]( int i ) { b.c.d[flags[i].reg] |= 1 << flags[i].bit; ++raised; if ( model >> i & 1 ) ++merged; model |= 1u << i; };
    auto held = [&] { u32 m = 0; for ( int i = 0; i < 14; ++i ) if ( b.c.d[flags[i].reg] >> flags[i].bit & 1 ) m |= 1u << i; return m; };
    auto drop = [&]( int i ) { if ( model >> i & 1 ) ++cleared; model &= ~( 1u << i ); }; u32 base = 0; // pending since the operation began
    for ( int t = 0; t < n; ++t )
    {
        c.step();
        if ( c.chance( 1, 3 ) ) { u32 e = c.draw( 4 ) ? c.draw( 1 << 14 ) & c.draw( 1 << 14 ) : 0; for ( int i = 0; i < 14; ++i ) { u8 & r = b.c.d[flags[i].ereg]; r = ( r & ~( 1 << flags[i].ebit ) ) | ( ( e >> i & 1 ) << flags[i].ebit ); } }
        for ( int k = c.draw( 4 ); k--; ) raise( c.draw( 14 ) );
        int what = 1 + c.draw( 8 ); if ( what > 5 ) what = 1; int i = what == 4 ? 1 : what == 5 ? 5 : what == 3 ? 0 : c.draw( 14 ); if ( what == 3 ) what = 1;
        std::vector<u8> cmd{ (u8) what }; if ( what < 4 ) cmd.push_back( i ); u8 acsr = b.c.d[Chip::ACSR] & ~0x30, adcsra = b.c.d[Chip::ADCSRA] & ~0x10, admux = b.c.d[Chip::ADMUX];
        u64 len = 30; if ( !( what == 5 ) ) { for ( int v = 0; v < 26; ++v ) b.isr[v].cmd = 0; len = b.rehearse( cmd ); for ( int v = 0; v < 26; ++v ) b.isr[v] = {}; }
        // handlers read and clear flags of their own
        for ( int v = 1; v < 26; ++v ) { auto & sc = b.isr[v]; sc = {}; if ( c.chance( 1, 3 ) ) { sc.cmd = 1 + c.draw( 2 ); for ( int k = 0; k < sc.cmd; ++k ) { int f = near( c, i ); if ( flags[f].reg == Chip::ACSR || flags[f].reg == Chip::ADCSRA ) f = c.draw( 12 ); sc.in.push_back( f | ( c.draw( 3 ) ? 0x80 : 0 ) ); } } }
        bool st[2] = { false, false }; auto see = [&] { st[model >> i & 1] = true; };
        avr::Shots s( b ); for ( int k = c.draw( 5 ); k--; )
            if ( c.chance( 1, 5 ) ) { int v = avr::vectors()[c.draw( 6 )]; s.add( c.draw( len + 1 ), [&,v]{ b.c.inject |= 1u << v; c.fault( "interrupt" ); } ); }
            else { int f = near( c, i ); s.add( c.draw( len + 1 ), [&,f]{ raise( f ); see(); c.fault( "event during a flag access" ); } ); }
        int phase = 0; std::vector<int> got_in_isr; u32 states = 0; bool first = true; 
        b.on_mark = [&]( u8 m )
        {
            int ended = what == 2 || !phase ? -1 : what == 4 ? ( phase == 3 ? 0 : 1 ) : what == 5 ? 5 : i;
            if ( ended >= 0 && base & model & 1u << ended ) c.fail( "flag not cleared", "clearing %s ends without having cleared the event that was pending when it began", flags[ended].name );
            phase = m == 2 ? 0 : m; first = true; base = model; see();
        };
        size_t done_at = 0; b.on_enter = [&]( int v ) { done_at = 0; for ( int k = 0; k < 14; ++k ) if ( flags[k].vec == v ) { if ( !( model >> k & 1 ) ) c.fail( "phantom event", "the handler of %s runs although no event of it is pending", flags[k].name ); if ( !( b.c.d[flags[k].ereg] >> flags[k].ebit & 1 ) ) c.fail( "phantom event", "the handler of %s runs although it is not enabled", flags[k].name ); model &= ~( 1u << k ); base &= model; ++served; } see(); };
        b.on_store = [&]( u8 a, u8 )
        {
            int target = -1;
            if ( b.in_main() ) { if ( phase && first ) { target = what == 2 ? -1 : what == 4 ? ( phase == 3 ? 0 : 1 ) : i; first = false; } else return; }
            else { auto & sc = b.isr[b.nest.back()]; if ( !sc.p || !( sc.in[sc.p - 1] & 0x80 ) || done_at == sc.p ) return; target = sc.in[sc.p - 1] & 15; done_at = sc.p; }
            if ( target >= 0 && flags[target].reg == a ) { drop( target ); base &= model; } see();
        };
        s.arm(); see(); b.op( cmd ); auto out = b.out; u32 now = held(); see();
        c.note( "op %d flag %s, pending %04x", what, flags[i].name, now ); c.cover( what * 64 + i ); for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc ); c.h( (u64) now );
        if ( what == 2 ) { if ( out.size() != 1 || out[0] > 1 || !st[out[0]] ) c.fail( "wrong read", "the %s flag reads %d but was %s throughout", flags[i].name, out.empty() ? -1 : out[0], st[1] ? "set" : "clear" ); }
        if ( now != model ) { int k = 0; while ( !( ( now ^ model ) >> k & 1 ) ) ++k; c.fail( now >> k & 1 ? "flag not cleared" : "event lost", "after %s of %s: %s is %s, should be %s (pending %04x, should be %04x)", what == 2 ? "reading" : "clearing", flags[i].name, flags[k].name, now >> k & 1 ? "pending" : "clear", model >> k & 1 ? "pending" : "clear", now, model ); }
        b.op( { 99 } ); b.c.irq_count = ~0ull; b.c.inject = 0; b.op( { 99 } ); b.on_enter = nullptr; b.on_store = nullptr; b.on_mark = nullptr; now = held();
        // events raised after the operation
        if ( now != model ) c.fail( "event lost", "pending events are %04x instead of %04x", now, model );
        if ( ( b.c.d[Chip::ACSR] & ~0x30 & ~8 ) != ( acsr & ~8 ) || ( b.c.d[Chip::ADCSRA] & ~0x10 ) != adcsra || b.c.d[Chip::ADMUX] != admux ) c.fail( "setting disturbed", "%s of %s: ACSR %02x was %02x, ADCSRA %02x was %02x", what == 2 ? "reading" : "clearing", flags[i].name, b.c.d[Chip::ACSR], acsr, b.c.d[Chip::ADCSRA], adcsra );
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
// Real timers: the main program polls and clears a periodic flag while handlers clear others; every period must be seen.
static void polling( Ctx & c )
{
    avr::Board b( c.draw( avr::firmwares() ) ); b.boot(); u64 start = b.c.cyc; for ( auto & f : flags ) b.c.watch[f.reg] = 1;
    int which = c.draw( 4 ); static int const flag_of[4] = { 4, 3, 1, 0 }; int i = flag_of[which]; u64 period;
    for ( int v = 1; v < 26; ++v ) b.isr[v].cmd = 0;
    int n = 1 + c.draw( 12 ); u16 top = 1500 + c.draw( 3000 ), ma = c.draw( top + 1 ), mb = c.draw( top + 1 ); bool fast = c.draw( 2 );
    // TC1: fast PWM or CTC to ICR1; TC0: normal, clk/8 (period 2048)
    b.c.poke16( 0x88, ma ); b.c.poke16( 0x8a, mb ); b.c.poke( Chip::TCCR1A, fast ? 2 : 0 ); b.c.poke( Chip::TCCR1B, 0x18 ); b.c.poke16( 0x86, top ); b.c.poke( Chip::OCR0A, c.draw( 256 ) ); b.c.poke( Chip::OCR0B, c.draw( 256 ) );
    if ( which == 1 && !fast ) { i = 5; }
    period = which < 2 ? top + 1 : 2048;
    b.c.poke16( 0x84, c.draw( top ) ); b.c.poke( Chip::TIFR0, 7 ); b.c.poke( Chip::TIFR1, 0x27 ); b.c.poke( Chip::TIMSK1, ( c.draw( 0x28 ) & 0x27 ) & ~( flags[i].reg == Chip::TIFR1 ? 1 << flags[i].bit : 0 ) ); b.c.poke( Chip::TIMSK0, c.draw( 8 ) & ~( flags[i].reg == Chip::TIFR0 ? 1 << flags[i].bit : 0 ) );
    b.c.poke( Chip::TCCR0B, 2 ); b.c.poke( Chip::TCCR1B, 0x19 );
    for ( int v = 1; v < 26; ++v ) { auto & sc = b.isr[v]; sc.cmd = c.draw( 3 ); for ( int k = 0; k < sc.cmd; ++k ) { int f = c.draw( 12 ); if ( f == i ) f = 8; sc.in.push_back( f | 0x80 ); } }
    std::vector<u64> when; bool last = false; c.step();
    // the flag's own events, seen at instruction boundaries
    avr::Shots s( b ); std::vector<u64> sets; u64 at = 0;
    for ( int k = c.draw( 6 ); k--; ) { int v = avr::vectors()[c.draw( 6 )]; s.add( c.draw( n * period / 3 + 1 ), [&,v]{ b.c.inject |= 1u << v; c.fault( "interrupt while polling" ); } ); }
    // other flags polled or cleared by nobody stay pending: cleared bits are checked store by store
    b.on_store = [&]( u8 a, u8 v )
    {
        if ( a != Chip::TIFR0 && a != Chip::TIFR1 && a != Chip::EIFR && a != Chip::PCIFR ) return; int target = i; if ( !b.in_main() ) { auto & sc = b.isr[b.nest.back()]; if ( !sc.p ) return; target = sc.in[sc.p - 1] & 15; }
        u8 hit = v & b.c.d[a], want = flags[target].reg == a ? 1 << flags[target].bit : 0; if ( hit & ~want ) c.fail( "event lost", "clearing %s also clears pending flags %02x of register %02x", flags[target].name, hit & ~want, a );
    };
    u64 t0 = b.c.cyc; b.op( { 3, (u8) i, (u8) n }, n * period * 4 + 100000 ); u64 took = b.c.cyc - t0; (void) last; (void) at; (void) when; (void) sets;
    b.on_store = nullptr; b.c.irq_count = ~0ull;
    c.note( "%d events of %s, period %llu: %llu cycles", n, flags[i].name, (unsigned long long) period, (unsigned long long) took ); c.cover( i * 1000003 + top ); c.cover( took ); c.h( took );
    if ( took > n * period + 1200 || took + period + 1200 < n * period ) c.fail( took > n * period ? "event lost" : "phantom event", "%d events of %s with period %llu cycles are seen after %llu cycles", n, flags[i].name, (unsigned long long) period, (unsigned long long) took );
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M04";
    ck.rule = "A run clears and reads drawn event flags (timer, external, pin change, comparator and converter: all 14 the library has) in the main program and in handlers, while further events arrive and handlers enter at drawn instruction boundaries; each flag is tracked through events, clears (at the first store) and handler entries, and every flag must be as tracked after each operation. Polling runs use the real simulated timers: the main program waits for a drawn number of periodic events while handlers clear other flags, and must see every one. Non-trivial: an event or interrupt arrived during an operation; distinct by operations and their positions.";
    ck.distinct_measure = "hash of operations and instruction offsets of events";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core, timers and flag registers (instruction-level simulator)", "event sources" };
    ck.assumptions = { "an event before the clearing store counts as cleared by it", "comparator and converter settings are not changed by handlers meanwhile" };
    ck.scenarios = { { "events", 150000, 6000000, avr::on_chip( events ) }, { "polling", 6000, 200000, avr::on_chip( polling ) } };
    return dst_main( argc, argv, ck );
}
