// Check M13: the shipped device programs do what they announce, from every reset.
#include "../avr/board.hpp"
#include <deque>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
enum { BLINK = 0, TICK = 2, FADE = 4, LIGHT = 6, TIMED = 8 };      // firmwares, each for speed and for size; TIMED: two number types
struct Wave { int width, top; std::deque<long> commanded; bool high = false; u64 since = 0; bool bad = false; u64 bad_width = 0; u64 pulses = 0; };
struct Rig : avr::Board
{
    using Board::Board; u64 salt = 0, n = 0, phase = 0; int shape = 0; bool wrong_input = false, lost = false; std::deque<std::pair<u16,u64>> convs; u64 conversions = 0, ticks = 0, stray = 0; u32 allowed = 0;
    bool led_written = false; u8 portb = 0; std::vector<std::pair<u8,u8>> stores; Wave wave[3]; bool waves = false;
    static u64 mix( u64 x ) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ x >> 29; }
    u16 level()
    {
        u64 r = mix( n++ + salt );
        switch ( shape )
        {
            case 0: return r & 0x3ff;
            case 1: return ( r & 1 ) ? 0x1ff : 0x200;                                       // never above half, torn it would be
            case 2: return ( r & 1 ) ? 0x2ff : 0x300;                                       // always above half, torn it would not be
            case 3: return 508 + ( r & 15 );
            case 4: return ( n / ( 20 + salt % 100 ) & 1 ) ? 900 + ( r & 31 ) : 60 + ( r & 31 );
            default: return mix( salt ) & 0x3ff;
        }
    }
    u16 analog( int m, int r ) override { if ( m != 0 || r != 1 ) wrong_input = true; return level(); }
    void adc_done( u16 raw, bool l ) override { ++conversions; lost |= l; convs.push_back( { raw, c.cyc } ); if ( convs.size() > 4 ) convs.pop_front(); }
    u32 adc_wait( u32 k ) override { return mix( ++phase + salt ) % k; }
    void irq_entered( int v ) override { Board::irq_entered( v ); if ( v == Chip::V_T0A ) ++ticks; if ( !( allowed >> v & 1 ) ) ++stray; }
    void io_written( u8 a, u8 v ) override { if ( a == Chip::PORTB ) led_written = true; else stores.push_back( { a, v } ); }
    void pin( char p, int bit, bool l ) override
    {
        int i = p == 'D' && bit == 6 ? 0 : p == 'B' && bit == 1 ? 1 : p == 'B' && bit == 2 ? 2 : -1; if ( i < 0 ) return;
        Wave & w = wave[i]; if ( l ) { w.high = true; w.since = c.cyc; return; } if ( !w.high ) return; w.high = false; if ( !waves || w.commanded.empty() ) return; ++w.pulses;
        long len = c.cyc - w.since, per = (long) w.width * ( w.top + 1 ); bool ok = false, full = false; for ( long v : w.commanded ) full |= v == w.top;
        for ( long v : w.commanded ) for ( long k = 0; k <= ( full ? len / per + 1 : 0 ); ++k ) if ( std::labs( len - k * per - ( v + 1 ) * w.width ) <= 12 ) ok = true;
        if ( !ok ) w.bad = true, w.bad_width = len;
    }
    void cmd( int i, long v ) { auto & q = wave[i].commanded; q.push_back( v ); while ( q.size() > 4 ) q.pop_front(); }
};
template< typename F > void lives( Ctx & c, int fw, u32 allowed, double longest, F body )      // F( rig, until, last )
{
    Rig b( fw ); b.salt = c.draw( 1u << 30 ); b.shape = c.draw( 6 ); b.allowed = allowed; b.c.watch[Chip::PORTB] = 1; int n = 1 + c.logu( 3 ); bool cut = false;
    for ( int k = 0x100; k <= avr::ram_top; ++k ) b.c.d[k] = b.mix( b.salt + k );
    for ( int life = 0; life < n; ++life )
    {
        bool last = life + 1 == n; for ( int p = 0; p < 3; ++p ) { b.c.ext[p] = c.draw( 256 ); b.c.driven[p] = c.draw( 2 ) * 255; }
        b.c.reset(); b.nest.clear(); b.convs.clear(); b.stores.clear(); b.conversions = b.ticks = b.stray = 0; b.lost = b.wrong_input = b.led_written = b.waves = false; for ( auto & w : b.wave ) w = {}; b.wave[0].width = 64; b.wave[0].top = 255; b.wave[1].width = b.wave[2].width = 1; b.wave[1].top = b.wave[2].top = 1023;
        u64 until = last ? ~0ull : c.draw( 4 ) ? c.logu( (u64) longest ) : c.draw( 300 ); u64 start = b.c.cyc; body( b, until, start );
        if ( !last ) { c.fault( "reset at a drawn instant" ); cut = true; c.cover( b.c.cyc ); } c.simtime += ( b.c.cyc - start ) / avr::clock_hz; c.h( b.c.cyc );
        if ( b.stray ) c.fail( "stray interrupt", "an interrupt nobody asked for is taken" );
    }
    c.cover( fw * 8 + b.shape ); (void) cut; c.nontrivial = true;
}
// the LED pin becomes an output and flips, forever, nothing else moving on its port
struct Flips { bool started = false, on = false; u64 count = 0, at = 0; };
static bool flip( Ctx & c, Rig & b, Flips & f )
{
    if ( !b.led_written ) return false; b.led_written = false; u8 v = b.c.d[Chip::PORTB]; bool now = v & 0x20;
    if ( !f.started ) { if ( !( b.c.d[Chip::DDRB] & 0x20 ) ) { f.on = now; b.portb = v; return false; } f.started = true; f.at = b.c.cyc; }
    if ( ( v ^ b.portb ) & ~0x20 ) c.fail( "other pins", "port B goes from %02x to %02x", b.portb, v ); b.portb = v;
    if ( now == f.on ) c.fail( "no blinking", "the LED is written without changing after %llu changes", (unsigned long long) f.count );
    f.on = now; ++f.count; return true;
}
static void blink( Ctx & c )
{
    lives( c, BLINK + c.draw( 2 ), 0, 1.2e7, [&]( Rig & b, u64 until, u64 t0 ) {
        Flips f; u64 total = 2 + c.logu( 4 ), last = 0; long gap = 0;
        while ( f.count < total && b.c.cyc - t0 < until )
        {
            b.c.step(); u64 now = b.c.cyc; if ( flip( c, b, f ) ) { long g = now - last; if ( f.count >= 2 ) { if ( gap && std::labs( g - gap ) > gap / 100 ) c.fail( "uneven blinking", "change %llu comes after %ld cycles, the one before after %ld", (unsigned long long) f.count, g, gap ); gap = g; if ( g < 1600000 || g > 6400000 ) c.fail( "wrong rate", "the LED changes every %.0f ms; 200 ms is announced", g / 16000.0 ); } last = now; c.h( f.count ); }
            if ( now - std::max( last, t0 ) > 8000000 ) c.fail( "locked up", "no change of the LED for %llu cycles", (unsigned long long)( now - std::max( last, t0 ) ) );
        } } );
}
static void ticked( Ctx & c )
{
    u32 div = c.chance( 1, 40 ) ? 0 : 2u << c.draw( 3 );
    lives( c, TICK + c.draw( 2 ), 1u << Chip::V_T0A, 2500.0 * 251 * ( div ? div : 64 ), [&]( Rig & b, u64 until, u64 t0 ) {
        b.c.t0_div_override = div; u64 k = div ? div : 64; Flips f; u64 total = 1 + c.logu( div ? 6 : 2 ), first = 0; long period = 250;
        while ( f.count < total && b.c.cyc - t0 < until )
        {
            b.c.step(); u64 now = b.c.cyc; if ( !first && ( b.c.d[Chip::SREG] & 0x80 ) ) { first = now; long p = period = b.c.ocr0buf( 0 ) + 1; if ( b.c.wgm0() != 2 || ( b.c.d[Chip::TCCR0B] & 7 ) != 3 || p < 250 || p > 251 || b.c.d[Chip::TIMSK0] != 2 ) c.fail( "not started", "tick not set up for 1 ms: waveform %d clock %d counts %ld interrupts %x", b.c.wgm0(), b.c.d[Chip::TCCR0B] & 7, p, b.c.d[Chip::TIMSK0] ); }
            if ( !first && now - t0 > 3000 ) c.fail( "not started", "interrupts are not enabled within 3000 cycles of reset" );
            if ( flip( c, b, f ) && ( b.ticks != f.count * 1000 ) ) c.fail( "wrong rate", "change %llu of the LED comes at tick %llu", (unsigned long long) f.count, (unsigned long long) b.ticks );
            if ( b.ticks > f.count * 1000 + 1000 ) c.fail( "locked up", "no change of the LED by tick %llu", (unsigned long long) b.ticks );
            if ( first ) { u64 due = ( now - first ) / ( period * k ); if ( b.ticks + 2 < due || b.ticks > due + 2 ) c.fail( "tick missed", "%llu ticks served after time for %llu", (unsigned long long) b.ticks, (unsigned long long) due ); }
        } } );
}
// the tick itself: 250 counts of 4 us are 1 ms (listed as a known finding: 251)
static void tick( Ctx & c )
{
    Rig b( TICK + c.draw( 2 ) ); b.allowed = 1u << Chip::V_T0A; u64 salt = c.draw( 1u << 30 ); for ( int k = 0x100; k <= avr::ram_top; ++k ) b.c.d[k] = b.mix( salt + k ); u64 upto = 2 + c.draw( 60 ), first = 0;
    b.c.reset(); while ( b.ticks < upto ) { u64 t = b.ticks; b.c.step(); if ( b.ticks > t && t == 0 ) first = b.c.cyc; if ( b.c.cyc > 20000 * ( upto + 2 ) ) c.fail( "not started", "%llu ticks in the time for %llu", (unsigned long long) b.ticks, (unsigned long long) upto ); }
    c.simtime += b.c.cyc / avr::clock_hz; c.cover( salt ); c.h( b.c.cyc ); c.nontrivial = true; long each = std::lround( double( b.c.cyc - first ) / ( upto - 1 ) / 64 );
    if ( each == 251 ) c.fail( "251-counts", "a tick takes 251 counts of 4 us, 1.004 ms" ); if ( each != 250 ) c.fail( "wrong rate", "a tick takes %ld counts of 4 us", each );
}
static void fade( Ctx & c )
{
    bool whole = c.chance( 1, 20 );
    lives( c, FADE + c.draw( 2 ), 0, 3e6, [&]( Rig & b, u64 until, u64 t0 ) {
        for ( u8 a : { 0x47, 0x88, 0x8a } ) b.c.watch[a] = 1; u64 total = whole ? 2100 + c.draw( 2100 ) : 2 + c.logu( 300 ), steps = 0, at = 0, last = t0; int i = 0, dir = 1, got = 0; bool level = false, driven = false; u64 stable = t0, next = t0 + 500 + c.logu( 30000 ); bool led_ok = true; (void) led_ok; (void) at;
        b.c.drive( 2, 0, level = c.draw( 2 ) );
        while ( steps < total && b.c.cyc - t0 < until )
        {
            b.c.step(); u64 now = b.c.cyc;
            for ( auto & s : b.stores )
            {
                long v = s.first == 0x47 ? b.c.ocr0buf( 0 ) : b.c.ocr1buf( s.first == 0x8a ); int w = s.first == 0x47 ? 0 : s.first == 0x88 ? 1 : 2; b.cmd( w, v ); got |= 1 << w;
                long want = w == 0 ? i / 4 : w == 1 ? i : 1023 - i; if ( v != want ) c.fail( "wrong duty", "step %llu puts %ld on output %d instead of %ld", (unsigned long long) steps, v, w, want );
            }
            b.stores.clear();
            if ( got == 7 ) { got = 0; ++steps; last = now; c.h( (u64) i ); if ( dir > 0 && ++i == 1023 ) dir = -1; else if ( dir < 0 && --i == 0 ) dir = 1;
                if ( steps == 1 ) { if ( ( b.c.d[Chip::DDRB] & 0x26 ) != 0x26 || ( b.c.d[0x2a] & 0x41 ) != 0x40 || b.c.wgm0() != 3 || b.c.wgm1() != 7 || ( b.c.d[Chip::TCCR0A] >> 6 ) != 2 || ( b.c.d[Chip::TCCR1A] >> 4 ) != 10 || ( b.c.d[Chip::TCCR0B] & 7 ) != 3 || ( b.c.d[Chip::TCCR1B] & 7 ) != 1 ) c.fail( "not started", "outputs not set up: TCCR0A %02x TCCR0B %02x TCCR1A %02x TCCR1B %02x DDRB %02x DDRD %02x", b.c.d[Chip::TCCR0A], b.c.d[Chip::TCCR0B], b.c.d[Chip::TCCR1A], b.c.d[Chip::TCCR1B], b.c.d[Chip::DDRB], b.c.d[0x2a] ); at = now; }
                if ( steps == 3 ) b.waves = true; }
            if ( now - last > 120000 ) c.fail( "locked up", "no new duty cycle for %llu cycles after step %llu", (unsigned long long)( now - last ), (unsigned long long) steps );
            for ( int w = 0; w < 3; ++w ) { if ( b.wave[w].bad ) c.fail( "wrong pulse", "output %d puts out a pulse of %llu cycles, its latest values are %ld %ld", w, (unsigned long long) b.wave[w].bad_width, b.wave[w].commanded.size() > 1 ? b.wave[w].commanded[b.wave[w].commanded.size() - 2] : -1, b.wave[w].commanded.back() ); }
            if ( now >= next ) { level = !level; b.c.drive( 2, 0, level ); stable = now; next = now + 20 + c.logu( 30000 ); c.fault( "sampling pin changed" ); }
            if ( steps && now - stable > 400 && bool( b.c.d[Chip::PORTB] & 0x20 ) != level ) c.fail( "wrong light", "the LED is %s, the sampling pin has been %s for %llu cycles", level ? "off" : "on", level ? "high" : "low", (unsigned long long)( now - stable ) );
        }
        if ( steps > 40 ) for ( int w = 0; w < 3; ++w ) if ( !b.wave[w].pulses ) c.fail( "no output", "output %d does not move", w ); (void) driven; } );
}
static void light( Ctx & c )
{
    lives( c, LIGHT + c.draw( 2 ), 1u << Chip::V_ADC, 3e5, [&]( Rig & b, u64 until, u64 t0 ) {
        u64 total = 2 + c.logu( 200 ), last = t0; u64 first = 0;
        while ( b.conversions < total && b.c.cyc - t0 < until )
        {
            b.c.step(); u64 now = b.c.cyc; if ( b.lost ) c.fail( "conversion missed", "a conversion result is discarded" ); if ( b.wrong_input ) c.fail( "wrong input", "another input or reference than input 0 against AVcc is converted" );
            if ( b.conversions && !first ) first = now; if ( first && b.conversions + 2 < ( now - first ) / ( 14 * 128 ) ) c.fail( "conversion missed", "%llu conversions after time for %llu", (unsigned long long) b.conversions, (unsigned long long)( ( now - first ) / ( 14 * 128 ) ) );
            if ( b.led_written )
            {
                b.led_written = false; bool on = b.c.d[Chip::PORTB] & 0x20; if ( b.c.d[Chip::PORTB] & ~0x20 ) c.fail( "other pins", "port B is written as %02x", b.c.d[Chip::PORTB] );
                if ( !( b.c.d[Chip::DDRB] & 0x20 ) ) continue; if ( last == t0 ) { last = now; if ( on ) continue; }       // announced: starts lit
                last = now; bool may_on = false, may_off = b.convs.empty(); for ( size_t i = 0; i < b.convs.size(); ++i ) if ( i + 1 == b.convs.size() || b.convs[i + 1].second + 500 >= now ) { may_on |= b.convs[i].first > 512; may_off |= b.convs[i].first < 516; } if ( b.convs.size() == 1 && b.convs[0].second + 500 >= now ) may_off = true;
                if ( on ? !may_on : !may_off ) c.fail( "wrong light", "the LED is put %s; the latest sample is %d", on ? "on" : "off", b.convs.empty() ? -1 : b.convs.back().first );
            }
            if ( now - last > 3000 ) c.fail( "locked up", "the LED is not updated for %llu cycles", (unsigned long long)( now - last ) );
            if ( now - t0 > 60000 && !b.conversions ) c.fail( "conversion missed", "no conversion after %llu cycles", (unsigned long long)( now - t0 ) );
        }
        c.h( b.conversions ); c.cover( b.n ? b.mix( b.salt ) & 1023 : 0 ); } );
}
static void timed( Ctx & c )
{
    lives( c, TIMED + c.draw( 4 ), 0, 4e6, [&]( Rig & b, u64 until, u64 t0 ) {
        Flips f; u64 total = 2 + c.logu( 600 ), last = t0;
        while ( f.count < total && b.c.cyc - t0 < until )
        {
            b.c.step(); u64 now = b.c.cyc; if ( flip( c, b, f ) ) last = now, c.h( f.count );
            if ( now - last > 60000 ) c.fail( "locked up", "no loop completed for %llu cycles after %llu loops", (unsigned long long)( now - last ), (unsigned long long) f.count );
        } } );
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M13";
    ck.rule = "The unedited example programs, built for speed and for size, run on the simulated chip from undefined memory, through resets at drawn instants, with drawn pin levels and input signals. Oracles: blink: the LED changes forever at an even interval of roughly the announced 200 ms; ticked: the LED changes on exactly every 1000th 1 ms tick (tick accelerated 4 to 32 times, every 40th run at its real rate), no tick missed; tick: the tick takes 250 counts (251: known finding); fade: the three duty cycles step through the announced ramp without a gap, every pulse has a commanded width, the LED follows the sampling pin; light: the LED is lit only by a sample above half scale and put out only by one that is not, whatever falls between the two halves of a sample; timed: the estimator timing loop completes forever within a bounded time. No other pin of the LED's port moves, no stray interrupt is taken. Distinct by program, inputs and reset instants.";
    ck.distinct_measure = "hash of program, inputs, reset instants and outcome";
    ck.real = { "example/avr/*.e.cpp, time/avr-kalman-time.cpp and the headers they use from /repo, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core, timers, converter and pins (instruction-level simulator)", "input signals" };
    ck.assumptions = { "software delays are only roughly what their names say: they are judged to be even and within half and double the announced time", "the programs start from reset" };
    ck.scenarios = { { "blink", 120, 2000, avr::on_chip( blink ) }, { "ticked", 400, 10000, avr::on_chip( ticked ) }, { "tick", 100, 1000, avr::on_chip( tick ) }, { "fade", 300, 6000, avr::on_chip( fade ) }, { "light", 6000, 200000, avr::on_chip( light ) }, { "timed", 1200, 30000, avr::on_chip( timed ) } };
    return dst_main( argc, argv, ck );
}
