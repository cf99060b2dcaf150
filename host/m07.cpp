// Check M07: the sampling firmware mirrors its samples to its output, at the tick rate, from every reset.
#include "../avr/board.hpp"
#include <deque>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
struct Rig : avr::Board
{
    using Board::Board; Ctx * ctx = nullptr; int shape = 0; u64 salt = 0; u64 n = 0; int mux = -1, refs = -1; bool wrong_input = false; int want_mux = 0;
    struct Conv { u16 v; u64 at; }; std::deque<Conv> convs; u64 conversions = 0, samples = 0, ticks = 0, stray = 0; bool lost = false, wrote = false; u16 sampled = 0; u64 sampled_at = 0; bool led_write = false;
    u64 high_since = 0; bool high = false, pwm_bad = false; u64 bad_width = 0; bool saw_rise = false; std::deque<u16> commanded;
    static u64 mix( u64 x ) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ x >> 29; }
    u16 level()
    {
        u64 r = mix( n++ + salt );
        switch ( shape )
        {
            case 0: return r & 0x3ff;
            case 1: return ( r & 1 ) ? 0x1ff : 0x200;
            case 2: return ( r & 1 ) ? 0x0ff : 0x100;
            case 3: return ( r & 7 ) == 0 ? 0x3ff : ( r & 7 ) == 1 ? 0 : r >> 8 & 7;
            case 4: return n * 37 & 0x3ff;
            case 5: return ( n / ( 40 + salt % 400 ) & 1 ) ? 900 + ( r & 31 ) : 60 + ( r & 31 );
            default: return mix( salt ) & 0x3ff;
        }
    }
    u16 analog( int m, int r ) override { if ( m != want_mux || r != 1 ) wrong_input = true; mux = m; refs = r; sampled = level(); sampled_at = c.cyc; ++samples; return sampled; }
    void adc_done( u16 raw, bool l ) override { ++conversions; lost |= l; convs.push_back( { raw, c.cyc } ); if ( convs.size() > 8 ) convs.pop_front(); }
    u32 adc_wait( u32 k ) override { return mix( ++phase + salt ) % k; } u64 phase = 0;
    void irq_entered( int v ) override { Board::irq_entered( v ); if ( v == Chip::V_T0A ) ++ticks; else if ( v != Chip::V_ADC && !( allowed_vec >> v & 1 ) ) { ++stray; } } u32 allowed_vec = 0;
    void io_written( u8 a, u8 ) override { if ( a == Chip::OCR1AL ) wrote = true; if ( a == Chip::PORTB ) led_write = true; }
    void pin( char p, int bit, bool level ) override
    {
        if ( p != 'B' || bit != 1 ) return;
        if ( level ) { high = true; high_since = c.cyc; saw_rise = true; return; } if ( !high ) return; high = false; u64 w = c.cyc - high_since;
        // instructions take up to 4 cycles, so a change is noticed within that many
        bool ok = false, full = false; if ( wrote ) cmd( c.ocr1buf( 0 ) ); for ( u16 v : commanded ) full |= v >= 1020; for ( u16 v : commanded ) for ( u64 k = 0; k <= ( full ? w / 1024 + 1 : 0 ); ++k ) { long diff = (long)( w ) - (long)( k * 1024 + v + 1 ); if ( diff >= -12 && diff <= 12 ) ok = true; }
        if ( !ok ) pwm_bad = true, bad_width = w;
    }
    void cmd( u16 v ) { commanded.push_back( v ); while ( commanded.size() > 4 ) commanded.pop_front(); }
    void restart() { convs.clear(); conversions = samples = ticks = stray = 0; lost = wrote = led_write = false; high = false; commanded.assign( 1, 0 ); wrong_input = pwm_bad = false; nest.clear(); n = 0; }
};
static int const max_div[] = { 64 };
// the shipped program, as shipped
static void shipped( Ctx & c )
{
    Rig b( c.draw( 2 ) ); b.ctx = &c; b.salt = c.draw( 1u << 30 ); b.shape = c.draw( 7 ); bool real = c.chance( 1, 60 ); u32 div = real ? 64 : 2u << c.draw( 3 ); b.c.t0_div_override = real ? 0 : div;
    b.c.watch[Chip::OCR1AL] = b.c.watch[Chip::PORTB] = 1; int lives = 1 + c.logu( 4 ); c.cover( b.shape * 100 + div );
    for ( int life = 0; life < lives; ++life )
    {
        bool last = life + 1 == lives; for ( int p = 0; p < 3; ++p ) { b.c.ext[p] = c.draw( 256 ); b.c.driven[p] = c.draw( 2 ) * 255; }
        if ( life == 0 ) { for ( int k = 0x100; k <= avr::ram_top; ++k ) b.c.d[k] = b.mix( b.salt + k ); }      // undefined memory at power-on
        b.restart(); b.c.reset(); u64 total = last ? 1 + c.logu( real ? 1 : 4 ) : 0; u64 stop_at = last ? ~0ull : c.draw( 5 ) ? c.logu( 2600ull * 251 * div ) : c.draw( 2000 );
        u64 outputs = 0, tick0 = 0; bool configured = false; u64 blinks = 0; bool led = false; u64 hundred = 0, looks = 0, look_at = 0; long period = 0; u64 deadline = 1005ull * 251 * div + 20000;
        for ( ;; )
        {
            if ( b.c.cyc >= stop_at ) { c.fault( "reset at a drawn instant" ); c.cover( b.c.cyc ); break; }
            u64 tk = b.ticks; b.c.step(); c.steps += 0;
            if ( !configured && ( b.c.d[Chip::SREG] & 0x80 ) )
            {
                configured = true; tick0 = b.c.cyc; period = b.c.ocr0buf( 0 ) + 1;
                if ( ( b.c.d[Chip::DDRB] & 0x22 ) != 0x22 ) c.fail( "not started", "output or LED pin not driven after start-up: directions of port B %02x", b.c.d[Chip::DDRB] );
                if ( b.c.wgm1() != 7 || ( b.c.d[Chip::TCCR1A] >> 6 ) != 2 || ( b.c.d[Chip::TCCR1B] & 7 ) != 1 ) c.fail( "not started", "output not set up as 10-bit PWM after start-up: TCCR1A %02x TCCR1B %02x", b.c.d[Chip::TCCR1A], b.c.d[Chip::TCCR1B] );
                if ( b.c.wgm0() != 2 || ( b.c.d[Chip::TCCR0B] & 7 ) != 3 || period < 250 || period > 251 || b.c.d[Chip::TIMSK0] != 2 ) c.fail( "not started", "tick not set up for 1 ms after start-up: waveform %d clock %d compare %ld interrupts %x", b.c.wgm0(), b.c.d[Chip::TCCR0B] & 7, period - 1, b.c.d[Chip::TIMSK0] );
                if ( b.c.d[Chip::ADMUX] != 0x40 || ( b.c.d[Chip::ADCSRA] & 0xaf ) != 0xaf || b.c.d[Chip::ADCSRB] != 0 ) c.fail( "not started", "converter not set up after start-up: ADMUX %02x ADCSRA %02x ADCSRB %02x", b.c.d[Chip::ADMUX], b.c.d[Chip::ADCSRA], b.c.d[Chip::ADCSRB] );
            }
            if ( !configured ) { if ( b.c.cyc > 3000 ) c.fail( "not started", "interrupts are not enabled within 3000 cycles of reset" ); if ( b.wrote ) { b.cmd( b.c.ocr1buf( 0 ) ); b.wrote = false; } continue; }
            if ( b.lost ) c.fail( "conversion missed", "a conversion result is discarded" );
            if ( b.stray ) c.fail( "stray interrupt", "an interrupt nobody asked for is taken" );
            if ( b.wrong_input ) c.fail( "wrong input", "input %d with reference %d is converted", b.mux, b.refs );
            if ( b.pwm_bad ) c.fail( "wrong pulse", "a pulse of %llu cycles is put out; the latest values are %d %d", (unsigned long long) b.bad_width, b.commanded.size() > 1 ? b.commanded[b.commanded.size() - 2] : -1, b.commanded.back() );
            // what the program may have read just now
            auto recent = [&]( u64 window ) { std::vector<u16> r; u64 from = b.c.cyc > window ? b.c.cyc - window : 0; for ( size_t i = 0; i < b.convs.size(); ++i ) if ( i + 1 == b.convs.size() || b.convs[i + 1].at >= from ) r.push_back( b.convs[i].v ); return r; };
            if ( b.wrote )
            {
                b.wrote = false; u16 v = b.c.ocr1buf( 0 ); b.cmd( v ); ++outputs; c.step(); auto r = recent( 800 ); bool ok = false; for ( u16 x : r ) ok |= v == std::max<u16>( 3, std::min<u16>( x, 1023 ) );
                c.note( "output %llu: %d after %llu ticks", (unsigned long long) outputs, v, (unsigned long long) b.ticks ); c.h( (u64) v ); c.cover( v );
                if ( !ok ) c.fail( "not a sample", "%d is put out; the latest conversion is %d", v, r.empty() ? -1 : r.back() );
                u64 due = outputs * 1000; if ( b.ticks < due || b.ticks > due + 3 ) c.fail( "wrong rate", "output %llu comes after %llu ticks", (unsigned long long) outputs, (unsigned long long) b.ticks );
                u64 want = ( b.c.cyc - tick0 ) / ( (u64) period * div ); if ( b.ticks + 2 < want || b.ticks > want + 2 ) c.fail( "tick missed", "%llu ticks served after time for %llu", (unsigned long long) b.ticks, (unsigned long long) want );
                u64 cw = ( b.c.cyc - tick0 ) / ( 14 * 128 + 192 ); if ( b.conversions + 3 < cw ) c.fail( "conversion missed", "%llu conversions after time for %llu", (unsigned long long) b.conversions, (unsigned long long) cw );
                if ( outputs >= total ) break;
            }
            if ( b.led_write ) { b.led_write = false; bool now = b.c.d[Chip::PORTB] & 0x20; if ( b.c.d[Chip::PORTB] & ~0x20 ) c.fail( "other pins", "port B is written as %02x", b.c.d[Chip::PORTB] ); if ( b.ticks < 603 && blinks < 6 ) { ++blinks; if ( now == led ) c.fail( "no blinking", "the LED does not change at start-up blink %llu", (unsigned long long) blinks ); led = now; if ( b.ticks < blinks * 100 || b.ticks > blinks * 100 + 3 ) c.fail( "no blinking", "start-up blink %llu comes after %llu ticks", (unsigned long long) blinks, (unsigned long long) b.ticks ); hundred = b.ticks / 100; } }
            // the LED between the hundreds of ticks
            if ( b.ticks != tk && b.ticks % 100 == 0 && b.ticks >= 700 )
            {
                // collect what a look at this moment may have seen, judge four ticks later
                looks = b.ticks; look_at = b.c.cyc;
            }
            if ( looks && b.c.cyc >= look_at + 800 )
            {
                auto r = recent( 1000 ); bool up = false, down = false; for ( u16 x : r ) ( x > 511 ? up : down ) = true; bool now = b.c.d[Chip::PORTB] & 0x20, can_on, can_off;
                if ( looks % 1000 == 0 ) { can_off = true; can_on = up; } else { can_on = led || up; can_off = !led && down; }
                if ( now ? !can_on : !can_off ) c.fail( "wrong light", "after %llu ticks the LED is %s; it was %s and the input is %s", (unsigned long long) looks, now ? "on" : "off", led ? "on" : "off", up && down ? "around half" : up ? "above half" : "below half" );
                led = now; looks = 0; c.cover( led );
            }
            if ( blinks < 6 && b.ticks > 640 ) c.fail( "no blinking", "the LED has blinked %llu times after %llu ticks", (unsigned long long) blinks, (unsigned long long) b.ticks );
            if ( b.c.cyc > ( outputs + 1 ) * deadline ) c.fail( "locked up", "no output for %llu cycles (%llu outputs, %llu ticks, %llu conversions so far)", (unsigned long long) deadline, (unsigned long long) outputs, (unsigned long long) b.ticks, (unsigned long long) b.conversions );
            if ( b.ticks > 8 && b.saw_rise == false && b.c.cyc > 20000 ) c.fail( "not started", "the output pin never moves" );
        }
        c.simtime += b.c.cyc / avr::clock_hz * ( real ? 1 : 64.0 / div ); c.h( b.c.cyc ); (void) blinks; (void) hundred;
        if ( b.n > 3 ) c.nontrivial = true;
    }
}
// loops of the same shape
static u8 const plain[] = { 0, 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0xba };
struct Loop : Rig { using Rig::Rig; std::vector<u8> setup; bool started = false; u8 port_in( u8 p ) override { if ( p == 0xd0 || p == 0xd1 ) { if ( ip >= setup.size() ) throw avr::Fault{ "the program asks for more than it was given" }; return setup[ip++]; } return Rig::port_in( p ); } void port_out( u8 p, u8 v ) override { if ( p == 0xd3 && v == 1 ) { started = true; return; } Rig::port_out( p, v ); } };
static void loops( Ctx & c )
{
    Loop b( 2 + c.draw( 2 ) ); b.ctx = &c; b.salt = c.draw( 1u << 30 ); b.shape = c.draw( 7 ); int mode = c.draw( 9 ), adps = c.draw( 8 ), ch = c.draw( 9 ), order = c.draw( 2 ) + ( c.draw( 2 ) ? 2 + 4 * c.draw( 20 ) : 0 ); long k = adps ? 1 << adps : 2;
    bool primed = c.draw( 2 ); if ( primed ) order |= 128; long conv = ( primed ? 16 : 28 ) * k; long busy = 700 + ( order & 2 ? 4 * ( ( order & 127 ) >> 2 ) : 0 ); int clk = 1, top = 0; long period = 0;
    if ( mode == 4 ) { while ( ( primed ? 16 : 28 ) * k + busy > 1000 && adps > 1 ) k = 1 << --adps; if ( order & 2 ) order &= 129; period = 1024; busy = 700; }
    else if ( mode <= 3 ) { long need = conv + busy + c.logu( 4000 ); static int const dv[] = { 0, 1, 8, 64, 256, 1024 }; clk = 2; while ( clk < 5 && need / dv[clk] > 250 ) ++clk; top = std::max<long>( need / dv[clk] + 1, 1 ) ; if ( top > 255 ) top = 255; period = (long)( top + 1 ) * dv[clk]; }
    else if ( mode < 8 ) period = conv + busy + c.logu( 4000 );
    else { if ( k < 64 ) { adps = 6 + c.draw( 2 ); k = 1 << adps; } period = 15 * k; }
    b.want_mux = ch; b.c.watch[Chip::OCR1AL] = 1; int lives = 1 + c.logu( 4 ); c.cover( ( ( mode * 8 + adps ) * 16 + ch ) * 256 + order ); c.cover( top * 8 + clk ); b.setup = { (u8) mode, (u8) top, (u8) clk, (u8) adps, (u8) ch, (u8) order };
    for ( int v = 0; v < 6; ++v ) b.allowed_vec |= 1u << avr::vectors()[v]; b.allowed_vec |= 1u << Chip::V_INT0 | 1u << Chip::V_PC2;
    for ( int k2 = 0x100; k2 <= avr::ram_top; ++k2 ) b.c.d[k2] = b.mix( b.salt + k2 );
    int pin = mode == 7 ? ch & 7 : 2; if ( mode == 8 && ( ch & 7 ) == 4 ) pin = 4;
    for ( int life = 0; life < lives; ++life )
    {
        bool last = life + 1 == lives; for ( int p = 0; p < 3; ++p ) { b.c.ext[p] = c.draw( 256 ); b.c.driven[p] = 255; }
        u64 total = last ? 1 + c.logu( 120 ) : 0, stop_at = last ? ~0ull : c.draw( 3 ) ? c.logu( 60 * period + 3000 ) : c.draw( 2500 ); b.restart(); b.started = false; b.ip = 0; b.c.reset(); b.c.inject = 0; for ( auto & s : b.isr ) s = {};
        u64 outputs = 0, events = 0, next = 0, asked = 0; bool calm = true, level = b.c.ext[2] >> pin & 1; u64 t0 = 0, gate = 0; u64 first_sample = 0; std::deque<u16> expect; u64 seen = 0; u64 disturb = 0, next_disturb = 500 + c.logu( 20000 ); bool noisy = c.draw( 2 ); u64 written_at = 0; (void) calm;
        for ( ;; )
        {
            if ( b.c.cyc >= stop_at ) { c.fault( "reset at a drawn instant" ); c.cover( b.c.cyc ); break; }
            b.c.step();
            if ( b.wrote ) { b.wrote = false; u16 v = b.c.ocr1buf( 0 ); b.cmd( v ); if ( !b.started ) continue; ++outputs; c.step(); written_at = b.c.cyc;
                // everything converted so far goes out in order, once each
                c.note( "output %llu: %d", (unsigned long long) outputs, v ); c.h( (u64) v ); if ( expect.empty() ) c.fail( "not a sample", "%d is put out, nothing new was sampled", v ); if ( v != expect.front() ) c.fail( "not a sample", "%d is put out; the sample is %d", v, expect.front() ); expect.pop_front();
                if ( outputs >= total ) break; }
            if ( b.samples != seen ) { seen = b.samples; if ( !( primed && seen == 1 ) ) expect.push_back( b.sampled ); if ( !first_sample ) first_sample = b.c.cyc; if ( expect.size() > 2 || ( expect.size() == 2 && mode != 8 ) ) c.fail( "sample not mirrored", "loop %d: sample %llu (%d) was not put out when the next is taken", mode, (unsigned long long) seen - 1, expect.front() ); }
            if ( b.lost ) c.fail( "conversion missed", "a conversion result is discarded" );
            if ( b.stray ) c.fail( "stray interrupt", "an interrupt nobody asked for is taken" );
            if ( b.wrong_input ) c.fail( "wrong input", "input %d with reference %d is converted instead of %d", b.mux, b.refs, ch );
            if ( b.pwm_bad ) c.fail( "wrong pulse", "a pulse of %llu cycles is put out; the latest values are %d %d", (unsigned long long) b.bad_width, b.commanded.size() > 1 ? b.commanded[b.commanded.size() - 2] : -1, b.commanded.back() );
            if ( !b.started ) { if ( b.c.cyc > 4000 ) c.fail( "not started", "the sampling loop is not reached within 4000 cycles of reset" ); continue; }
            if ( !t0 ) { t0 = b.c.cyc; gate = t0 + 40 * k; next = t0 + 40 + c.draw( 3000 ); }
            // outside events ask for samples
            if ( mode >= 5 && mode <= 7 && b.c.cyc >= next ) { bool edge = mode == 7 ? true : ( ch & 1 ) ? !level : level; level = !level; b.c.drive( 2, pin, level ); next += edge ? period + c.logu( 3000 ) : 20 + c.draw( 300 ); if ( edge ) { ++asked; if ( asked == 1 ) next += 30 * k; c.fault( "pin event" ); } }
            if ( noisy && b.c.cyc >= next_disturb && b.nest.empty() ) { int vec = avr::vectors()[c.draw( 6 )]; auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 4 ); for ( int i = 0; i < sc.cmd; ++i ) sc.in.insert( sc.in.end(), { plain[c.draw( sizeof plain )], (u8) c.draw( 256 ), (u8) c.draw( 256 ) } ); b.c.inject |= 1u << vec; c.fault( "unrelated interrupt" ); c.cover( b.c.cyc ); next_disturb = b.c.cyc + 900 + c.logu( 20000 ) * c.draw( 2 ); }
            // nothing missed: samples are taken at the rate asked for
            u64 samples = b.samples - ( primed && b.samples ); u64 want = mode >= 5 && mode <= 7 ? asked : b.c.cyc - t0 > (u64) period * 2 ? ( b.c.cyc - t0 ) / period : 0; if ( mode == 8 ) want = want > 2 ? want - 2 : 0; u64 slack = mode >= 5 && mode <= 7 ? 1 : 2;
            if ( samples + slack < want ) c.fail( "sample missed", "%llu samples taken; %llu were due", (unsigned long long) samples, (unsigned long long) want );
            if ( mode <= 4 && samples > ( b.c.cyc - t0 ) / period + 3 ) c.fail( "too many samples", "%llu samples taken in time for %llu", (unsigned long long) samples, (unsigned long long)( ( b.c.cyc - t0 ) / period ) );
            if ( mode >= 5 && mode <= 7 && samples > asked ) c.fail( "too many samples", "%llu samples taken, %llu asked for", (unsigned long long) samples, (unsigned long long) asked );
            if ( b.c.cyc - std::max( written_at, t0 ) > 3 * (u64) period + 40 * k + 8000 ) c.fail( "locked up", "no output for %llu cycles (%llu so far)", (unsigned long long)( b.c.cyc - std::max( written_at, t0 ) ), (unsigned long long) outputs );
        }
        (void) events; (void) gate; (void) disturb; c.simtime += b.c.cyc / avr::clock_hz; c.h( b.c.cyc ); if ( outputs > 1 ) c.nontrivial = true;
    }
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M07";
    ck.rule = "Scenario shipped runs the unedited example program avr-adc-dac-isr-atmega.e.cpp (its timer tick accelerated 8 to 32 times, every 60th run at its real rate) on drawn input signals, converter phases and undefined memory contents, through resets at drawn instants; oracle: set-up registers, start-up blinking, one output per 1000 ticks, each a clamped conversion current when it was read, LED rules, PWM pulses as commanded, no tick or conversion missed, no stray interrupt. Scenario loops runs sampling loops of the same shape (tick handler, auto-trigger on timer or pin event with flags cleared by the library, polled, free-running) with drawn rates, pin events, resets and unrelated interrupts; oracle: every sample goes out exactly once, in order, before the next. Non-trivial: several samples or a fault; distinct by configuration, outputs, reset and interrupt instants.";
    ck.distinct_measure = "hash of configuration, outputs, reset instants and interrupt instants";
    ck.real = { "example/avr/avr-adc-dac-isr-atmega.e.cpp and mcu/*.hpp from /repo, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core, timers, converter and pins (instruction-level simulator)", "input signals" };
    ck.assumptions = { "the shipped program's LED threshold and clamping are as written today", "rates leave the program time to pass a sample on before the next" };
    ck.scenarios = { { "shipped", 1500, 40000, avr::on_chip( shipped ) }, { "loops", 20000, 600000, avr::on_chip( loops ) } };
    return dst_main( argc, argv, ck );
}
