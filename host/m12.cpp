// Check M12: a whole application keeps its guarantees together: every sample once, delivered reports, checkpoints that survive.
#include "../avr/board.hpp"
#include "app.hpp"
#include <deque>
#include <memory>
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
// what the signal path does in real numbers, and on the desktop with the library
struct Bytes { std::vector<u8> const & v; size_t p; u8 get() { return v[p++]; } };
struct Model
{
    Work w; double s[8] = {}; std::vector<double> k; // k: the numbers of the set-up, in order
    static double clampd( double y ) { y = y < 0 ? std::ceil( y ) : std::floor( y ); return y < 3 ? 3 : y > 1023 ? 1023 : y; }
    double ideal( double v )
    {
        if ( w.kind == 0 ) { for ( size_t i = 0; i < k.size() / 5; ++i ) { double b0 = k[5 * i], b1 = k[5 * i + 1], b2 = k[5 * i + 2], a1 = k[5 * i + 3], a2 = k[5 * i + 4], y = b0 * v + s[2 * i]; s[2 * i] = b1 * v - a1 * y + s[2 * i + 1]; s[2 * i + 1] = b2 * v - a2 * y; v = y; } return v; }
        if ( w.kind == 1 ) return s[0] = v * k[0] - s[0] * k[1];
        double const * A = &k[1], * H = &k[7], * Q = &k[9], R = k[13]; double * P = s, * x = s + 4;
        double x0 = A[0] * x[0] + A[1] * x[1], x1 = A[2] * x[0] + A[3] * x[1]; double T[4], M[4];
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) T[2 * i + j] = A[2 * i] * P[j] + A[2 * i + 1] * P[2 + j];
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) M[2 * i + j] = T[2 * i] * A[2 * j] + T[2 * i + 1] * A[2 * j + 1] + Q[2 * i + j];
        double p0 = M[0] * H[0] + M[1] * H[1], p1 = M[2] * H[0] + M[3] * H[1], S = H[0] * p0 + H[1] * p1 + R, K0 = p0 / S, K1 = p1 / S, e = v - H[0] * x0 - H[1] * x1; x[0] = x0 + K0 * e; x[1] = x1 + K1 * e;
        double q0 = H[0] * M[0] + H[1] * M[2], q1 = H[0] * M[1] + H[1] * M[3]; P[0] = M[0] - K0 * q0; P[1] = M[1] - K0 * q1; P[2] = M[2] - K1 * q0; P[3] = M[3] - K1 * q1; P[1] = P[2] = ( P[1] + P[2] ) / 2; return x[0];
    }
};
enum Point { at_time, at_tick, at_sample, at_output, at_master, at_program, at_byte, at_read, at_press, points };
static char const * const point_name[] = { "time", "tick", "sample", "output", "EEPROM master enable", "cell programming", "two-wire byte", "counter read", "press" };
enum Act { interrupt, press, noise, reset, power, acts };
static int const tick_vector[] = { Chip::V_T0A, Chip::V_T0B, Chip::V_T0O };
struct Source { int vector, port, bit, neighbour; };
static Source const source[] = { { Chip::V_INT0, 2, 2, 3 }, { Chip::V_INT0, 2, 2, 3 }, { Chip::V_INT1, 2, 3, 2 }, { Chip::V_INT1, 2, 3, 2 }, { Chip::V_PC2, 2, 2, 3 }, { Chip::V_PC1, 1, 3, 2 }, { Chip::V_PC0, 0, 0, 2 } };
struct Trigger { int point; u64 nth, delay; int act; int vec; bool used; };
struct Pair { u8 address; int lo, hi; bool first; };
struct Cell { u16 a; int v; int mode; };
struct Record { u16 seq = 0; std::shared_ptr<Model> state; bool complete = false; };
struct App : avr::Board
{
    using Board::Board; Ctx * ctx = nullptr; std::vector<Trigger> triggers; u64 seen[points] = {}; std::multimap<u64,Trigger> schedule; u64 salt = 0, n = 0; int shape = 0, channel = 0, reference = 1, how = 0, tick = 0; bool self_timed = false; u64 pressed = 0, pressed_at = 0; std::string bad, bad_class;
    std::deque<u16> pending; size_t most = 0; u64 outputs = 0, conversions = 0, ticks = 0, presses = 0, presses_before = 0, p0 = 0, fired = 0, stray = 0; bool wrote = false, ran = false; u64 start = 0;
    std::vector<int> plan; size_t plan_at = 0; std::vector<u32> waits; size_t w = 0; std::deque<std::pair<u8,std::pair<int,int>>> expected; u8 addressed = 0; int low = 0; std::vector<u8> delivered; size_t low_of = 0;
    std::deque<Cell> cells; u8 shadow[1024]; std::deque<u16> commanded; u64 rise = ~0ull; u16 last = 0, seq = 0; Cell now{}; Record record[2]; std::shared_ptr<Model> due; u64 toggles = 0; bool programming = false;
    void wrong( char const * cls, char const * f, ... ) { if ( !bad.empty() ) return; char b[300]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a ); bad = b; bad_class = cls; }
    void reach( int p ) { u64 k = seen[p]++; for ( auto & t : triggers ) if ( !t.used && t.point == p && t.nth == k ) { t.used = true; schedule.insert( { c.cyc + t.delay, t } ); } }
    u16 level()
    {
        u64 r = mix64( n++ + salt );
        switch ( shape ) { case 0: return r & 0x3ff; case 1: return r & 1 ? 0x1ff : 0x200; case 2: return r & 1 ? 0x0ff : 0x100; case 3: return n * 37 & 0x3ff; case 4: return n / 9 & 1 ? 1023 : 0; default: return mix64( salt ) & 0x3ff; }
    }
    u16 analog( int m, int r ) override { if ( m != channel || r != reference ) wrong( "wrong input", "input %d with reference %d is converted", m, r ); return level(); }
    void adc_done( u16 raw, bool lost ) override { ++conversions; if ( lost ) wrong( "sample lost", "a conversion result is discarded by the converter" ); pending.push_back( raw ); most = std::max( most, pending.size() ); reach( at_sample ); }
    u32 adc_wait( u32 k ) override { return mix64( ++phase + salt ) % k; } u64 phase = 0;
    void irq_entered( int v ) override { Board::irq_entered( v ); if ( v == tick_vector[tick] ) { ++ticks; reach( at_tick ); } else if ( v == source[how].vector ) { ++presses; pressed_at = 0; if ( presses > pressed ) wrong( "press invented", "interrupt %d is taken %llu times for %llu presses", v, (unsigned long long) presses, (unsigned long long) pressed ); reach( at_press ); } else if ( v != Chip::V_ADC && !( 1u << v & ( 1u << Chip::V_SPI | 1u << Chip::V_RX | 1u << Chip::V_UDRE | 1u << Chip::V_TX | 1u << Chip::V_T2O | 1u << Chip::V_WDT ) ) ) wrong( "stray interrupt", "interrupt %d is taken; nobody asked for it", v ); }
    void irq_left() override { if ( !nest.empty() ) { auto & sc = isr[nest.back()]; if ( sc.p ) for ( size_t i = 0; i + 2 < sc.in.size(); i += 3 ) if ( sc.in[i] == 2 ) ++toggles; } Board::irq_left(); }
    void io_written( u8 a, u8 v ) override { if ( a == Chip::OCR1AL ) wrote = true; if ( a == Chip::EECR && ( v & 4 ) ) reach( at_master ); }
    void port_out( u8 p, u8 v ) override
    {
        if ( p == 0xdb ) { if ( v == 1 ) wrong( "stray interrupt", "an interrupt nobody asked for is taken" ); if ( v == 2 ) { if ( pending.size() < 9 ) wrong( "sample lost", "a sample is not taken although only %zu are waiting", pending.size() - 1 ); pending.pop_back(); } return; }
        if ( p != 0xd3 ) { Board::port_out( p, v ); return; }
        { if ( v == 1 ) ran = true; if ( v == 2 ) presses_before = presses; if ( v == 3 ) { int lo = p0 + presses_before, hi = p0 + presses; expected.push_back( { 0x42, { -1 - lo, hi } } ); expected.push_back( { 0x42, { -1 - lo, hi } } ); } if ( v == 2 ) reach( at_read ); }
    }
    // two-wire bus
    u32 hold() { if ( w >= waits.size() ) return 0; return waits[w++]; }
    u32 twi_start( bool ) override { u32 d = hold(); if ( d ) ctx->fault( "bus busy before start" ); return d; }
    void twi_started( bool ) override { ++plan_at; }
    Bus twi_byte( u8 v, bool address ) override
    {
        int t = plan_at && plan_at <= plan.size() ? plan[plan_at - 1] : 0; Bus r = ok; if ( t == ( address ? 1 : 2 ) ) r = nack; if ( t == ( address ? 3 : 4 ) ) r = arb_lost; if ( t == ( address ? 5 : 6 ) ) r = bus_error; if ( r != ok ) ctx->fault( r == nack ? "byte refused" : r == arb_lost ? "arbitration lost" : "bus error" );
        reach( at_byte ); if ( address ) { addressed = v; return r; } if ( r != ok ) return r;
        if ( expected.empty() ) { wrong( "report repeated", "byte %02x is delivered to %02x although nothing (more) is to be reported", v, addressed ); return r; }
        auto e = expected.front(); expected.pop_front(); delivered.push_back( v ); if ( addressed != e.first ) wrong( "wrong report", "byte %02x is delivered to %02x instead of %02x", v, addressed, e.first );
        if ( e.second.first >= 0 ) { if ( v != e.second.first ) wrong( "wrong report", "byte %02x is delivered to %02x instead of %02x", v, addressed, e.second.first ); }
        else { int lo = -1 - e.second.first, hi = e.second.second; bool second = expected.empty() || expected.front().first != 0x42; if ( !second ) low = v; else { u16 p = low | v << 8; bool fine = false; for ( int q = lo; q <= hi; ++q ) fine |= p == u16( q ); if ( !fine ) wrong( "torn counter", "%d presses are reported; %d to %d were counted", p, u16( lo ), u16( hi ) ); } }
        return r;
    }
    u32 twi_stretch() override { u32 d = hold(); if ( d ) ctx->fault( "clock stretched" ); return d; }
    // EEPROM
    void ee_begin( u16 a, u8 v, int m ) override
    {
        programming = true; now = { a, v, m }; if ( cells.empty() ) { wrong( "wrong programming", "cell %03x is programmed although no checkpoint is due", a ); return; } auto e = cells.front(); cells.pop_front();
        if ( a != e.a || m != e.mode || ( e.v >= 0 && v != e.v ) ) wrong( "wrong programming", "cell %03x is programmed with %02x by mode %d instead of cell %03x with %02x by mode %d", a, v, m, e.a, e.v & 255, e.mode ); auto & k = record[seq & 1]; if ( e.mode == 0 ) k.complete = false; if ( e.mode == 2 ) k = { seq, due, true }; reach( at_program );
    }
    void ee_end( u16 a, u8 ) override { programming = false; u8 & s = shadow[a]; s = now.mode == 0 ? now.v : now.mode == 1 ? 0xff : s & now.v; if ( now.mode == 2 ) last = seq; }
    void pin( char p, int bit, bool l ) override
    {
        if ( p != 'B' || bit != 1 ) return; u64 t = c.cyc - c.late; if ( l ) { rise = t; return; } if ( rise == ~0ull ) return; u64 width = t - rise, from = rise; rise = ~0ull; if ( !ran || from < start + 2048 ) return;
        bool fine = false; for ( u16 v : commanded ) fine |= v >= 1023 || width == v + 1u; if ( wrote ) fine |= width == c.ocr1buf( 0 ) + 1u || c.ocr1buf( 0 ) >= 1023; if ( !fine ) wrong( "wrong pulse", "a pulse of %llu cycles is put out; the latest value is %d", (unsigned long long) width, commanded.empty() ? -1 : commanded.back() );
    }
    void restart()
    {
        pending.clear(); most = 0; outputs = conversions = ticks = pressed = pressed_at = presses = fired = toggles = 0; wrote = ran = false; expected.clear(); cells.clear(); commanded.assign( 1, 0 ); rise = ~0ull; schedule.clear(); triggers.clear(); for ( auto & s : seen ) s = 0; nest.clear(); plan.clear(); waits.clear(); plan_at = w = 0; programming = false; delivered.clear();
    }
};
static long fixed_of( double x ) { return std::lround( x * 65536 ); }
static void application( Ctx & c )
{
    App b( c.draw( avr::firmwares() ) ); b.ctx = &c; b.salt = c.draw( 1u << 30 ); b.shape = c.draw( 6 ); b.c.watch[Chip::OCR1AL] = b.c.watch[Chip::EECR] = 1; b.c.ee_scale = 100 + c.draw( 1500 ); std::memcpy( b.shadow, b.c.ee, 1024 );
    // the signal path
    std::vector<u8> setup; std::vector<double> k; auto num = [&]( double x ) { long f = fixed_of( x ); avr::put( setup, u32( f ), 4 ); k.push_back( f / 65536. ); };
    int kind = c.draw( 3 ); setup.push_back( kind );
    if ( kind == 0 ) { int m = 1 + c.draw( 3 ); setup.push_back( m ); for ( int i = 0; i < m; ++i ) { double wc = std::tan( M_PI * c.real( 0.05, 0.4 ) ), q = c.real( 0.5, 1.5 ), d = 1 + wc / q + wc * wc; bool low = c.draw( 4 ) || i; double g = low ? wc * wc : 1; num( g / d ); num( ( low ? 2 : -2 ) * g / d ); num( g / d ); num( 2 * ( wc * wc - 1 ) / d ); num( ( 1 - wc / q + wc * wc ) / d ); } }
    if ( kind == 1 ) { double p = c.real( -0.5, 0.95 ); num( 1 - std::fabs( p ) ); num( -p ); }
    if ( kind == 2 ) { double dt = c.real( 0.02, 1 ), q = c.real( 0.05, 4 ); num( dt ); num( 1 ); num( dt ); num( 0 ); num( 1 ); num( 0 ); num( dt ); num( 1 ); num( 0 ); num( q ); num( 0 ); num( 0 ); num( q ); num( c.real( 4, 40 ) ); num( c.real( 5, 40 ) ); num( 0 ); num( 0 ); num( c.real( 5, 40 ) ); num( c.real( 0, 1000 ) ); num( 0 ); }
    auto fresh = [&] { auto m = std::make_shared<Model>(); Bytes in{ setup, 0 }; m->w.setup( in ); m->k = k; if ( kind == 2 ) for ( int i = 0; i < 4; ++i ) { m->s[i] = k[14 + i]; if ( i < 2 ) m->s[4 + i] = k[18 + i]; } return m; };
    // the estimator goes on from its published state, everything else as it was
    auto resumed = [&]( Model const & from ) { auto m = fresh(); u8 image[Work::image_max]; auto copy = from; copy.w.save( image ); m->w.load( image ); std::memcpy( m->s, from.s, sizeof m->s ); return m; };
    int image = Work::image_max; int report = c.draw( 4 ) ? 1 + c.draw( 4 ) : 0, keep = c.draw( 5 ) ? 1 + c.draw( 4 ) : 0; int clk = 2 + c.draw( 2 ), top, adps = 4 + c.draw( 4 ), rate = c.draw( 3 ) ? c.draw( 16 ) : c.draw( 100 ); b.channel = c.draw( 8 ); { static int const references[] = { 1, 0, 3 }; b.reference = references[c.draw( 3 )]; b.how = c.draw( 7 ); b.tick = c.draw( 3 ); b.self_timed = b.tick != 1 && c.draw( 3 ) == 0; if ( b.how == 5 && b.channel == 3 ) b.channel = 0; } int variant = b.reference | b.tick << 2 | ( c.draw( 3 ) ? 0 : 0x20 ) | ( b.self_timed ? 0x40 : 0 );
    u32 div = clk == 2 ? 8 : 64; { u64 least = kind == 2 ? 40000 : 4000; top = std::min<u64>( 255, std::max<u64>( 40, least / div ) ); if ( kind == 2 ) clk = 3, div = 64, top = 255; } u64 period = u64( top + 1 ) * div; if ( kind == 2 && c.draw( 2 ) ) { clk = 4; div = 256; top = 60 + c.draw( 190 ); period = u64( top + 1 ) * div; }
    int lives = 1 + c.logu( 5 ); double simulated = 0; bool power_lost = true;
    for ( int life = 0; life < lives; ++life )
    {
        bool last_life = life + 1 == lives; c.step(); b.restart(); if ( power_lost ) for ( int i = 0; i <= avr::ram_top; ++i ) if ( i < 32 || i >= 0x100 ) b.c.d[i] = mix64( b.salt + i + life * 4096 );
        b.p0 = c.draw( 2 ) ? c.draw( 65536 ) : ( c.draw( 256 ) << 8 | ( 0x100 - c.draw( 6 ) ) ) & 0xffff; u64 count = 1 + c.logu( kind == 2 ? 24 : 50 );
        std::vector<u8> cmd = setup; for ( int v : { top, clk, adps, b.channel, report, keep, rate, b.how, variant } ) cmd.push_back( v ); avr::put( cmd, b.p0, 2 ); b.in = cmd; b.ip = 0; b.out.clear();
        c.note( "filter %d, application %02x, presses by %d, tick every %llu cycles, report every %d, checkpoint every %d", kind, variant, b.how, (unsigned long long) period, report, keep );
        // which checkpoint the memory holds
        auto valid = [&]( int i ) { int a = i ? 0x1c0 : 0x0a0; return b.c.ee[a] == valid_mark ? int( b.c.ee[a + 1] | b.c.ee[a + 2] << 8 ) : -1; }; int s0 = valid( 0 ), s1 = valid( 1 ); u16 held = s0 < 0 ? s1 < 0 ? 0 : s1 : s1 < 0 ? s0 : (short)( s1 - s0 ) > 0 ? s1 : s0;
        auto & rec = b.record[held & 1]; if ( held != b.last && !( rec.complete && rec.seq == held && (short)( held - b.last ) > 0 ) ) c.fail( "checkpoint lost", "after a failure the memory holds checkpoint %d; %d was the last to be completed", held, b.last );
        b.last = b.seq = held; auto model = held ? resumed( *rec.state ) : fresh(); int to_report = report, to_keep = keep;
        // faults
        auto script = [&]( int vec ) { auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 3 ); for ( int j = 0; j < sc.cmd; ++j ) { int what = c.draw( 6 ); u16 v = what == 4 ? c.logu( b.self_timed ? 30 : 400 ) : c.draw( 65536 ); sc.in.push_back( what ); avr::put( sc.in, v, 2 ); } };
        for ( int i = 0; i < 26; ++i ) b.isr[i] = {}; std::vector<int> vecs; u64 horizon = count * std::max<u64>( period, 5000 );
        if ( c.draw( 5 ) ) for ( int i = b.self_timed ? 1 + c.draw( 3 ) : c.logu( 14 ); i--; )
        {
            Trigger t{}; t.point = c.draw( points ); t.nth = t.point == at_time ? 0 : c.logu( t.point == at_byte || t.point == at_program || t.point == at_master ? 60 : count ); t.delay = t.point == at_time ? c.draw( horizon ) : c.draw( 2 ) ? c.draw( 40 ) : c.logu( 4000 ); t.act = c.draw( 3 ) ? interrupt : c.draw( 5 ) ? press : noise;
            if ( t.act == interrupt ) { t.vec = avr::vectors()[c.draw( 6 )]; if ( !std::count( vecs.begin(), vecs.end(), t.vec ) ) { vecs.push_back( t.vec ); script( t.vec ); } } b.triggers.push_back( t ); c.cover( t.point * 8 + t.act );
        }
        if ( !last_life ) { Trigger t{}; t.point = keep && c.draw( 2 ) ? ( c.draw( 2 ) ? at_program : at_master ) : c.draw( points ); t.nth = t.point == at_time ? 0 : c.logu( t.point == at_program || t.point == at_master ? image * 3 : count ); t.delay = t.point == at_time ? c.draw( horizon ) : c.draw( 2 ) ? c.draw( 60 ) : c.logu( 4000 ); t.act = c.draw( 3 ) ? power : reset; b.triggers.push_back( t ); c.cover( 128 + t.point * 8 + t.act ); }
        int troubles = report && c.draw( 2 ) ? c.logu( 20 ) : 0; u64 waited = 0; for ( int i = 0; i < troubles; ++i ) b.plan.push_back( c.draw( 2 ) ? 1 + c.draw( 6 ) : 0 ); for ( int i = c.draw( 3 ) ? 0 : c.draw( 6 ); i--; ) { b.waits.push_back( c.logu( 3000 ) ); waited += b.waits.back(); }
        for ( auto & t : b.triggers ) if ( t.point == at_time ) { t.used = true; b.schedule.insert( { t.delay, t } ); }
        u64 bit = 16 + 2 * rate, quiet = 4 * period + 60000 + ( keep ? ( image + 4 ) * ( 54400 / b.c.ee_scale + 1500 ) : 0 ) + ( report ? ( 5 + troubles ) * ( 60 * bit + 4000 ) + waited : 0 ) + 14 * 3 * 400 * 8; if ( kind == 2 ) quiet += 400000;
        b.c.ext[0] = b.c.driven[0] = 5; b.c.ext[1] = b.c.driven[1] = 0x3c; b.c.ext[2] = b.c.driven[2] = 12; b.c.reset(); b.c.stop = false; u64 since = 0; int ended = 0; bool lit = false;
        while ( !ended )
        {
            while ( !b.schedule.empty() && b.schedule.begin()->first <= b.c.cyc )
            {
                auto t = b.schedule.begin()->second; b.schedule.erase( b.schedule.begin() ); if ( !b.ran && t.act < reset ) continue; // interrupts are off until it runs
                c.note( "  %s at cycle %llu (%s)", t.act == interrupt ? "interrupt" : t.act == press ? "press" : t.act == noise ? "neighbouring pin" : t.act == reset ? "reset" : "power failure", (unsigned long long) b.c.cyc, point_name[t.point] );
                if ( t.act == interrupt ) { b.c.inject |= 1u << t.vec; ++b.fired; c.fault( "interrupt" ); } else if ( t.act < reset ) { auto const & from = source[b.how]; int bit = t.act == press ? from.bit : from.neighbour; if ( t.act == press ) { ++b.pressed; if ( !b.pressed_at ) b.pressed_at = b.c.cyc; } b.c.drive( from.port, bit, false ); b.c.drive( from.port, bit, true ); c.fault( t.act == press ? "external event" : "event on a neighbouring pin" ); } else ended = t.act;
            }
            if ( ended ) break; bool ran = b.ran; b.c.step(); if ( !ran && b.ran ) { b.start = since = b.c.cyc; if ( b.ip != cmd.size() ) throw avr::Fault{ "the program took less than it was given" }; image = b.out.at( 0 ); }
            if ( !b.bad.empty() ) c.fail( b.bad_class.c_str(), "%s", b.bad.c_str() );
            if ( b.pressed_at && b.c.cyc > b.pressed_at + 14 * 3 * 400 * 8 + 40000 ) c.fail( "press lost", "a press is not served within %llu cycles", (unsigned long long)( b.c.cyc - b.pressed_at ) );
            if ( b.wrote )
            {
                b.wrote = false; b.c.step(); u16 y = b.c.ocr1buf( 0 ); if ( b.pending.empty() ) c.fail( "sample repeated", "value %d is put out, although every sample was already processed", y ); if ( b.pending.size() > 10 ) c.fail( "sample lost", "%zu samples are waiting", b.pending.size() );
                u16 x = b.pending.front(); b.pending.pop_front(); auto & m = *model; double ideal = Model::clampd( m.ideal( x ) ); u16 same = m.w.step( x ); ++b.outputs; c.h( (u64) y ); c.note( "sample %d: put out %d, expected %d (%.0f)", x, y, same, ideal );
                if ( y != same ) c.fail( "wrong output", "sample %llu, %d, gives %d on the chip and %d off it", (unsigned long long) b.outputs, x, y, same ); if ( std::fabs( y - ideal ) > ( kind == 2 ? 6 : 1 ) ) c.fail( "wrong output", "sample %llu, %d, gives %d; the filter gives %.0f", (unsigned long long) b.outputs, x, y, ideal );
                if ( ( ( b.c.d[Chip::PORTB] >> 5 & 1 ) != 0 ) != lit ) c.fail( "lamp wrong", "the lamp was not switched once per sample" ); lit = !lit; if ( !( b.c.d[Chip::DDRB] & 0x20 ) ) c.fail( "lamp wrong", "the lamp's pin is not an output" );
                if ( !b.expected.empty() ) c.fail( "report lost", "%zu bytes of a report were not delivered", b.expected.size() ); if ( !b.cells.empty() ) c.fail( "checkpoint incomplete", "%zu cells of a checkpoint were not programmed", b.cells.size() );
                b.commanded.push_back( y ); if ( b.commanded.size() > 6 ) b.commanded.pop_front(); since = b.c.cyc;
                if ( report && --to_report == 0 ) { to_report = report; b.expected.push_back( { 0x40, { y & 255, 0 } } ); b.expected.push_back( { 0x40, { y >> 8, 0 } } ); }
                if ( keep && --to_keep == 0 ) { to_keep = keep; ++b.seq; u16 a = b.seq & 1 ? 0x1c0 : 0x0a0; if ( b.shadow[a] != 0xff ) b.cells.push_back( { a, -1, 1 } ); b.cells.push_back( { u16( a + 1 ), b.seq & 255, 0 } ); b.cells.push_back( { u16( a + 2 ), b.seq >> 8, 0 } ); for ( int i = 0; i < image; ++i ) b.cells.push_back( { u16( a + 3 + i ), -1, 0 } ); b.cells.push_back( { a, valid_mark, 2 } ); b.due = resumed( m ); }
                if ( b.outputs >= count && last_life ) ended = -1;
            }
            if ( b.c.cyc > since + quiet + ( b.ran ? 0 : 200000 ) ) c.fail( "stalled", b.ran ? "no output for %llu cycles after output %llu" : "the application does not start within %llu cycles", (unsigned long long)( b.c.cyc - since ), (unsigned long long) b.outputs );
            if ( !last_life && b.outputs > count + 20 ) { ended = c.draw( 2 ) ? reset : power; }
        }
        u64 elapsed = b.ran ? b.c.cyc - b.start : 0, due = elapsed / period; if ( b.ran && ( b.ticks > due + 1 + ( b.tick == 1 ) || b.ticks + 1 + b.fired < due ) ) c.fail( "wrong rate", "%llu ticks were served in %llu cycles; a tick is due every %llu", (unsigned long long) b.ticks, (unsigned long long) elapsed, (unsigned long long) period );
        if ( b.ran && b.most < 7 && period > 16u * ( 1u << adps ) + 600 && b.conversions + 2 + b.fired < b.ticks ) c.fail( "sample lost", "%llu samples in %llu ticks", (unsigned long long) b.conversions, (unsigned long long) b.ticks );
        if ( ended == -1 )  // let the last report and checkpoint finish
        {
            u64 until = b.c.cyc + quiet; while ( ( !b.expected.empty() || !b.cells.empty() || b.programming || to_report == report ) && b.c.cyc < until ) { b.c.step(); if ( !b.bad.empty() ) c.fail( b.bad_class.c_str(), "%s", b.bad.c_str() ); if ( b.wrote ) break; }
            if ( !b.wrote && ( !b.expected.empty() || !b.cells.empty() ) ) c.fail( "stalled", "the last report or checkpoint does not come to its end" );
        }
        if ( b.in_main() && ( ( b.c.d[Chip::PORTD] >> 6 & 1 ) != ( b.toggles & 1 ) ) ) c.fail( "pin wrong", "a pin toggled %llu times by handlers is %d", (unsigned long long) b.toggles, b.c.d[Chip::PORTD] >> 6 & 1 );
        simulated += b.c.cyc; c.cover( b.c.cyc ); c.note( "life %d: %llu samples, %s", life, (unsigned long long) b.outputs, ended == reset ? "reset" : ended == power ? "power failure" : "end" ); if ( b.outputs ) c.nontrivial = true;
        power_lost = ended == power; if ( ended == reset ) { c.fault( b.c.busy_eeprom() ? "reset while a cell is being programmed" : "reset" ); b.c.ee_complete(); }
        if ( ended == power ) { if ( b.c.busy_eeprom() ) { u8 left = c.draw( 3 ) ? c.draw( 256 ) : valid_mark; u16 a = b.c.ee_cell(); b.c.ee_break( left ); b.shadow[a] = left; c.fault( "power failure while a cell is being programmed" ); } else c.fault( "power failure" ); }
        for ( int i = 0; i < 1024; ++i ) if ( !( b.programming && ended == -1 && i == b.now.a ) && b.c.ee[i] != b.shadow[i] ) c.fail( "cell changed", "cell %03x holds %02x instead of %02x", i, b.c.ee[i], b.shadow[i] );
    }
    c.simtime += simulated / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M12";
    ck.rule = "A run is the life of one application built from the library's pieces (timer tick, converter, filter cascade or one-pole filter or estimator in fixed point, PWM output, two-wire reports with retries, presses counted by an interrupt, checkpoints in EEPROM in two slots), with drawn composition (tick by compare match A, B or overflow; conversions started by the tick handler or by the timer itself; results right or left adjusted; reference and channel; presses by either external interrupt on any edge, or by a pin change of any port), filter, rates, input signal and report and checkpoint intervals, over one to six lives ended by resets and power failures. Interrupts, presses, events on neighbouring pins and failures are placed by time or a few cycles after a tick, a sample, an output, an EEPROM master enable, the programming of a cell, a two-wire byte or the reading of a shared counter; the bus refuses, loses arbitration, reports errors, is busy and stretches. Oracle: outputs against the filter on the desktop (exactly) and in real numbers (within 1, estimator 6 of 1024), one per conversion, in order; bytes on the bus; cells programmed; the checkpoint found after each restart is the last completed one (or the one whose completion was cut) and the application goes on from exactly that state; pulses; tick rate; progress within a bound of cycles. Non-trivial: at least one output; distinct by triggers and cycle counts.";
    ck.distinct_measure = "hash of triggers, cycle counts and outputs";
    ck.real = { "everything the application uses of /repo/include (mcu/atmega328.hpp, mcu/register.hpp, dsp/biquad-cascade.hpp, dsp/onepole.hpp, dsp/kalman.hpp, num/fixed-point.hpp, num/matrix.hpp), compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and peripherals (instruction-level simulator; EEPROM programming time shortened)", "input signal, two-wire bus and devices", "the application around the library" };
    ck.assumptions = { "a cell whose programming is cut off by a power failure may hold anything", "filters and noise settings keep fixed-point values in range", "samples not yet processed at a reset are lost with it" };
    ck.scenarios = { { "application", 30000, 1500000, avr::on_chip( application ) } };
    return dst_main( argc, argv, ck );
}
