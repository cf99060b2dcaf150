// Check M05: two-wire writes deliver the byte exactly once or report an error, and recover.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
enum Trouble { fine, addr_nack, data_nack, addr_lost, data_lost, addr_error, data_error, troubles };
static char const * const trouble_name[] = { "", "address refused", "data refused", "arbitration lost in address", "arbitration lost in data", "bus error in address", "bus error in data" };
struct Event { char what; u8 byte; int result; };
struct Wire : avr::Board
{
    using Board::Board; std::vector<Event> log; std::vector<int> plan; size_t at = 0; std::vector<u32> waits; size_t w = 0; Ctx * ctx = nullptr;
    u32 wait() { if ( dry || w >= waits.size() ) return 0; return waits[w++]; }
    int now() { return at ? at <= plan.size() ? plan[at - 1] : fine : fine; }
    u32 twi_start( bool ) override { u32 d = wait(); if ( d ) ctx->fault( "bus busy before start" ); return d; }
    void twi_started( bool again ) override { if ( dry ) return; ++at; log.push_back( { again ? 's' : 'S', 0, 0 } ); }
    Bus twi_byte( u8 v, bool address ) override
    {
        if ( dry ) return ok; int t = now(); Bus r = ok; if ( address ? t == addr_nack : t == data_nack ) r = nack; if ( address ? t == addr_lost : t == data_lost ) r = arb_lost; if ( address ? t == addr_error : t == data_error ) r = bus_error;
        if ( r != ok ) ctx->fault( trouble_name[t] ); log.push_back( { address ? 'A' : 'D', v, r } ); return r;
    }
    u32 twi_stretch() override { u32 d = wait(); if ( d ) ctx->fault( "clock stretched" ); return d; }
    void twi_stop() override { if ( !dry ) log.push_back( { 'P', 0, 0 } ); }
    void twi_aborted() override { if ( !dry ) log.push_back( { 'X', 0, 0 } ); }
    std::string text( size_t from, size_t to ) const { std::string s; for ( size_t i = from; i < to && i < log.size(); ++i ) { char b[24]; auto & e = log[i]; if ( e.what == 'A' || e.what == 'D' ) snprintf( b, sizeof b, "%s%c:%02x%s", s.empty() ? "" : " ", e.what, e.byte, e.result == ok ? "+" : e.result == nack ? "-" : e.result == arb_lost ? "(lost)" : "(error)" ); else snprintf( b, sizeof b, "%s%c", s.empty() ? "" : " ", e.what ); s += b; } return s; }
};
static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x24, 0x25, 0x2a, 0x2b, 0x27, 0x28 };

static void wire( Ctx & c )
{
    Wire b( c.draw( avr::firmwares() ) ); b.ctx = &c; b.boot(); u64 start = b.c.cyc; bool slow = c.chance( 1, 30 ); int n = 1 + c.logu( slow ? 4 : 16 ); b.c.ext[1] = b.c.driven[1] = 0x30;
    for ( u8 a : plain ) b.c.poke( a, c.draw( 256 ) ); if ( c.draw( 2 ) ) { b.c.poke( Chip::TWBR, c.draw( 256 ) ); b.c.poke( Chip::TWSR, c.draw( 4 ) ); b.c.poke( Chip::TWCR, c.draw( 2 ) * 4 ); }
    int rate = -1, pre = -1; bool healthy = true;
    auto interrupts = [&]( avr::Shots & s, u64 len ) {
        std::vector<int> used; for ( int k = c.draw( 4 ); k--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 3 );
            for ( int i = 0; i < sc.cmd; ++i ) { u8 a = plain[c.draw( sizeof plain )], keep = c.draw( 256 ), flip = c.draw( 256 ); if ( a == 0x28 ) keep |= 0x30, flip &= ~0x30; if ( a == 0x27 ) a = 0x3e; sc.in.insert( sc.in.end(), { a, keep, flip } ); }
            s.add( c.draw( len + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( "interrupt" ); } );
        } };
    auto settle = [&] { for ( int k = 0; k < 4000 && b.c.twi_busy(); ++k ) b.op( { 7, 255 } ); };
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int what = t == 0 ? 1 + c.draw( 3 ) : c.draw( 12 );
        if ( what < 4 && what )
        {
            std::vector<u8> cmd{ (u8) what }; rate = what == 1 ? 12 : slow ? c.draw( 256 ) : c.draw( 24 ); pre = what < 3 ? 0 : slow ? c.draw( 4 ) : c.draw( 2 ); if ( what > 1 ) cmd.push_back( rate ); if ( what > 2 ) cmd.push_back( pre );
            if ( t && c.draw( 2 ) ) settle(); if ( b.c.twi_busy() ) settle();
            bool clean = c.draw( 2 ); avr::Shots s( b ); u64 len = b.rehearse( cmd ); if ( !clean ) interrupts( s, len ); u8 port = b.c.d[Chip::PORTC], ddr = b.c.d[Chip::DDRC]; s.arm(); b.op( cmd ); u8 now = b.c.d[Chip::PORTC]; b.op( { 99 } ); b.c.irq_count = ~0ull;
            c.note( "init rate %d prescale %d", rate, pre ); c.cover( what ); for ( auto & e : s.v ) c.cover( e.first );
            if ( b.c.d[Chip::TWBR] != rate || ( b.c.d[Chip::TWSR] & 3 ) != pre ) c.fail( "wrong bit rate", "initialised for rate %d prescale %d: TWBR is %d, prescale %d", rate, pre, b.c.d[Chip::TWBR], b.c.d[Chip::TWSR] & 3 );
            if ( !( b.c.d[Chip::TWCR] & 4 ) ) c.fail( "not enabled", "the interface is off after initialisation" );
            if ( ( now & 0x30 ) != 0x30 ) c.fail( "no pull-ups", "pull-ups of SDA and SCL are %02x after initialisation, were %02x", now & 0x30, port & 0x30 );
            if ( clean && ( ( now ^ port ) & ~0x30 ) ) c.fail( "other pins", "initialisation changes port C from %02x to %02x", port, now );
            if ( b.c.d[Chip::DDRC] != ddr ) c.fail( "other pins", "initialisation changes directions of port C from %02x to %02x", ddr, b.c.d[Chip::DDRC] );
            continue;
        }
        if ( what == 4 ) { b.op( { 6 } ); if ( b.out.size() != 3 || b.out[0] != rate || b.out[1] != pre || b.out[2] != 1 ) c.fail( "wrong read-back", "rate %d prescale %d read back as %d %d %d", rate, pre, b.out[0], b.out[1], b.out[2] ); continue; }
        if ( what == 5 && !b.c.twi_busy() ) { if ( c.draw( 2 ) ) { rate = c.draw( 24 ); b.op( { 9, (u8) rate } ); } else { pre = c.draw( 2 ); b.op( { 10, (u8) pre } ); } continue; }
        // writes: one, several back to back, or with retries
        int kind = what < 8 ? 0 : what < 10 ? 1 : 2; int count = kind == 0 ? 1 : kind == 1 ? 1 + c.draw( 4 ) : 1; std::vector<u8> cmd; std::vector<std::pair<u8,u8>> bytes; b.plan.clear(); b.at = 0; b.log.clear(); b.waits.clear(); b.w = 0; bool faulty = c.draw( 2 );
        for ( int k = 0; k < count; ++k ) bytes.push_back( { c.draw( 128 ) * 2, c.draw( 4 ) ? c.draw( 256 ) : c.draw( 2 ) * 255 } );
        if ( kind == 0 ) cmd = { 4, bytes[0].first, bytes[0].second }; else if ( kind == 1 ) { cmd = { 5, (u8) count }; for ( auto & x : bytes ) cmd.push_back( x.first ), cmd.push_back( x.second ); } else cmd = { 8, bytes[0].first, bytes[0].second, 0 };
        int fails = 0; if ( kind == 2 ) { fails = faulty ? c.draw( 5 ) : 0; for ( int k = 0; k < fails; ++k ) b.plan.push_back( 1 + c.draw( troubles - 1 ) ); b.plan.push_back( fine ); cmd[3] = fails + 1 + c.draw( 3 ); } else for ( int k = 0; k < count; ++k ) b.plan.push_back( faulty && c.draw( 2 ) ? 1 + c.draw( troubles - 1 ) : fine );
        for ( int k = c.draw( 4 ) * faulty; k--; ) b.waits.push_back( c.draw( 2 ) ? c.logu( 4000 ) : 0 );
        if ( c.draw( 2 ) ) settle();
        avr::Shots s( b ); if ( c.draw( 2 ) ) { u64 len = b.rehearse( cmd, nullptr, 40000000 ); interrupts( s, len ); } b.at = 0; b.log.clear(); b.w = 0;
        u64 bit = 16 + 2 * b.c.d[Chip::TWBR] * ( 1u << ( 2 * ( b.c.d[Chip::TWSR] & 3 ) ) ), cap = ( 40 * bit + 4000 ) * ( count + fails + 1 ) + 30000, t0 = b.c.cyc; s.arm();
        b.c.run( 0 ); b.in = cmd; b.ip = 0; b.out.clear(); b.c.run( cap ); if ( !b.c.stop ) c.fail( "hangs", "a two-wire write (%s, %zu troubles planned before) has not returned after %llu cycles: bus %s", kind == 0 ? "single" : kind == 1 ? "back to back" : "retried", b.plan.size(), (unsigned long long)( b.c.cyc - t0 ), b.text( 0, 99 ).c_str() );
        auto out = b.out; b.c.irq_count = ~0ull; settle(); b.c.inject = 0; b.op( { 99 } );
        c.note( "write: bus %s", b.text( 0, 99 ).c_str() ); for ( auto & p : b.plan ) c.cover( p + 8 * kind ); for ( auto & e : s.v ) c.cover( e.first ); c.h( b.c.cyc );
        // split the transcript into the attempts
        std::vector<std::pair<size_t,size_t>> tries; for ( size_t k = 0; k < b.log.size(); ++k ) if ( b.log[k].what == 'S' || b.log[k].what == 's' ) { if ( !tries.empty() ) tries.back().second = k; tries.push_back( { k, b.log.size() } ); }
        if ( kind == 2 ) { int k = out.size() == 1 ? out[0] : -1; if ( k != fails ) c.fail( k < fails && k >= 0 ? "false success" : "no recovery", "a write with %d refusals before it works succeeds after %d: bus %s", fails, k, b.text( 0, 99 ).c_str() ); }
        else if ( (int) out.size() != count ) c.fail( "derailed", "%zu results for %d writes", out.size(), count );
        size_t pos = 0; int attempts = kind == 2 ? fails + 1 : count;
        if ( (int) tries.size() != attempts ) c.fail( (int) tries.size() > attempts ? "delivered twice" : "nothing sent", "%d writes make %zu starts on the bus: %s", attempts, tries.size(), b.text( 0, 99 ).c_str() ); if ( !tries.empty() && tries[0].first ) c.fail( "stray bus activity", "before the first start: %s", b.text( 0, tries[0].first ).c_str() );
        for ( int k = 0; k < attempts; ++k )
        {
            auto [from, to] = tries[k]; int plan = b.plan[k]; auto & x = bytes[kind == 2 ? 0 : k]; bool error = kind == 2 ? k < fails : out[k]; auto T = [&] { return b.text( from, to ); }; int delivered = 0;
            for ( size_t i = from; i < to; ++i ) { auto & e = b.log[i]; if ( e.what == 'D' && e.result == avr::Env::ok ) ++delivered; if ( e.what == 'A' && e.byte != x.first ) c.fail( "wrong address", "write of %02x to %02x: %s", x.second, x.first, T().c_str() ); if ( e.what == 'D' && e.byte != x.second ) c.fail( "wrong byte", "write of %02x to %02x: %s", x.second, x.first, T().c_str() ); if ( e.what == 'X' ) c.fail( "bus left hanging", "write of %02x to %02x: %s", x.second, x.first, T().c_str() ); }
            if ( !error )
            {
                bool good = to - from == 4 && b.log[from].what == 'S' && b.log[from + 1].what == 'A' && b.log[from + 1].result == avr::Env::ok && b.log[from + 2].what == 'D' && b.log[from + 2].result == avr::Env::ok && b.log[from + 3].what == 'P';
                if ( !good ) c.fail( "false success", "write of %02x to %02x reports success: %s", x.second, x.first, T().c_str() );
            }
            else
            {
                if ( plan == fine ) c.fail( "no recovery", "write of %02x to %02x reports an error although nothing went wrong: %s", x.second, x.first, T().c_str() );
                if ( delivered ) c.fail( "false error", "write of %02x to %02x reports an error: %s", x.second, x.first, T().c_str() );
                if ( ( plan == addr_nack || plan == data_nack ) && b.log[to - 1].what != 'P' ) c.fail( "bus not released", "write of %02x to %02x: %s", x.second, x.first, T().c_str() );
            }
            if ( plan != fine && !error ) c.fail( "false success", "write of %02x to %02x reports success: %s", x.second, x.first, T().c_str() );
        }
        (void) pos; if ( b.c.twi_owned() ) c.fail( "bus not released", "the bus is still held after %s", b.text( 0, 99 ).c_str() ); healthy = true;
        if ( b.c.d[Chip::TWBR] != rate || ( b.c.d[Chip::TWSR] & 3 ) != pre || !( b.c.d[Chip::TWCR] & 4 ) ) c.fail( "setting disturbed", "after a write the bit rate is %d/%d, enabled %d", b.c.d[Chip::TWBR], b.c.d[Chip::TWSR] & 3, b.c.d[Chip::TWCR] >> 2 & 1 );
    }
    (void) healthy; c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M05";
    ck.rule = "A run initialises the two-wire interface (default, rate, rate and prescale; also repeatedly and from a drawn earlier state) and performs single, back-to-back and retried writes of drawn bytes to drawn addresses while the simulated bus refuses addresses or bytes, takes arbitration, reports bus errors, is busy before the start or stretches the clock, with interrupts at drawn instructions. Oracle: bus transcript per write (start, address+ack, byte+ack, stop exactly once if and only if success is reported; nothing delivered when an error is reported; bus released), return values, bounded time, success as soon as nothing goes wrong, bit rate, enable and pull-ups after every initialisation. Non-trivial: a bus fault or interrupt happened; distinct by fault plans and interrupt positions.";
    ck.distinct_measure = "hash of write kinds, fault plans and instruction offsets of the interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and two-wire controller (instruction-level simulator)", "two-wire bus, devices and other masters" };
    ck.assumptions = { "a start requested while a stop is still being sent follows the stop", "addresses are write addresses", "a stretching device lets go eventually" };
    ck.scenarios = { { "wire", 250000, 8000000, avr::on_chip( wire ) } };
    return dst_main( argc, argv, ck );
}
