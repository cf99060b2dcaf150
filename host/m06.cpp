// Check M06: converter results are never torn or mixed between conversions.
#include "../avr/board.hpp"
using namespace dst; using avr::Chip; using avr::u8; using avr::u16; using avr::u32; using avr::u64;
struct Lab : avr::Board
{
    using Board::Board; u64 salt = 0; u64 samples = 0; u16 last = 0; std::vector<u16> done; int mux = -1, refs = -1; bool lost = false; u64 conversions = 0; std::vector<u16> lost_v;
    // every sample differs from the one before in both bytes of the result
    u16 level( u64 n, int m, int r ) const { u64 x = ( n + 1 ) * 0x9E3779B97F4A7C15ull + salt + m * 0x12345671 + r * 0x7654321ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; u16 v = x & 0x3ff; if ( ( x >> 20 & 3 ) == 0 ) v = ( n & 1 ) ? 0x0ff : 0x100; else if ( ( x >> 20 & 7 ) == 1 ) v = ( n & 1 ) ? 0x3ff : 0; return v; }
    u16 analog( int m, int r ) override { if ( dry ) return 0; mux = m; refs = r; return level( samples++, m, r ); }
    void adc_done( u16 raw, bool l ) override { if ( dry ) return; ++conversions; if ( l ) { lost = true; lost_v.push_back( raw ); } else { last = raw; done.push_back( raw ); } }
};
static u8 const plain[] = { 0x3e, 0x4a, 0x4b, 0xc6, 0xc4, 0xc5, 0x24, 0x25, 0x27, 0x28, 0x2a, 0x2b };
struct Model { int ch = 0, ref = 0, adj = 0, en = 0, at = 0, ie = 0, pre = 0, trig = 0, comp = 0; };
static void converter( Ctx & c, int style )      // 0: single polled, 1: running on its own, 2: conversion handler
{
    Lab b( c.draw( avr::firmwares() ) ); b.salt = c.draw( 1u << 30 ); b.boot(); u64 start = b.c.cyc; int n = 1 + c.logu( 60 ); Model m; u16 prev = 0; bool first = true; (void) first; (void) prev;
    for ( u8 a : plain ) b.c.poke( a, c.draw( 256 ) ); b.c.watch[Chip::ADMUX] = b.c.watch[Chip::ADCSRA] = b.c.watch[Chip::ADCSRB] = 1;
    auto shaped = [&]( u16 v ) -> u16 { return m.adj ? v << 6 : v; };
    std::vector<u16> in_handler; bool handler_bad = false; u16 handler_before = 0; size_t handler_from = 0; std::vector<u16> shared_seen; u16 shared = 0;
    auto settings = [&]( char const * when ) {
        u8 mux = b.c.d[Chip::ADMUX], a = b.c.d[Chip::ADCSRA], s = b.c.d[Chip::ADCSRB]; u8 wm = m.ref << 6 | m.adj << 5 | m.ch, wa = m.en << 7 | m.at << 5 | m.ie << 3 | m.pre, ws = m.comp << 6 | m.trig;
        if ( mux != wm || ( a & 0xaf ) != wa || s != ws ) c.fail( "setting disturbed", "%s: ADMUX %02x should be %02x, ADCSRA %02x should be %02x, ADCSRB %02x should be %02x", when, mux, wm, a & 0xaf, wa, s, ws ); };
    int vadc = Chip::V_ADC;
    b.on_enter = [&]( int v ) { if ( v == vadc ) { b.isr[v].out.clear(); handler_before = b.last; handler_from = b.done.size(); } };
    b.on_leave = nullptr;
    auto run = [&]( std::vector<u8> cmd, bool reading ) {
        avr::Shots s( b ); std::vector<int> used; if ( c.chance( 1, 2 ) ) { u64 len = b.rehearse( cmd );
        for ( int k = c.draw( 3 ); k--; )
        {
            int vec = avr::vectors()[c.draw( 6 )]; if ( std::count( used.begin(), used.end(), vec ) ) continue; used.push_back( vec ); auto & sc = b.isr[vec]; sc = {}; sc.cmd = 1 + c.draw( 12 ); for ( int i = 0; i < sc.cmd; ++i ) sc.in.insert( sc.in.end(), { plain[c.draw( sizeof plain )], (u8) c.draw( 256 ), (u8) c.draw( 256 ) } );
            s.add( c.draw( std::min<u64>( len, 400 ) + 1 ), [&,vec]{ b.c.inject |= 1u << vec; c.fault( "interrupt" ); } );
        } }
        b.lost = false; b.done.clear(); s.arm(); b.op( cmd ); if ( b.lost && !reading ) c.fail( "conversion discarded", "a conversion result is discarded while nothing is being read (data register left locked)" ); b.c.irq_count = ~0ull; for ( auto & e : s.v ) c.cover( e.first ); };
    // on every handler return: what the handler read
    auto end_handler = [&] { auto & o = b.isr[vadc].out; if ( o.size() != 2 ) return; u16 got = o[0] | o[1] << 8; bool ok = got == shaped( handler_before ); for ( size_t i = handler_from; i < b.done.size(); ++i ) ok |= got == shaped( b.done[i] ); o.clear(); shared = got; shared_seen.push_back( got ); if ( !ok ) handler_bad = true, in_handler = { got, shaped( handler_before ) }; };
    b.on_leave = [&] { end_handler(); };
    // bring-up
    m.pre = style == 2 ? 4 + c.draw( 3 ) : c.draw( 6 ); run( { 20, (u8) m.pre }, false ); m.en = 1;
    if ( style == 1 ) { m.at = 1; if ( c.draw( 2 ) ) { m.trig = 3; run( { 11, 3 }, false ); b.c.poke( Chip::OCR0A, 40 + c.draw( 100 ) ); b.c.poke( Chip::TCCR0A, 2 ); b.c.poke( Chip::TIMSK0, 2 ); b.c.poke( Chip::TCCR0B, 1 + c.draw( 2 ) ); } run( { 8, 1 }, false ); run( { 13 }, false ); }
    if ( style == 2 ) { m.ie = 1; run( { 9, 1 }, false ); if ( c.draw( 2 ) ) { m.at = 1; run( { 8, 1 }, false ); } else run( { 19, 1 }, false ); run( { 13 }, false ); }
    settings( "after bring-up" );
    for ( int t = 0; t < n; ++t )
    {
        c.step(); int k = c.draw( 16 ); bool read = false; char const * what = "operation"; u16 before = b.last; shared_seen = { shared }; u64 convs = b.conversions;
        if ( style == 0 && k < 6 )
        {
            u64 idle = 0; while ( b.c.converting() ) { run( { 21 }, false ); if ( ++idle > 100 ) c.fail( "hangs", "a single conversion does not end" ); } run( { 16 }, false );
            int ch = c.draw( 16 ), ref = c.draw( 4 ), adj = c.draw( 2 ); m.ch = ch; m.ref = ref; m.adj = adj; u64 s0 = b.samples, c0 = b.conversions; run( { 1, (u8) ch, (u8) ref, (u8) adj }, true ); u16 got = b.out_u( 0, 2 );
            c.note( "single conversion of channel %d reference %d adjust %d: %04x", ch, ref, adj, got ); c.cover( ch * 64 + ref * 4 + adj ); c.h( (u64) got );
            if ( b.samples != s0 + 1 || b.conversions != c0 + 1 ) c.fail( "wrong number of conversions", "one start makes %llu samples and %llu conversions", (unsigned long long)( b.samples - s0 ), (unsigned long long)( b.conversions - c0 ) );
            if ( b.mux != ch || b.refs != ref ) c.fail( "wrong channel", "channel %d reference %d selected, channel %d reference %d converted", ch, ref, b.mux, b.refs );
            if ( got != shaped( b.level( s0, ch, ref ) ) ) c.fail( "wrong result", "conversion of %03x reads %04x (%s adjusted)", b.level( s0, ch, ref ), got, adj ? "left" : "right" );
            settings( "after a conversion" ); continue;
        }
        if ( k < 8 && style != 2 )
        {
            int how = 2 + c.draw( 2 ); read = true; run( { (u8) how }, true ); u16 got = b.out_u( 0, 2 ); std::vector<u16> allowed{ before }; for ( u16 v : b.done ) allowed.push_back( v ); bool ok = false; for ( u16 v : allowed ) ok |= got == shaped( v );
            c.note( "result %04x, %zu conversions completed meanwhile", got, b.done.size() ); c.cover( how * 16 + std::min<size_t>( b.done.size(), 15 ) ); c.h( (u64) got );
            if ( b.conversions != convs ) c.fault( "conversion completes while reading" );
            if ( !ok ) c.fail( "torn result", "the result reads %04x (%s adjusted); the conversions around it are %03x%s%03x", got, m.adj ? "left" : "right", before, b.done.empty() ? " and later " : " and ", b.done.empty() ? b.last : b.done.back() );
            settings( "after reading a result" ); continue;
        }
        if ( k < 8 && style == 2 )
        {
            run( { 17 }, true ); u16 got = b.out_u( 0, 2 ); if ( std::find( shared_seen.begin(), shared_seen.end(), got ) == shared_seen.end() ) c.fail( "torn result", "the value passed on by the conversion handler reads %04x, it was %04x and became %04x", got, shared_seen.front(), shared_seen.back() ); c.h( (u64) got ); c.cover( shared_seen.size() );
            if ( b.conversions != convs ) c.fault( "conversion completes while reading" );
        }
        else switch ( k )
        {
            case 8: { m.ch = c.draw( 16 ); run( { 4, (u8) m.ch }, style == 2 ); what = "setting the channel"; break; }
            case 9: { m.ref = c.draw( 4 ); run( { 5, (u8) m.ref }, style == 2 ); what = "setting the reference"; break; }
            case 10: { if ( style == 2 ) break; m.adj = c.draw( 2 ); run( { 6, (u8) m.adj }, false ); what = "setting the adjustment"; break; }
            case 11: { if ( style == 2 ) break; int f = style == 0 ? c.draw( 8 ) : 1 + c.draw( 5 ); m.pre = f; run( { 10, (u8) f }, false ); what = "setting the prescaler"; break; }
            case 12: { if ( style == 1 && m.trig == 0 ) { m.comp = c.draw( 2 ); run( { 12, (u8) m.comp }, false ); } else { m.trig = style == 1 ? 3 : style == 2 ? m.trig : c.draw( 8 ); run( { 11, (u8) m.trig }, style == 2 ); } what = "setting trigger or comparator input"; break; }
            case 13: { if ( style == 2 ) break; run( { 13 }, false ); what = "starting a conversion"; if ( !b.c.converting() && b.conversions == convs ) c.fail( "not started", "starting a conversion starts none" ); break; }
            case 14:
            {
                run( { 14 }, style == 2 ); int want[9] = { m.ch, m.ref, m.adj, m.en, m.at, m.ie, m.pre, m.trig, m.comp }; static char const * nm[9] = { "channel", "reference", "adjustment", "enable", "auto trigger", "interrupt", "prescaler", "trigger source", "comparator input" };
                for ( int i = 0; i < 9; ++i ) if ( b.out.size() != 9 || b.out[i] != want[i] ) c.fail( "wrong read-back", "%s reads back as %d instead of %d", nm[i], i < (int) b.out.size() ? b.out[i] : -1, want[i] ); what = "reading settings back"; break;
            }
            default: run( { 18, (u8) c.draw( 200 ) }, style == 2 ); what = "waiting";
        }
        c.cover( k ); if ( handler_bad ) c.fail( "torn result", "the conversion handler reads %04x; the conversion before it is %04x", in_handler[0], in_handler[1] ); (void) read;
        settings( what );
    }
    c.simtime += ( b.c.cyc - start ) / avr::clock_hz;
}
int main( int argc, char ** argv )
{
    avr::load_firmware( FW_PATHS ); Check ck; ck.property = "M06";
    ck.rule = "A run selects drawn channels, references, adjustments, prescalers and trigger sources and reads results (whole, or low then high byte) polled after single conversions, at arbitrary instants of free-running or timer-triggered conversions, or in the conversion handler and from there through an atomic read, with other interrupts at drawn instructions. Every simulated sample differs from its neighbours in both bytes. Oracle: each value read is exactly one conversion's value, the latest or one completing meanwhile, in the selected adjustment; single conversions convert the selected channel and reference once; no result is discarded outside a read; all other converter settings stay as modelled. Non-trivial: a conversion completed during a read or an interrupt struck.";
    ck.distinct_measure = "hash of operations, conversions completed during them and instruction offsets of interrupts";
    ck.real = { "mcu/register.hpp and mcu/atmega328.hpp from /repo/include, compiled by avr-g++ (-O2 and -Os)" }; ck.stub = { "ATmega328P core and converter (instruction-level simulator)", "analog inputs" };
    ck.assumptions = { "the main program does not read the converter while its handler does", "low and high byte functions are used in that order" };
    ck.scenarios = { { "single", 100000, 1200000, avr::on_chip( []( Ctx & c ) { converter( c, 0 ); } ) }, { "running", 200000, 2500000, avr::on_chip( []( Ctx & c ) { converter( c, 1 ); } ) }, { "handler", 60000, 800000, avr::on_chip( []( Ctx & c ) { converter( c, 2 ); } ) } };
    return dst_main( argc, argv, ck );
}
