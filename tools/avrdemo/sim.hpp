// A board for demonstrations: the simulated chip, command and result bytes, interrupts at chosen instructions.
#pragma once
#include "chip.hpp"
#include <map>
using avr::u8; using avr::u16; using avr::u32; using avr::u64; using avr::Chip;
struct Sim : avr::Env
{
    static avr::Flash & flash() { static avr::Flash f; return f; }
    Chip c; std::vector<u8> in, out, iin, iout; size_t ip = 0, iip = 0; std::vector<int> nest; u8 icmd = 0; std::vector<std::pair<u64,int>> shots; size_t next = 0;
    struct Access { bool write, main; u8 a, v; }; std::vector<Access> log; std::vector<u16> adc_values; size_t adc_i = 0;
    Sim() : c( flash(), this ) {}
    u8 port_in( u8 p ) override
    {
        if ( p == 0xd0 || p == 0xd1 ) { if ( ip >= in.size() ) throw avr::Fault{ "asks for more than given" }; return in[ip++]; }
        if ( p == 0xd8 ) return icmd;
        if ( p == 0xd9 ) return iip < iin.size() ? iin[iip++] : 0;
        return 0;
    }
    void port_out( u8 p, u8 v ) override { if ( p == 0xd2 ) out.push_back( v ); if ( p == 0xda ) iout.push_back( v ); if ( p == 0xd3 && v == 0 ) c.stop = true; }
    void irq_point() override { u64 at = shots[next].first; while ( next < shots.size() && shots[next].first == at ) { c.inject |= 1u << shots[next].second; ++next; } if ( next < shots.size() ) c.irq_count = shots[next].first - at - 1; }
    void irq_entered( int v ) override { nest.push_back( v ); iip = 0; }
    void irq_left() override { nest.pop_back(); }
    void io_written( u8 a, u8 v ) override { log.push_back( { true, nest.empty(), a, v } ); }
    void io_read( u8 a ) override { log.push_back( { false, nest.empty(), a, c.d[a] } ); }
    u16 analog( int mux, int ) override { return adc_values.empty() ? 0 : adc_values[adc_i++ % adc_values.size()]; }
    bool boot() { c.reset(); nest.clear(); c.run( 100000 ); return c.stop; }
    // one operation; false if it does not end
    bool op( std::vector<u8> bytes, u64 cap = 400000 ) { in = bytes; ip = 0; out.clear(); iout.clear(); log.clear(); next = 0; if ( !shots.empty() ) c.irq_count = shots[0].first; u64 n = c.insns; c.run( cap ); length = c.insns - n; c.irq_count = ~0ull; return c.stop; }
    u64 length = 0;
    u32 u( size_t at, int n ) const { u32 v = 0; for ( int i = 0; i < n; ++i ) v |= (u32)( at + i < out.size() ? out[at + i] : 0 ) << ( 8 * i ); return v; }
};
int demo();
int main( int, char ** v ) { Sim::flash().load( v[1] ); try { return demo(); } catch ( avr::Fault & f ) { std::printf( "derailed: %s\n", f.why.c_str() ); return 1; } }
