// Simulator self-test: the same arithmetic on the host and on the simulated core.
#include "chip.hpp"
#include "../fw/selftest.inc"
#include <chrono>
#include <deque>
struct E : avr::Env { std::deque<int> a; std::vector<int> o; avr::Chip * c; avr::u8 port_in( avr::u8 p ) { if ( p == 0xd1 ) { int v = a.front(); a.pop_front(); return v; } return 0; } void port_out( avr::u8 p, avr::u8 v ) { if ( p == 0xd2 ) o.push_back( v ); if ( p == 0xd3 ) c->stop = true; } };
int main( int, char ** v )
{
    avr::Flash f; f.load( v[1] ); E e; avr::Chip c( f, &e ); e.c = &c; int bad = 0; auto t = std::chrono::steady_clock::now();
    try {
    for ( avr::u32 s = 1; s <= 60; ++s ) { avr::u32 seed = s * 2654435761u; avr::u16 n = s < 30 ? 1 : 40; for ( int i = 0; i < 4; ++i ) e.a.push_back( seed >> ( 8 * i ) & 255 ); e.a.push_back( n & 255 ); e.a.push_back( n >> 8 ); e.o.clear(); c.run( 4000000000ull );
        avr::u32 r = e.o.size() < 4 ? 0 : e.o[0] | e.o[1] << 8 | e.o[2] << 16 | (avr::u32) e.o[3] << 24; if ( r != st_run( seed, n ) ) { printf( "simulator self-test: seed %u: core %08x host %08x\n", seed, r, st_run( seed, n ) ); ++bad; } }
    } catch ( avr::Fault & x ) { printf( "fault %s pc %04x\n", x.why.c_str(), c.pc * 2 ); return 1; }
    double dt = std::chrono::duration<double>( std::chrono::steady_clock::now() - t ).count(); printf( "simulator self-test: %s, %.1f million instructions per second\n", bad ? "FAILED" : "ok", c.insns / dt / 1e6 ); return bad != 0;
}
