property='M05'
needs='a device that stretches the clock or a bus that is busy for longer than the wait'
breaks='the wait for the interface gives up after a while, so a slow transfer is taken for finished or failed and the bus is left mid-way'
edits=[('include/mcu/atmega328.hpp', '                while ( ! flag() )\n                    ;\n            }\n\n            inline auto expect_status', '                for ( uint16_t n = 0; ! flag() && n < 500; ++n )\n                    ;\n            }\n\n            inline auto expect_status')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; switch ( SIM_CMD ) { case 1: twi::sync::init( twi::control::rate{ 32 } ); break; case 2: { uint8_t a = SIM_ARG, d = SIM_ARG; SIM_OUT = twi::sync::write( a, d ) ? 1 : 0; break; } } }
}
'''
demo=r'''#include "sim.hpp"
struct Bus : Sim
{
    u32 stretch = 0; std::string seen;
    u32 twi_stretch() override { return stretch; }
    void twi_started( bool again ) override { seen += again ? "R" : "S"; }
    avr::Env::Bus twi_byte( u8 b, bool ) override { char t[8]; std::snprintf( t, 8, " %02x", b ); seen += t; return ok; }
    void twi_stop() override { seen += " P"; }
};
int demo()
{
    Bus s; s.boot(); s.op( { 1 } );
    for ( u32 n : { 0u, 200u, 2000u, 20000u, 100000u } )
    {
        s.stretch = n; s.seen.clear(); if ( !s.op( { 2, 0x40, 0x5a } ) ) return std::puts( "hangs" ), 1;
        if ( s.out[0] || s.seen.find( "S 40 5a" ) == std::string::npos ) return std::printf( "stretched by %u cycles: result %d, bus %s\n", n, s.out[0], s.seen.c_str() ), 1;
    }
    return 0;
}
'''
