property='M01'
needs='a value of more than two bytes written atomically while a handler that reads it strikes between its bytes'
breaks='only 16-bit writes are protected; a handler sees 32-bit values and structures half written'
edits=[('include/mcu/register.hpp', 'if constexpr( sizeof(T) > 1 ) { scoped_interrupt_guard{}, dest = value; }', 'if constexpr( sizeof(T) == 2 ) { scoped_interrupt_guard{}, dest = value; }')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
volatile uint32_t shared;
ISR( SPI_STC_vect ) { sim_iout32( shared ); }
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t c = SIM_CMD; uint32_t v = sim_arg32(); if ( c == 1 ) atomic( shared, v ); else { cli(); shared = v; sei(); } }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( u64 at = 0; at < 80; ++at )
    {
        s.shots = {}; s.op( { 2, 1, 2, 3, 4 } ); s.shots = { { at, Chip::V_SPI } }; if ( !s.op( { 1, 5, 6, 7, 8 } ) ) return std::puts( "hangs" ), 1;
        if ( s.iout.size() == 4 ) { u32 v = s.iout[0] | s.iout[1] << 8 | s.iout[2] << 16 | s.iout[3] << 24; if ( v != 0x04030201 && v != 0x08070605 ) return std::printf( "interrupt at instruction %d: the handler reads %08x\n", (int) at, v ), 1; }
        s.c.inject = 0;
    }
    return 0;
}
'''
