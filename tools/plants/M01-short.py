property='M01'
needs='a 16-bit value shared with an interrupt handler, and the interrupt exactly between the two byte loads'
breaks='16-bit atomic reads run with interrupts on, so a handler can change the value between its two bytes'
edits=[('include/mcu/register.hpp', 'if constexpr( sizeof(T) > 1 ) { return scoped_interrupt_guard{}, value; }', 'if constexpr( sizeof(T) > 2 ) { return scoped_interrupt_guard{}, value; }')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
volatile uint16_t shared; volatile uint8_t flip;
ISR( SPI_STC_vect ) { shared = ~shared; }
int main()
{
    sei(); shared = 0x00ff;
    for (;;) { SIM_MARK = 0; if ( SIM_CMD == 1 ) { uint16_t v = atomic( shared ); sim_out16( v ); } else shared = 0x00ff; }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( u64 at = 0; at < 60; ++at )
    {
        s.shots = {}; s.op( { 2 } ); s.shots = { { at, Chip::V_SPI } }; if ( !s.op( { 1 } ) ) return std::puts( "hangs" ), 1;
        if ( s.u( 0, 2 ) != 0x00ff && s.u( 0, 2 ) != 0xff00 ) return std::printf( "interrupt at instruction %d: read %04x\n", (int) at, s.u( 0, 2 ) ), 1;
        s.shots = {}; s.op( { 2 } );
    }
    return 0;
}
'''
