property='M08'
needs='stopping the timer after it ran, then reading the clock setting back'
breaks='the clock setting read back is the last running one: a stopped timer reads as still running'
edits=[('include/mcu/atmega328.hpp', 'return clock{ reg::tccr1b::cs1::read() };', 'static uint8_t seen = 0;\n            if ( const uint8_t v = reg::tccr1b::cs1::read() ) seen = v;\n            return clock{ seen };')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t c = SIM_CMD; set( tc1::input::clock{ c } ); SIM_OUT = uint8_t( current( tc1::input::clock{} ) ); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int i = 0; i < 64; ++i ) { u8 c = i * 5 & 7; s.op( { c } ); if ( s.out[0] != c ) return std::printf( "clock %d reads back as %d\n", c, s.out[0] ), 1; }
    return 0;
}
'''
