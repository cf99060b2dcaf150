property='M10'
needs='a handler using the status saver that interrupts code bracketed by it'
breaks='all status savers keep the status in one static place, so a nested or interrupting one overwrites it'
edits=[('include/mcu/atmega328.hpp', '        value_type cache = sreg::whole::read();\n        ~scoped_sreg()', '        static value_type & keep() { static value_type v; return v; }\n        value_type const & cache = keep() = sreg::whole::read();\n        ~scoped_sreg()')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
ISR( SPI_STC_vect ) { core::scoped_sreg s; SIM_IOUT = 1; asm volatile( "sec\n sez" ); }
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t f = SIM_CMD; SREG = f | 0x80; { core::scoped_sreg s; SREG = 0x80; SIM_OUT = 1; } uint8_t r = SREG; SIM_OUT = r; sei(); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int f = 0; f < 0x40; ++f ) for ( u64 at = 0; at < 30; ++at ) { s.shots = { { at, Chip::V_SPI } }; s.op( { (u8) f } ); s.c.inject = 0; if ( ( s.out[1] ^ f ) & 0x3f ) return std::printf( "status %02x is %02x afterwards, interrupt at instruction %d\n", f, s.out[1], (int) at ), 1; }
    return 0;
}
'''
