property='M04'
needs='the capture flag polled while the capture interrupt is not enabled'
breaks='clearing the flag does nothing: the event stays pending and is seen again'
edits=[('include/mcu/atmega328.hpp', 'reg::tifr1::icf1::clear();', 'if ( 0 != reg::timsk1::icie1::read() )\n                    reg::tifr1::icf1::clear();')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    for (;;) { SIM_MARK = 0; uint8_t c = SIM_CMD; if ( c == 1 ) { ICR1 = 50; TCCR1A = 0; TCCR1B = 0x19; TCNT1 = 40; while ( !( TIFR1 & 0x20 ) ) ; TCCR1B = 0x18; SIM_OUT = TIFR1; clear( tc1::interrupt::capture::flag{} ); SIM_OUT = TIFR1; } }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot(); if ( !s.op( { 1 } ) ) return 1;
    if ( !( s.out[0] & 0x20 ) || s.out[1] & 0x20 ) return std::printf( "flags %02x, %02x after clearing capture\n", s.out[0], s.out[1] ), 1;
    return 0;
}
'''
