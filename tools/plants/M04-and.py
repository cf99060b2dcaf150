property='M04'
needs='another flag of the same register pending when the compare flag is cleared'
breaks='clearing the tc1 compare B flag writes back the pending flags, which clears them as well'
edits=[('include/mcu/atmega328.hpp', 'reg::tifr1::ocf1b::clear();', 'TIFR1 = ( TIFR1 & 0x27 ) | ( 1 << OCF1B );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t c = SIM_CMD; if ( c == 1 ) { OCR1A = 50; OCR1B = 60; TCNT1 = 0xffff; TCCR1B = 1; while ( !( TIFR1 & 4 ) ) ; TCCR1B = 0; SIM_OUT = TIFR1; clear( tc1::interrupt::compare::flag::b{} ); SIM_OUT = TIFR1; } }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot(); if ( !s.op( { 1 } ) ) return 1;
    if ( s.out[1] != ( s.out[0] & ~4 ) ) return std::printf( "flags %02x, %02x after clearing compare B\n", s.out[0], s.out[1] ), 1;
    return 0;
}
'''
