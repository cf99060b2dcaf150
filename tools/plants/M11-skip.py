property='M11'
needs='writing a value equal to the last one written after the timer was initialised again or the compare register was changed'
breaks='a value equal to the last one written is not written again, so after a change of the register the commanded duty cycle is not restored'
edits=[('include/mcu/atmega328.hpp', '        mcu::atomic( OCR1A, value );', '        static value_type last = 0;\n        if ( value != last )\n            mcu::atomic( OCR1A, last = value );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using dac = tc1_pwm_on_a_pb1;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; SIM_CMD; uint16_t v = sim_arg16(), w = sim_arg16(); TCCR1A = TCCR1B = 0; OCR1A = w; dac::init(); dac::write( v ); for ( uint16_t n = 1200; n; --n ) asm volatile( "nop" ); uint16_t r = OCR1A; sim_out16( r ); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int i = 0; i < 8; ++i ) { u16 v = i / 2 * 100, w = i * 77; if ( !s.op( { 1, (u8) v, (u8)( v >> 8 ), (u8) w, (u8)( w >> 8 ) } ) ) return std::puts( "hangs" ), 1; if ( s.u( 0, 2 ) != v ) return std::printf( "%d written, the compare value is %d\n", v, s.u( 0, 2 ) ), 1; }
    return 0;
}
'''
