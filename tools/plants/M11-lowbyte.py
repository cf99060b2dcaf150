property='M11'
needs='a write whose high byte equals the one in effect while a handler used the shared high-byte latch for something else'
breaks='when the high byte is unchanged only the low byte is written, and the high byte comes from whatever the latch last held'
edits=[('include/mcu/atmega328.hpp', '        mcu::atomic( OCR1A, value );', '        if ( uint8_t( value >> 8 ) == OCR1AH )\n            OCR1AL = uint8_t( value );\n        else\n            mcu::atomic( OCR1A, value );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using dac = tc1_pwm_on_a_pb1;
ISR( SPI_STC_vect ) { OCR1B = 0x0300; }
int main()
{
    sei(); dac::init();
    for (;;) { SIM_MARK = 0; SIM_CMD; uint16_t v = sim_arg16(); dac::write( v ); for ( uint16_t n = 1200; n; --n ) asm volatile( "nop" ); uint16_t r = OCR1A; sim_out16( r ); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( u64 at = 0; at < 40; ++at ) for ( int i = 0; i < 4; ++i ) { u16 v = 0x100 + i * 3; s.shots = { { at, Chip::V_SPI } }; if ( !s.op( { 1, (u8) v, (u8)( v >> 8 ) } ) ) return std::puts( "hangs" ), 1; if ( s.u( 0, 2 ) != v ) return std::printf( "%03x written, the compare value is %03x (interrupt at instruction %d)\n", v, s.u( 0, 2 ), (int) at ), 1; }
    return 0;
}
'''
