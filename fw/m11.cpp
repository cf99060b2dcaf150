// Firmware of check M11: the PWM output.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using dac = tc1_pwm_on_a_pb1;
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- )
    {
        uint8_t what = SIM_IARG; uint16_t v = sim_iarg16();
        switch ( what )
        {
            case 0: OCR1B = v; break;
            case 1: v = TCNT1; sim_iout16( v ); break;
            case 2: ICR1 = v; break;
            case 3: v = OCR1B; sim_iout16( v ); break;
            case 4: v = ICR1; sim_iout16( v ); break;
            case 5: PINB = v & 0xfd; break;
            case 6: GPIOR0 = v; break;
            case 7: while ( v-- ) asm volatile( "nop" ); break;
            case 8: v = OCR1A; sim_iout16( v ); break;
        }
    }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( BADISR_vect ) {}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
            case 1: dac::init(); break;
            case 2: { uint16_t v = sim_arg16(); SIM_MARK = 1; dac::write( v ); SIM_MARK = 2; break; }
            case 3: { uint16_t n = sim_arg16(); while ( n-- ) asm volatile( "nop" ); break; }
            case 4: { uint8_t n = SIM_ARG; while ( n-- ) { uint16_t v = sim_arg16(); SIM_MARK = 1; dac::write( v ); SIM_MARK = 2; } break; }
            case 5: { SIM_MARK = 1; dac::write( dac::value_min ); SIM_MARK = 2; break; }
            case 6: { SIM_MARK = 1; dac::write( dac::value_max ); SIM_MARK = 2; break; }
        }
    }
}
