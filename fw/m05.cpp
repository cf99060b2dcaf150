// Firmware of check M05: the synchronous two-wire master.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu::atmega328;
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
            case 1: SIM_MARK = 1; twi::sync::init(); SIM_MARK = 2; break;
            case 2: { uint8_t r = SIM_ARG; SIM_MARK = 1; twi::sync::init( twi::control::rate{ r } ); SIM_MARK = 2; break; }
            case 3: { uint8_t r = SIM_ARG, f = SIM_ARG; SIM_MARK = 1; twi::sync::init( twi::control::rate{ r }, twi::control::prescale::factor{ f } ); SIM_MARK = 2; break; }
            case 4: { uint8_t a = SIM_ARG, d = SIM_ARG; SIM_MARK = 1; uint8_t e = twi::sync::write( a, d ) ? 1 : 0; SIM_MARK = 2; SIM_OUT = e; break; }
            case 5: { uint8_t n = SIM_ARG; while ( n-- ) { uint8_t a = SIM_ARG, d = SIM_ARG; SIM_OUT = twi::sync::write( a, d ) ? 1 : 0; } break; }       // back to back
            case 6: SIM_OUT = (uint8_t) current( twi::control::rate{} ); SIM_OUT = (uint8_t) current( twi::control::prescale::factor{} ); SIM_OUT = (uint8_t) current( twi::enable::interface{} ); break;
            case 7: { uint8_t n = SIM_ARG; while ( n-- ) asm volatile( "nop" ); break; }
            case 8: { uint8_t a = SIM_ARG, d = SIM_ARG, tries = SIM_ARG, k = 0; while ( k < tries && twi::sync::write( a, d ) ) ++k; SIM_OUT = k; break; }   // retry until it works
            case 9: { uint8_t r = SIM_ARG; SIM_MARK = 1; set( twi::control::rate{ r } ); SIM_MARK = 2; break; }
            case 10: { uint8_t f = SIM_ARG; SIM_MARK = 1; set( twi::control::prescale::factor{ f } ); SIM_MARK = 2; break; }
        }
    }
}
