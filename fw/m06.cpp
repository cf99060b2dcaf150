// Firmware of check M06: converter results read by the main program and by the conversion handler.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
volatile uint16_t shared; volatile uint8_t again;
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( ADC_vect ) { uint16_t v = adc::conversion::result(); shared = v; sim_iout16( v ); if ( again ) adc::conversion::start(); }
ISR( TIMER0_COMPA_vect ) {}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
            case 1: { uint8_t c = SIM_ARG, r = SIM_ARG, a = SIM_ARG; set( adc::input::channel{ c } ), set( adc::input::reference{ r } ), set( adc::conversion::adjustment{ a } ); adc::conversion::start(); while ( !current( adc::interrupt::flag{} ) ) ; uint16_t v = adc::conversion::result(); clear( adc::interrupt::flag{} ); sim_out16( v ); break; }
            case 2: { uint16_t v = adc::conversion::result(); sim_out16( v ); break; }
            case 3: { uint8_t l = adc::conversion::lsb(), h = adc::conversion::msb(); SIM_OUT = l; SIM_OUT = h; break; }
            case 4: { uint8_t v = SIM_ARG; set( adc::input::channel{ v } ); break; }
            case 5: { uint8_t v = SIM_ARG; set( adc::input::reference{ v } ); break; }
            case 6: { uint8_t v = SIM_ARG; set( adc::conversion::adjustment{ v } ); break; }
            case 7: { uint8_t v = SIM_ARG; set( adc::enable::adc{ v } ); break; }
            case 8: { uint8_t v = SIM_ARG; set( adc::enable::auto_trigger{ v } ); break; }
            case 9: { uint8_t v = SIM_ARG; set( adc::enable::interrupt{ v } ); break; }
            case 10: { uint8_t v = SIM_ARG; set( adc::prescale::factor{ v } ); break; }
            case 11: { uint8_t v = SIM_ARG; set( adc::trigger::on{ v } ); break; }
            case 12: { uint8_t v = SIM_ARG; set( adc::enable::comparator{ v } ); break; }
            case 13: adc::conversion::start(); break;
            case 14: SIM_OUT = to_integral( current( adc::input::channel{} ) ); SIM_OUT = to_integral( current( adc::input::reference{} ) ); SIM_OUT = to_integral( current( adc::conversion::adjustment{} ) ); SIM_OUT = to_integral( current( adc::enable::adc{} ) ); SIM_OUT = to_integral( current( adc::enable::auto_trigger{} ) );
                     SIM_OUT = to_integral( current( adc::enable::interrupt{} ) ); SIM_OUT = to_integral( current( adc::prescale::factor{} ) ); SIM_OUT = to_integral( current( adc::trigger::on{} ) ); SIM_OUT = to_integral( current( adc::enable::comparator{} ) ); break;
            case 15: SIM_OUT = current( adc::interrupt::flag{} ); break;
            case 16: clear( adc::interrupt::flag{} ); break;
            case 17: { uint16_t v = atomic( shared ); sim_out16( v ); break; }
            case 18: { uint8_t n = SIM_ARG; while ( n-- ) asm volatile( "nop" ); break; }
            case 19: again = SIM_ARG; break;
            case 20: { uint8_t p = SIM_ARG; set( adc::enable::adc::on ), set( adc::prescale::factor{ p } ); break; }
            case 21: while ( adc::reg::adcsra::adsc::read() ) ; break;
        }
    }
}
