// Firmware of check M04: event flags read and cleared by the main program and by handlers.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FLAGS( X ) X( 0, tc0::interrupt::overflow::flag ) X( 1, tc0::interrupt::compare::flag::a ) X( 2, tc0::interrupt::compare::flag::b ) X( 3, tc1::interrupt::overflow::flag ) X( 4, tc1::interrupt::compare::flag::a ) X( 5, tc1::interrupt::compare::flag::b ) X( 6, tc1::interrupt::capture::flag ) X( 12, ac::interrupt::flag ) X( 13, adc::interrupt::flag )
#define EXTERN( X ) X( 7, external_int0 ) X( 8, external_int1 ) X( 9, pin_change_int0 ) X( 10, pin_change_int1 ) X( 11, pin_change_int2 )
static inline __attribute__((always_inline)) void clear_flag( uint8_t i )
{
    switch ( i )
    {
#define X( n, f ) case n: clear( f{} ); break;
        FLAGS( X )
#undef X
#define X( n, f ) case n: ei::clear_##f##_flag(); break;
        EXTERN( X )
#undef X
    }
}
static inline __attribute__((always_inline)) uint8_t get_flag( uint8_t i )
{
    switch ( i )
    {
#define X( n, f ) case n: return current( f{} );
        FLAGS( X )
#undef X
#define X( n, f ) case n: return ei::f##_flag();
        EXTERN( X )
#undef X
    }
    return 0;
}
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { uint8_t c = SIM_IARG; if ( c & 0x80 ) clear_flag( c & 15 ); else SIM_IOUT = get_flag( c & 15 ); }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( TIMER0_OVF_vect )
H( TIMER0_COMPA_vect )
H( TIMER0_COMPB_vect )
H( TIMER1_OVF_vect )
H( TIMER1_COMPA_vect )
H( TIMER1_COMPB_vect )
H( TIMER1_CAPT_vect )
H( INT0_vect )
H( INT1_vect )
H( PCINT0_vect )
H( PCINT1_vect )
H( PCINT2_vect )
H( ANALOG_COMP_vect )
H( ADC_vect )
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
static void __attribute__((noinline)) wait_events( uint8_t i, uint8_t n ) { while ( n-- ) { while ( !get_flag( i ) ) ; clear_flag( i ); SIM_OUT = i; } }
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
            case 1: { uint8_t i = SIM_ARG; SIM_MARK = 1; clear_flag( i ); SIM_MARK = 2; break; }
            case 2: { uint8_t i = SIM_ARG; SIM_MARK = 1; uint8_t v = get_flag( i ); SIM_MARK = 2; SIM_OUT = v; break; }
            case 3: { uint8_t i = SIM_ARG; uint8_t n = SIM_ARG; wait_events( i, n ); break; }
            case 4: SIM_MARK = 1; clear( tc0::interrupt::compare::flag::a{} ); SIM_MARK = 3; clear( tc0::interrupt::overflow::flag{} ); SIM_MARK = 2; break;
            case 5: SIM_MARK = 1; if ( current( tc1::interrupt::compare::flag::b{} ) ) clear( tc1::interrupt::compare::flag::b{} ); SIM_MARK = 2; break;
        }
    }
}
