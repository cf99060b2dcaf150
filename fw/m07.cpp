// Firmware of check M07: sampling loops in the shape of the shipped sampling program.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using dac = tc1_pwm_on_a_pb1;
volatile uint16_t sample; volatile bool fresh; volatile uint8_t mode;
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; if ( a == 0 ) OCR1B = keep << 8 | flip; else *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( TIMER0_COMPA_vect ) { core::scoped_sreg _; SIM_IMARK = __LINE__; if ( mode == 0 ) adc::conversion::start(); }
ISR( INT0_vect ) { core::scoped_sreg _; SIM_IMARK = __LINE__; if ( mode == 6 ) adc::conversion::start(); }
ISR( PCINT2_vect ) { core::scoped_sreg _; SIM_IMARK = __LINE__; adc::conversion::start(); }
ISR( ADC_vect )
{
    core::scoped_sreg _;
    SIM_IMARK = __LINE__;
    sample = adc::conversion::result();
    fresh = true;
    if ( mode == 2 ) clear( tc0::interrupt::compare::flag::a{} );
    if ( mode == 4 ) clear( tc1::interrupt::overflow::flag{} );
    if ( mode == 5 ) ei::clear_external_int0_flag();
}
ISR( BADISR_vect ) { SIM_IMARK = 1; }
int main()
{
    mode = SIM_CMD; uint8_t top = SIM_ARG, clk = SIM_ARG, adps = SIM_ARG, ch = SIM_ARG, order = SIM_ARG;
    if ( order & 1 ) dac::init();
    set( adc::input::reference::avcc ), set( adc::input::channel{ ch } );
    if ( mode == 1 || mode == 2 ) set( adc::trigger::on::tc0_match_a );
    if ( mode == 4 ) set( adc::trigger::on::tc1_overflow );
    if ( mode == 5 ) set( adc::trigger::on::ei0 );
    if ( mode == 8 ) set( adc::trigger::on::free_run );
    if ( mode == 5 || mode == 6 ) ei::interrupt_sense<eint::int0>( ch & 1 ? ei::sense::rising_edge : ei::sense::falling_edge );
    set( adc::prescale::factor{ adps } ), set( adc::enable::adc::on );
    if ( order & 128 ) { adc::conversion::start(); while ( adc::reg::adcsra::adsc::read() ) ; clear( adc::interrupt::flag{} ); }
    order &= 127;
    if ( mode != 3 ) set( adc::enable::interrupt::on );
    if ( mode == 1 || mode == 2 || mode == 4 || mode == 5 || mode == 8 ) set( adc::enable::auto_trigger::on );
    if ( !( order & 1 ) ) dac::init();
    if ( mode <= 3 )
    {
        if ( mode < 2 ) set( tc0::enable::interrupt::on::match_a::on );
        set( tc0::value::compare::a( top ) );
        set( tc0::output::waveform::ctc ), set( tc0::input::clock{ clk } );
    }
    if ( mode == 6 ) ei::enable_external_int0( true );
    if ( mode == 7 ) { ei::pin_change_interrupt_mask2( 1 << ( ch & 7 ) ); ei::enable_pin_change_int2( true ); }
    if ( mode == 8 ) adc::conversion::start();
    sei();
    SIM_MARK = 1;
    if ( mode == 3 )
        for (;;)
        {
            while ( !current( tc0::interrupt::compare::flag::a{} ) ) ;
            clear( tc0::interrupt::compare::flag::a{} );
            adc::conversion::start();
            while ( !current( adc::interrupt::flag{} ) ) ;
            clear( adc::interrupt::flag{} );
            dac::write( adc::conversion::result() );
        }
    for (;;)
    {
        if ( fresh ) { fresh = false; dac::write( atomic( sample ) ); }
        if ( order & 2 ) for ( uint8_t i = order >> 2; i; --i ) asm volatile( "nop" );
    }
}
