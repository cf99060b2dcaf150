property='M07'
needs='a sampling loop triggered by external interrupt 0 or by the comparator (not free running, not a timer)'
breaks='trigger sources above the first two are selected one too low, so the converter waits for another event'
edits=[('include/mcu/atmega328.hpp', 'return reg::adcsrb::adts::write_lazy( to_integral(evt) );', 'return reg::adcsrb::adts::write_lazy( to_integral(evt) == 2 ? 1 : to_integral(evt) );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
ISR( ADC_vect ) { sim_iout16( adc::conversion::result() ); ei::clear_external_int0_flag(); }
int main()
{
    set( adc::input::reference::avcc ), set( adc::input::channel{ 1 } ); set( adc::trigger::on::ei0 ); ei::interrupt_sense<eint::int0>( ei::sense::rising_edge );
    set( adc::prescale::factor{ 2 } ), set( adc::enable::adc::on ); set( adc::enable::interrupt::on ); set( adc::enable::auto_trigger::on ); sei();
    for (;;) { SIM_MARK = 0; uint8_t n = SIM_CMD; DDRD = 4; PORTD = 0; PORTD = 4; while ( n-- ) asm volatile( "nop\n nop\n nop\n nop" ); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.adc_values = { 0x123, 0x2a5 }; s.boot(); u32 n = 0;
    for ( int i = 0; i < 6; ++i ) { if ( !s.op( { 200 } ) ) return 1; n += s.iout.size(); }
    if ( n != 12 ) return std::printf( "%u bytes sampled in 6 events instead of 12\n", n ), 1;
    return 0;
}
'''
