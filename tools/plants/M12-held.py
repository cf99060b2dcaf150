property='M12'
needs='a report over the two-wire bus that takes longer than a tick while the timer, the converter or an external event needs the processor'
breaks='interrupts are held off during a whole two-wire transfer: ticks and events in that time are lost, so the rate of an application drops whenever it reports'
edits=[('include/mcu/atmega328.hpp', '''            inline auto write( uint8_t address, uint8_t byte )
            {
                start();
''', '''            inline auto write( uint8_t address, uint8_t byte )
            {
                const mcu::scoped_interrupt_guard undisturbed;

                start();
''')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
volatile uint8_t ticks;
ISR( TIMER0_COMPA_vect ) { ticks = ticks + 1; }
int main()
{
    twi::sync::init( twi::control::rate{ 100 } );
    set( tc0::enable::interrupt::on::match_a::on ); set( tc0::value::compare::a( 99 ) ); set( tc0::output::waveform::ctc ), set( tc0::input::clock::x8 );
    sei();
    for (;;) { SIM_MARK = 0; uint8_t n = SIM_CMD; uint8_t t0 = ticks; while ( n-- ) twi::sync::write( 0x40, n ); uint8_t t = ticks - t0; SIM_OUT = t; }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int n : { 1, 3, 7 } ) { u64 t0 = s.c.cyc; if ( !s.op( { (u8) n } ) ) return std::puts( "hangs" ), 1; int due = ( s.c.cyc - t0 ) / 800; if ( s.out[0] + 2 < due ) return std::printf( "%d of %d ticks served during %d transfers\n", s.out[0], due, n ), 1; }
    return 0;
}
'''
