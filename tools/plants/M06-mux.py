property='M06'
needs='selecting one of the internal channels (temperature, band gap, ground), which need the fourth channel bit'
breaks='the internal channels are converted as external channels'
edits=[('include/mcu/atmega328.hpp', 'reg::admux::mux::write_lazy( to_integral(c) )', 'reg::admux::mux::write_lazy( to_integral(c) & 0x7 )')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei(); set( adc::enable::adc::on ), set( adc::prescale::factor{ 2 } );
    for (;;) { SIM_MARK = 0; uint8_t c = SIM_CMD; set( adc::input::reference::avcc ), set( adc::input::channel{ c } ); adc::conversion::start(); while ( !current( adc::interrupt::flag{} ) ) ; clear( adc::interrupt::flag{} ); sim_out16( adc::conversion::result() ); }
}
'''
demo=r'''#include "sim.hpp"
struct World : Sim { u16 analog( int mux, int ) override { return 100 + 17 * mux; } };
int demo()
{
    World s; s.boot();
    for ( int c = 0; c < 16; ++c ) { if ( !s.op( { (u8) c } ) ) return std::puts( "hangs" ), 1; if ( s.u( 0, 2 ) != 100 + 17 * c ) return std::printf( "channel %d gives %d\n", c, s.u( 0, 2 ) ), 1; }
    return 0;
}
'''
