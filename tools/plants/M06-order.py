property='M06'
needs='a conversion that ends between the two byte reads'
breaks='the high byte is read first, which neither locks the result nor pairs with the low byte read after'
edits=[('include/mcu/atmega328.hpp', 'return reg::adc::adchl::read();', 'const result_t hi = reg::adc::adch::read();\n            return static_cast<result_t>( hi << 8 | reg::adc::adcl::read() );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei(); set( adc::enable::adc::on ), set( adc::enable::auto_trigger::on ), set( adc::prescale::factor{ 1 } ); adc::conversion::start();
    for (;;) { SIM_MARK = 0; uint8_t n = SIM_CMD; while ( n-- ) asm volatile( "nop" ); sim_out16( adc::conversion::result() ); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.adc_values = { 0x0ff, 0x300 }; s.boot(); s.op( { 200 } );
    for ( int i = 0; i < 3000; ++i ) { if ( !s.op( { (u8)( i * 7 ) } ) ) return std::puts( "hangs" ), 1; u32 v = s.u( 0, 2 ); if ( v != 0x0ff && v != 0x300 ) return std::printf( "read %03x, which was never converted\n", v ), 1; }
    return 0;
}
'''
