property='M09'
needs='a cell at address 256 or above'
breaks='only the low byte of the address is used: the upper cells stand for the lower ones, which are overwritten'
edits=[('include/mcu/atmega328.hpp', 'reg::eear::write( a );', 'reg::eear::write( static_cast<address>( to_integral( a ) & 0xff ) );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
namespace ee = mem::eeprom;
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; uint8_t c = SIM_CMD; uint16_t a = sim_arg16(); uint8_t v = SIM_ARG;
        while ( current( ee::enable::write{} ) != ee::enable::write::off ) ;
        ee::set( ee::address{ a } );
        if ( c == 1 ) { ee::set( ee::data{ v } ); scoped_interrupt_guard g; set( ee::enable::master_write::on ); set( ee::enable::write::on ); }
        else { set( ee::enable::read::on ); SIM_OUT = to_integral( ee::current( ee::data{} ) ); }
    }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.c.ee_scale = 100; s.boot();
    for ( int i = 0; i < 400; ++i ) if ( !s.op( { 1, (u8)( i * 5 ), (u8)( i * 5 >> 8 & 3 ), (u8)( i * 13 ) } ) ) return std::puts( "hangs" ), 1;
    for ( int i = 200; i < 400; ++i ) { s.op( { 2, (u8)( i * 5 ), (u8)( i * 5 >> 8 & 3 ), 0 } ); if ( s.out[0] != (u8)( i * 13 ) || s.c.ee[i * 5 & 1023] != (u8)( i * 13 ) ) return std::printf( "cell %d holds %02x\n", i * 5 & 1023, s.c.ee[i * 5 & 1023] ), 1; }
    return 0;
}
'''
