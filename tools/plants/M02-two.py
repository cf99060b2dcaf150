property='M02'
needs='writing a multi-bit field over an existing value while the hardware or a handler looks at the register in between'
breaks='a field is written in two stores: first cleared, then set, so an all-zero field is seen in between'
edits=[('include/mcu/register.hpp', '*to_pointer<T>(address) = ( *to_pointer<T>(address) & ~mask ) | ( value & mask );', '*to_pointer<T>(address) = *to_pointer<T>(address) & ~mask;\n        *to_pointer<T>(address) = *to_pointer<T>(address) | ( value & mask );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using field = bitfield8_t< rw_t, 0x4a, 5, 2 >;
ISR( SPI_STC_vect ) { SIM_IOUT = GPIOR1; }
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t v = SIM_CMD; GPIOR1 = v; uint8_t f = SIM_ARG; SIM_MARK = 1; field::write( f ); SIM_MARK = 2; }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot(); s.c.watch[0x4a] = 1;
    for ( int v = 0; v < 256; v += 5 ) for ( int f = 0; f < 16; ++f )
    {
        s.op( { (u8) v, (u8) f } ); u8 want = ( v & ~0x3c ) | f << 2;
        for ( size_t i = 1; i < s.log.size(); ++i ) if ( s.log[i].write && s.log[i].v != want ) return std::printf( "%02x with field %x: %02x is stored on the way\n", v, f, s.log[i].v ), 1;
    }
    return 0;
}
'''
