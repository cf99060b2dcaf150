property='M02'
needs='toggling a bit of a register other than PINx while another bit of it is set'
breaks='a toggle is done by writing the bit alone, which works for the PIN registers only'
edits=[('include/mcu/register.hpp', '*to_pointer<T>(address) = static_cast<T>( *to_pointer<T>(address) ^ bitmask<T>( bit ) );', '*to_pointer<T>(address) = static_cast<T>( *to_pointer<T>(address) & bitmask<T>( bit ) ? *to_pointer<T>(address) & ~bitmask<T>( bit ) : bitmask<T>( bit ) );')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using bit3 = bitfield8_t< rw_t, 0xd6 & 0 | 0x4a, 3 >;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t v = SIM_CMD; GPIOR1 = v; bit3::toggle(); SIM_OUT = GPIOR1; }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int v = 0; v < 256; ++v ) { s.op( { (u8) v } ); if ( s.out[0] != ( v ^ 8 ) ) return std::printf( "toggling bit 3 of %02x gives %02x\n", v, s.out[0] ), 1; }
    return 0;
}
'''
