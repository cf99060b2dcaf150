property='M10'
needs='code inside the status saver that changes the interrupt enable, e.g. a critical section begun with interrupts on'
breaks='the status saver leaves the interrupt enable as the bracketed code left it: interrupts stay off after a critical section'
edits=[('include/mcu/atmega328.hpp', '~scoped_sreg() { sreg::whole::write( cache ); }', '~scoped_sreg() { sreg::whole::write( ( cache & 0x7f ) | ( sreg::whole::read() & 0x80 ) ); }')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
volatile uint8_t data;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t f = SIM_CMD, g = SIM_ARG; SREG = f; { core::scoped_sreg s; SREG = g; data = g; } uint8_t r = SREG; SIM_OUT = r; sei(); }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot();
    for ( int f = 0; f < 256; ++f ) for ( int g : { 0, 0x80, 0xff, 0x55 } ) { s.op( { (u8) f, (u8) g } ); if ( ( s.out[0] ^ f ) & 0x80 ) return std::printf( "status %02x, changed to %02x inside, is %02x afterwards\n", f, g, s.out[0] ), 1; }
    return 0;
}
'''
