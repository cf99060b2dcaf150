property='M03'
needs='a combined write whose values are all zero, over fields that read as zero although a write has an effect (or must be seen once)'
breaks='a combined write of all zeros is left out when the fields read as zero; the setting is not committed as one store'
edits=[('include/mcu/register.hpp', '        if ( apply )\n', '        if ( apply && ( value || io::read( address, clear_mask ) != 0 ) )\n')]
fw=r'''#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
int main()
{
    sei();
    for (;;) { SIM_MARK = 0; uint8_t v = SIM_CMD, a = SIM_ARG, b = SIM_ARG; TCCR0B = v; set( tc0::input::clock{ a } ); SIM_OUT = TCCR0B; set( adc::input::channel{ a } ), set( adc::input::reference{ b } ); SIM_OUT = ADMUX; }
}
'''
demo=r'''#include "sim.hpp"
int demo()
{
    Sim s; s.boot(); s.c.watch[Chip::ADMUX] = 1; s.c.d[Chip::ADMUX] = 0;
    for ( int a = 0; a < 16; ++a ) for ( int b = 0; b < 4; ++b ) for ( int again = 0; again < 2; ++again )
    {
        s.op( { 0, (u8)( a & 7 ), (u8) b } ); int n = 0; for ( auto & x : s.log ) if ( x.write ) ++n;
        if ( n != 1 ) return std::printf( "channel %d and reference %d: %d stores\n", a & 7, b, n ), 1;
        if ( s.out[1] != ( b << 6 | ( a & 7 ) ) ) return std::printf( "channel %d and reference %d: register is %02x\n", a & 7, b, s.out[1] ), 1;
    }
    return 0;
}
'''
