// Firmware of check E09: fixed-point operations in the main program and in handlers.
#include "host.h"
#include "mcu/atmega328.hpp"
#include "fixed_ops.hpp"
using namespace mcu; using namespace mcu::atmega328;
static void __attribute__((noinline)) handler()
{
    uint8_t fmt = SIM_ICMD, op = SIM_IARG; int32_t a = sim_iarg32(), b = sim_iarg32(), f = sim_iarg32(); float x; memcpy( &x, &f, 4 );
    sim_iout32( fixed_job( fmt, op, a, b, x ) );
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
ISR( BADISR_vect ) {}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; uint8_t fmt = SIM_CMD;
        if ( fmt == 99 ) continue;
        uint8_t op = SIM_ARG; int32_t a = sim_arg32(), b = sim_arg32(), f = sim_arg32(); float x; memcpy( &x, &f, 4 );
        SIM_MARK = 1; int32_t z = fixed_job( fmt, op, a, b, x ); SIM_MARK = 2; sim_out32( z );
    }
}
