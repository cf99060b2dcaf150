// Firmware of check M08: every setting and every read-back.
#include "host.h"
#include "mcu/atmega328.hpp"
#include <avr/pgmspace.h>
using namespace mcu; using namespace mcu::atmega328;
using led_b5 = led< port::B, 5 >; using led_d7 = led< port::D, 7 >; using led_c2 = led< port::C, 2 >;
static inline __attribute__((always_inline)) bool armed() { set( mem::eeprom::enable::master_write::on ); return current( mem::eeprom::enable::master_write{} ) == mem::eeprom::enable::master_write::on; }
using fn = void (*)();
#define S( name, expr, addr, hi, lo, low2 ) static void __attribute__((noinline)) set_##name() { uint8_t v = SIM_ARG; expr; }
#include "settings.inc"
#undef S
#define R( name, expr ) static void __attribute__((noinline)) get_##name() { sim_out16( uint16_t( expr ) ); }
#include "reads.inc"
#undef R
#define X( name, expr, back, addr, width, hi, lo ) static void __attribute__((noinline)) xset_##name() { uint16_t v = sim_arg16(); expr; } static void __attribute__((noinline)) xget_##name() { sim_out16( uint16_t( back ) ); }
#include "eager.inc"
#undef X
#define K( setting, constant, value ) constant,
static const fn setters[] PROGMEM = {
#define S( name, expr, addr, hi, lo, low2 ) set_##name,
#include "settings.inc"
#undef S
}, getters[] PROGMEM = {
#define R( name, expr ) get_##name,
#include "reads.inc"
#undef R
}, xsetters[] PROGMEM = {
#define X( name, expr, back, addr, width, hi, lo ) xset_##name,
#include "eager.inc"
#undef X
}, xgetters[] PROGMEM = {
#define X( name, expr, back, addr, width, hi, lo ) xget_##name,
#include "eager.inc"
#undef X
};
#undef K
static const uint8_t constants[] PROGMEM = {
#define K( setting, constant, value ) to_integral( constant ),
#include "enums.inc"
#undef K
};
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( BADISR_vect ) {}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; uint8_t c = SIM_CMD;
        if ( c == 99 ) continue;
        uint8_t i = SIM_ARG; fn const * t = c == 0 ? setters : c == 1 ? getters : c == 2 ? xsetters : xgetters;
        if ( c == 4 ) { SIM_OUT = pgm_read_byte( &constants[i] ); continue; }
        fn f = (fn) pgm_read_word( &t[i] ); SIM_MARK = 1; f(); SIM_MARK = 2;
    }
}
