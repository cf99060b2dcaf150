// Firmware of check M03: deferred settings on their own and combined.
#include "host.h"
#include "mcu/atmega328.hpp"
#include <avr/pgmspace.h>
using namespace mcu; using namespace mcu::atmega328;
#define S( name, expr, addr, hi, lo, low2 ) struct name { static inline auto go( uint8_t v ) { return expr; } };
#include "settings.inc"
#undef S
template< int shape, typename... A > struct Combo;
template< typename A > struct Combo< 0, A > { static void run() { uint8_t v = SIM_ARG; SIM_MARK = 1; A::go( v ); SIM_MARK = 2; } };
template< typename A, typename B > struct Combo< 0, A, B > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG; SIM_MARK = 1; A::go( v ), B::go( w ); SIM_MARK = 2; } };
template< typename A, typename B, typename C > struct Combo< 0, A, B, C > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG; SIM_MARK = 1; A::go( v ), B::go( w ), C::go( x ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D > struct Combo< 0, A, B, C, D > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG; SIM_MARK = 1; A::go( v ), B::go( w ), C::go( x ), D::go( y ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D, typename E > struct Combo< 0, A, B, C, D, E > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG, z = SIM_ARG; SIM_MARK = 1; A::go( v ), B::go( w ), C::go( x ), D::go( y ), E::go( z ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D, typename E, typename F > struct Combo< 0, A, B, C, D, E, F > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG, z = SIM_ARG, u = SIM_ARG; SIM_MARK = 1; A::go( v ), B::go( w ), C::go( x ), D::go( y ), E::go( z ), F::go( u ); SIM_MARK = 2; } };
template< typename A, typename B, typename C > struct Combo< 1, A, B, C > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG; SIM_MARK = 1; A::go( v ), ( B::go( w ), C::go( x ) ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D > struct Combo< 1, A, B, C, D > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG; SIM_MARK = 1; A::go( v ), ( B::go( w ), ( C::go( x ), D::go( y ) ) ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D, typename E > struct Combo< 1, A, B, C, D, E > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG, z = SIM_ARG; SIM_MARK = 1; A::go( v ), ( B::go( w ), ( C::go( x ), D::go( y ), E::go( z ) ) ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D, typename E, typename F > struct Combo< 1, A, B, C, D, E, F > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG, z = SIM_ARG, u = SIM_ARG; SIM_MARK = 1; A::go( v ), ( B::go( w ), C::go( x ), ( D::go( y ), E::go( z ) ), F::go( u ) ); SIM_MARK = 2; } };
template< typename A, typename B, typename C, typename D > struct Combo< 2, A, B, C, D > { static void run() { uint8_t v = SIM_ARG, w = SIM_ARG, x = SIM_ARG, y = SIM_ARG; SIM_MARK = 1; ( A::go( v ), B::go( w ) ), ( C::go( x ), D::go( y ) ); SIM_MARK = 2; } };
using fn = void (*)();
#define C( ... ) Combo< __VA_ARGS__ >::run,
static const fn table[] PROGMEM = {
#if PART != 2
#include "combos_a.inc"
#endif
#if PART != 1
#include "combos_b.inc"
#endif
};
#undef C
// 16-bit deferred fields
using w_hi = bitfield16_t< rw_t, 0xc4, 15, 10 >; using w_mid = bitfield16_t< rw_t, 0xc4, 9, 6 >; using w_low = bitfield16_t< rw_t, 0xc4, 5, 1 >; using w_bit = bitfield16_t< rw_t, 0xc4, 0 >;
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t what = SIM_IARG, keep = SIM_IARG, flip = SIM_IARG; if ( what ) SIM_IOUT = *a; else *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( BADISR_vect ) {}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; uint8_t c = SIM_CMD;
        if ( c == 0 ) { uint16_t i = sim_arg16(); fn f = (fn) pgm_read_word( &table[i] ); f(); }
        else if ( c == 1 ) { uint8_t v = SIM_ARG; SIM_MARK = 1; { auto p = set( tc0::input::clock{ v } ); SIM_MARK = 3; } SIM_MARK = 2; }
        else if ( c == 2 ) { uint8_t v = SIM_ARG, w = SIM_ARG; SIM_MARK = 1; { auto p = ( set( adc::input::channel{ v } ), set( adc::input::reference{ w } ) ); SIM_MARK = 3; } SIM_MARK = 2; }
        else if ( c == 3 ) { uint8_t v = SIM_ARG; SIM_MARK = 1; { auto p = set( tc1::input::clock{ v } ); p.discard(); SIM_MARK = 3; } SIM_MARK = 2; }
        else if ( c == 4 ) { uint16_t v = sim_arg16(); SIM_MARK = 1; w_hi::write_lazy( v >> 10 ), w_low::write_lazy( ( v >> 1 ) & 31 ); SIM_MARK = 2; }
        else if ( c == 5 ) { uint16_t v = sim_arg16(); SIM_MARK = 1; w_low::write_lazy( ( v >> 1 ) & 31 ), w_hi::write_lazy( v >> 10 ), w_bit::write_lazy( v & 1 ), w_mid::write_lazy( ( v >> 6 ) & 15 ); SIM_MARK = 2; }
        else if ( c == 6 ) { uint16_t v = sim_arg16(); SIM_MARK = 1; w_bit::write_lazy( v & 1 ), ( w_mid::write_lazy( ( v >> 6 ) & 15 ), w_hi::write_lazy( v >> 10 ) ); SIM_MARK = 2; }
        else if ( c == 7 ) { uint8_t v = SIM_ARG, w = SIM_ARG; SIM_MARK = 1; if ( v > w ) set( tc0::output::a::mode{ 2 } ), set( tc0::output::b::mode{ 3 } ); else set( tc0::output::b::mode{ 1 } ); SIM_MARK = 2; }
        // constants: the compiler sees the values
        else if ( c == 8 ) { SIM_MARK = 1; set( tc0::output::a::mode::none ), set( tc0::output::b::mode::set ); SIM_MARK = 2; }
        else if ( c == 9 ) { SIM_MARK = 1; set( adc::enable::adc::on ), set( adc::enable::interrupt::off ), set( adc::prescale::factor::x128 ); SIM_MARK = 2; }
        else if ( c == 10 ) { SIM_MARK = 1; set( mem::eeprom::enable::master_write::off ), set( mem::eeprom::program::mode::write_only ); SIM_MARK = 2; }
    }
}
