// Firmware of check M02: field access of every shape on plain-storage registers.
#include "host.h"
#include "mcu/atmega328.hpp"
#include <avr/pgmspace.h>
using namespace mcu; using namespace mcu::atmega328;
using rfn = uint8_t (*)(); using wfn = void (*)( uint8_t ); using rfn16 = uint16_t (*)(); using wfn16 = void (*)( uint16_t ); using fn = void (*)();
constexpr address_t reg[] = { 0x3e, 0x4a, 0xc6, 0x4b };
template< address_t A, index_t HI, index_t LO > struct F8
{
    using f = bitfield8_t< rw_t, A, HI, LO >;
    static uint8_t read() { return f::read(); }
    static void write( uint8_t v ) { f::write( v ); }
    static void lazy( uint8_t v ) { f::write_lazy( v ); }
};
template< address_t A, index_t HI, index_t LO > struct F16
{
    using f = bitfield16_t< rw_t, A, HI, LO >;
    static uint16_t read() { return f::read(); }
    static void write( uint16_t v ) { f::write( v ); }
    static void lazy( uint16_t v ) { f::write_lazy( v ); }
};
template< address_t A, index_t B > struct Bit
{
    using f = bitfield8_t< rw_t, A, B >;
    static void set() { f::set(); } static void clear() { f::clear(); } static void toggle() { f::toggle(); }
    static void put1() { f::write( 1 ); } static void put0() { f::write( 0 ); }
    static void rsset() { bitfield8_t< rs_t, A, B >::set(); } static void w0clear() { bitfield8_t< rc_w0_t, A, B >::clear(); } static void trig() { bitfield8_t< rt_w, A, B >::trigger(); }
};
template< address_t A, index_t B > struct Bit16
{
    using f = bitfield16_t< rw_t, A, B >;
    static void set() { f::set(); } static void clear() { f::clear(); } static void toggle() { f::toggle(); } static void put1() { f::write( 1 ); } static void put0() { f::write( 0 ); }
};
// constants: the compiler sees the value
template< address_t A, index_t HI, index_t LO, uint8_t V > static void konst() { bitfield8_t< rw_t, A, HI, LO >::write( V ); }

#define S8( X ) X(0,0) X(1,0) X(1,1) X(2,0) X(2,1) X(2,2) X(3,0) X(3,1) X(3,2) X(3,3) X(4,0) X(4,1) X(4,2) X(4,3) X(4,4) X(5,0) X(5,1) X(5,2) X(5,3) X(5,4) X(5,5) X(6,0) X(6,1) X(6,2) X(6,3) X(6,4) X(6,5) X(6,6) X(7,0) X(7,1) X(7,2) X(7,3) X(7,4) X(7,5) X(7,6) X(7,7)
#define S16( X ) X(15,0) X(0,0) X(7,0) X(15,8) X(15,15) X(8,8) X(7,7) X(8,7) X(9,6) X(11,4) X(12,3) X(14,1) X(14,0) X(15,1) X(10,10) X(5,2) X(13,9) X(15,14) X(1,0) X(9,0) X(15,6) X(8,0) X(15,7) X(14,14)
#define R8(h,l) F8<A,h,l>::read,
#define W8(h,l) F8<A,h,l>::write,
#define L8(h,l) F8<A,h,l>::lazy,
#define R16(h,l) F16<0xc4,h,l>::read,
#define W16(h,l) F16<0xc4,h,l>::write,
#define L16(h,l) F16<0xc4,h,l>::lazy,
template< address_t A > struct T8 { static const rfn r[36]; static const wfn w[36], l[36]; static const fn b[8][8]; static const fn k[12]; };
template< address_t A > const rfn T8<A>::r[36] PROGMEM = { S8( R8 ) };
template< address_t A > const wfn T8<A>::w[36] PROGMEM = { S8( W8 ) };
template< address_t A > const wfn T8<A>::l[36] PROGMEM = { S8( L8 ) };
#define B8( n ) { Bit<A,n>::set, Bit<A,n>::clear, Bit<A,n>::toggle, Bit<A,n>::put1, Bit<A,n>::put0, Bit<A,n>::rsset, Bit<A,n>::w0clear, Bit<A,n>::trig },
template< address_t A > const fn T8<A>::b[8][8] PROGMEM = { B8( 0 ) B8( 1 ) B8( 2 ) B8( 3 ) B8( 4 ) B8( 5 ) B8( 6 ) B8( 7 ) };
template< address_t A > const fn T8<A>::k[12] PROGMEM = { konst<A,1,0,0>, konst<A,1,0,3>, konst<A,3,2,1>, konst<A,3,2,2>, konst<A,7,6,2>, konst<A,7,6,0>, konst<A,5,3,5>, konst<A,6,0,0x55>, konst<A,7,1,0x7f>, konst<A,7,0,0xa5>, konst<A,7,0,0>, konst<A,4,1,9> };
static const rfn16 r16[24] PROGMEM = { S16( R16 ) }; static const wfn16 w16[24] PROGMEM = { S16( W16 ) }; static const wfn16 l16[24] PROGMEM = { S16( L16 ) };
#define B16( n ) { Bit16<0xc4,n>::set, Bit16<0xc4,n>::clear, Bit16<0xc4,n>::toggle, Bit16<0xc4,n>::put1, Bit16<0xc4,n>::put0 },
static const fn b16[16][5] PROGMEM = { B16( 0 ) B16( 1 ) B16( 2 ) B16( 3 ) B16( 4 ) B16( 5 ) B16( 6 ) B16( 7 ) B16( 8 ) B16( 9 ) B16( 10 ) B16( 11 ) B16( 12 ) B16( 13 ) B16( 14 ) B16( 15 ) };
template< typename T > static inline T pgm( T const * p ) { return (T) pgm_read_word( p ); }
template< address_t A > static void access( uint8_t what, uint8_t i )
{
    switch ( what )
    {
        case 0: { auto f = pgm( &T8<A>::r[i] ); SIM_MARK = 1; uint8_t v = f(); SIM_MARK = 2; SIM_OUT = v; break; }
        case 1: { auto f = pgm( &T8<A>::w[i] ); uint8_t v = SIM_ARG; SIM_MARK = 1; f( v ); SIM_MARK = 2; break; }
        case 2: { auto f = pgm( &T8<A>::l[i] ); uint8_t v = SIM_ARG; SIM_MARK = 1; f( v ); SIM_MARK = 2; break; }
        case 3: { auto f = pgm( &T8<A>::k[i] ); SIM_MARK = 1; f(); SIM_MARK = 2; break; }
        default: { auto f = pgm( &T8<A>::b[i][what - 4] ); SIM_MARK = 1; f(); SIM_MARK = 2; }
    }
}
// LED and pins
template< port P, uint8_t N > struct Pin
{
    using p = typename mcu::atmega328::gpio<P>::template p<N>; using l = mcu::atmega328::led<P,N>;
    static void go( uint8_t op )
    {
        switch ( op )
        {
            case 0: l::on(); break; case 1: l::off(); break; case 2: l::enable(); break; case 3: p::out::set(); break; case 4: p::out::clear(); break; case 5: p::dir::set(); break; case 6: p::dir::clear(); break;
            case 7: p::out::write( 1 ); break; case 8: p::out::write( 0 ); break; case 9: p::dir::write( 1 ); break; case 10: p::dir::write( 0 ); break;
            case 11: l::toggle(); break; case 12: p::out::toggle(); break; case 13: p::dir::toggle(); break; case 14: SIM_OUT = p::inp::read(); break; case 15: SIM_OUT = p::out::read(); break; case 16: SIM_OUT = p::dir::read(); break;
            case 17: { uint8_t v = SIM_ARG; p::out::write( v ); break; } case 18: { uint8_t v = SIM_ARG; p::dir::write( v ); break; }
        }
    }
};
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; uint8_t c = SIM_CMD;
        if ( c == 99 ) continue;
        if ( c < 4 ) { uint8_t what = SIM_ARG, i = SIM_ARG; switch ( c ) { case 0: access<reg[0]>( what, i ); break; case 1: access<reg[1]>( what, i ); break; case 2: access<reg[2]>( what, i ); break; case 3: access<reg[3]>( what, i ); break; } }
        else if ( c == 4 )
        {
            uint8_t what = SIM_ARG, i = SIM_ARG;
            switch ( what )
            {
                case 0: { auto f = pgm( &r16[i] ); SIM_MARK = 1; uint16_t v = f(); SIM_MARK = 2; sim_out16( v ); break; }
                case 1: { auto f = pgm( &w16[i] ); uint16_t v = sim_arg16(); SIM_MARK = 1; f( v ); SIM_MARK = 2; break; }
                case 2: { auto f = pgm( &l16[i] ); uint16_t v = sim_arg16(); SIM_MARK = 1; f( v ); SIM_MARK = 2; break; }
                default: { auto f = pgm( &b16[i][what - 4] ); SIM_MARK = 1; f(); SIM_MARK = 2; }
            }
        }
        else
        {
            uint8_t op = SIM_ARG; SIM_MARK = 1;
            switch ( c )
            {
                case 5: Pin<port::B,5>::go( op ); break; case 6: Pin<port::B,0>::go( op ); break; case 7: Pin<port::C,0>::go( op ); break; case 8: Pin<port::C,5>::go( op ); break; case 9: Pin<port::D,7>::go( op ); break; case 10: Pin<port::D,2>::go( op ); break; case 11: Pin<port::B,1>::go( op ); break; case 12: Pin<port::D,4>::go( op ); break;
                case 13: switch ( op ) { case 0: SIM_OUT = gpio<port::B>::pin::read(); break; case 1: SIM_OUT = gpio<port::C>::port::read(); break; case 2: SIM_OUT = gpio<port::D>::ddr::read(); break; } break;
            }
            SIM_MARK = 2;
        }
    }
}
