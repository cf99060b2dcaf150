// Firmware of check M01: values shared between the main program and interrupt handlers through the atomic access functions.
#include "host.h"
#include "mcu/atmega328.hpp"
struct s8_t { uint32_t a; uint8_t b; uint16_t c; uint8_t d; };
struct s3_t { uint8_t a, b, c; };
inline bool operator==( s8_t const & x, s8_t const & y ) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; } inline bool operator!=( s8_t const & x, s8_t const & y ) { return !( x == y ); }
inline bool operator==( s3_t const & x, s3_t const & y ) { return x.a == y.a && x.b == y.b && x.c == y.c; } inline bool operator!=( s3_t const & x, s3_t const & y ) { return !( x == y ); }
volatile uint8_t  v8; volatile uint16_t v16; volatile int16_t i16; volatile uint32_t v32; volatile int32_t i32; volatile float vf; volatile uint64_t v64;
uint16_t p16; uint32_t p32; s8_t s8; s3_t s3; volatile uint16_t arr[4];
struct box { volatile uint32_t x; volatile uint16_t y; } boxed;
template< typename T > static inline T take( uint8_t n ) { T t; uint8_t * p = (uint8_t *) &t; for ( uint8_t i = 0; i < sizeof( T ); ++i ) p[i] = SIM_ARG; return t; }
template< typename T > static inline void give( T t ) { uint8_t * p = (uint8_t *) &t; for ( uint8_t i = 0; i < sizeof( T ); ++i ) SIM_OUT = p[i]; }
template< typename T > static inline T itake() { T t; uint8_t * p = (uint8_t *) &t; for ( uint8_t i = 0; i < sizeof( T ); ++i ) p[i] = SIM_IARG; return t; }
template< typename T > static inline void igive( T t ) { uint8_t * p = (uint8_t *) &t; for ( uint8_t i = 0; i < sizeof( T ); ++i ) SIM_IOUT = p[i]; }
#define OBJECTS( X ) X( 0, uint8_t, v8 ) X( 1, uint16_t, v16 ) X( 2, int16_t, i16 ) X( 3, uint32_t, v32 ) X( 4, int32_t, i32 ) X( 5, float, vf ) X( 6, uint64_t, v64 ) \
    X( 7, uint16_t, p16 ) X( 8, uint32_t, p32 ) X( 9, s8_t, s8 ) X( 10, s3_t, s3 ) X( 11, uint16_t, arr[2] ) X( 12, uint32_t, boxed.x ) X( 13, uint16_t, boxed.y ) \
    X( 14, uint16_t, OCR1A ) X( 15, uint16_t, OCR1B ) X( 16, uint16_t, TCNT1 ) X( 17, uint16_t, ICR1 )
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- )
    {
        switch ( SIM_IARG )
        {
#define X( i, T, x ) case 2 * i: igive<T>( x ); break; case 2 * i + 1: x = itake<T>(); break;
            OBJECTS( X )
#undef X
        }
    }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }     // one per line: the compiler must not fold them
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
#define X( i, T, x ) case 2 * i: { SIM_MARK = 1; T t = mcu::atomic( x ); SIM_MARK = 2; give<T>( t ); break; } case 2 * i + 1: { T t = take<T>( 0 ); SIM_MARK = 1; mcu::atomic( x, t ); SIM_MARK = 2; break; }
            OBJECTS( X )
#undef X
            case 60: { uint8_t t = SIM_ARG; mcu::atomic( v32, t ); break; }          // widening
            case 61: { int16_t t = sim_arg16(); mcu::atomic( i32, t ); break; }
            case 62: { uint16_t t = sim_arg16(); mcu::atomic( v16, t ); mcu::atomic( v32, 0xdeadbeef ); mcu::atomic( OCR1A, t ); break; }
            case 63: { uint16_t a = mcu::atomic( v16 ), b = mcu::atomic( p16 ); give( a ); give( b ); break; }
            case 64: if ( mcu::atomic( v16 ) > sim_arg16() ) SIM_OUT = 1; else SIM_OUT = 0; break;
            case 65: { mcu::atomic( v8, SIM_ARG ); mcu::atomic( p32, mcu::atomic( v32 ) ); break; }
            case 70: mcu::atomic( OCR1A, 0x03ff ); break;
            case 71: mcu::atomic( OCR1B, 0x1200 ); break;
            case 72: mcu::atomic( v16, 0xa55a ); break;
            case 99: break;
        }
    }
}
