// Firmware of check M10: scoped guards of the status register and of interrupts.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
using core::scoped_sreg; namespace sreg = core::sreg;
volatile uint8_t block[8];
#define FN static void __attribute__((noinline,flatten))
// handlers whose only protection of the flags is the status saver: the wrappers change none
#define WRAP( v, f ) ISR( v, ISR_NAKED ) { asm volatile( "push r0\n push r1\n push r18\n push r19\n push r20\n push r21\n push r22\n push r23\n push r24\n push r25\n push r26\n push r27\n push r30\n push r31\n ldi r18,0\n mov r1,r18\n %~call %x0\n" \
    "pop r31\n pop r30\n pop r27\n pop r26\n pop r25\n pop r24\n pop r23\n pop r22\n pop r21\n pop r20\n pop r19\n pop r18\n pop r1\n pop r0\n reti\n" :: "i"( f ) ); }
#define ARITH { uint8_t n = SIM_ICMD; uint8_t a = 0; uint16_t b = 0; do { a += SIM_IARG; b = b * 3 + a; if ( b > 40000u ) b -= 12345; } while ( --n ); SIM_IOUT = b; SIM_IOUT = b >> 8; }
extern "C" {
void __attribute__((noinline,flatten,used)) saver1() { scoped_sreg s; ARITH }
void __attribute__((noinline,flatten,used)) saver2() { scoped_sreg s; uint8_t n = SIM_ICMD; if ( n == 1 ) { SIM_IOUT = SIM_IARG; return; } { scoped_sreg t; uint8_t v = SIM_IARG; SIM_IOUT = v - 1; if ( v < 9 ) { SIM_IOUT = 7; return; } } SIM_IOUT = 3; }
void __attribute__((noinline,flatten,used)) saver3() { scoped_sreg s; uint8_t n = SIM_ICMD; (void) n; SIM_IOUT = SIM_IARG + n; sei(); if ( n & 1 ) asm volatile( "nop\n cpi r18,7\n nop\n sec\n sez\n set\n nop" ::: "memory" ); else asm volatile( "nop\n clt\n clh\n clc\n cln\n nop" ::: "memory" ); }   // lets others in
}
WRAP( SPI_STC_vect, saver1 )
WRAP( USART_RX_vect, saver2 )
WRAP( USART_UDRE_vect, saver3 )
static void __attribute__((noinline)) store() { uint8_t v = SIM_ICMD; for ( uint8_t i = 0; i < 8; ++i ) block[i] = v + i; }
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; store(); }
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( BADISR_vect ) {}
// status saver around code of every sort; mark 4: last statement inside
FN plain( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; uint8_t a = SIM_ARG, b = SIM_ARG; SIM_OUT = a + b; SIM_OUT = a < b; SIM_MARK = 4; } }
FN early( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); scoped_sreg s; uint8_t a = SIM_ARG, b = SIM_ARG; if ( a > b ) { SIM_OUT = 1; SIM_MARK = 4; return; } if ( a == b ) { SIM_OUT = 2; SIM_MARK = 4; return; } SIM_OUT = b - a; SIM_MARK = 4; }
FN nested( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; uint8_t a = SIM_ARG, b = SIM_ARG; SIM_OUT = a - b; { scoped_sreg t; SIM_OUT = a & b; if ( a & 1 ) cli(); { scoped_sreg u; SIM_OUT = a ^ b; sei(); } SIM_OUT = a | b; } SIM_OUT = a * b; SIM_MARK = 4; } }
FN looped( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; uint16_t t = 0; for ( uint8_t n = SIM_ARG; n; --n ) { scoped_sreg x; uint8_t a = SIM_ARG; if ( a == 7 ) continue; if ( a == 99 ) break; t += a; SIM_OUT = t; } SIM_MARK = 4; } }
FN critical( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; cli(); SIM_MARK = 5; for ( uint8_t i = 0; i < 8; ++i ) SIM_OUT = block[i]; SIM_MARK = 4; } }
FN mixed( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; { scoped_interrupt_guard g; SIM_MARK = 5; for ( uint8_t i = 0; i < 8; ++i ) SIM_OUT = block[i]; SIM_MARK = 6; } SIM_MARK = 4; } }
FN scrambled( uint8_t f ) { SIM_MARK = 1; sreg::whole::write( f ); { scoped_sreg s; uint8_t g = SIM_ARG; { scoped_sreg t; sreg::whole::write( g ); SIM_OUT = 1; } uint8_t h = SIM_ARG; sreg::whole::write( h ); SIM_MARK = 4; } }
// interrupt guard
FN g_plain() { { scoped_interrupt_guard g; SIM_MARK = 5; for ( uint8_t i = 0; i < 8; ++i ) SIM_OUT = block[i]; SIM_MARK = 6; } SIM_MARK = 3; }
FN g_early() { uint8_t n = SIM_ARG; { scoped_interrupt_guard g; SIM_MARK = 5; for ( uint8_t i = 0; i < 8; ++i ) { if ( i == n ) { SIM_MARK = 6; return; } SIM_OUT = block[i]; } SIM_MARK = 6; } }
FN g_loop() { for ( uint8_t n = SIM_ARG; n; --n ) { scoped_interrupt_guard g; SIM_MARK = 5; uint8_t a = block[0], b = block[7]; SIM_OUT = a; SIM_OUT = b; SIM_MARK = 6; if ( a == 0x55 ) break; if ( a & 1 ) continue; } SIM_MARK = 3; }
FN g_store() { uint8_t v = SIM_ARG; { scoped_interrupt_guard g; SIM_MARK = 5; for ( uint8_t i = 8; i--; ) block[i] = v + i; SIM_MARK = 6; } SIM_MARK = 3; }
FN g_saver() { { scoped_interrupt_guard g; SIM_MARK = 5; { scoped_sreg s; for ( uint8_t i = 0; i < 8; ++i ) SIM_OUT = block[i]; } SIM_OUT = block[0]; SIM_MARK = 6; } SIM_MARK = 3; }
// a computation full of carries and branches
static void __attribute__((noinline)) calc()
{
    uint32_t sum = 0; uint64_t wide = 0; uint16_t less = 0; int32_t low = 0x7fffffff; uint32_t mix = 1; int16_t prod = 0;
    for ( uint8_t n = SIM_ARG; n; --n ) { uint32_t v = sim_arg32(); sum += v; wide += (uint64_t) v << 13; if ( sum < v ) ++less; if ( (int32_t) v < low ) low = v; mix = ( mix << 5 | mix >> 27 ) ^ ( v - mix ); prod += (int16_t) v * (int16_t)( v >> 16 ); if ( v & 0x10 ) prod -= less; }
    sim_out32( sum ); sim_out32( wide ); sim_out32( wide >> 32 ); sim_out16( less ); sim_out32( low ); sim_out32( mix ); sim_out16( prod );
}
#define BIT( b, name ) case 40 + b: SIM_MARK = 1; sreg::name::write( 0 ); SIM_MARK = 2; break; case 50 + b: SIM_MARK = 1; sreg::name::write( 1 ); SIM_MARK = 2; break; case 60 + b: { uint8_t f = SIM_ARG; sreg::whole::write( f ); uint8_t v = sreg::name::read(); sei(); SIM_OUT = v; break; }
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0; sei();
        switch ( SIM_CMD )
        {
            case 1: plain( SIM_ARG ); SIM_MARK = 2; break;
            case 2: early( SIM_ARG ); SIM_MARK = 2; break;
            case 3: nested( SIM_ARG ); SIM_MARK = 2; break;
            case 4: looped( SIM_ARG ); SIM_MARK = 2; break;
            case 5: critical( SIM_ARG ); SIM_MARK = 2; break;
            case 6: mixed( SIM_ARG ); SIM_MARK = 2; break;
            case 7: scrambled( SIM_ARG ); SIM_MARK = 2; break;
            case 10: g_plain(); break;
            case 11: g_early(); SIM_MARK = 3; break;
            case 12: g_loop(); break;
            case 13: g_store(); break;
            case 14: g_saver(); break;
            case 20: calc(); break;
            case 21: { uint8_t f = SIM_ARG; SIM_MARK = 1; sreg::whole::write( f ); SIM_MARK = 2; break; }
            case 22: { uint8_t f = SIM_ARG; sreg::whole::write( f ); uint8_t v = sreg::whole::read(); sei(); SIM_OUT = v; break; }
            case 99: for ( uint8_t n = 40; n; --n ) asm volatile( "nop" ); break;
            BIT( 0, C ) BIT( 1, Z ) BIT( 2, N ) BIT( 3, V ) BIT( 4, S ) BIT( 5, H ) BIT( 6, T ) BIT( 7, I )
        }
    }
}
