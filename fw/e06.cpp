// Firmware of check E06: estimators and filters in the main program and in interrupt handlers that preempt each other.
#include "host.h"
#include <avr/interrupt.h>
#include "jobs.hpp"
struct Ports { volatile uint8_t * in, * out; uint8_t get() { return *in; } void put( uint8_t v ) { *out = v; } void real() {} };
static Slot slots[5];
static void __attribute__((noinline)) main_job( uint8_t k ) { Ports io{ &SIM_ARG, &SIM_OUT }; slots[k].perform( io ); }
static void __attribute__((noinline)) handler_job( uint8_t k ) { Ports io{ &SIM_IARG, &SIM_IOUT }; slots[k].perform( io ); }
ISR( SPI_STC_vect ) { handler_job( 2 ); }
ISR( USART_RX_vect, ISR_NOBLOCK ) { handler_job( 3 ); }
ISR( TIMER2_OVF_vect ) { handler_job( 4 ); }
ISR( BADISR_vect ) {}
int main() { sei(); for (;;) { SIM_MARK = 0; uint8_t k = SIM_CMD; if ( k < 5 ) main_job( k ); else while ( --k ) asm volatile( "nop" ); } }
