// Firmware of check M09: programming and reading the EEPROM.
#include "host.h"
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
namespace ee = mem::eeprom;
using ee::program::mode; using ee::enable::write; using ee::enable::master_write; using ee::enable::read; using ee::interrupt::on_ready;
struct item { uint16_t a; uint8_t v; };
item queue[16]; volatile uint8_t queued, next;
static inline bool busy() { return current( write{} ) != write::off; }
static inline void select( uint8_t m ) { switch ( m ) { case 0: set( mode::erase_write ); break; case 1: set( mode::erase_only ); break; default: set( mode::write_only ); } }
static inline void start() { set( master_write::on ); set( write::on ); }
static inline void cell( uint16_t a, uint8_t v ) { ee::set( ee::address{ a } ); ee::set( ee::data{ v } ); }
static inline uint8_t fetch( uint16_t a ) { ee::set( ee::address{ a } ); set( read::on ); return to_integral( ee::current( ee::data{} ) ); }
static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    if ( n == 0x80 ) { uint16_t a = sim_iarg16(); if ( busy() ) { SIM_IOUT = 0; return; } uint8_t v = fetch( a ); SIM_IOUT = 1; SIM_IOUT = v; return; }
    if ( n == 0x81 ) { uint8_t m = SIM_IARG; uint16_t a = sim_iarg16(); uint8_t v = SIM_IARG; if ( busy() ) { SIM_IOUT = 0; return; } select( m ); cell( a, v ); start(); SIM_IOUT = 1; return; }
    while ( n-- ) { volatile uint8_t * a = (volatile uint8_t *)(uint16_t) SIM_IARG; uint8_t keep = SIM_IARG, flip = SIM_IARG; *a = ( *a & keep ) ^ flip; }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( EE_READY_vect )
{
    uint8_t i = next;
    if ( i < queued ) { cell( queue[i].a, queue[i].v ); start(); next = i + 1; }
    else set( on_ready::off );
}
int main()
{
    sei();
    for (;;)
    {
        SIM_MARK = 0;
        switch ( SIM_CMD )
        {
            // only the two-step enable is guarded
            case 1: { uint8_t m = SIM_ARG; uint16_t a = sim_arg16(); uint8_t v = SIM_ARG; while ( busy() ) ; SIM_MARK = 1; set( mode{ m } ); cell( a, v ); { scoped_interrupt_guard guard; start(); } break; }
            case 2: { uint16_t a = sim_arg16(); while ( busy() ) ; uint8_t v = fetch( a ); SIM_OUT = v; break; }
            // all of it is guarded: handlers may use the EEPROM as well
            case 3: { uint8_t m = SIM_ARG; uint16_t a = sim_arg16(); uint8_t v = SIM_ARG; for (;;) { scoped_interrupt_guard guard; if ( busy() ) continue; select( m ); cell( a, v ); start(); break; } break; }
            case 4: { uint16_t a = sim_arg16(); uint8_t v; for (;;) { scoped_interrupt_guard guard; if ( busy() ) continue; v = fetch( a ); break; } SIM_OUT = v; break; }
            // the ready interrupt works through a list
            case 5: { uint8_t m = SIM_ARG, n = SIM_ARG; while ( busy() ) ; select( m ); for ( uint8_t i = 0; i < n; ++i ) { queue[i].a = sim_arg16(); queue[i].v = SIM_ARG; } next = 0; queued = n; set( on_ready::on ); break; }
            case 6: while ( current( on_ready{} ) == on_ready::on ) ; while ( busy() ) ; break;
            case 7: SIM_OUT = next; break;
            case 8: SIM_OUT = to_integral( current( mode{} ) ); SIM_OUT = to_integral( current( on_ready{} ) ); break;
            case 9: { uint8_t n = SIM_ARG; while ( n-- ) asm volatile( "nop" ); break; }
        }
    }
}
