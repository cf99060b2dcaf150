// Firmware of check M12: a whole application built from the library: sample, filter, put out, report, checkpoint, restart.
#include "host.h"
#include "mcu/atmega328.hpp"
#include "app.hpp"
using namespace mcu; using namespace mcu::atmega328;
namespace ee = mem::eeprom;
using dac = tc1_pwm_on_a_pb1;
using lamp = gpio<port::B>::p<5>;

static constexpr uint8_t ring = 8;
volatile uint16_t samples[ring]; volatile uint8_t head, tail; volatile bool outstanding; volatile uint16_t presses;
static uint8_t variant; // how the application is put together: see main()
static bool self_timed() { return variant & 0x40; }
static Work work;

static void __attribute__((noinline)) handler()
{
    uint8_t n = SIM_ICMD;
    while ( n-- )
    {
        uint8_t what = SIM_IARG; uint16_t v = sim_iarg16();
        switch ( what )
        {
            case 0: OCR1B = v; break;
            case 1: v = TCNT1; sim_iout16( v ); break;
            case 2: gpio<port::D>::p<6>::out::toggle(); break;
            case 3: GPIOR0 = v; break;
            case 4: while ( v-- ) asm volatile( "nop" ); break;
            case 5: gpio<port::D>::p<6>::dir::set(); break;

        }
    }
}
#define H( v ) ISR( v ) { SIM_IMARK = __LINE__; handler(); }   // different from each other: the compiler must not merge handlers
H( SPI_STC_vect )
H( USART_RX_vect )
H( USART_UDRE_vect )
H( USART_TX_vect )
H( TIMER2_OVF_vect )
H( WDT_vect )
ISR( BADISR_vect ) { SIM_IMARK = 1; }
#define P( v ) ISR( v ) { mcu::atmega328::core::scoped_sreg _; SIM_IMARK = __LINE__; presses = presses + 1; }
P( INT0_vect )
P( INT1_vect )
P( PCINT0_vect )
P( PCINT1_vect )
P( PCINT2_vect )
#define T( v ) ISR( v ) { mcu::atmega328::core::scoped_sreg _; SIM_IMARK = __LINE__; if ( !self_timed() && !outstanding && uint8_t( head - tail ) < ring ) { outstanding = true; adc::conversion::start(); } }
T( TIMER0_COMPA_vect )
T( TIMER0_COMPB_vect )
T( TIMER0_OVF_vect )
ISR( ADC_vect )
{
    mcu::atmega328::core::scoped_sreg _;
    uint16_t x = adc::conversion::result(); if ( variant & 0x20 ) x >>= 6;
    outstanding = false; if ( uint8_t( head - tail ) >= ring ) { SIM_IMARK = 2; return; }
    samples[head % ring] = x; head = head + 1;
}
static void count_presses( uint8_t how )
{
    if ( how < 2 ) { ei::interrupt_sense<eint::int0>( how ? ei::sense::rising_edge : ei::sense::falling_edge ); ei::clear_external_int0_flag(); ei::enable_external_int0( true ); }
    else if ( how < 4 ) { ei::interrupt_sense<eint::int1>( how == 3 ? ei::sense::rising_edge : ei::sense::change ); ei::clear_external_int1_flag(); ei::enable_external_int1( true ); }
    else if ( how == 4 ) { ei::pin_change_interrupt_mask2( 0x04 ); ei::clear_pin_change_int2_flag(); ei::enable_pin_change_int2( true ); }
    else if ( how == 5 ) { ei::pin_change_interrupt_mask1( 0x08 ); ei::clear_pin_change_int1_flag(); ei::enable_pin_change_int1( true ); }
    else { ei::pin_change_interrupt_mask0( 0x01 ); ei::clear_pin_change_int0_flag(); ei::enable_pin_change_int0( true ); }
}

// ---- checkpoints: two slots, each { valid, sequence number, state }
static bool busy() { return current( ee::enable::write{} ) != ee::enable::write::off; }
static uint8_t fetch( uint16_t a ) { while ( busy() ) ; ee::set( ee::address{ a } ); set( ee::enable::read::on ); return to_integral( ee::current( ee::data{} ) ); }
static void __attribute__((noinline)) put_cell( uint16_t a, uint8_t v, ee::program::mode m )
{
    while ( busy() ) ;
    set( m ); ee::set( ee::address{ a } ); ee::set( ee::data{ v } );
    scoped_interrupt_guard guard;
    set( ee::enable::master_write::on ); set( ee::enable::write::on );
}
using ee::program::mode;
static uint16_t slot( uint8_t i ) { return i & 1 ? 0x1c0 : 0x0a0; }     // the second one crosses a page of 256 cells
static void checkpoint( uint16_t seq )
{
    uint16_t a = slot( seq ); if ( fetch( a ) != 0xff ) put_cell( a, 0, mode::erase_only );     // only complete records carry another mark, so an erasure cut short does no harm
    put_cell( a + 1, seq, mode::erase_write ); put_cell( a + 2, seq >> 8, mode::erase_write );
    uint8_t image[Work::image_max]; uint8_t n = work.save( image ); for ( uint8_t i = 0; i < n; ++i ) put_cell( a + 3 + i, image[i], mode::erase_write );
    put_cell( a, valid_mark, mode::write_only );
}
static uint16_t restore()
{
    uint16_t best = 0; bool any = false;
    for ( uint8_t i = 0; i < 2; ++i ) { uint16_t a = slot( i ); if ( fetch( a ) != valid_mark ) continue; uint16_t s = fetch( a + 1 ); s |= uint16_t( fetch( a + 2 ) ) << 8; if ( !any || int16_t( s - best ) > 0 ) best = s; any = true; }
    if ( !any ) return 0;
    uint8_t image[Work::image_max]; uint8_t n = work.image_size(); for ( uint8_t i = 0; i < n; ++i ) image[i] = fetch( slot( best ) + 3 + i );
    work.load( image ); return best;
}
static void tell( uint8_t address, uint8_t v ) { for ( uint8_t k = 0; k < 40; ++k ) if ( !twi::sync::write( address, v ) ) return; }

int main()
{
    struct Args { uint8_t get() { return SIM_ARG; } } args; work.setup( args );
    uint8_t top = SIM_ARG, clk = SIM_ARG, adps = SIM_ARG, ch = SIM_ARG, report = SIM_ARG, keep = SIM_ARG, rate = SIM_ARG, how = SIM_ARG; variant = SIM_ARG; presses = sim_arg16();
    lamp::dir::set(); dac::init(); twi::sync::init( twi::control::rate{ rate } );
    uint16_t seq = restore();
    set( adc::input::reference( variant & 3 ) ), set( variant & 0x20 ? adc::conversion::adjustment::left : adc::conversion::adjustment::right ), set( adc::input::channel{ ch } ); set( adc::prescale::factor{ adps } ), set( adc::enable::adc::on ), set( adc::enable::interrupt::on );
    count_presses( how );
    uint8_t tick = variant >> 2 & 3; set( tc0::value::compare::a( top ) ), set( tc0::value::compare::b( how * 5 ) );
    if ( tick == 0 ) set( tc0::enable::interrupt::on::match_a::on ); else if ( tick == 1 ) set( tc0::enable::interrupt::on::match_b::on ); else set( tc0::enable::interrupt::on::overflow::on );
    if ( self_timed() ) { set( tick ? adc::trigger::on::tc0_overflow : adc::trigger::on::tc0_match_a ); set( adc::enable::auto_trigger::on ); }
    set( tick == 2 ? tc0::output::waveform::fast_pwm_ocr0a : tc0::output::waveform::ctc ), set( tc0::input::clock{ clk } );
    uint8_t to_report = report, to_keep = keep;
    SIM_OUT = work.image_size(); SIM_MARK = 1;
    sei();
    for (;;)
    {
        if ( head == tail ) continue;
        uint16_t x = atomic( samples[tail % ring] ); tail = tail + 1;
        uint16_t y = work.step( x );
        dac::write( y ); lamp::out::toggle();
        if ( report && --to_report == 0 ) { to_report = report; tell( 0x40, y ); tell( 0x40, y >> 8 ); SIM_MARK = 2; uint16_t p = atomic( presses ); SIM_MARK = 3; tell( 0x42, p ); tell( 0x42, p >> 8 ); }
        if ( keep && --to_keep == 0 ) { to_keep = keep; checkpoint( ++seq ); }
    }
}
