// Simulated ATmega328P: AVR core, GPIO, external interrupts, TC0, TC1, prescaler, ADC, comparator, EEPROM, two-wire.
// Written from the datasheet, independently of the library under test. Fully deterministic: every input comes from Env.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <fstream>
#include <stdexcept>
#include <elf.h>

namespace avr {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

struct Fault { std::string why; };      // the program left the rails: unknown opcode, stray jump, stack overflow, ...

// AVR_BIG: a chip with more memory than the real one, for firmware that holds more than one program would
#ifdef AVR_BIG
constexpr u32 flash_words = 0x8000; constexpr u16 ram_top = 0x17ff;
#else
constexpr u32 flash_words = 0x4000; constexpr u16 ram_top = 0x8ff;
#endif

struct Flash
{
    u16 w[flash_words]; u32 used = 0; u16 data_end = 0x100;
    Flash() { for ( auto & x : w ) x = 0xffff; }
    void load( char const * path )
    {
        std::ifstream f( path, std::ios::binary ); std::string s( ( std::istreambuf_iterator<char>( f ) ), {} );
        if ( s.size() < sizeof( Elf32_Ehdr ) ) throw std::runtime_error( std::string( "cannot load firmware " ) + path );
        auto * e = (Elf32_Ehdr const *) s.data(); u8 * b = (u8 *) w;
        for ( int i = 0; i < e->e_phnum; ++i )
        {
            auto * p = (Elf32_Phdr const *)( s.data() + e->e_phoff + i * e->e_phentsize );
            if ( p->p_type == PT_LOAD && p->p_vaddr >= 0x800100 && p->p_vaddr < 0x801900 ) data_end = std::max<u32>( data_end, p->p_vaddr - 0x800000 + p->p_memsz );
            if ( p->p_type != PT_LOAD || p->p_filesz == 0 || p->p_paddr >= flash_words * 2 ) continue;
            std::memcpy( b + p->p_paddr, s.data() + p->p_offset, p->p_filesz ); if ( p->p_paddr + p->p_filesz > used ) used = p->p_paddr + p->p_filesz;
        }
    }
};

// The world around the chip. Addresses 0xD0..0xFF of the I/O space, reserved on the real chip, are the simulator's own ports.
struct Env
{
    virtual ~Env() {}
    virtual u8   port_in( u8 ) { return 0; }
    virtual void port_out( u8, u8 ) {}
    virtual void irq_point() {}                                     // countdown expired, between two instructions
    virtual void irq_entered( int ) {}
    virtual void irq_left() {}
    virtual void io_written( u8 /*addr*/, u8 /*value*/ ) {}        // watched addresses only
    virtual void io_read( u8 /*addr*/ ) {}
    virtual u16  analog( int /*mux*/, int /*refs*/ ) { return 0; }  // 10-bit sample
    virtual void adc_done( u16 /*raw*/, bool /*lost*/ ) {}
    virtual u32  adc_wait( u32 /*adc clock in cycles*/ ) { return 0; }  // phase of the converter's own clock: extra cycles before a conversion
    virtual void pin( char /*port*/, int /*bit*/, bool /*level*/ ) {}    // level driven by the chip on OC1A/OC1B/OC0A/OC0B changed
    virtual void forced( char ) {}                                  // force-compare strobe: 'a','b' (tc0) 'A','B' (tc1)
    virtual void ee_begin( u16, u8, int ) {}
    virtual void ee_end( u16, u8 ) {}
    // two-wire bus
    enum Bus { ok, nack, arb_lost, bus_error };
    virtual u32  twi_start( bool /*repeated*/ ) { return 0; }        // extra delay in cycles
    virtual void twi_started( bool /*repeated*/ ) {}
    virtual Bus  twi_byte( u8, bool /*address*/ ) { return nack; }
    virtual u32  twi_stretch() { return 0; }
    virtual u8   twi_receive( bool ) { return 0xff; }
    virtual void twi_stop() {}
    virtual void twi_aborted() {}
};

class Chip
{
public:
    enum : u8 { PINB = 0x23, DDRB, PORTB, PINC, DDRC, PORTC, PIND, DDRD, PORTD, TIFR0 = 0x35, TIFR1, TIFR2, PCIFR = 0x3b, EIFR, EIMSK, GPIOR0, EECR, EEDR, EEARL, EEARH, GTCCR, TCCR0A, TCCR0B, TCNT0, OCR0A, OCR0B,
        GPIOR1 = 0x4a, GPIOR2, SPCR, SPSR, SPDR, ACSR = 0x50, SMCR = 0x53, MCUSR, MCUCR, SPMCSR = 0x57, SPL = 0x5d, SPH, SREG, WDTCSR, CLKPR, PRR = 0x64, OSCCAL = 0x66, PCICR = 0x68, EICRA, PCMSK0 = 0x6b, PCMSK1, PCMSK2, TIMSK0, TIMSK1, TIMSK2,
        ADCL = 0x78, ADCH, ADCSRA, ADCSRB, ADMUX, DIDR0 = 0x7e, DIDR1, TCCR1A, TCCR1B, TCCR1C, TCNT1L = 0x84, TCNT1H, ICR1L, ICR1H, OCR1AL, OCR1AH, OCR1BL, OCR1BH, TCCR2A = 0xb0, TWBR = 0xb8, TWSR, TWAR, TWDR, TWCR, TWAMR };
    enum : int { V_INT0 = 1, V_INT1, V_PC0, V_PC1, V_PC2, V_WDT, V_T2A, V_T2B, V_T2O, V_T1CAPT, V_T1A, V_T1B, V_T1O, V_T0A, V_T0B, V_T0O, V_SPI, V_RX, V_UDRE, V_TX, V_ADC, V_EE, V_AC, V_TWI, V_SPM };

    Flash const * flash; Env * env; u8 d[ram_top + 1]; u16 pc; u64 cyc; u64 insns; u8 ee[1024];
    u32 inject = 0;                     // pending injected interrupts (vectors SPI, RX, UDRE, TX, T2x, WDT, SPM), bit = vector
    u64 irq_count = ~0ull;              // instructions until env->irq_point(), not counting handlers nested deeper than count_depth
    int count_depth = 0;
    u8  watch[256];                     // 1: report writes, 2: report reads
    u32 late = 0;                       // in Env::pin from a running timer: how many cycles ago it was
    int depth; bool stop; u32 ee_scale = 1; u16 stack_floor = 0x100; u16 sp_min;
    u8 ext[3], driven[3];               // external pin levels and which pins are driven, ports B C D
    u32 t0_div_override = 0;            // accelerated tick: clock divider of TC0 when nonzero
    bool ain = false;                   // comparator: AIN0 above AIN1

    Chip( Flash const & f, Env * e ) : flash( &f ), env( e ) { std::memset( ee, 0xff, sizeof ee ); std::memset( watch, 0, sizeof watch ); std::memset( ext, 0, 3 ); std::memset( driven, 0, 3 ); std::memset( d, 0, sizeof d ); reset(); }

    void reset()    // power-on: RAM content survives or not is the caller's business
    {
        pc = 0; cyc = insns = 0; depth = 0; stop = false; std::memset( d + 0x20, 0, 0xe0 ); setsp( ram_top ); sp_min = ram_top; stack_floor = flash->data_end; i_delay = false;
        psc = 0; t0 = {}; t1 = {}; temp1 = 0; adc = {}; eebusy = 0; eempe_until = 0; twi = {}; d[TWSR] = 0xf8; d[TWDR] = 0xff; d[TWAR] = 0xfe; irq_count = ~0ull; inject = 0; oc[0] = oc[1] = oc[2] = oc[3] = false; aco = ain;
        std::memset( lastpin, 0, 3 ); for ( int p = 0; p < 3; ++p ) lastpin[p] = pins( p ); any_timer();
    }

    // ---- running
    void run( u64 cycles ) { u64 end = cyc + cycles; stop = false; while ( cyc < end && !stop ) step(); }

    void step()
    {
        if ( irq_count != ~0ull && depth <= count_depth && irq_count-- == 0 ) { irq_count = ~0ull; env->irq_point(); }
        if ( ( d[SREG] & 0x80 ) && !i_delay ) { int v = pending(); if ( v ) { take( v ); return; } }
        i_delay = false; bool i = d[SREG] & 0x80; extra = 0;
        int n = exec(); ++insns;
        if ( ( !i && ( d[SREG] & 0x80 ) ) || reti_delay ) { i_delay = true; reti_delay = false; }
        tick( n + extra );
    }
    int pending() const
    {
        u8 x;
        if ( ( x = d[EIFR] & d[EIMSK] ) || lowlevel() ) { if ( ( x | lowlevel() ) & 1 ) return V_INT0; return V_INT1; }
        if ( ( x = d[PCIFR] & d[PCICR] & 7 ) ) return x & 1 ? V_PC0 : x & 2 ? V_PC1 : V_PC2;
        if ( inject & ( 1u << V_WDT ) ) return V_WDT; if ( inject & ( 7u << V_T2A ) ) return inject & ( 1u << V_T2A ) ? V_T2A : inject & ( 1u << V_T2B ) ? V_T2B : V_T2O;
        if ( ( x = d[TIFR1] & d[TIMSK1] & 0x27 ) ) return x & 0x20 ? V_T1CAPT : x & 2 ? V_T1A : x & 4 ? V_T1B : V_T1O;
        if ( ( x = d[TIFR0] & d[TIMSK0] & 7 ) ) return x & 2 ? V_T0A : x & 4 ? V_T0B : V_T0O;
        if ( inject & ( 15u << V_SPI ) ) return inject & ( 1u << V_SPI ) ? V_SPI : inject & ( 1u << V_RX ) ? V_RX : inject & ( 1u << V_UDRE ) ? V_UDRE : V_TX;
        if ( ( d[ADCSRA] & 0x18 ) == 0x18 ) return V_ADC;
        if ( ( d[EECR] & 8 ) && !eebusy ) return V_EE;
        if ( ( d[ACSR] & 0x18 ) == 0x18 ) return V_AC;
        if ( ( d[TWCR] & 0x81 ) == 0x81 ) return V_TWI;
        return inject & ( 1u << V_SPM ) ? V_SPM : 0;
    }

    // ---- the outside world
    bool busy_eeprom() const { return eebusy != 0; }
    // a reset lets the cell being programmed finish; a power cut leaves it with anything
    void ee_complete() { if ( eebusy ) { eebusy = cyc; ee_finish(); } } bool ee_break( u8 left ) { if ( !eebusy ) return false; eebusy = 0; ee[ee_addr] = left; return true; }
    u16  ee_cell() const { return ee_addr; }
    u8   pins( int p ) const { u8 ddr = d[DDRB + 3 * p], port = d[PORTB + 3 * p], in = ( ext[p] & driven[p] ) | ( port & ~driven[p] ); return ( port & ddr ) | ( in & ~ddr ); }
    void drive( int p, int bit, bool level ) { ext[p] = ( ext[p] & ~( 1 << bit ) ) | ( level << bit ); driven[p] |= 1 << bit; pins_changed(); }
    void comparator( bool above )
    {
        ain = above; bool o = ( d[ACSR] & 0x80 ) ? false : above; if ( o == aco ) return; aco = o; u8 m = d[ACSR] & 3;
        if ( m == 0 || ( m == 2 && !o ) || ( m == 3 && o ) ) { if ( !( d[ACSR] & 0x10 ) ) trigger( 1 ); d[ACSR] |= 0x10; }
        if ( d[ACSR] & 4 ) capture( o );
    }
    u16 tcnt1() const { return t1.n; } u8 tcnt0() const { return t0.n; }
    u16 ocr1( int i ) const { return t1.ocr[i]; } u16 ocr1buf( int i ) const { return t1.buf[i]; } u8 ocr0buf( int i ) const { return t0.buf[i]; } u16 icr1() const { return t1.icr; }
    int wgm1() const { return ( d[TCCR1A] & 3 ) | ( ( d[TCCR1B] >> 1 ) & 12 ); } int wgm0() const { return ( d[TCCR0A] & 3 ) | ( ( d[TCCR0B] >> 1 ) & 4 ); }
    u8   peek( u8 a ) { u8 w = watch[a]; watch[a] = 0; auto k = adc.locked; auto t = temp1; u8 v = in( a ); adc.locked = k; temp1 = t; watch[a] = w; return v; }
    void poke( u8 a, u8 v ) { u8 w = watch[a]; watch[a] = 0; io_len = 2; out( a, v ); watch[a] = w; }
    void poke16( u8 a, u16 v ) { poke( a + 1, v >> 8 ); poke( a, v & 255 ); }
    bool converting() const { return adc.left > 0; }
    bool twi_owned() const { return twi.owned; } bool twi_busy() const { return twi.action != none; }
    u16 sp() const { return d[SPL] | d[SPH] << 8; }

private:
    bool i_delay; int extra = 0; u32 psc; u16 temp1; bool timers; u8 lastpin[3]; bool oc[4]; bool aco;
    struct T { u16 n = 0, ocr[2] = { 0, 0 }, buf[2] = { 0, 0 }, icr = 0; bool down = false, block = false; u32 pre = 0; } t0, t1;
    struct A { bool first = true; long left = 0; long sample_in = 0; u16 raw = 0; u16 data = 0; bool locked = false; int mux = 0, refs = 0; } adc;
    u64 eebusy; u64 eempe_until; u16 ee_addr = 0; u8 ee_data = 0; int ee_mode = 0;
    struct W { int action = 0; u64 at = 0; bool owned = false, lost = false, err = false, start_after = false, sent_start = false, rx = false; u8 byte = 0; Env::Bus result = Env::ok; } twi;

    void setsp( u16 v ) { d[SPL] = v & 255; d[SPH] = v >> 8; }
    void push( u8 v ) { u16 s = sp(); if ( s < stack_floor || s > ram_top ) throw Fault{ "stack overflow" }; d[s] = v; setsp( s - 1 ); if ( s < sp_min ) sp_min = s; }
    u8   pop() { u16 s = sp() + 1; if ( s > ram_top ) throw Fault{ "stack underflow" }; setsp( s ); return d[s]; }
    void pushpc( u16 p ) { push( p & 255 ); push( p >> 8 ); } u16 poppc() { u16 h = pop(); return h << 8 | pop(); }
    u8 lowlevel() const { u8 r = 0; if ( ( d[EIMSK] & 1 ) && !( d[EICRA] & 3 ) && !( pins( 2 ) & 4 ) ) r |= 1; if ( ( d[EIMSK] & 2 ) && !( d[EICRA] & 12 ) && !( pins( 2 ) & 8 ) ) r |= 2; return r; }

    void take( int v )
    {
        switch ( v )
        {
            case V_INT0: d[EIFR] &= ~1; break; case V_INT1: d[EIFR] &= ~2; break; case V_PC0: case V_PC1: case V_PC2: d[PCIFR] &= ~( 1 << ( v - V_PC0 ) ); break;
            case V_T1CAPT: d[TIFR1] &= ~0x20; break; case V_T1A: d[TIFR1] &= ~2; break; case V_T1B: d[TIFR1] &= ~4; break; case V_T1O: d[TIFR1] &= ~1; break;
            case V_T0A: d[TIFR0] &= ~2; break; case V_T0B: d[TIFR0] &= ~4; break; case V_T0O: d[TIFR0] &= ~1; break;
            case V_ADC: d[ADCSRA] &= ~0x10; break; case V_AC: d[ACSR] &= ~0x10; break; case V_EE: case V_TWI: break; default: inject &= ~( 1u << v );
        }
        pushpc( pc ); d[SREG] &= 0x7f; pc = v * 2; ++depth; env->irq_entered( v ); extra = 0; tick( 4 );
    }

    // ---- I/O registers
    void pins_changed()
    {
        for ( int p = 0; p < 3; ++p )
        {
            u8 now = pins( p ), ch = now ^ lastpin[p]; if ( !ch ) continue; lastpin[p] = now;
            if ( ch & d[PCMSK0 + p] ) d[PCIFR] |= 1 << p;
            if ( p == 2 ) for ( int i = 0; i < 2; ++i ) if ( ch & ( 4 << i ) ) { int m = ( d[EICRA] >> ( 2 * i ) ) & 3; bool l = now & ( 4 << i ); if ( m == 1 || ( m == 2 && !l ) || ( m == 3 && l ) ) { if ( i == 0 && !( d[EIFR] & 1 ) ) trigger( 2 ); d[EIFR] |= 1 << i; } }
            if ( p == 2 && ( ch & 0x10 ) ) { int c = d[TCCR0B] & 7; bool l = now & 0x10; if ( ( c == 6 && !l ) || ( c == 7 && l ) ) count0(); }
            if ( p == 2 && ( ch & 0x20 ) ) { int c = d[TCCR1B] & 7; bool l = now & 0x20; if ( ( c == 6 && !l ) || ( c == 7 && l ) ) count1(); }
            if ( p == 0 && ( ch & 1 ) && !( d[ACSR] & 4 ) ) capture( now & 1 );
        }
    }
    void capture( bool level ) { int m = wgm1(); if ( m == 8 || m == 10 || m == 12 || m == 14 ) return; if ( level == bool( d[TCCR1B] & 0x40 ) ) { t1.icr = t1.n; setf1( 0x20 ); } }
    void setf0( u8 f ) { if ( ( f & 2 ) && !( d[TIFR0] & 2 ) ) trigger( 3 ); if ( ( f & 1 ) && !( d[TIFR0] & 1 ) ) trigger( 4 ); d[TIFR0] |= f; }
    void setf1( u8 f ) { if ( ( f & 4 ) && !( d[TIFR1] & 4 ) ) trigger( 5 ); if ( ( f & 1 ) && !( d[TIFR1] & 1 ) ) trigger( 6 ); if ( ( f & 0x20 ) && !( d[TIFR1] & 0x20 ) ) trigger( 7 ); d[TIFR1] |= f; }

    u8 in( u8 a )
    {
        if ( watch[a] & 2 ) env->io_read( a );
        if ( a >= 0xd0 ) return env->port_in( a );
        switch ( a )
        {
            case PINB: case PINC: case PIND: return pins( ( a - PINB ) / 3 );
            case TCNT0: return t0.n; case OCR0A: return t0.buf[0]; case OCR0B: return t0.buf[1];
            case TCNT1L: temp1 = t1.n >> 8; return t1.n; case TCNT1H: return temp1; case ICR1L: temp1 = t1.icr >> 8; return t1.icr; case ICR1H: return temp1;
            case OCR1AL: return t1.buf[0]; case OCR1AH: return t1.buf[0] >> 8; case OCR1BL: return t1.buf[1]; case OCR1BH: return t1.buf[1] >> 8;
            case ADCL: adc.locked = true; return ( d[ADMUX] & 0x20 ) ? adc.data << 6 : adc.data;
            case ADCH: { u8 v = ( d[ADMUX] & 0x20 ) ? adc.data >> 2 : adc.data >> 8; adc.locked = false; return v; }
            case ACSR: return ( d[ACSR] & ~0x20 ) | ( aco ? 0x20 : 0 );
            case EECR: return ( d[EECR] & 0x38 ) | ( eebusy ? 2 : 0 ) | ( cyc < eempe_until ? 4 : 0 );
            default: return d[a];
        }
    }
    void out( u8 a, u8 v )
    {
        if ( watch[a] & 1 ) env->io_written( a, v );
        if ( a >= 0xd0 ) { env->port_out( a, v ); return; }
        switch ( a )
        {
            case PINB: case PINC: case PIND: d[a + 2] ^= v; pins_changed(); break;
            case DDRB: case DDRC: case DDRD: case PORTB: case PORTC: case PORTD: d[a] = v; pins_changed(); break;
            case TIFR0: d[a] &= ~( v & 7 ); break; case TIFR1: d[a] &= ~( v & 0x27 ); break; case PCIFR: d[a] &= ~( v & 7 ); break; case EIFR: d[a] &= ~( v & 3 ); break; case TIFR2: d[a] &= ~( v & 7 ); break;
            case EIMSK: d[a] = v & 3; break; case PCICR: d[a] = v & 7; break; case EICRA: d[a] = v & 15; break; case PCMSK1: d[a] = v & 0x7f; break;
            case GTCCR: d[a] = v & 0x83; if ( v & 1 ) psc = 0; if ( !( v & 0x80 ) ) d[a] = 0; any_timer(); break;
            case TCCR0A: d[a] = v & 0xf3; ocr_direct( t0, pwm0() ); break;
            case TCCR0B: d[a] = v & 0x0f; any_timer(); if ( !pwm0() ) { if ( v & 0x80 ) { env->forced( 'a' ); match0( 0, true ); } if ( v & 0x40 ) { env->forced( 'b' ); match0( 1, true ); } } ocr_direct( t0, pwm0() ); break;
            case TCNT0: t0.n = v; t0.block = true; break;
            case OCR0A: case OCR0B: t0.buf[a - OCR0A] = v; ocr_direct( t0, pwm0() ); break;
            case TIMSK0: d[a] = v & 7; break; case TIMSK1: d[a] = v & 0x27; break;
            case TCCR1A: d[a] = v & 0xf3; ocr_direct( t1, pwm1() ); break; case TCCR1B: d[a] = v & 0xdf; any_timer(); ocr_direct( t1, pwm1() ); break;
            case TCCR1C: d[a] = 0; if ( !pwm1() ) { if ( v & 0x80 ) { env->forced( 'A' ); match1( 0, true ); } if ( v & 0x40 ) { env->forced( 'B' ); match1( 1, true ); } } break;
            case TCNT1H: case ICR1H: case OCR1AH: case OCR1BH: temp1 = v; break;
            case TCNT1L: t1.n = temp1 << 8 | v; t1.block = true; break;
            case ICR1L: { int m = wgm1(); if ( m == 8 || m == 10 || m == 12 || m == 14 ) t1.icr = temp1 << 8 | v; } break;
            case OCR1AL: t1.buf[0] = temp1 << 8 | v; ocr_direct( t1, pwm1() ); break; case OCR1BL: t1.buf[1] = temp1 << 8 | v; ocr_direct( t1, pwm1() ); break;
            case ADCL: case ADCH: break;
            case ADCSRA:
            {
                bool was = d[a] & 0x80; u8 keep = d[a] & 0x10 & ~v, run = d[a] & 0x40; d[a] = ( v & 0xaf ) | keep | run;
                if ( !( v & 0x80 ) ) { adc.left = 0; adc.sample_in = 0; d[a] &= ~0x40; adc.first = true; }
                else { if ( !was ) adc.first = true; if ( ( v & 0x40 ) && !run ) { d[a] |= 0x40; convert(); } }
                any_timer(); break;
            }
            case ADCSRB: d[a] = v & 0x47; break; case ADMUX: d[a] = v & 0xef; break; case DIDR0: d[a] = v & 0x3f; break; case DIDR1: d[a] = v & 3; break;
            case ACSR: { u8 f = d[a] & 0x10 & ~v; d[a] = ( v & 0xcf ) | f; bool o = ( v & 0x80 ) ? false : ain; aco = o; break; }
            case EEARH: d[a] = v & 3; break;
            case EECR: eecr( v ); break;
            case TWBR: d[a] = v; break; case TWSR: d[a] = ( d[a] & 0xf8 ) | ( v & 3 ); break; case TWAR: d[a] = v; break; case TWAMR: d[a] = v & 0xfe; break;
            case TWDR: if ( d[TWCR] & 0x80 ) { d[a] = v; d[TWCR] &= ~8; } else if ( d[TWCR] & 4 ) d[TWCR] |= 8; else d[a] = v; break;
            case TWCR: twcr( v ); break;
            default: d[a] = v;
        }
    }
    // sbi/cbi: only the addressed bit, also in registers with flags
    void bit( u8 a, int b, bool set )
    {
        io_len = 2;
        switch ( a )
        {
            case PINB: case PINC: case PIND: case TIFR0: case TIFR1: case TIFR2: case PCIFR: case EIFR: if ( set ) out( a, 1 << b ); else if ( watch[a] & 1 ) env->io_written( a, 0 ); return;
            default: { u8 v = in( a ); out( a, set ? v | ( 1 << b ) : v & ~( 1 << b ) ); }
        }
    }
    u8 rd( u16 a ) { if ( a < 0x20 ) return d[a]; if ( a < 0x100 ) return in( a ); if ( a > ram_top ) throw Fault{ "read outside the data memory" }; return d[a]; }
    void wr( u16 a, u8 v ) { if ( a < 0x20 ) d[a] = v; else if ( a < 0x100 ) { io_len = 2; out( a, v ); } else if ( a > ram_top ) throw Fault{ "write outside the data memory" }; else d[a] = v; }

    // ---- timers
    void any_timer() { timers = ( d[TCCR0B] & 7 ) || ( d[TCCR1B] & 7 ) || ( d[ADCSRA] & 0x80 ); }
    bool pwm0() const { int m = wgm0(); return m == 1 || m == 3 || m == 5 || m == 7; }
    bool pwm1() const { int m = wgm1(); return !( m == 0 || m == 4 || m == 12 || m == 13 ); }
    static void ocr_direct( T & t, bool pwm ) { if ( !pwm ) { t.ocr[0] = t.buf[0]; t.ocr[1] = t.buf[1]; } }
    void set_oc( int i, bool v ) { if ( oc[i] == v ) return; oc[i] = v; env->pin( i < 2 ? 'D' : 'B', i == 0 ? 6 : i == 1 ? 5 : i == 2 ? 1 : 2, v ); }
public: bool oc_level( int i ) const { return oc[i]; }
private:
    void act( int i, int com, int kind ) // kind 0: non-pwm match; 1: fast match; 2: fast bottom; 3: pc match up; 4: pc match down
    {
        switch ( kind )
        {
            case 0: if ( com == 1 ) set_oc( i, !oc[i] ); else if ( com ) set_oc( i, com == 3 ); break;
            case 1: if ( com == 2 ) set_oc( i, false ); else if ( com == 3 ) set_oc( i, true ); else if ( com == 1 && !( i & 1 ) ) { int m = i < 2 ? wgm0() : wgm1(); if ( m == 7 * ( i < 2 ) || ( i >= 2 && ( m == 14 || m == 15 ) ) ) set_oc( i, !oc[i] ); } break;
            case 2: if ( com == 2 ) set_oc( i, true ); else if ( com == 3 ) set_oc( i, false ); break;
            case 3: if ( com == 2 ) set_oc( i, false ); else if ( com == 3 ) set_oc( i, true ); break;
            case 4: if ( com == 2 ) set_oc( i, true ); else if ( com == 3 ) set_oc( i, false ); break;
        }
    }
    int com( int i ) const { u8 v = i < 2 ? d[TCCR0A] : d[TCCR1A]; return i & 1 ? ( v >> 4 ) & 3 : v >> 6; }
    void match0( int i, bool forced_ ) { int m = wgm0(); act( i, com( i ), forced_ || m == 0 || m == 2 ? 0 : ( m == 1 || m == 5 ) ? t0.down ? 4 : 3 : 1 ); if ( !forced_ ) setf0( 2 << i ); }
    void match1( int i, bool forced_ ) { int m = wgm1(); bool pc = m >= 1 && ( m <= 3 || ( m >= 8 && m <= 11 ) ); act( 2 + i, com( 2 + i ), forced_ || !pwm1() ? 0 : pc ? t1.down ? 4 : 3 : 1 ); if ( !forced_ ) setf1( 2 << i ); }
    void count0()
    {
        int m = wgm0(); u16 top = ( m == 2 || m == 5 || m == 7 ) ? t0.ocr[0] : 255; bool blk = t0.block; t0.block = false; u16 old = t0.n; bool pc = m == 1 || m == 5;
        if ( !blk ) { if ( old == t0.ocr[0] ) match0( 0, false ); if ( old == t0.ocr[1] ) match0( 1, false ); }
        if ( pc )
        {
            if ( !t0.down && old >= top ) { t0.down = true; t0.ocr[0] = t0.buf[0]; t0.ocr[1] = t0.buf[1]; }
            if ( t0.down ) { if ( t0.n ) --t0.n; if ( t0.n == 0 ) { t0.down = false; setf0( 1 ); } } else ++t0.n;
        }
        else
        {
            t0.down = false;
            if ( old == top || old == 255 ) { t0.n = 0; bool fast = m == 3 || m == 7; if ( fast ? old == top || old == 255 : old == 255 ) setf0( 1 ); if ( fast ) { t0.ocr[0] = t0.buf[0]; t0.ocr[1] = t0.buf[1]; act( 0, com( 0 ), 2 ); act( 1, com( 1 ), 2 ); } }
            else ++t0.n;
        }
    }
    u16 top1() const { static u16 const fix[16] = { 0xffff, 255, 511, 1023, 0, 255, 511, 1023 }; int m = wgm1(); switch ( m ) { case 4: case 9: case 11: case 15: return t1.ocr[0]; case 8: case 10: case 12: case 14: return t1.icr; case 13: return 0xffff; default: return fix[m]; } }
    void count1()
    {
        int m = wgm1(); u16 top = top1(), old = t1.n; bool blk = t1.block; t1.block = false; bool pc = ( m >= 1 && m <= 3 ) || ( m >= 8 && m <= 11 ), fast = ( m >= 5 && m <= 7 ) || m == 14 || m == 15;
        if ( !blk ) { if ( old == t1.ocr[0] ) match1( 0, false ); if ( old == t1.ocr[1] ) match1( 1, false ); }
        if ( ( m == 8 || m == 10 || m == 12 || m == 14 ) && old == t1.icr && !blk ) setf1( 0x20 );
        if ( pc )
        {
            if ( !t1.down && old >= top ) { t1.down = true; if ( m != 8 && m != 9 ) { t1.ocr[0] = t1.buf[0]; t1.ocr[1] = t1.buf[1]; } }
            if ( t1.down ) { if ( t1.n ) --t1.n; if ( t1.n == 0 ) { t1.down = false; setf1( 1 ); if ( m == 8 || m == 9 ) { t1.ocr[0] = t1.buf[0]; t1.ocr[1] = t1.buf[1]; } } } else ++t1.n;
        }
        else
        {
            t1.down = false;
            if ( old == top || old == 0xffff ) { t1.n = 0; if ( fast || old == 0xffff ) setf1( 1 ); if ( fast ) { t1.ocr[0] = t1.buf[0]; t1.ocr[1] = t1.buf[1]; act( 2, com( 2 ), 2 ); act( 3, com( 3 ), 2 ); } }
            else ++t1.n;
        }
    }
    static u32 divider( u8 cs ) { static u32 const k[8] = { 0, 1, 8, 64, 256, 1024, 0, 0 }; return k[cs & 7]; }

    // ---- time
    void tick( int n )
    {
        cyc += n;
        if ( timers )
        {
            u32 k0 = divider( d[TCCR0B] ), k1 = divider( d[TCCR1B] ); if ( k0 && t0_div_override ) k0 = t0_div_override; bool hold = ( d[GTCCR] & 0x81 ) == 0x81;
            if ( k0 | k1 ) for ( int i = 0; i < n; ++i )
            {
                late = n - 1 - i;
                if ( hold ) { psc = 0; if ( k0 == 1 ) count0(); if ( k1 == 1 ) count1(); continue; }
                ++psc; if ( k0 && !( psc & ( k0 - 1 ) ) ) count0(); if ( k1 && !( psc & ( k1 - 1 ) ) ) count1();
            }
            late = 0;
            if ( adc.left > 0 )
            {
                if ( adc.sample_in > 0 && ( adc.sample_in -= n ) <= 0 ) adc.raw = env->analog( adc.mux, adc.refs ) & 0x3ff;
                if ( ( adc.left -= n ) <= 0 ) done();
            }
        }
        if ( eebusy && cyc >= eebusy ) { eebusy = 0; u8 & c = ee[ee_addr]; c = ee_mode == 0 ? ee_data : ee_mode == 1 ? 0xff : c & ee_data; env->ee_end( ee_addr, c ); }
        if ( twi.action && cyc >= twi.at ) twi_event();
    }
    void trigger( int src ) { if ( ( d[ADCSRA] & 0xa0 ) == 0xa0 && ( d[ADCSRB] & 7 ) == src && adc.left <= 0 ) { d[ADCSRA] |= 0x40; convert(); } }
    u32 adc_div() const { int p = d[ADCSRA] & 7; return p ? 1u << p : 2; }
    void convert() { long k = adc_div(); bool f = adc.first; adc.first = false; long w = env->adc_wait( k ); adc.left = ( f ? 25 : 13 ) * k + k / 2 + w; adc.sample_in = ( f ? 27 : 3 ) * k / 2 + w; adc.mux = d[ADMUX] & 15; adc.refs = d[ADMUX] >> 6; timers = true; }
    void done()
    {
        adc.left = 0; bool lost = adc.locked; if ( !lost ) adc.data = adc.raw; env->adc_done( adc.raw, lost ); d[ADCSRA] |= 0x10;
        if ( ( d[ADCSRA] & 0x20 ) && !( d[ADCSRB] & 7 ) ) convert(); else d[ADCSRA] &= ~0x40;
    }

    // ---- EEPROM
    void ee_finish() { eebusy = 0; u8 & c = ee[ee_addr]; c = ee_mode == 0 ? ee_data : ee_mode == 1 ? 0xff : c & ee_data; env->ee_end( ee_addr, c ); }
    void eecr( u8 v )
    {
        d[EECR] = ( d[EECR] & 0x30 ) | ( v & 8 ); if ( !eebusy ) d[EECR] = ( v & 0x38 );
        bool open = cyc < eempe_until;       // cyc: start of this instruction
        if ( ( v & 2 ) && open && !eebusy ) { ee_addr = ( d[EEARL] | d[EEARH] << 8 ) & 0x3ff; ee_data = d[EEDR]; ee_mode = ( d[EECR] >> 4 ) & 3; eebusy = cyc + ( ee_mode ? 28800 : 54400 ) / ee_scale + 2; eempe_until = 0; extra += 2; env->ee_begin( ee_addr, ee_data, ee_mode ); }
        else if ( v & 4 ) eempe_until = cyc + io_len + 4; else if ( !( v & 2 ) ) eempe_until = 0;
        if ( ( v & 1 ) && !eebusy ) { d[EEDR] = ee[( d[EEARL] | d[EEARH] << 8 ) & 0x3ff]; extra += 4; }
    }

    // ---- two-wire interface
    u32 bit_time() const { return 16 + 2 * d[TWBR] * ( 1u << ( 2 * ( d[TWSR] & 3 ) ) ); }
    enum { none, starting, sending, receiving, stopping };
    void twcr( u8 v )
    {
        u8 flag = d[TWCR] & 0x80, wc = d[TWCR] & 8, sto = d[TWCR] & 0x10 & ( twi.action == stopping ? 0x10 : 0 );
        if ( !( v & 4 ) ) { if ( ( d[TWCR] & 4 ) && ( twi.action || twi.owned ) ) env->twi_aborted(); twi = {}; d[TWCR] = v & 0x45; d[TWSR] |= 0xf8; return; }
        d[TWCR] = ( v & 0x75 ) | wc | sto | ( ( v & 0x80 ) ? 0 : flag );
        if ( !( v & 0x80 ) && flag ) return;                                            // stalled until the flag is cleared
        if ( twi.action == stopping ) { if ( v & 0x20 ) twi.start_after = true; return; }
        if ( twi.action ) return;
        if ( v & 0x80 ) d[TWSR] = ( d[TWSR] & 3 ) | ( flag ? d[TWSR] & 0xf8 : 0xf8 );
        if ( v & 0x10 )
        {
            if ( twi.err || !twi.owned ) { twi.err = twi.lost = false; d[TWCR] &= ~0x10; d[TWSR] |= 0xf8; if ( v & 0x20 ) begin_start(); return; }
            twi.action = stopping; twi.at = cyc + bit_time(); twi.start_after = v & 0x20; return;
        }
        if ( twi.err ) { if ( v & 0x80 ) { d[TWCR] |= 0x80; d[TWSR] &= 3; } return; }
        if ( v & 0x20 ) { begin_start(); return; }
        if ( !( v & 0x80 ) || !flag ) return;
        if ( twi.lost ) { twi.lost = false; d[TWSR] |= 0xf8; return; }
        if ( !twi.owned ) return;
        if ( twi.sent_start || !twi.rx ) { twi.byte = d[TWDR]; twi.result = env->twi_byte( twi.byte, twi.sent_start ); twi.action = sending; twi.at = cyc + 9 * bit_time() + env->twi_stretch(); }
        else { twi.action = receiving; twi.at = cyc + 9 * bit_time() + env->twi_stretch(); }
    }
    void begin_start() { twi.lost = false; twi.action = starting; twi.at = cyc + bit_time() + env->twi_start( twi.owned ); }
    void status( u8 s ) { d[TWSR] = ( d[TWSR] & 3 ) | s; d[TWCR] |= 0x80; }
    void twi_event()
    {
        int a = twi.action; twi.action = none;
        switch ( a )
        {
            case stopping: twi.owned = false; twi.rx = twi.sent_start = false; d[TWCR] &= ~0x10; d[TWSR] |= 0xf8; env->twi_stop(); if ( twi.start_after ) { twi.start_after = false; begin_start(); } break;
            case starting: { bool rep = twi.owned; twi.owned = true; twi.sent_start = true; twi.rx = false; env->twi_started( rep ); status( rep ? 0x10 : 0x08 ); break; }
            case sending:
            {
                bool addr = twi.sent_start, r = addr ? twi.byte & 1 : false; twi.sent_start = false;
                switch ( twi.result )
                {
                    case Env::arb_lost: twi.owned = false; twi.lost = true; status( 0x38 ); break;
                    case Env::bus_error: twi.owned = false; twi.err = true; status( 0x00 ); break;
                    case Env::ok: if ( addr ) twi.rx = r; status( addr ? r ? 0x40 : 0x18 : 0x28 ); break;
                    case Env::nack: status( addr ? r ? 0x48 : 0x20 : 0x30 ); break;
                }
                break;
            }
            case receiving: { bool ack = d[TWCR] & 0x40; d[TWDR] = env->twi_receive( ack ); status( ack ? 0x50 : 0x58 ); break; }
        }
    }

    // ---- core
    void flags_zns( u8 r, u8 v ) { u8 n = r >> 7; d[SREG] = ( d[SREG] & 0xe1 ) | ( ( n ^ v ) << 4 ) | ( v << 3 ) | ( n << 2 ) | ( ( r == 0 ) << 1 ); }
    u8 add( u8 a, u8 b, u8 c )
    {
        u8 r = a + b + c, co = ( a & b ) | ( b & ~r ) | ( ~r & a ), v = ( ( a & b & ~r ) | ( ~a & ~b & r ) ) >> 7, n = r >> 7;
        d[SREG] = ( d[SREG] & 0xc0 ) | ( ( co << 2 ) & 0x20 ) | ( ( n ^ v ) << 4 ) | ( v << 3 ) | ( n << 2 ) | ( ( r == 0 ) << 1 ) | ( co >> 7 ); return r;
    }
    u8 sub( u8 a, u8 b, u8 c, bool chain )
    {
        u8 r = a - b - c, co = ( ~a & b ) | ( b & r ) | ( r & ~a ), v = ( ( a & ~b & ~r ) | ( ~a & b & r ) ) >> 7, n = r >> 7, z = r == 0 && ( !chain || ( d[SREG] & 2 ) );
        d[SREG] = ( d[SREG] & 0xc0 ) | ( ( co << 2 ) & 0x20 ) | ( ( n ^ v ) << 4 ) | ( v << 3 ) | ( n << 2 ) | ( z << 1 ) | ( co >> 7 ); return r;
    }
    void shiftf( u8 r, u8 c ) { u8 n = r >> 7, v = n ^ c; d[SREG] = ( d[SREG] & 0xe0 ) | ( ( n ^ v ) << 4 ) | ( v << 3 ) | ( n << 2 ) | ( ( r == 0 ) << 1 ) | c; }
    static bool two( u16 op ) { return ( op & 0xfc0f ) == 0x9000 || ( op & 0xfe0e ) == 0x940c || ( op & 0xfe0e ) == 0x940e; }
    int skip() { int n = two( flash->w[pc & ( flash_words - 1 )] ) ? 2 : 1; pc += n; return n; }
    u16 ptr( int r ) const { return d[r] | d[r + 1] << 8; } void setptr( int r, u16 v ) { d[r] = v & 255; d[r + 1] = v >> 8; }
    u8 lpm( u16 z ) const { if ( z >= flash_words * 2 ) throw Fault{ "program memory read out of range" }; return ( (u8 const *) flash->w )[z]; }
    [[noreturn]] void bad( u16 op ) { char b[80]; snprintf( b, sizeof b, "unknown instruction %04x at %04x", op, ( pc - 1 ) * 2 ); throw Fault{ b }; }

    int exec()
    {
        if ( pc >= flash_words ) throw Fault{ "jump outside the program memory" };
        u16 const op = flash->w[pc++]; int const rd5 = ( op >> 4 ) & 31, rr5 = ( op & 15 ) | ( ( op >> 5 ) & 16 ), rd4 = 16 + ( ( op >> 4 ) & 15 ); u8 const k8 = ( op & 15 ) | ( ( op >> 4 ) & 0xf0 );
        u8 & sr = d[SREG];
        switch ( op >> 12 )
        {
            case 0x0:
                switch ( ( op >> 8 ) & 15 )
                {
                    case 0: if ( op ) bad( op ); return 1;
                    case 1: { int a = ( op >> 3 ) & 30, b = ( op & 15 ) * 2; d[a] = d[b]; d[a + 1] = d[b + 1]; return 1; }
                    case 2: mulf( (int)(signed char) d[rd4] * (int)(signed char) d[16 + ( op & 15 )], false ); return 2;
                    case 3: { int a = 16 + ( ( op >> 4 ) & 7 ), b = 16 + ( op & 7 ); switch ( op & 0x88 ) { case 0: mulf( (int)(signed char) d[a] * d[b], false ); break; case 8: mulf( d[a] * d[b], true ); break; case 0x80: mulf( (int)(signed char) d[a] * (int)(signed char) d[b], true ); break; default: mulf( (int)(signed char) d[a] * d[b], true ); } return 2; }
                    case 4: case 5: case 6: case 7: sub( d[rd5], d[rr5], sr & 1, true ); return 1;
                    case 8: case 9: case 10: case 11: d[rd5] = sub( d[rd5], d[rr5], sr & 1, true ); return 1;
                    default: d[rd5] = add( d[rd5], d[rr5], 0 ); return 1;
                }
            case 0x1:
                switch ( ( op >> 10 ) & 3 )
                {
                    case 0: if ( d[rd5] == d[rr5] ) return 1 + skip(); return 1;
                    case 1: sub( d[rd5], d[rr5], 0, false ); return 1;
                    case 2: d[rd5] = sub( d[rd5], d[rr5], 0, false ); return 1;
                    default: d[rd5] = add( d[rd5], d[rr5], sr & 1 ); return 1;
                }
            case 0x2:
                switch ( ( op >> 10 ) & 3 )
                {
                    case 0: d[rd5] &= d[rr5]; flags_zns( d[rd5], 0 ); return 1;
                    case 1: d[rd5] ^= d[rr5]; flags_zns( d[rd5], 0 ); return 1;
                    case 2: d[rd5] |= d[rr5]; flags_zns( d[rd5], 0 ); return 1;
                    default: d[rd5] = d[rr5]; return 1;
                }
            case 0x3: sub( d[rd4], k8, 0, false ); return 1;
            case 0x4: d[rd4] = sub( d[rd4], k8, sr & 1, true ); return 1;
            case 0x5: d[rd4] = sub( d[rd4], k8, 0, false ); return 1;
            case 0x6: d[rd4] |= k8; flags_zns( d[rd4], 0 ); return 1;
            case 0x7: d[rd4] &= k8; flags_zns( d[rd4], 0 ); return 1;
            case 0x8: case 0xa:
            {
                int q = ( op & 7 ) | ( ( op >> 7 ) & 0x18 ) | ( ( op >> 8 ) & 0x20 ); u16 a = ptr( op & 8 ? 28 : 30 ) + q;
                if ( op & 0x200 ) wr( a, d[rd5] ); else d[rd5] = rd( a ); return 2;
            }
            case 0x9: return exec9( op );
            case 0xb: { u8 a = 0x20 + ( ( op & 15 ) | ( ( op >> 5 ) & 0x30 ) ); if ( op & 0x800 ) { io_len = 1; out( a, d[rd5] ); } else d[rd5] = in( a ); return 1; }
            case 0xc: { int k = op & 0xfff; if ( k & 0x800 ) k -= 0x1000; pc = ( pc + k ) & ( flash_words - 1 ); return 2; }
            case 0xd: { int k = op & 0xfff; if ( k & 0x800 ) k -= 0x1000; pushpc( pc ); pc = ( pc + k ) & ( flash_words - 1 ); return 3; }
            case 0xe: d[rd4] = k8; return 1;
            default:
                if ( op < 0xf800 ) { int k = ( op >> 3 ) & 127; if ( k & 64 ) k -= 128; bool s = sr & ( 1 << ( op & 7 ) ); if ( s != bool( op & 0x400 ) ) { pc += k; return 2; } return 1; }
                if ( op & 8 ) bad( op );
                switch ( ( op >> 9 ) & 3 )
                {
                    case 0: d[rd5] = ( d[rd5] & ~( 1 << ( op & 7 ) ) ) | ( ( ( sr >> 6 ) & 1 ) << ( op & 7 ) ); return 1;
                    case 1: sr = ( sr & ~0x40 ) | ( ( ( d[rd5] >> ( op & 7 ) ) & 1 ) << 6 ); return 1;
                    case 2: if ( !( d[rd5] & ( 1 << ( op & 7 ) ) ) ) return 1 + skip(); return 1;
                    default: if ( d[rd5] & ( 1 << ( op & 7 ) ) ) return 1 + skip(); return 1;
                }
        }
    }
    void mulf( int r, bool frac ) { u16 v = r; u8 c = v >> 15; if ( frac ) v <<= 1; d[0] = v & 255; d[1] = v >> 8; d[SREG] = ( d[SREG] & ~3 ) | c | ( ( v == 0 ) << 1 ); }
    int exec9( u16 op )
    {
        int const r = ( op >> 4 ) & 31; u8 & sr = d[SREG];
        switch ( ( op >> 8 ) & 15 )
        {
            case 0: case 1: // loads
                switch ( op & 15 )
                {
                    case 0: { u16 a = flash->w[pc++ & ( flash_words - 1 )]; d[r] = rd( a ); return 2; }
                    case 1: { u16 z = ptr( 30 ); d[r] = rd( z ); setptr( 30, z + 1 ); return 2; }
                    case 2: { u16 z = ptr( 30 ) - 1; setptr( 30, z ); d[r] = rd( z ); return 2; }
                    case 4: d[r] = lpm( ptr( 30 ) ); return 3;
                    case 5: { u16 z = ptr( 30 ); d[r] = lpm( z ); setptr( 30, z + 1 ); return 3; }
                    case 9: { u16 y = ptr( 28 ); d[r] = rd( y ); setptr( 28, y + 1 ); return 2; }
                    case 10: { u16 y = ptr( 28 ) - 1; setptr( 28, y ); d[r] = rd( y ); return 2; }
                    case 12: d[r] = rd( ptr( 26 ) ); return 2;
                    case 13: { u16 x = ptr( 26 ); d[r] = rd( x ); setptr( 26, x + 1 ); return 2; }
                    case 14: { u16 x = ptr( 26 ) - 1; setptr( 26, x ); d[r] = rd( x ); return 2; }
                    case 15: d[r] = pop(); return 2;
                }
                bad( op );
            case 2: case 3: // stores
                switch ( op & 15 )
                {
                    case 0: { u16 a = flash->w[pc++ & ( flash_words - 1 )]; wr( a, d[r] ); return 2; }
                    case 1: { u16 z = ptr( 30 ); wr( z, d[r] ); setptr( 30, z + 1 ); return 2; }
                    case 2: { u16 z = ptr( 30 ) - 1; setptr( 30, z ); wr( z, d[r] ); return 2; }
                    case 9: { u16 y = ptr( 28 ); wr( y, d[r] ); setptr( 28, y + 1 ); return 2; }
                    case 10: { u16 y = ptr( 28 ) - 1; setptr( 28, y ); wr( y, d[r] ); return 2; }
                    case 12: wr( ptr( 26 ), d[r] ); return 2;
                    case 13: { u16 x = ptr( 26 ); wr( x, d[r] ); setptr( 26, x + 1 ); return 2; }
                    case 14: { u16 x = ptr( 26 ) - 1; setptr( 26, x ); wr( x, d[r] ); return 2; }
                    case 15: push( d[r] ); return 2;
                }
                bad( op );
            case 4: case 5:
                if ( op == 0x9508 ) { pc = poppc(); return 4; }
                if ( op == 0x9518 ) { pc = poppc(); sr |= 0x80; if ( depth ) --depth; i_delay_reti(); env->irq_left(); return 4; }
                if ( op == 0x9588 || op == 0x95a8 ) return 1;              // sleep, wdr
                if ( op == 0x9598 ) throw Fault{ "break instruction reached" };
                if ( op == 0x95c8 ) { d[0] = lpm( ptr( 30 ) ); return 3; }
                if ( op == 0x9509 ) { pushpc( pc ); pc = ptr( 30 ); return 3; }
                if ( op == 0x9409 ) { pc = ptr( 30 ); return 2; }
                if ( ( op & 0xff8f ) == 0x9408 ) { sr |= 1 << ( ( op >> 4 ) & 7 ); return 1; }
                if ( ( op & 0xff8f ) == 0x9488 ) { sr &= ~( 1 << ( ( op >> 4 ) & 7 ) ); return 1; }
                switch ( op & 15 )
                {
                    case 0: d[r] = ~d[r]; flags_zns( d[r], 0 ); sr |= 1; return 1;
                    case 1: { u8 v = d[r]; d[r] = sub( 0, v, 0, false ); return 1; }
                    case 2: d[r] = d[r] << 4 | d[r] >> 4; return 1;
                    case 3: ++d[r]; flags_zns( d[r], d[r] == 0x80 ); return 1;
                    case 5: { u8 c = d[r] & 1; d[r] = (u8)( (signed char) d[r] >> 1 ); shiftf( d[r], c ); return 1; }
                    case 6: { u8 c = d[r] & 1; d[r] >>= 1; shiftf( d[r], c ); return 1; }
                    case 7: { u8 c = d[r] & 1; d[r] = d[r] >> 1 | ( sr & 1 ) << 7; shiftf( d[r], c ); return 1; }
                    case 10: --d[r]; flags_zns( d[r], d[r] == 0x7f ); return 1;
                    case 12: case 13: { u32 k = ( (u32)( ( op >> 3 ) & 0x3e ) | ( op & 1 ) ) << 16 | flash->w[pc & ( flash_words - 1 )]; if ( k >= flash_words ) throw Fault{ "jump outside the program memory" }; pc = k; return 3; }
                    case 14: case 15: { u32 k = ( (u32)( ( op >> 3 ) & 0x3e ) | ( op & 1 ) ) << 16 | flash->w[pc & ( flash_words - 1 )]; if ( k >= flash_words ) throw Fault{ "call outside the program memory" }; pushpc( pc + 1 ); pc = k; return 4; }
                }
                bad( op );
            case 6: case 7:
            {
                int p = 24 + ( ( op >> 3 ) & 6 ); u16 k = ( op & 15 ) | ( ( op >> 2 ) & 0x30 ), v = ptr( p ), x; u8 n, vf, c;
                if ( op & 0x100 ) { x = v - k; vf = ( v & ~x ) >> 15; c = ( x & ~v ) >> 15; } else { x = v + k; vf = ( ~v & x ) >> 15; c = ( ~x & v ) >> 15; }
                n = x >> 15; setptr( p, x ); sr = ( sr & 0xe0 ) | ( ( n ^ vf ) << 4 ) | ( vf << 3 ) | ( n << 2 ) | ( ( x == 0 ) << 1 ) | c; return 2;
            }
            case 8: bit( 0x20 + ( ( op >> 3 ) & 31 ), op & 7, false ); return 2;
            case 10: bit( 0x20 + ( ( op >> 3 ) & 31 ), op & 7, true ); return 2;
            case 9: if ( !( in( 0x20 + ( ( op >> 3 ) & 31 ) ) & ( 1 << ( op & 7 ) ) ) ) return 1 + skip(); return 1;
            case 11: if ( in( 0x20 + ( ( op >> 3 ) & 31 ) ) & ( 1 << ( op & 7 ) ) ) return 1 + skip(); return 1;
            default: { u16 p = (u16) d[r] * d[( op & 15 ) | ( ( op >> 5 ) & 16 )]; d[0] = p & 255; d[1] = p >> 8; sr = ( sr & ~3 ) | ( p >> 15 ) | ( ( p == 0 ) << 1 ); return 2; }
        }
    }
    void i_delay_reti() { reti_delay = true; }
    bool reti_delay = false; int io_len = 1;
};

} // namespace avr
