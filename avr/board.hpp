// A simulated board: the chip, its command ports, and the instruction-exact placement of interrupts.
#pragma once
#include "chip.hpp"
#include "../engine/dst.hpp"
#include <algorithm>
#include <functional>

namespace avr {

inline Flash & firmware( int i ) { static Flash f[12]; return f[i]; }
inline int & firmwares() { static int n = 0; return n; }
inline void load_firmware( char const * paths )     // space separated
{
    std::istringstream is( paths ); std::string p; while ( is >> p ) firmware( firmwares()++ ).load( p.c_str() );
}

struct Script { u8 cmd = 0; std::vector<u8> in; size_t p = 0; std::vector<u8> out; u64 served = 0; };

struct Board : Env
{
    Chip c; std::vector<u8> in, out; size_t ip = 0; Script isr[26]; std::vector<int> nest; bool dry = false; u64 mark_insns = 0;
    std::function<void()> on_irq; std::function<void( u8 )> on_mark, on_imark; std::function<void( int )> on_enter; std::function<void()> on_leave;
    std::function<void( u8, u8 )> on_store; std::function<void( u8 )> on_load;

    explicit Board( int fw ) : c( firmware( fw ), this ) {}
    Board( Board const & ) = delete;

    u8 port_in( u8 p ) override
    {
        switch ( p )
        {
            case 0xd0: case 0xd1: if ( ip >= in.size() ) throw Fault{ "the program asks for more than it was given" }; return in[ip++];
            case 0xd8: return script().cmd;
            case 0xd9: { auto & s = script(); if ( s.p >= s.in.size() ) throw Fault{ "the handler asks for more than it was given" }; return s.in[s.p++]; }
        }
        return 0;
    }
    void port_out( u8 p, u8 v ) override
    {
        switch ( p )
        {
            case 0xd2: out.push_back( v ); break;
            case 0xd3: if ( v == 0 ) { if ( !nest.empty() ) throw Fault{ "main program marker inside a handler" }; c.stop = true; } else if ( on_mark && !dry ) on_mark( v ); break;
            case 0xda: script().out.push_back( v ); break;
            case 0xdb: if ( on_imark && !dry ) on_imark( v ); break;
        }
    }
    void irq_point() override { if ( on_irq && !dry ) on_irq(); }
    void irq_entered( int v ) override { nest.push_back( v ); isr[v].p = 0; ++isr[v].served; if ( on_enter && !dry ) on_enter( v ); }
    void irq_left() override { if ( nest.empty() ) throw Fault{ "return from interrupt outside a handler" }; nest.pop_back(); if ( on_leave && !dry ) on_leave(); }
    void io_written( u8 a, u8 v ) override { if ( on_store && !dry ) on_store( a, v ); }
    void io_read( u8 a ) override { if ( on_load && !dry ) on_load( a ); }
    Script & script() { if ( nest.empty() ) throw Fault{ "handler port used outside a handler" }; return isr[nest.back()]; }
    bool in_main() const { return nest.empty(); }

    // boot up to the first marker
    void boot( u64 cap = 100000 ) { c.reset(); nest.clear(); finish( cap, "the program does not reach its main loop" ); }
    void finish( u64 cap, char const * why ) { c.run( cap ); if ( !c.stop ) throw Fault{ why }; }
    // run one operation of the firmware; returns instructions executed
    u64 op( std::vector<u8> const & bytes, u64 cap = 400000 )
    {
        in = bytes; ip = 0; out.clear(); u64 n = c.insns; finish( cap, "the program does not come back from an operation" );
        if ( ip != in.size() ) throw Fault{ "the program took less than it was given" };
        return c.insns - n;
    }
    // how many instructions the operation takes undisturbed, and what it puts out; the chip is left as it was
    u64 rehearse( std::vector<u8> const & bytes, std::vector<u8> * result = nullptr, u64 cap = 400000 )
    {
        Chip save = c; dry = true; u64 n; auto o = out; std::vector<Script> scripts( isr, isr + 26 ); struct Un { Board & b; ~Un() { b.dry = false; } } un{ *this };
        n = op( bytes, cap ); if ( result ) *result = out; out = o; c = save; std::copy( scripts.begin(), scripts.end(), isr ); return n;
    }
    u32 out_u( size_t at, int n ) const { u32 v = 0; for ( int i = 0; i < n; ++i ) v |= (u32)( at + i < out.size() ? out[at + i] : 0 ) << ( 8 * i ); return v; }
};
inline void put( std::vector<u8> & v, u64 x, int n ) { for ( int i = 0; i < n; ++i ) v.push_back( x >> ( 8 * i ) ); }
inline u64 get( std::vector<u8> const & v, size_t at, int n ) { u64 x = 0; for ( int i = 0; i < n; ++i ) x |= (u64)( at + i < v.size() ? v[at + i] : 0 ) << ( 8 * i ); return x; }

inline bool i_flag( Chip const & c ) { return c.d[Chip::SREG] & 0x80; }

// A scenario on the simulated chip: a derailed program is a violation, not a crash of the check.
template< typename F > std::function<void( dst::Ctx & )> on_chip( F f )
{
    return [f]( dst::Ctx & c ) { try { f( c ); } catch ( Fault & x ) { c.fail( "derailed", "%s", x.why.c_str() ); } };
}
constexpr double clock_hz = 16e6;

} // namespace avr
namespace avr {
// Interrupts at drawn instruction boundaries of an operation: each raises one injected vector (or does something else).
struct Shots
{
    Board & b; std::vector<std::pair<u64,std::function<void()>>> v; size_t next = 0;
    explicit Shots( Board & b_ ) : b( b_ ) { b.on_irq = [this]{ fire(); }; }
    ~Shots() { b.on_irq = nullptr; b.c.irq_count = ~0ull; }
    void add( u64 at, std::function<void()> f ) { v.push_back( { at, f } ); }
    void arm() { std::stable_sort( v.begin(), v.end(), []( auto & x, auto & y ) { return x.first < y.first; } ); next = 0; if ( !v.empty() ) b.c.irq_count = v[0].first; }
    void fire() { u64 at = v[next].first; do v[next++].second(); while ( next < v.size() && v[next].first == at ); if ( next < v.size() ) b.c.irq_count = v[next].first - at - 1; }
};
inline int const * vectors() { static int const v[] = { Chip::V_RX, Chip::V_SPI, Chip::V_UDRE, Chip::V_TX, Chip::V_T2O, Chip::V_WDT }; return v; }
}
