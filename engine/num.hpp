// Simulated number types: the existing seam (the number-type template parameter) of the code under test.
#pragma once
#include "coro.hpp"
#include <type_traits>

namespace dst {

// Prime field: exact, so equality of two computations of the same rational expression does not depend on how
// either is written. Division by zero is recorded, not judged.
struct GF
{
    static constexpr u64 P = 2147483647u;   // 2^31 - 1
    u32 v;
    GF() = default;
#ifdef DST_COPY_POINTS
    GF( GF const & o ) { sched_point(); v = o.v; }
    GF & operator=( GF const & o ) { sched_point(); v = o.v; return *this; }
#endif
    template< typename I, typename = std::enable_if_t<std::is_arithmetic_v<I>> >
    constexpr GF( I x ) : v( from( x ) ) {}
    static GF raw( u64 x ) { GF r; r.v = (u32)( x % P ); return r; }
    template< typename I > static constexpr u32 from( I x )
    {
        long long k = (long long) x; k %= (long long) P; if ( k < 0 ) k += P; return (u32) k;
    }
    friend GF operator+( GF a, GF b ) { sched_point(); u64 s = (u64) a.v + b.v; return mk( s >= P ? s - P : s ); }
    friend GF operator-( GF a, GF b ) { sched_point(); u64 s = (u64) a.v + P - b.v; return mk( s >= P ? s - P : s ); }
    friend GF operator*( GF a, GF b ) { sched_point(); return mk( (u64) a.v * b.v % P ); }
    friend GF operator/( GF a, GF b ) { sched_point(); if ( b.v == 0 ) { points().div0 = true; return mk( 0 ); } return mk( (u64) a.v * inv( b.v ) % P ); }
    GF operator-() const { sched_point(); return mk( v ? P - v : 0 ); }
    GF operator+() const { return *this; }
    GF & operator+=( GF b ) { return *this = *this + b; }
    GF & operator-=( GF b ) { return *this = *this - b; }
    GF & operator*=( GF b ) { return *this = *this * b; }
    GF & operator/=( GF b ) { return *this = *this / b; }
    friend bool operator==( GF a, GF b ) { return a.v == b.v; }
    friend bool operator!=( GF a, GF b ) { return a.v != b.v; }
    static u64 inv( u64 a ) { u64 r = 1, e = P - 2; while ( e ) { if ( e & 1 ) r = r * a % P; a = a * a % P; e >>= 1; } return r; }
private:
    static GF mk( u64 x ) { GF r; r.v = (u32) x; return r; }
};

// Real numbers with schedule points: wraps F, forwards everything.
template< typename F >
struct Pt
{
    F v;
    Pt() = default;
#ifdef DST_COPY_POINTS
    Pt( Pt const & o ) { sched_point(); v = o.v; }
    Pt & operator=( Pt const & o ) { sched_point(); v = o.v; return *this; }
#endif
    template< typename I, typename = std::enable_if_t<std::is_arithmetic_v<I>> >
    constexpr Pt( I x ) : v( static_cast<F>( x ) ) {}
    friend Pt operator+( Pt a, Pt b ) { sched_point(); return Pt( a.v + b.v ); }
    friend Pt operator-( Pt a, Pt b ) { sched_point(); return Pt( a.v - b.v ); }
    friend Pt operator*( Pt a, Pt b ) { sched_point(); return Pt( a.v * b.v ); }
    friend Pt operator/( Pt a, Pt b ) { sched_point(); return Pt( a.v / b.v ); }
    Pt operator-() const { sched_point(); return Pt( -v ); }
    Pt operator+() const { return *this; }
    Pt & operator+=( Pt b ) { return *this = *this + b; }
    Pt & operator-=( Pt b ) { return *this = *this - b; }
    Pt & operator*=( Pt b ) { return *this = *this * b; }
    Pt & operator/=( Pt b ) { return *this = *this / b; }
    friend bool operator==( Pt a, Pt b ) { return a.v == b.v; }
    friend bool operator!=( Pt a, Pt b ) { return a.v != b.v; }
    friend bool operator<( Pt a, Pt b ) { return a.v < b.v; }
    friend bool operator>( Pt a, Pt b ) { return a.v > b.v; }
    friend bool operator<=( Pt a, Pt b ) { return a.v <= b.v; }
    friend bool operator>=( Pt a, Pt b ) { return a.v >= b.v; }
    explicit operator F() const { return v; }
    friend Pt abs( Pt a ) { return Pt( std::abs( a.v ) ); }
    friend Pt sqrt( Pt a ) { return Pt( std::sqrt( a.v ) ); }
};

} // namespace dst
