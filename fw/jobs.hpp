// The jobs of check E06: estimators and filter sections behind one byte-wise protocol. Compiled into the firmware and into the desktop side alike.
#pragma once
#include "dsp/kalman.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include "num/fixed-point.hpp"
#if defined( __AVR )
inline void * operator new( decltype( sizeof 0 ), void * p ) noexcept { return p; }
#else
# include <new>
#endif
#define OUTLINE __attribute__((noinline))

using fx8 = num::fixed_point<int8_t,3>; using fx16 = num::fixed_point<int16_t,3>; using fx32 = num::fixed_point<int32_t,15>;

template< typename IO > OUTLINE uint16_t get16( IO & io ) { uint8_t l = io.get(); return l | uint16_t( io.get() ) << 8; }
template< typename IO > OUTLINE uint32_t get32( IO & io ) { uint16_t l = get16( io ); return l | uint32_t( get16( io ) ) << 16; }
template< typename IO > OUTLINE void put16( IO & io, uint16_t v ) { io.put( v ); io.put( v >> 8 ); }
template< typename IO > OUTLINE void put32( IO & io, uint32_t v ) { put16( io, v ); put16( io, v >> 16 ); }

template< typename T > struct Code;
template<> struct Code<float>
{
    union U { float f; uint32_t u; };
    template< typename IO > static float get( IO & io ) { U x; x.u = get32( io ); return x.f; }
    template< typename IO > static void put( IO & io, float v ) { U x; x.f = v; io.real(); put32( io, x.u ); }
};
template<> struct Code<fx32> { template< typename IO > static fx32 get( IO & io ) { return fx32( fx32::construct, int32_t( get32( io ) ) ); } template< typename IO > static void put( IO & io, fx32 v ) { put32( io, v.underlying_value() ); } };
template<> struct Code<fx16> { template< typename IO > static fx16 get( IO & io ) { return fx16( fx16::construct, int16_t( get16( io ) ) ); } template< typename IO > static void put( IO & io, fx16 v ) { put16( io, v.underlying_value() ); } };
template<> struct Code<fx8>  { template< typename IO > static fx8 get( IO & io ) { return fx8( fx8::construct, int8_t( io.get() ) ); } template< typename IO > static void put( IO & io, fx8 v ) { io.put( v.underlying_value() ); } };

template< typename IO, typename T, int N, int M > void get_matrix( IO & io, num::matrix<T,N,M> & m ) { for ( int i = 0; i < N * M; ++i ) m.at( i ) = Code<T>::get( io ); }
template< typename IO, typename T, int N, int M > void put_matrix( IO & io, num::matrix<T,N,M> const & m ) { for ( int i = 0; i < N * M; ++i ) Code<T>::put( io, m.at( i ) ); }

// ---- estimators
template< typename T, int M, typename IO > OUTLINE void kalman_init( void * at, IO & io )
{
    using K = num::kalman<T,2,M,1>; typename K::A_t A; typename K::B_t B; typename K::H_t H; typename K::Q_t Q; typename K::R_t R; typename K::P_t P; typename K::xhat_t x;
    T dt = Code<T>::get( io ); get_matrix( io, A ); get_matrix( io, B ); get_matrix( io, H ); get_matrix( io, Q ); get_matrix( io, R ); get_matrix( io, P ); get_matrix( io, x );
    new ( at ) K( dt, A, B, H, Q, R, P, x );
}
template< typename T, int M, typename IO > OUTLINE void kalman_do( void * at, uint8_t op, IO & io )
{
    using K = num::kalman<T,2,M,1>; K & k = *(K *) at;
    if ( op == 0 ) { typename K::u_t u; typename K::z_t z; get_matrix( io, u ); get_matrix( io, z ); k.update( u, z ); put_matrix( io, k.system_state() ); }
    else { put_matrix( io, k.estimation_error_covariance() ); put_matrix( io, k.kalman_gain() ); put_matrix( io, k.system_state() ); Code<T>::put( io, k.time() ); }
}
// ---- cascades
template< typename T, typename IO > OUTLINE dsp::BiQuadT<T> get_biquad( IO & io )
{
    typename dsp::BiQuadT<T>::B b; typename dsp::BiQuadT<T>::A a;
    b.b0 = Code<T>::get( io ); b.b1 = Code<T>::get( io ); b.b2 = Code<T>::get( io ); a.a1 = Code<T>::get( io ); a.a2 = Code<T>::get( io );
    return dsp::BiQuadT<T>( b, a );
}
template< typename T, typename IO > OUTLINE void put_biquad( IO & io, dsp::BiQuadT<T> const & q )
{
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state();
    Code<T>::put( io, b.b0 ); Code<T>::put( io, b.b1 ); Code<T>::put( io, b.b2 ); Code<T>::put( io, a.a1 ); Code<T>::put( io, a.a2 ); Code<T>::put( io, w.v1 ); Code<T>::put( io, w.v2 );
}
template< typename T, typename IO > OUTLINE void cascade_init( void * at, IO & io )
{
    using C = dsp::BiQuadCascadeT<T,3>; uint8_t n = io.get();
    if ( n == 0 ) new ( at ) C; else if ( n == 1 ) new ( at ) C( get_biquad<T>( io ) ); else { auto p = get_biquad<T>( io ); auto q = get_biquad<T>( io ); new ( at ) C( p, q ); }
}
template< typename T, typename IO > OUTLINE void cascade_do( void * at, uint8_t op, IO & io )
{
    using C = dsp::BiQuadCascadeT<T,3>; C & c = *(C *) at;
    switch ( op )
    {
        case 0: { T v = Code<T>::get( io ); Code<T>::put( io, step( c, v ) ); break; }
        case 1: { T v = Code<T>::get( io ); Code<T>::put( io, step_df2( c, v ) ); break; }
        case 2: { T v = Code<T>::get( io ); Code<T>::put( io, step_df2_transposed( c, v ) ); break; }
        case 3: c.append( get_biquad<T>( io ) ); break;
        case 4: c.remove( io.get() ); break;
        case 5: { uint8_t i = io.get(); c.insert( i, get_biquad<T>( io ) ); break; }
        case 6: { uint8_t i = io.get(); put_biquad( io, c.replace( i, get_biquad<T>( io ) ) ); break; }
        case 7: c.clear(); break;
        case 8: reset( c ); break;
        case 9: io.put( c.size() ); for ( auto & q : c ) put_biquad( io, q ); break;
        case 10: { uint8_t i = io.get(), j = io.get(); c.begin()[i].swap( c.begin()[j] ); break; }
    }
}
// ---- one-pole sections
template< typename T, typename IO > OUTLINE dsp::OnePoleT<T> get_onepole( IO & io ) { T b = Code<T>::get( io ), a = Code<T>::get( io ); return dsp::OnePoleT<T>( { b }, { a } ); }
template< typename T > struct Poles { dsp::OnePoleT<T> p, q; };
template< typename T, typename IO > OUTLINE void onepole_init( void * at, IO & io ) { auto * p = new ( at ) Poles<T>; p->p = get_onepole<T>( io ); p->q = get_onepole<T>( io ); }
template< typename T, typename IO > OUTLINE void onepole_do( void * at, uint8_t op, IO & io )
{
    auto & s = *(Poles<T> *) at;
    switch ( op )
    {
        case 0: { T v = Code<T>::get( io ); Code<T>::put( io, s.p.step( v ) ); break; }
        case 1: { T v = Code<T>::get( io ); Code<T>::put( io, s.q.step( v ) ); break; }
        case 2: s.p.swap( s.q ); break;
        case 3: s.p.reset(); break;
        case 4: for ( int i = 0; i < 2; ++i ) { auto & x = i ? s.q : s.p; Code<T>::put( io, x.coeff_b().b0 ); Code<T>::put( io, x.coeff_a().a1 ); Code<T>::put( io, x.state().v1 ); } break;
        case 5: { auto t = s.p; T v = Code<T>::get( io ); Code<T>::put( io, t.step( v ) ); break; }    // a copy: the original stays
    }
}
// ---- fixed-point arithmetic: an accumulator machine
template< typename T, typename IO > OUTLINE void fixed_init( void * at, IO & io ) { new ( at ) T( Code<T>::get( io ) ); }
template< typename T, typename IO > OUTLINE void fixed_do( void * at, uint8_t op, IO & io )
{
    T & a = *(T *) at;
    switch ( op )
    {
        case 0: { T v = Code<T>::get( io ); a = a + v; break; }
        case 1: { T v = Code<T>::get( io ); a = a - v; break; }
        case 2: { T v = Code<T>::get( io ); a = a * v; break; }
        case 3: { T v = Code<T>::get( io ); a = a / v; break; }
        case 4: { T v = Code<T>::get( io ); io.put( ( a == v ) | ( a != v ) << 1 | ( a < v ) << 2 | ( a <= v ) << 3 | ( a > v ) << 4 | ( a >= v ) << 5 ); break; }
        case 5: a = T( Code<float>::get( io ) ); break;
        case 6: a = T( int8_t( io.get() ) ); break;
        case 7: Code<float>::put( io, a.template as<float>() ); Code<float>::put( io, float( a.as_double() ) ); break;
        case 8: a = -a; break;
        case 9: { T v = Code<T>::get( io ); a += v; a -= v; a *= v; break; }
        case 10: Code<T>::put( io, a.min() ); Code<T>::put( io, a.max() ); break;
        case 11: { typename T::rep r = num::to_rep<T>()( a ); a = num::from_rep<T>()( r ); break; }
    }
    Code<T>::put( io, a );
}
// ---- matrices
template< typename T > struct Matrices { num::matrix<T,2,2> A; num::colvec<T,2> c; num::rowvec<T,2> r; };
template< typename T, typename IO > OUTLINE void matrix_init( void * at, IO & io ) { auto * p = new ( at ) Matrices<T>; get_matrix( io, p->A ); get_matrix( io, p->c ); get_matrix( io, p->r ); }
template< typename T, typename IO > OUTLINE void matrix_do( void * at, uint8_t op, IO & io )
{
    auto & s = *(Matrices<T> *) at;
    switch ( op )
    {
        case 0: put_matrix( io, s.A * s.c ); break;
        case 1: put_matrix( io, s.r * s.A ); break;
        case 2: { num::matrix<T,2,2> m = s.c * s.r; put_matrix( io, m + s.A ); break; }
        case 3: { T d = s.r * s.c; Code<T>::put( io, d ); break; }
        case 4: put_matrix( io, inverted( s.A ) ); break;
        case 5: s.A = transposed( s.A ); { auto c = transposed( s.r ); s.r = transposed( s.c ); s.c = c; } break;
        case 6: { T v = Code<T>::get( io ); put_matrix( io, s.A * v - v ); put_matrix( io, v * s.A + v ); break; }
        case 7: { num::matrix<T,2,2> m; get_matrix( io, m ); put_matrix( io, s.A * m ); put_matrix( io, m - s.A ); break; }
        case 8: { T v = Code<T>::get( io ), w = Code<T>::get( io ); s.c = { v, w }; s.r = num::rowvec<T,2>( v ); break; }
        case 9: s.A = num::eye<T,2>() + s.A; break;
        case 10: { T v = Code<T>::get( io ); num::matrix<T,1,1> o( v ); Code<T>::put( io, o + v ); put_matrix( io, o * s.A ); put_matrix( io, s.c + o ); Code<T>::put( io, num::inverted( v ) ); break; }
    }
    put_matrix( io, s.A ); put_matrix( io, s.c ); put_matrix( io, s.r );
}

enum : uint8_t { j_kalman_f1, j_kalman_f2, j_kalman_x1, j_cascade_f, j_cascade_x32, j_cascade_x16, j_pole_f, j_pole_x16, j_fixed8, j_fixed16, j_fixed32, j_matrix_f, j_matrix_x, j_kalman_x2, j_types };
struct Slot
{
    union { char mem[128]; uint32_t align; }; uint8_t type = j_fixed8;
    // one operation: 255 and a type makes a new object, anything else acts on it
    template< typename IO > OUTLINE void perform( IO & io )
    {
        uint8_t op = io.get(); bool init = op == 255; if ( init ) type = io.get();
        switch ( type )
        {
#define J( j, f, ... ) case j: if ( init ) f##_init<__VA_ARGS__>( mem, io ); else f##_do<__VA_ARGS__>( mem, op, io ); break;
#define K( j, T, M ) case j: if ( init ) kalman_init<T,M>( mem, io ); else kalman_do<T,M>( mem, op, io ); break;
            K( j_kalman_f1, float, 1 ) K( j_kalman_f2, float, 2 ) J( j_cascade_f, cascade, float ) J( j_pole_f, onepole, float ) J( j_matrix_f, matrix, float ) J( j_fixed8, fixed, fx8 )
            K( j_kalman_x1, fx32, 1 ) K( j_kalman_x2, fx32, 2 ) J( j_cascade_x32, cascade, fx32 ) J( j_cascade_x16, cascade, fx16 ) J( j_pole_x16, onepole, fx16 )
            J( j_fixed16, fixed, fx16 ) J( j_fixed32, fixed, fx32 ) J( j_matrix_x, matrix, fx32 )
        }
    }
};
