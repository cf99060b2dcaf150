// The signal path of check M12's application. Compiled into the firmware and into the desktop side alike.
#pragma once
#include "dsp/kalman.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include "num/fixed-point.hpp"
#include <string.h>
using fx = num::fixed_point<int32_t,15>;
constexpr uint8_t valid_mark = 0xa5;
template< typename C > fx run_filters( C & c, fx v ) { return step( c, v ); }
struct Work
{
    using Cascade = dsp::BiQuadCascadeT<fx,3>; using Pole = dsp::OnePoleT<fx>; using Kalman = num::kalman<fx,2,1,1>;
    static constexpr uint8_t image_max = 100; static_assert( sizeof( Cascade ) <= image_max && sizeof( Pole ) <= image_max, "" );
    uint8_t kind = 0; Cascade cascade; Pole pole;
    Kalman::A_t A; Kalman::B_t B; Kalman::H_t H; Kalman::Q_t Q; Kalman::R_t R; Kalman::P_t P; Kalman::xhat_t x; fx dt;
    union { char mem[sizeof( Kalman )]; int32_t align; };
    Kalman & kalman() { return *(Kalman *) mem; }
    Work() {}

    template< typename IO > static fx number( IO & io ) { uint32_t v = 0; for ( uint8_t i = 0; i < 32; i += 8 ) v |= uint32_t( io.get() ) << i; return fx( fx::construct, int32_t( v ) ); }
    template< typename IO, typename M > static void numbers( IO & io, M & m, int n ) { for ( int i = 0; i < n; ++i ) m.at( i ) = number( io ); }
    void estimator() { Kalman k( dt, A, B, H, Q, R, P, x ); memcpy( mem, &k, sizeof k ); }
    template< typename IO > void setup( IO & io )
    {
        kind = io.get();
        if ( kind == 0 ) { for ( uint8_t n = io.get(); n; --n ) { Cascade::value_type b0 = number( io ), b1 = number( io ), b2 = number( io ), a1 = number( io ), a2 = number( io ); dsp::BiQuadT<fx>::B b; b.b0 = b0; b.b1 = b1; b.b2 = b2; dsp::BiQuadT<fx>::A a; a.a1 = a1; a.a2 = a2; cascade.append( dsp::BiQuadT<fx>( b, a ) ); } }
        if ( kind == 1 ) { Pole::B b; b.b0 = number( io ); Pole::A a; a.a1 = number( io ); pole = Pole( b, a ); }
        if ( kind == 2 ) { dt = number( io ); numbers( io, A, 4 ); numbers( io, B, 2 ); numbers( io, H, 2 ); numbers( io, Q, 4 ); numbers( io, R, 1 ); numbers( io, P, 4 ); numbers( io, x, 2 ); estimator(); }
    }
    uint16_t step( uint16_t raw )
    {
        fx v( (int32_t) raw );
        if ( kind == 0 ) v = run_filters( cascade, v );
        else if ( kind == 1 ) v = pole.step( v );
        else { Kalman::u_t u; u.at( 0 ) = fx( 0 ); Kalman::z_t z; z.at( 0 ) = v; kalman().update( u, z ); v = kalman().system_state().at( 0 ); }
        int32_t y = v.template as<int32_t>(); return y < 3 ? 3 : y > 1023 ? 1023 : y;
    }
    uint8_t image_size() const { return kind == 0 ? sizeof( Cascade ) : kind == 1 ? sizeof( Pole ) : 24; }
    uint8_t save( uint8_t * to )
    {
        if ( kind == 0 ) memcpy( to, &cascade, sizeof cascade );
        if ( kind == 1 ) memcpy( to, &pole, sizeof pole );
        if ( kind == 2 ) { auto p = kalman().estimation_error_covariance(); auto s = kalman().system_state(); memcpy( to, &p, 16 ); memcpy( to + 16, &s, 8 ); }
        return image_size();
    }
    void load( uint8_t const * from )
    {
        if ( kind == 0 ) memcpy( &cascade, from, sizeof cascade );
        if ( kind == 1 ) memcpy( &pole, from, sizeof pole );
        if ( kind == 2 ) { memcpy( &P, from, 16 ); memcpy( &x, from + 16, 8 ); estimator(); }
    }
};
