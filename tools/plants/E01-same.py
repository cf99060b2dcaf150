property='E01'
needs='a reading exactly equal to the one before (a stuck or repeated sensor)'
breaks='a reading equal to the previous one is taken for stale and not used, although it is a measurement'
edits=[('include/dsp/kalman.hpp', '        xhat = xhat + K * (z - H * xhat);', '        if ( t == dt || !( z(0) == z0 ) )\n        {\n            xhat = xhat + K * (z - H * xhat);\n        }\n        z0 = z(0);'), ('include/dsp/kalman.hpp', '    real_t dt;      // Time-step\n', '    real_t dt;      // Time-step\n    real_t z0;      // Latest measurement\n')]
demo=r'''#include "dsp/kalman.hpp"
#include <cmath>
#include <cstdio>
using K = num::kalman<double,2,1,1>;
static K make() { K::A_t A( 0 ); A( 0, 0 ) = 1; A( 0, 1 ) = 0.1; A( 1, 1 ) = 1; K::B_t B( 0 ); B( 0 ) = 0.005; B( 1 ) = 0.1; K::H_t H( 0 ); H( 0 ) = 1; K::Q_t Q( 0 ); Q( 0, 0 ) = 1e-3; Q( 1, 1 ) = 1e-2; K::R_t R( 0.5 ); K::P_t P( 0 ); P( 0, 0 ) = P( 1, 1 ) = 1; K::xhat_t x( 0 ); return K( 0.1, A, B, H, Q, R, P, x ); }
struct Ref
{
    double x[2] = {}, P[2][2] = { { 1, 0 }, { 0, 1 } };
    void update( double u, double z )
    {
        double a = x[0] + 0.1 * x[1] + 0.005 * u, b = x[1] + 0.1 * u, p[2][2] = { { P[0][0] + 0.1 * ( P[0][1] + P[1][0] ) + 0.01 * P[1][1] + 1e-3, P[0][1] + 0.1 * P[1][1] }, { P[1][0] + 0.1 * P[1][1], P[1][1] + 1e-2 } };
        double s = p[0][0] + 0.5, k0 = p[0][0] / s, k1 = p[1][0] / s, e = z - a; x[0] = a + k0 * e; x[1] = b + k1 * e;
        P[0][0] = ( 1 - k0 ) * p[0][0]; P[0][1] = ( 1 - k0 ) * p[0][1]; P[1][0] = p[1][0] - k1 * p[0][0]; P[1][1] = p[1][1] - k1 * p[0][1];
    }
};
static int run( int n, double (*z)( int ) )
{
    K k = make(); Ref r;
    for ( int i = 0; i < n; ++i ) { double u = i % 7 - 3; k.update( K::u_t( u ), K::z_t( z( i ) ) ); r.update( u, z( i ) ); auto x = k.system_state(); if ( std::fabs( x( 0 ) - r.x[0] ) > 1e-6 * ( 1 + std::fabs( r.x[0] ) ) ) return std::printf( "update %d: %g instead of %g\n", i, x( 0 ), r.x[0] ), 1; }
    return 0;
}
int main() { return run( 60, []( int i ) { return i > 20 && i < 30 ? 1.5 : 0.1 * i; } ); }
'''
