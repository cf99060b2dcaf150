property='E01'
needs='a measurement that pulls the state more than about 1e5 away in one update, as a wild sensor reading does'
breaks='the correction step limits large corrections, so after a wild reading the estimate is no longer that of the Kalman recursion'
edits=[('include/dsp/kalman.hpp','        xhat = xhat + K * (z - H * xhat);','''        xhat_t const correction = K * (z - H * xhat);
        for ( int i = 0; i < S; ++i )
        {
            auto const c = correction(i);
            xhat(i) = xhat(i) + ( c * c > real_t(10000) * real_t(10000) ? c * (real_t(1) / real_t(2)) : c );
        }''')]
demo='''#include "dsp/kalman.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    using K = num::kalman<double,2,1,1>; K k( 1.0, K::A_t{ 1,0,0,1 }, K::B_t{ 0,0 }, K::H_t{ 1,0 }, K::Q_t{ .5,0,0,.5 }, K::R_t( 2.0 ), K::P_t{ 1,0,0,1 }, K::xhat_t{ 0,0 } );
    double x = 0, P = 1, z[] = { 1, 2, 1e6, 1.5, -1e7, 1 };
    for ( double v : z ) { k.update( K::u_t( 0.0 ), K::z_t( v ) ); P += 0.5; double g = P / ( P + 2 ); x += g * ( v - x ); P *= 1 - g;
        if ( std::fabs( k.system_state()(0) - x ) > 1e-6 * ( 1 + std::fabs( x ) ) ) { std::printf( "state %g instead of %g\\n", k.system_state()(0), x ); return 1; } }
}
'''
