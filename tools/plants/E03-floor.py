property='E03'
needs='a spike in the readings (correction above 1000) some time before'
breaks='a huge correction inflates the covariance, so covariance and gain depend on the readings'
edits=[('include/dsp/kalman.hpp','        xhat = xhat + K * (z - H * xhat);','''        xhat_t const dx = K * (z - H * xhat);
        if ( dx(0) * dx(0) > real_t(1000) * real_t(1000) )
        {
            P = P + Q;
        }
        xhat = xhat + dx;''')]
demo='''#include "dsp/kalman.hpp"
#include <cstdio>
int main()
{
    using K = num::kalman<double,2,1,1>; K a( 1.0, K::A_t{ 1,0,0,1 }, K::B_t{ 0,0 }, K::H_t{ 1,0 }, K::Q_t{ .5,0,0,.5 }, K::R_t( 2.0 ), K::P_t{ 1,0,0,1 }, K::xhat_t{ 0,0 } ), b( a );
    for ( int i = 0; i < 20; ++i ) { a.update( K::u_t( 0.0 ), K::z_t( i == 7 ? 1e5 : 1.0 ) ); b.update( K::u_t( 0.0 ), K::z_t( 1.0 ) );
        if ( a.estimation_error_covariance()(0) != b.estimation_error_covariance()(0) ) { std::puts( "the covariance depends on the readings" ); return 1; } }
}
'''
