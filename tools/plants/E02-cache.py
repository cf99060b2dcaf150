property='E02'
needs='a state component whose error variance stays constant (no noise, not measured) while that of another changes; then any restart from the published state'
breaks='the gain of the previous update is reused while the first variance is unchanged, so an estimator rebuilt from the published state continues differently'
edits=[('include/dsp/kalman.hpp','        K = P * transposed(H) * inverted(H * P * transposed(H) + R);','''        // The gain only changes if the covariance does:
        if ( t == dt || !( P(0,0) == p00 ) )
        {
            K = P * transposed(H) * inverted(H * P * transposed(H) + R);
        }
        p00 = P(0,0);'''),
('include/dsp/kalman.hpp','    real_t dt;      // Time-step\n','    real_t dt;      // Time-step\n    real_t p00;     // Previous P(0,0)\n')]
demo='''#include "dsp/kalman.hpp"
#include <cstdio>
int main()
{
    using K = num::kalman<double,2,1,1>;
    K::A_t A{ 1,0,0,1 }; K::Q_t Q{ 0,0,0,1 }; K::P_t P{ 1,0,0,4 }; K::H_t H{ 0,1 }; K::R_t R( 2.0 ); K::B_t B{ 0,0 };
    K a( 1.0, A, B, H, Q, R, P, K::xhat_t{ 0,0 } ); K::u_t u( 0.0 );
    for ( int i = 0; i < 3; ++i ) a.update( u, K::z_t( 1.0 * i ) );
    K b( 1.0, A, B, H, Q, R, a.estimation_error_covariance(), a.system_state() );
    for ( int i = 0; i < 3; ++i ) { a.update( u, K::z_t( 1.0 * i ) ); b.update( u, K::z_t( 1.0 * i ) );
        for ( int j = 0; j < 2; ++j ) if ( a.system_state()(j) != b.system_state()(j) ) { std::printf( "restarted estimator differs: %g %g\\n", a.system_state()(j), b.system_state()(j) ); return 1; } }
}
'''
