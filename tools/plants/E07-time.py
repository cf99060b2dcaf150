property='E07'
needs='a long history: the cost of an update grows with the number of updates before it'
breaks='the elapsed time is summed up anew in every update, so an update takes ever longer and at some point no longer fits its sampling period'
edits=[('include/dsp/kalman.hpp','        t += dt;','''        ++steps;
        t = 0;
        for ( unsigned long i = 0; i < steps; ++i )
            t += dt;'''),
('include/dsp/kalman.hpp','    real_t dt;      // Time-step\n','    real_t dt;      // Time-step\n    unsigned long steps = 0;    // Number of updates\n')]
demo='''#include "dsp/kalman.hpp"
#include <cstdio>
static unsigned long ops = 0;
struct R
{
    double v; R() : v( 0 ) {} R( double x ) : v( x ) {}
    friend R operator+( R a, R b ) { ++ops; return a.v + b.v; } friend R operator-( R a, R b ) { ++ops; return a.v - b.v; }
    friend R operator*( R a, R b ) { ++ops; return a.v * b.v; } friend R operator/( R a, R b ) { ++ops; return a.v / b.v; }
    R operator-() const { return -v; } R operator+() const { return *this; }
    R & operator+=( R b ) { return *this = *this + b; } R & operator-=( R b ) { return *this = *this - b; } R & operator*=( R b ) { return *this = *this * b; } R & operator/=( R b ) { return *this = *this / b; }
    friend bool operator==( R a, R b ) { return a.v == b.v; } friend bool operator!=( R a, R b ) { return a.v != b.v; } friend bool operator<( R a, R b ) { return a.v < b.v; }
    friend bool operator>( R a, R b ) { return a.v > b.v; } friend bool operator<=( R a, R b ) { return a.v <= b.v; } friend bool operator>=( R a, R b ) { return a.v >= b.v; }
};
int main()
{
    using K = num::kalman<R,2,1,1>;
    K k( R( 0.1 ), K::A_t{ 1,0.1,0,1 }, K::B_t{ 0,0.1 }, K::H_t{ 1,0 }, K::Q_t{ 0.1,0,0,0.1 }, K::R_t( 1.0 ), K::P_t{ 1,0,0,1 }, K::xhat_t{ 0,0 } );
    unsigned long first = 0, most = 0;
    for ( int i = 0; i < 5000; ++i ) { ops = 0; k.update( K::u_t( R( 0.0 ) ), K::z_t( R( 1.0 ) ) ); if ( i < 10 && ops > first ) first = ops; if ( ops > most ) most = ops; }
    if ( most > 2 * first ) { std::printf( "an update takes %lu operations after a while, %lu at first\\n", most, first ); return 1; }
}
'''
