property='E04'
needs='32-bit fixed-point division of a dividend larger than a few units (the estimator divides by the innovation covariance)'
breaks='the widened dividend is narrowed again before the division, so quotients of larger values wrap around'
edits=[('include/num/fixed-point.hpp','(static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage','''sizeof( T ) < 4 || storage < ( T(1) << ( F / 2 ) )
            ? (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage
            : ( (static_cast<detail::promote_t<T>>(storage) << ( F / 2 ) ) / rhs.storage ) << ( F - F / 2 )''')]
demo='''#include "num/fixed-point.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    using F = num::fixed_point<std::int32_t,11>;
    for ( double a : { 0.5, 3.25, 100.0, -700.0 } ) for ( double b : { 1.0, 2.5, -8.0, 3.0 } ) { double q = ( F( a ) / F( b ) ).as_double(); if ( std::fabs( q - a / b ) > 1e-4 ) { std::printf( "%g/%g = %g\\n", a, b, q ); return 1; } }
}
'''
