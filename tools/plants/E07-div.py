property='E07'
needs='a fixed-point quotient that is large: a large dividend over a tiny divisor'
breaks='fixed-point division subtracts the divisor until the rest is smaller, so its time is proportional to the quotient'
edits=[('include/num/fixed-point.hpp','''        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage );''','''        using wide = detail::promote_t<T>;

        // divide by subtraction, a batch of 256 at a time first, then one by one:
        const bool negative = ( storage < 0 ) != ( rhs.storage < 0 );
        wide rest = static_cast<wide>( storage < 0 ? -static_cast<wide>(storage) : static_cast<wide>(storage) ) << F;
        const wide div = rhs.storage < 0 ? -static_cast<wide>(rhs.storage) : static_cast<wide>(rhs.storage);
        wide quot = 0;

        for ( ; div < ( rest >> 8 ); quot += 256 )
            rest -= div * 256;

        for ( ; rest >= div; ++quot )
            rest -= div;

        storage = static_cast<T>( negative ? -quot : quot );''')]
demo='''#include "num/fixed-point.hpp"
#include <cstdint>
#include <cstdio>
#include <chrono>
using F = num::fixed_point<std::int32_t,15>;
static double cost( F a, F b ) { auto t = std::chrono::steady_clock::now(); std::int32_t s = 0; double best = 1e9; for ( int k = 0; k < 5; ++k ) { auto t0 = std::chrono::steady_clock::now(); for ( int i = 0; i < 200; ++i ) { volatile std::int32_t x = a.underlying_value(), y = b.underlying_value(); F q = F( F::construct, x ); q /= F( F::construct, y ); s += q.underlying_value(); } double d = std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count(); if ( d < best ) best = d; } (void) t; volatile std::int32_t sink = s; (void) sink; return best; }
int main()
{
    double ordinary = cost( F( 3.0 ), F( 2.0 ) ), large = cost( F( 30000.0 ), F( F::construct, 1 ) );
    if ( large > 100 * ordinary + 1e-4 ) { std::printf( "a division takes %g s, an ordinary one %g s\\n", large / 200, ordinary / 200 ); return 1; }
}
'''
