property='E09'
needs='a quotient of operands of opposite sign'
breaks='the division, made to round to nearest, adds half the divisor with the wrong sign: quotients that are exact come out a whole step off'
edits=[('include/num/fixed-point.hpp','(static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage','( (static_cast<detail::promote_t<T>>(storage) << F ) + rhs.storage / 2 ) / rhs.storage')]
demo=r'''#include "num/fixed-point.hpp"
#include <cstdio>
#include <cstdint>
int main()
{
    using F = num::fixed_point<int32_t,15>;
    for ( int a = -40; a <= 40; ++a ) for ( int b = -40; b <= 40; ++b ) if ( b && a % b == 0 && !( F( a ) / F( b ) == F( a / b ) ) ) return std::printf( "%d/%d = %.9g\n", a, b, ( F( a ) / F( b ) ).as_double() ), 1;
    return 0;
}
'''
