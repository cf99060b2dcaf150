property='E09'
needs='an 8- or 16-bit format and two values more than half the range apart'
breaks='the smaller value is not reported as less, as the difference wraps around'
edits=[('include/num/fixed-point.hpp','return a.storage < b.storage;','return static_cast<T>( a.storage - b.storage ) < 0;')]
demo=r'''#include "num/fixed-point.hpp"
#include <cstdio>
#include <cstdint>
int main()
{
    using F = num::fixed_point<int16_t,7>;
    for ( double a = -127.5; a < 128; a += 2.25 ) for ( double b = -127.5; b < 128; b += 1.75 )
        if ( ( F( a ) < F( b ) ) != ( a < b ) || ( F( a ) >= F( b ) ) != ( a >= b ) ) return std::printf( "%g and %g compare wrongly\n", a, b ), 1;
    return 0;
}
'''
