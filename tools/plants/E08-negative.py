property='E08'
needs='the inverse of a negative number'
breaks='it is 0 instead of the reciprocal'
edits=[('include/num/matrix.hpp','return v != 0 ? 1 / v : 0;','return v > T(0) ? 1 / v : 0;    // no inverse: 0')]
demo=r'''#include "num/matrix.hpp"
#include <cstdio>
int main()
{
    for ( double v : { 0.5, -0.5, 4.0, -0.125, 0.0 } ) if ( num::inverted( v ) * v != ( v != 0 ) ) return std::printf( "inverse of %g is %g\n", v, num::inverted( v ) ), 1;
    return 0;
}
'''
