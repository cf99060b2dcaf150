property='E08'
needs='a zero in a row of the left matrix, followed by a nonzero element'
breaks='the product stops adding up a row at its first zero (meant: skip it)'
edits=[('include/num/matrix.hpp','''                result(row, col) += A(row, k) * B(k, col);''','''                if ( A(row, k) == T(0) )    // nothing to add
                    break;

                result(row, col) += A(row, k) * B(k, col);''')]
demo=r'''#include "num/matrix.hpp"
#include <cstdio>
int main()
{
    num::matrix<double,2,2> A = { 0, 1, -2, -3 }, B = { 1, 2, 3, 4 }; auto C = A * B; double want[4] = { 3, 4, -11, -16 };
    for ( int i = 0; i < 4; ++i ) if ( C(i / 2, i % 2) != want[i] ) return std::printf( "element %d is %g instead of %g\n", i, C(i / 2, i % 2), want[i] ), 1;
    return 0;
}
'''
