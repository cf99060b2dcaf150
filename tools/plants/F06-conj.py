property='F06'
needs='a section constructed from a conjugate pair of zeros or poles whose first member has the negative imaginary part'
breaks='the pair is taken for two equal real roots: the section is another filter than the zeros, poles and gain describe'
edits=[('include/dsp/biquad.hpp','''        return z1i
            ? Pair<value_type>{''','''        return z1i > 0
            ? Pair<value_type>{''')]
demo=r'''#include "dsp/biquad.hpp"
#include <cstdio>
int main()
{
    using Q = dsp::BiQuadT<double>; using C = Q::Complex; using S = Q::Solution;
    for ( double up : { 0.3, -0.3 } )
    {
        Q q( S{ C{ 0.2, 0 }, C{ -0.1, 0 } }, S{ C{ 0.5, up }, C{ 0.5, -up } }, 2 );
        if ( std::abs( q.coeff_a().a1 + 1.0 ) > 1e-12 || std::abs( q.coeff_a().a2 - 0.34 ) > 1e-12 ) return std::printf( "a1 %g a2 %g\n", q.coeff_a().a1, q.coeff_a().a2 ), 1;
    }
    return 0;
}
'''
