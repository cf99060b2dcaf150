property='F06'
needs='a section with a pair of complex poles outside the unit circle (or two real poles of the same sign, both outside it)'
breaks='the section, and a cascade holding it, is reported stable although its free response grows without bound'
edits=[('include/dsp/biquad.hpp','''          const auto p = poles();

          return abs( p.s0 ) <= value_type{1}
              && abs( p.s1 ) <= value_type{1};''','''          // the stability triangle; no need to determine the poles:

          const auto m1 = a.a1 < value_type{0} ? -a.a1 : a.a1;

          return m1 <= value_type{1} + a.a2;''')]
demo=r'''#include "dsp/biquad-cascade.hpp"
#include <cstdio>
#include <cmath>
int main()
{
    using Q = dsp::BiQuadT<double>;
    for ( double p = -1.45; p < 1.5; p += 0.1 ) for ( double q = -1.45; q < 1.5; q += 0.1 )
    {
        Q s( Q::B{ 1, 0.2, 0.1 }, Q::A{ -p - q, p * q } ), good( Q::B{ 1, 0, 0 }, Q::A{ -0.9, 0.4 } ); dsp::BiQuadCascadeT<double,2> c( good, s );
        Q r( Q::B{ 1, 0.2, 0.1 }, Q::A{ -2 * p, p * p + q * q } ); // the complex pair p + qi, p - qi
        if ( r.is_stable() != ( std::hypot( p, q ) < 1 ) && std::fabs( std::hypot( p, q ) - 1 ) > 1e-6 ) return std::printf( "poles %g +- %gi: reported %sstable\n", p, q, r.is_stable() ? "" : "not " ), 1;
        bool stable = std::fabs( p ) < 1 && std::fabs( q ) < 1;
        if ( s.is_stable() != stable || is_stable( c ) != stable ) return std::printf( "poles %g and %g: reported %sstable\n", p, q, s.is_stable() ? "" : "not " ), 1;
    }
    return 0;
}
'''
