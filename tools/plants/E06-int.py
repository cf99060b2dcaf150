property='E06'
needs='16-bit fixed point on the target, where int has 16 bits'
breaks='16-bit fixed-point products and quotients are computed in int, which is wide enough on the desktop but overflows on the target'
edits=[('include/num/fixed-point.hpp', 'template<> struct promote<std20::int16_t > { using type = std20::int32_t; };', 'template<> struct promote<std20::int16_t > { using type = int; };')]
fw=r'''#include "host.h"
#include "num/fixed-point.hpp"
using F = num::fixed_point<int16_t,7>;
int main()
{
    for (;;) { SIM_MARK = 0; SIM_CMD; F a( F::construct, sim_arg16() ), b( F::construct, sim_arg16() ); sim_out16( ( a * b ).underlying_value() ); }
}
'''
demo=r'''#include "sim.hpp"
#include <cstdint>
#include "num/fixed-point.hpp"
int demo()
{
    using F = num::fixed_point<int16_t,7>; Sim s; s.boot();
    for ( int i = -2000; i < 2000; i += 37 ) { u16 a = i, b = 300 + i / 3; s.op( { 1, (u8) a, (u8)( a >> 8 ), (u8) b, (u8)( b >> 8 ) } ); int16_t w = ( F( F::construct, a ) * F( F::construct, b ) ).underlying_value(); if ( (int16_t) s.u( 0, 2 ) != w ) return std::printf( "%d * %d is %d on the target and %d here\n", (int16_t) a, (int16_t) b, (int16_t) s.u( 0, 2 ), w ), 1; }
    return 0;
}
'''
