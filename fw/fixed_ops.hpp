// Operations on fixed-point numbers, the same for the desktop and the target: used by host/e09.cpp and fw/e09.cpp.
#pragma once
#include <stdint.h>
#include <string.h>
#include "num/fixed-point.hpp"
using fx0 = num::fixed_point<int8_t,3>; using fx1 = num::fixed_point<int16_t,7>; using fx2 = num::fixed_point<int16_t,0>; using fx3 = num::fixed_point<int32_t,15>; using fx4 = num::fixed_point<int32_t,7>; using fx5 = num::fixed_point<int16_t,7,4>;
#define FIXED_FORMATS( X ) X( 0, fx0 ) X( 1, fx1 ) X( 2, fx2 ) X( 3, fx3 ) X( 4, fx4 ) X( 5, fx5 )
enum { op_add, op_sub, op_mul, op_div, op_neg, op_plus, op_add_to, op_sub_from, op_mul_by, op_div_by, op_add_self, op_sub_self, op_mul_self, op_div_self, op_eq, op_ne, op_lt, op_le, op_gt, op_ge, op_from_float, op_from_double, op_from_int, op_from_short, op_as_long, op_as_short, op_as_byte, op_as_float, op_as_double, op_min, op_max, op_rep, op_value, op_add_int, op_int_mul, op_mul_float, op_chain, op_count };
inline int32_t float_bits( float f ) { int32_t r; memcpy( &r, &f, 4 ); return r; }
template< typename F > int32_t __attribute__((noinline)) fixed_op( uint8_t op, int32_t a, int32_t b, float f )
{
    using T = typename F::rep; F x( F::construct, T( a ) ); F y( F::construct, T( b ) ); F z( F::construct, 0 );
    switch ( op )
    {
        case op_add: z = x + y; break; case op_sub: z = x - y; break; case op_mul: z = x * y; break; case op_div: z = x / y; break; case op_neg: z = -x; break; case op_plus: z = +x; break;
        case op_add_to: z = x; z += y; break; case op_sub_from: z = x; z -= y; break; case op_mul_by: z = x; z *= y; break; case op_div_by: z = x; z /= y; break;
        case op_add_self: z = x; z += z; break; case op_sub_self: z = x; z -= z; break; case op_mul_self: z = x; z *= z; break; case op_div_self: z = x; z /= z; break;
        case op_eq: return x == y; case op_ne: return x != y; case op_lt: return x < y; case op_le: return x <= y; case op_gt: return x > y; case op_ge: return x >= y;
        case op_from_float: z = F( f ); break; case op_from_double: z = F( (double) f ); break; case op_from_int: z = F( b ); break; case op_from_short: z = F( (int16_t) b ); break;
        case op_as_long: return x.template as<int32_t>(); case op_as_short: return x.template as<int16_t>(); case op_as_byte: return x.template as<int8_t>(); case op_as_float: return float_bits( x.template as<float>() ); case op_as_double: return float_bits( (float) x.as_double() );
        case op_min: z = x.min(); break; case op_max: z = x.max(); break;
        case op_rep: return num::from_rep<F>{}( num::to_rep<F>{}( x ) ).underlying_value(); case op_value: return num::from_value<F,T>{}( T( b ) ).underlying_value();
        case op_add_int: z = x + F( b ); break; case op_int_mul: z = b * x; break; case op_mul_float: z = x * f; break;
        case op_chain: z = x; ( z = y ) += x; z -= y; break;
    }
    return z.underlying_value();
}
inline int32_t fixed_job( uint8_t fmt, uint8_t op, int32_t a, int32_t b, float f )
{
    switch ( fmt )
    {
#define X( n, F ) case n: return fixed_op<F>( op, a, b, f );
        FIXED_FORMATS( X )
#undef X
    }
    return 0;
}
