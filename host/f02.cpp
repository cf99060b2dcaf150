// F02: reset erases all history, whatever fault preceded it.
#define DST_CORO_IMPL
#include "filt_common.hpp"
#include "num/fixed-point.hpp"
#include <limits>

#if USE_GF
using D = Pt<double>;
#else
using D = double;
#endif
template< typename T > struct Num { static double d( T x ) { return (double) x; } };
template<> struct Num<Pt<double>> { static double d( Pt<double> x ) { return x.v; } };
template< typename R, int I, int F > struct Num<num::fixed_point<R,I,F>> { static double d( num::fixed_point<R,I,F> x ) { return x.as_double(); } };
template< typename T > bool same( T a, T b ) { double x = Num<T>::d( a ), y = Num<T>::d( b ); return x == y || ( x != x && y != y ); }

template< typename T > void erased( Ctx & c, std::function<T(int)> value, std::function<T()> coef, int kinds )
{
    reset_points();
    auto d = draw_filter<T,T>( c, [&]{ return Coef<T>{ coef(), coef(), coef(), coef(), coef() }; }, []( T x ) { return x; } );
    auto & o = *d.o; auto k0 = o.coeffs(); int rounds = 1 + (int) c.draw( 4 );
    for ( int r = 0; r < rounds; ++r )
    {
        // history, the worse the better
        u64 n = c.logu( c.chance( 1, 256 ) ? 6000 : 80 ); u64 const mask = c.draw( 64 );
        for ( u64 i = 0; i < n; ++i )
        {
            c.step(); u64 f = c.draw( 10 ); if ( f >= 4 && !( mask >> ( f - 4 ) & 1 ) ) f = 0;
            switch ( f )
            {
                case 4: if ( kinds > 1 ) { c.fault( "NaN sample" ); o.step( value( 2 ) ); break; } [[fallthrough]];
                case 5: if ( kinds > 1 ) { c.fault( "infinite sample" ); o.step( value( 3 ) ); break; } [[fallthrough]];
                case 6: c.fault( "overflowing sample" ); o.step( value( 1 ) ); break;
                case 7: if ( kinds > 1 ) { c.fault( "denormal sample" ); o.step( value( 4 ) ); break; } [[fallthrough]];
                case 8: { T v = value( 0 ); u64 b = c.draw( 12 ); if ( Abandon::run( b, [&]{ o.step( v ); } ) ) c.fault( "step aborted part-way" ); break; }
                case 9: c.fault( "extra reset" ); o.reset(); break;
                default: o.step( value( 0 ) );
            }
        }
        if ( n ) c.fault( "reset after history" );
        o.reset(); if ( c.chance( 1, 8 ) ) o.reset();
        auto k1 = o.coeffs(); bool ok = k0.size() == k1.size(); for ( size_t i = 0; ok && i < k0.size(); ++i ) ok = same( k0[i], k1[i] );
        if ( !ok ) c.fail( "coefficients", "after a reset the coefficients of a %s are not those it was made with", o.name() );
        auto fresh = o.fresh(); u64 m = 1 + c.logu( 60 );
        for ( u64 i = 0; i < m; ++i )
        {
            c.step(); T x = value( i == 0 && c.draw( 2 ) ? 5 : 0 ); T a = o.step( x ), b = fresh->step( x );
            c.h( Num<T>::d( b ) );
            if ( !same( a, b ) ) c.fail( "history-survives", "step %llu after reset number %d gives %.17g in a %s, a fresh one gives %.17g", (unsigned long long) i, r, Num<T>::d( a ), o.name(), Num<T>::d( b ) );
        }
    }
    for ( auto & k : k0 ) c.cover( (u64)( Num<T>::d( k ) * 4096 ) );
    reset_points();
}
template< typename F, typename T > void floating( Ctx & c )
{
    using Lim = std::numeric_limits<F>; bool big = c.draw( 4 ) == 3;
    erased<T>( c, [&]( int k ) -> T {
        F s = c.draw( 2 ) ? F( 1 ) : F( -1 );
        switch ( k ) { case 1: return T( s * Lim::max() / F( 1 + c.draw( 8 ) ) ); case 2: return T( Lim::quiet_NaN() ); case 3: return T( s * Lim::infinity() ); case 4: return T( s * Lim::denorm_min() * F( 1 + c.draw( 100 ) ) ); case 5: return T( 0 ); default: return T( (F) c.real( -2, 2 ) ); } },
        [&]() -> T { if ( c.chance( 1, 6 ) ) return T( 0 ); return T( (F)( big ? c.real( -40, 40 ) : c.real( -1.5, 1.5 ) ) ); }, 2 );
}
template< typename X > void fixed( Ctx & c )
{
    using R = typename X::rep; double lim = std::pow( 2.0, X::integer_digits );
    erased<X>( c, [&]( int k ) -> X { if ( k == 1 ) return X( X::construct, c.draw( 2 ) ? std::numeric_limits<R>::max() : std::numeric_limits<R>::min() ); if ( k == 5 ) return X( X::construct, 0 ); return X( c.real( -lim / 4, lim / 4 ) ); },
        [&]() -> X { return X( c.real( -0.9, 0.9 ) * std::min( 1.5, lim * 0.99 ) ); }, 1 );
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F02";
    ck.rule = "A run draws a filter (biquad, one-pole or cascade; stable or wildly unstable coefficients), and up to four rounds of: a history with NaN, infinite, overflowing and denormal samples, steps aborted at a drawn arithmetic operation, extra resets; then a reset; then the same input to the reset filter and to a freshly constructed one, all outputs equal. Non-trivial: at least one fault; distinct by coefficients and fault sequence.";
    ck.distinct_measure = "hash of coefficients and fault sequence";
    ck.real = { "dsp::BiQuadT, dsp::OnePoleT, dsp::BiQuadCascadeT, num::fixed_point from /repo/include" }; ck.stub = { "signal source (simulated)" };
    ck.assumptions = { "a step is aborted only between arithmetic operations" };
    ck.scenarios = { { "double", 1500000, 12000000, floating<double,D> }, { "float", 800000, 8000000, floating<float,float> },
        { "fixed16", 400000, 4000000, fixed<num::fixed_point<std::int16_t,3>> }, { "fixed32", 400000, 4000000, fixed<num::fixed_point<std::int32_t,8>> } };
    return dst_main( argc, argv, ck );
}
