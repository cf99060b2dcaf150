// E04: fixed-point estimators and filters track their real-valued twins.
#define DST_CORO_IMPL
#include "filt_common.hpp"
#include "est_common.hpp"
#include "num/fixed-point.hpp"
using L = long double;

// sum of |impulse response| of b/a
inline L l1( Coef<L> const & k, bool allpole )
{
    RefSection<L> s( allpole ? Coef<L>{ 1, 0, 0, k.a1, k.a2 } : k ); L t = 0, recent = 0; u64 n = 0;
    for ( ; n < 200000; ++n ) { L y = s.step( n ? 0 : 1 ); t += std::fabs( y ); recent = std::max( recent * 0.9L, std::fabs( y ) + std::fabs( s.y2 ) ); if ( n > 8 && recent < 1e-12L * t ) break; if ( t > 1e9L ) break; }
    return t;
}
template< typename X > void filter( Ctx & c )
{
    using R = typename X::rep; L const lim = std::pow( 2.0L, X::integer_digits ), ulp = std::pow( 2.0L, -X::fractional_digits ); (void) sizeof( R );
    double r = 0; double const rmax = sizeof( R ) == 1 ? 0.7 : sizeof( R ) == 2 ? 0.93 : 0.98;
    auto d = draw_filter<X,L>( c, [&]{ auto k = real_coef( c, r, false, rmax ); L g = 1; Coef<L> q{ k.b0 * g, k.b1 * g, k.b2 * g, k.a1, k.a2 };
        for ( L * p : { &q.b0, &q.b1, &q.b2, &q.a1, &q.a2 } ) { if ( std::fabs( *p ) >= lim * 0.99L ) *p = std::copysign( lim * 0.98L, *p ); X x( (double) *p ); *p = x.as_double(); if ( std::fabs( *p ) >= lim ) c.reject(); } return q; }, []( L x ) { return X( (double) x ); } );
    if ( d.sec.size() == 1 && dynamic_cast<OpObj<X> *>( d.o.get() ) ) { auto & k = d.sec[0]; k.a1 = X( (double) std::fmod( k.a1, rmax ) ).as_double(); d.o = std::make_unique<OpObj<X>>( std::vector<X>{ X( (double) k.b0 ), X( (double) k.a1 ) } ); }
    // quantised coefficients may be unstable: outside the domain. Peaks: the largest any intermediate can get per unit of input; err: worst-case rounding
    L peak = 1, gain = 1, err = 0.5L * ulp;
    for ( auto & k : d.sec )
    {
        if ( !( std::fabs( k.a2 ) < 0.999L && std::fabs( k.a1 ) < 1 + k.a2 - 0.001L ) ) c.reject();
        L sw = l1( k, true ), sy = l1( k, false ), a = 1 + std::fabs( k.a1 ) + std::fabs( k.a2 ), b = std::fabs( k.b0 ) + std::fabs( k.b1 ) + std::fabs( k.b2 );
        if ( sw > 1e6L ) c.reject();
        L inner = std::max( { a * sw, b * sw, b + a * sy, sy, sw, (L) 1 } ); peak = std::max( peak, gain * inner ); err = err * sy * 1.01L + 6 * ulp * ( sw + sy + 1 ); gain *= std::max<L>( sy, 1e-6L );
    }
    L amp = lim * (L) c.real( 0.2, 0.9 ) / peak; { L worst = 0; for ( auto & k : d.sec ) worst = std::max( worst, ( 1 + std::fabs( k.a1 ) + std::fabs( k.a2 ) + std::fabs( k.b0 ) + std::fabs( k.b1 ) + std::fabs( k.b2 ) ) * err ); amp = std::min( amp, ( lim - worst - 8 * ulp ) / peak ); }
    if ( amp < 4 * ulp ) c.reject();
    std::vector<RefSection<L>> ref; for ( auto & k : d.sec ) ref.emplace_back( k );
    u64 n = 1 + c.logu( c.chance( 1, 64 ) ? 20000 : 300 ); u64 mask = c.draw( 64 ); X last = X( 0 ), held = X( 0 ); bool stuck = false; int shape = (int) c.draw( 3 ); double ph = c.real( 0, 3.14 );
    c.cover( (u64)( peak * 1000 ) ); L worst = 0;
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); L v = shape == 0 ? (L) c.real( -1, 1 ) : shape == 1 ? std::sin( ph * i ) : (L)( (long) ( i / 40 ) % 3 - 1 );
        u64 f = c.draw( 16 ); if ( f < 10 || !( mask >> ( f - 10 ) & 1 ) ) f = 0;
        X x( (double)( v * amp ) );
        switch ( f )
        {
            case 10: c.fault( "sample dropped" ); continue;
            case 11: c.fault( "sample repeated" ); x = last; break;
            case 12: c.fault( "sample at the limit of the admissible range" ); x = X( (double)( c.draw( 2 ) ? amp : -amp ) ); break;
            case 13: if ( !stuck ) { c.fault( "input stuck" ); held = x; } stuck = !stuck; break;
            case 14: c.fault( "input lost (zero)" ); x = X( 0 ); break;
            case 15: if ( c.chance( 1, 4 ) ) { c.fault( "filter reset" ); d.o->reset(); for ( auto & s : ref ) s.reset(); } break;
        }
        if ( stuck ) x = held;
        last = x; L y = d.o->step( x ).as_double(), w = x.as_double(); for ( auto & s : ref ) w = s.step( w );
        c.h( (double) y ); worst = std::max( worst, std::fabs( y - w ) );
        if ( !( std::fabs( y - w ) <= err ) ) c.fail( "diverges", "output %llu of a fixed-point %s (%d integer, %d fractional bits) is %Lg, real arithmetic gives %Lg; rounding explains at most %Lg (%Lg steps of resolution)", (unsigned long long) i, d.o->name(), X::integer_digits, X::fractional_digits, y, w, err, err / ulp );
    }
    if ( worst > 0.5L * err ) c.count( "runs using more than half of the error bound" );
    c.nontrivial = true;
}

// The estimator on 32-bit fixed point, within a domain where the format can hold its intermediate values.
constexpr L TOL = 65536;
using F20 = num::fixed_point<std::int32_t,11>;
template< int M, int U > void estimator( Ctx & c )
{
    auto q = []( L x ) -> L { return F20( (double) x ).as_double(); }; Model<L,M,U> m; auto rnd = [&]( double a, double b ) { return q( (L) c.real( a, b ) ); };
    m.dt = rnd( 0.05, 1 );
    switch ( c.draw( 3 ) )
    {
        case 0: m.A.a[0][0] = 1; m.A.a[0][1] = m.dt; m.A.a[1][1] = 1; break;
        case 1: m.A.a[0][0] = rnd( -0.9, 0.9 ); m.A.a[1][1] = rnd( -0.9, 0.9 ); m.A.a[0][1] = rnd( -0.5, 0.5 ); break;
        default: { L r = c.real( 0.3, 0.97 ), w = c.real( 0.1, 2 ); m.A.a[0][0] = m.A.a[1][1] = q( r * std::cos( w ) ); m.A.a[0][1] = q( -r * std::sin( w ) ); m.A.a[1][0] = q( r * std::sin( w ) ); }
    }
    for ( auto & r : m.B.a ) for ( auto & x : r ) x = rnd( -1, 1 );
    m.H.a[0][0] = rnd( 0.6, 1.4 ); if ( M == 1 ) m.H.a[0][1] = c.draw( 2 ) ? rnd( -0.3, 0.3 ) : 0; else { m.H.a[M-1][1] = rnd( 0.6, 1.4 ); m.H.a[0][1] = rnd( -0.2, 0.2 ); }
    for ( int i = 0; i < M; ++i ) m.R_.a[i][i] = rnd( 0.25, 4 ); for ( int i = 0; i < 2; ++i ) { m.Q.a[i][i] = rnd( 0.02, 1 ); m.P.a[i][i] = rnd( 0.1, 10 ); m.x.a[i][0] = rnd( -5, 5 ); }
    auto fx = []( L x ) { return F20( (double) x ); }; auto k = make_kalman<F20,M,U>( m, fx ); RefKalman<L,M,U> ref( m );
    u64 n = 1 + c.logu( c.chance( 1, 32 ) ? 1500 : 100 ), mask = c.draw( 32 ); Mat<L,M,1> z, held; Mat<L,U,1> u; bool stuck = false; L zmax = c.real( 0.5, 8 ); L worst = 0; c.cover( (u64)( m.dt * 1e6L ) );
    Mat<L,2,1> truth = m.x; L const ulp = std::pow( 2.0L, -20 );
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); for ( auto & r : u.a ) r[0] = rnd( -0.2, 0.2 );
        L ph = 0.07L * i; auto nz = z; for ( int j = 0; j < M; ++j ) nz.a[j][0] = q( zmax * 0.6L * std::sin( ph + j ) + (L) c.real( -0.3, 0.3 ) * zmax );
        u64 f = c.draw( 12 ); if ( f < 7 || !( mask >> ( f - 7 ) & 1 ) ) f = 0;
        switch ( f ) { case 7: c.fault( "stale reading" ); break; case 8: c.fault( "spike" ); for ( auto & r : nz.a ) r[0] = q( c.draw( 2 ) ? zmax : -zmax ); z = nz; break; case 9: if ( !stuck ) { c.fault( "sensor stuck" ); held = nz; } stuck = !stuck; z = nz; break; case 10: c.fault( "reading lost (zero)" ); for ( auto & r : z.a ) r[0] = 0; break; case 11: c.fault( "update skipped" ); continue; default: z = nz; }
        if ( stuck ) z = held;
        k->update( lib<F20,U,1>( u, fx ), lib<F20,M,1>( z, fx ) ); ref.update( u, z ); if ( ref.singular ) c.reject();
        auto p = observe( *k ); L ex = 0, eP = 0, eK = 0;
        for ( int j = 0; j < 2; ++j ) ex = std::max( ex, std::fabs( (L) p.x[j].as_double() - ref.m.x.a[j][0] ) );
        for ( int j = 0; j < 4; ++j ) eP = std::max( eP, std::fabs( (L) p.P[j].as_double() - ref.m.P.a[j/2][j%2] ) );
        for ( int j = 0; j < 2 * M; ++j ) eK = std::max( eK, std::fabs( (L) p.K[j].as_double() - ref.K.a[j/M][j%M] ) );
        L et = std::fabs( (L) p.t.as_double() - ref.t );
        c.h( p.x[0].as_double() ); L e = std::max( { ex / 8, eP, eK } ) / ulp; worst = std::max( worst, e );
        L const tol = TOL;
        if ( !( e <= tol ) ) c.fail( "diverges", "update %llu of the fixed-point estimator: state is off by %Lg, covariance by %Lg, gain by %Lg from real arithmetic (resolution %Lg)", (unsigned long long) i, ex, eP, eK, ulp );
        if ( et > ulp / 2 ) c.fail( "time", "elapsed time of the fixed-point estimator is off by %Lg", et );
    }
    if ( worst > TOL / 8 ) c.count( "runs using more than an eighth of the error bound" );
    for ( int b = 0; b < 24; ++b ) if ( worst > ( 1u << b ) && worst <= ( 2u << b ) ) { char s[40]; snprintf( s, sizeof s, "estimator error below 2^%02d steps", b + 1 ); c.count( s ); }
    c.nontrivial = true; c.simtime += (double) m.dt * n;
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "E04";
    ck.rule = "A run draws a filter (sections in three stepping functions, one-pole, cascades) in an 8, 16 or 32 bit format and an input scaled so that no intermediate value can leave the range, with dropped, repeated, stuck, lost and extreme samples; every output must be within the worst-case rounding error (6 steps of resolution per section through its noise gain) of the same quantised filter in extended precision. Estimators run on a 32 bit format inside a bounded domain. Non-trivial: the whole history was judged; distinct by parameters and faults.";
    ck.distinct_measure = "hash of parameters and fault sequence";
    ck.real = { "num::fixed_point, dsp filter sections, num::kalman from /repo/include" }; ck.stub = { "signal source (simulated)" };
    ck.assumptions = { "intermediate values inside the type's range (worst-case bound from the impulse responses)", "estimator domain: R 0.25-4, Q 0.02-1, initial P up to 10, readings up to 8, format with 11 integer and 20 fractional bits, at most 1500 updates", "estimator tolerance is eight times the largest error seen in a calibration of the repaired tree" };
    ck.scenarios = { { "filter8", 100000, 4000000, filter<num::fixed_point<std::int8_t,3>> }, { "filter16_3", 200000, 8000000, filter<num::fixed_point<std::int16_t,3>> }, { "filter16_7", 100000, 4000000, filter<num::fixed_point<std::int16_t,7>> }, { "filter32_4", 150000, 6000000, filter<num::fixed_point<std::int32_t,4>> }, { "filter32_15", 100000, 4000000, filter<num::fixed_point<std::int32_t,15>> }, { "filter32_9_12", 60000, 2500000, filter<num::fixed_point<std::int32_t,9,12>> },
        { "est_m1u1", 100000, 4000000, estimator<1,1> }, { "est_m1u2", 40000, 1500000, estimator<1,2> }, { "est_m2u1", 60000, 2500000, estimator<2,1> }, { "est_m2u2", 40000, 1500000, estimator<2,2> } };
    return dst_main( argc, argv, ck );
}
