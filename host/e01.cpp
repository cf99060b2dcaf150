// E01: estimator follows the predict/correct recursion over any history.
#define DST_CORO_IMPL
#include "est_common.hpp"

template< typename T, typename R, int M, int U, typename FwdT, typename Cmp >
void history( Ctx & c, Model<R,M,U> const & model, FwdT fwd, u64 steps, bool brief, std::function<R(bool)> value, Cmp cmp, std::function<void(RefKalman<R,M,U> const &)> track = []( RefKalman<R,M,U> const & ){} )
{
    auto k = make_kalman<T,M,U>( model, fwd ); RefKalman<R,M,U> ref( model );
    Mat<R,M,1> z, zprev; Mat<R,U,1> u; u64 stuck = 0; bool any = false;
    u64 const mask = c.draw( 4 ) == 0 ? 0 : c.draw( 64 );       // fault kinds enabled in this run
    for ( u64 s = 0; s < steps; ++s )
    {
        c.step(); int reps = 1;
        for ( auto & r : u.a ) r[0] = value( false );
        u64 f = stuck ? 4 : c.draw( 12 ); if ( f >= 6 && !( mask >> ( f - 6 ) & 1 ) ) f = 0;
        switch ( f )
        {
            default: for ( auto & r : z.a ) r[0] = value( false ); break;                               // faithful reading
            case 6:  if ( !brief ) c.fault( "reading dropped" ); reps = 0; break;
            case 7:  for ( auto & r : z.a ) r[0] = value( false ); reps = 2 + (int) c.draw( 2 ); if ( !brief ) c.fault( "reading repeated" ); break;
            case 8:  z = zprev; if ( !brief ) c.fault( "stale reading" ); break;
            case 9:  for ( auto & r : z.a ) r[0] = value( true ); if ( !brief ) c.fault( "wild reading" ); break;
            case 10: stuck = 1 + c.draw( 5 ); if ( !brief ) c.fault( "stuck sensor" ); [[fallthrough]];
            case 4:  if ( stuck ) { --stuck; z = zprev; } else for ( auto & r : z.a ) r[0] = value( false ); break;
            case 11: for ( auto & r : u.a ) r[0] = R( 0 ); for ( auto & r : z.a ) r[0] = value( false ); if ( !brief ) c.fault( "control lost" ); break;
        }
        zprev = z;
        for ( int r = 0; r < reps; ++r )
        {
            k->update( lib<T,U,1>( u, fwd ), lib<T,M,1>( z, fwd ) ); ref.update( u, z ); track( ref );
            if ( ref.singular ) c.reject();
            any = true;
            if ( !brief ) c.cover( f );
            u64 looks = brief ? 1 : c.draw( 3 );       // reading results 0..2 times, in any order
            for ( u64 l = 0; l < looks; ++l ) cmp( *k, ref, brief ? 0 : (int) c.draw( 4 ), s );
        }
    }
    if ( any ) { c.nontrivial = true; cmp( *k, ref, 0, steps ); }
}

#if USE_GF
template< int M, int U > void gf_run( Ctx & c, bool lng )
{
    reset_points();
    auto m = gf_model<M,U>( c ); u64 steps = lng ? 200 + c.logu( 70000 ) : 1 + c.logu( 60 );
    c.ev( "GF(p) estimator, 2 states, %d measurements, %d controls, %llu steps", M, U, (unsigned long long) steps );
    auto id = []( GF x ) { return x; };
    u64 salt = lng ? c.draw( 1u << 30 ) : 0, ctr = 0;
    std::function<GF(bool)> val = [&]( bool wild ) { if ( lng ) return GF::raw( mix64( salt + ctr++ ) ); return wild ? GF::raw( c.draw( GF::P ) ) : gf( c ); };
    history<GF,GF,M,U>( c, m, id, steps, lng, val, [&]( num::kalman<GF,2,M,U> const & k, RefKalman<GF,M,U> const & r, int order, u64 s )
    {
        auto p = observe( k, order ); c.h( (u64) p.x[0].v << 32 | p.x[1].v ); c.h( (u64) p.P[0].v << 32 | p.K[0].v );
        for ( int i = 0; i < 2; ++i ) if ( p.x[i] != r.m.x.a[i][0] ) c.fail( "state", "after step %llu state component %d is not that of the predict/correct recursion (exact arithmetic)", (unsigned long long) s, i );
        for ( int i = 0; i < 4; ++i ) if ( p.P[i] != r.m.P.a[i/2][i%2] ) c.fail( "covariance", "after step %llu error covariance (%d,%d) is not that of the recursion (exact arithmetic)", (unsigned long long) s, i/2, i%2 );
        for ( int i = 0; i < 2 * M; ++i ) if ( p.K[i] != r.K.a[i/M][i%M] ) c.fail( "gain", "after step %llu gain (%d,%d) is not that of the recursion (exact arithmetic)", (unsigned long long) s, i/M, i%M );
        if ( p.t != r.t ) c.fail( "time", "after step %llu elapsed time differs", (unsigned long long) s );
    } );
    c.count( "updates", steps );
}
#endif

template< int M, int U > void real_run( Ctx & c, bool lng )
{
    using L = long double; reset_points();
    auto m = real_model<M,U>( c, true ); u64 steps = lng ? 200 + c.logu( 40000 ) : 1 + c.logu( 80 );
    L const unit = std::fabs( m.x.a[0][0] ) + std::fabs( m.x.a[1][0] ) + std::sqrt( m.R_.a[0][0] );
    c.ev( "real-valued estimator, 2 states, %d measurements, %d controls, %llu steps, unit %.3Lg, dt %.3Lg", M, U, (unsigned long long) steps, unit, m.dt );
    u64 salt = lng ? c.draw( 1u << 30 ) : 0, ctr = 0; L seen = unit, kappa = 1;
    std::function<L(bool)> val = [&]( bool wild ) {
        L f = lng ? ( (L)( mix64( salt + ctr++ ) >> 44 ) / ( 1 << 20 ) * 2 - 1 ) : (L) c.real( -1, 1 );
        L v = (L)(double)( f * unit * ( wild ? 1e4L : 2.0L ) ); if ( std::fabs( v ) > seen ) seen = std::fabs( v ); return v; };
    auto fwd = []( L x ) { return (double) x; };
    history<double,L,M,U>( c, m, fwd, steps, lng, val, [&]( num::kalman<double,2,M,U> const & k, RefKalman<L,M,U> const & r, int order, u64 s )
    {
        auto p = observe( k, order ); c.h( p.x[0] ); c.h( p.P[0] ); c.h( p.K[0] );
        L sx = seen, sp = 0, sk = 1e-30L;
        for ( int i = 0; i < 2; ++i ) sx = std::max( sx, std::fabs( r.m.x.a[i][0] ) );
        for ( int i = 0; i < 4; ++i ) sp = std::max( sp, std::fabs( r.Ppred.a[i/2][i%2] ) );
        for ( int i = 0; i < 2 * M; ++i ) sk = std::max( sk, std::fabs( r.K.a[i/M][i%M] ) );
        if ( !( sx < 1e15L * unit && sp < 1e15L * unit * unit ) ) c.reject();
        L const tol = 1e-8L + 1e-14L * kappa * kappa; if ( tol > 1e-5L ) c.reject();
        auto bad = [&]( double a, L b, L scale ) { return !( std::fabs( (L) a - b ) <= tol * scale + 1e-290L ); };
        for ( int i = 0; i < 2; ++i ) if ( bad( p.x[i], r.m.x.a[i][0], sx * ( 1 + sk ) ) ) c.fail( "state", "after step %llu state[%d] = %.17g, recursion gives %.17Lg", (unsigned long long) s, i, p.x[i], r.m.x.a[i][0] );
        for ( int i = 0; i < 4; ++i ) if ( bad( p.P[i], r.m.P.a[i/2][i%2], sp ) ) c.fail( "covariance", "after step %llu covariance(%d,%d) = %.17g, recursion gives %.17Lg", (unsigned long long) s, i/2, i%2, p.P[i], r.m.P.a[i/2][i%2] );
        for ( int i = 0; i < 2 * M; ++i ) if ( bad( p.K[i], r.K.a[i/M][i%M], sk ) ) c.fail( "gain", "after step %llu gain(%d,%d) = %.17g, recursion gives %.17Lg", (unsigned long long) s, i/M, i%M, p.K[i], r.K.a[i/M][i%M] );
        if ( bad( p.t, r.t, r.t ) ) c.fail( "time", "after step %llu elapsed time %.17g, expected %.17Lg", (unsigned long long) s, p.t, r.t );
    }, [&]( RefKalman<L,M,U> const & r ) { kappa = std::max( kappa, conditioning( r ) ); } );
    c.count( "updates", steps ); c.simtime += (double) m.dt * steps;
}

int main( int argc, char ** argv )
{
    Check ck; ck.property = "E01";
    ck.rule = "A run draws a configuration (1-2 measurements, 1-2 controls), a model with symmetric covariances (some with zero innovation covariance), and a history of updates through a faulty sensor (dropped, repeated, stale, stuck, wild readings, lost control), with observer calls at drawn places. Non-trivial: at least one update was judged against the reference recursion. Distinct: by the sequence of (fault kind, update) of the run.";
    ck.distinct_measure = "hash of the sequence of sensor/control fault kinds and updates of a run, per scenario";
    ck.real = { "num::kalman and num::matrix from /repo/include, instantiated on an exact prime field and on double" };
    ck.stub = { "plant, sensor and control channel (simulated)" };
    ck.assumptions = { "covariances symmetric and the innovation covariance invertible for two measurements", "double results judged to 1e-7 of the history's scale against an extended-precision reference; prime-field results judged exactly" };
#if USE_GF
    ck.scenarios = {
        { "gf_m1u1", 240000, 12000000, []( Ctx & c ) { gf_run<1,1>( c, false ); } }, { "gf_m1u2", 160000, 8000000, []( Ctx & c ) { gf_run<1,2>( c, false ); } },
        { "gf_m2u1", 160000, 8000000, []( Ctx & c ) { gf_run<2,1>( c, false ); } }, { "gf_m2u2", 160000, 8000000, []( Ctx & c ) { gf_run<2,2>( c, false ); } },
        { "gf_long", 960, 48000, []( Ctx & c ) { switch ( c.draw( 4 ) ) { case 0: gf_run<1,1>( c, true ); break; case 1: gf_run<1,2>( c, true ); break; case 2: gf_run<2,1>( c, true ); break; default: gf_run<2,2>( c, true ); } } } };
#endif
    ck.scenarios.push_back( { "real_m1u1", 120000, 6400000, []( Ctx & c ) { real_run<1,1>( c, false ); } } ); ck.scenarios.push_back( { "real_m1u2", 80000, 4000000, []( Ctx & c ) { real_run<1,2>( c, false ); } } );
    ck.scenarios.push_back( { "real_m2u1", 80000, 4000000, []( Ctx & c ) { real_run<2,1>( c, false ); } } ); ck.scenarios.push_back( { "real_m2u2", 80000, 4000000, []( Ctx & c ) { real_run<2,2>( c, false ); } } );
    ck.scenarios.push_back( { "real_long", 960, 48000, []( Ctx & c ) { if ( c.draw( 2 ) ) real_run<2,2>( c, true ); else real_run<1,1>( c, true ); } } );
    return dst_main( argc, argv, ck );
}
