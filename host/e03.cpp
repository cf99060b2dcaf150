// E03: the estimator stays healthy under any finite readings and recovers once sensor faults stop.
#define DST_CORO_IMPL
#include "est_common.hpp"
using L = long double;

template< int M > struct Sensor     // what the estimator is told about z; remembers for stuck/stale faults
{
    std::vector<Mat<L,M,1>> past; Mat<L,M,1> held; bool stuck = false;
};

template< int M, int U > void healthy( Ctx & c )
{
    auto m = real_model<M,U>( c, true );
    u64 steps = 1 + c.logu( c.chance( 1, 32 ) ? 4000 : 120 );
    auto fwd = []( L x ) { return (double) x; };
    auto ka = make_kalman<double,M,U>( m, fwd ), kb = make_kalman<double,M,U>( m, fwd );
    L unit = std::fabs( m.x.a[0][0] ) + std::fabs( m.x.a[1][0] ) + std::sqrt( m.R_.a[0][0] );
    Mat<L,2,1> truth; for ( auto & r : truth.a ) r[0] = (L) c.real( -20, 20 ) * unit;
    Mat<L,2,2> Pprev = m.P; L big = 0;
    u64 const mask = c.draw( 256 );
    Sensor<M> sa; Mat<L,U,1> u; L umax = (L) c.real( 0, 1 ) * unit; L biggest = 0;
    c.ev( "estimator %d measurements %d controls, %llu updates, then faithful readings", M, U, (unsigned long long) steps );
    RefKalman<L,M,U> ref( m );

    auto check = [&]( u64 i )
    {
        auto a = observe( *ka ), b = observe( *kb );
        for ( int j = 0; j < 4; ++j ) if ( std::memcmp( &a.P[j], &b.P[j], 8 ) && !( a.P[j] == b.P[j] ) ) c.fail( "covariance-depends", "after %llu updates the covariance differs between two estimators that only differ in their readings: [%d] %.17g vs %.17g", (unsigned long long) i, j, a.P[j], b.P[j] );
        for ( int j = 0; j < 2 * M; ++j ) if ( !( a.K[j] == b.K[j] ) ) c.fail( "gain-depends", "after %llu updates the gain differs between two estimators that only differ in their readings: [%d] %.17g vs %.17g", (unsigned long long) i, j, a.K[j], b.K[j] );
        for ( int j = 0; j < 4; ++j ) if ( !std::isfinite( a.P[j] ) ) c.fail( "covariance-infinite", "covariance[%d] is %g after %llu updates", j, a.P[j], (unsigned long long) i );
        Mat<L,2,2> pred = add( mul( mul( m.A, Pprev ), tr( m.A ) ), m.Q );
        L s = pred.a[0][0] + pred.a[1][1]; big = s;
        Mat<L,2,2> P; for ( int r = 0; r < 2; ++r ) for ( int q = 0; q < 2; ++q ) P.a[r][q] = a.P[r*2+q];
        if ( std::fabs( P.a[0][1] - P.a[1][0] ) > 1e-9L * s + 1e-280L ) c.fail( "asymmetric", "covariance is not symmetric after %llu updates: %.17g vs %.17g", (unsigned long long) i, a.P[1], a.P[2] );
        auto mineig = []( Mat<L,2,2> const & X ) { L t = X.a[0][0] + X.a[1][1], d = X.a[0][0] - X.a[1][1], o = ( X.a[0][1] + X.a[1][0] ) / 2; return ( t - std::sqrt( d * d + 4 * o * o ) ) / 2; };
        if ( mineig( P ) < -1e-8L * s - 1e-280L ) c.fail( "indefinite", "covariance is not positive semidefinite after %llu updates: smallest eigenvalue %Lg at trace %Lg", (unsigned long long) i, mineig( P ), s );
        if ( mineig( sub( pred, P ) ) < -1e-8L * s - 1e-280L ) c.fail( "correction-grows", "the correction of update %llu increases the covariance: predicted trace %Lg, corrected trace %Lg", (unsigned long long) i, s, P.a[0][0] + P.a[1][1] );
        Pprev = P;
        if ( i % 64 == 0 ) { c.h( a.P[0] ); c.h( a.x[0] ); }
    };
    auto move = [&]{ for ( auto & r : u.a ) r[0] = (L)(double)( (L) c.real( -1, 1 ) * umax ); truth = add( mul( m.A, truth ), mul( m.B, u ) ); for ( auto & r : truth.a ) biggest = std::max( biggest, std::fabs( r[0] ) ); };
    auto lu = [&]{ return lib<double,U,1>( u, fwd ); };
    u64 n = 0; bool wild = false;
    for ( u64 i = 0; i < steps; ++i )
    {
        c.step(); move();
        Mat<L,M,1> z = mul( m.H, truth ); sa.past.push_back( z );
        u64 f = c.draw( 16 ); if ( f < 8 || !( mask >> ( f - 8 ) & 1 ) ) f = 0;
        int reps = 1; L wildness = 1;
        switch ( f )
        {
            case 8:  c.fault( "reading dropped" ); reps = 0; break;
            case 9:  c.fault( "sensor stuck" ); if ( !sa.stuck ) { sa.held = z; sa.stuck = true; } break;
            case 10: c.fault( "stale reading" ); z = sa.past[ sa.past.size() - 1 - c.draw( std::min<u64>( sa.past.size(), 16 ) ) ]; break;
            case 11: c.fault( "spike" ); wildness = std::pow( 10.0L, (L) c.range( 1, 9 ) ); for ( auto & r : z.a ) r[0] += (L) c.real( -1, 1 ) * unit * wildness; wild = true; break;
            case 12: c.fault( "reading duplicated" ); reps = 2 + (int) c.draw( 3 ); break;
            case 13: c.fault( "reading sign flipped" ); for ( auto & r : z.a ) r[0] = -r[0]; break;
            case 14: c.fault( "sensor noise" ); for ( auto & r : z.a ) r[0] += (L) c.real( -3, 3 ) * std::sqrt( m.R_.a[0][0] ); break;
            case 15: if ( sa.stuck ) { c.fault( "sensor freed" ); sa.stuck = false; } break;
        }
        if ( sa.stuck ) z = sa.held;
        // the other estimator always gets other readings, now and then absurd ones
        for ( int r = 0; r < reps; ++r )
        {
            Mat<L,M,1> zb; for ( auto & q : zb.a ) q[0] = (L)(double)( (L) c.real( -1, 1 ) * unit * ( c.chance( 1, 16 ) ? 1e120L : 1 ) );
            Mat<L,U,1> ub; for ( auto & q : ub.a ) q[0] = (L) c.range( -3, 3 ) * unit;
            ka->update( lu(), lib<double,M,1>( z, fwd ) ); kb->update( lib<double,U,1>( ub, fwd ), lib<double,M,1>( zb, fwd ) ); ++n;
            check( n );
        }
    }
    // recovery: what does the model itself promise from here on?
    auto pub = observe( *ka );
    Mat<L,2,1> e; for ( int j = 0; j < 2; ++j ) e.a[j][0] = (L) pub.x[j] - truth.a[j][0];
    L e0 = std::sqrt( e.a[0][0] * e.a[0][0] + e.a[1][0] * e.a[1][0] );
    Model<L,M,U> mm = m; for ( int r = 0; r < 2; ++r ) for ( int q = 0; q < 2; ++q ) mm.P.a[r][q] = pub.P[r*2+q];
    RefKalman<L,M,U> rk( mm ); Mat<L,2,2> Phi; Phi.a[0][0] = Phi.a[1][1] = 1; Mat<L,2,2> I = Phi;
    u64 nref = 0; L norm = 1, peak = 1;
    while ( nref < 2000 && norm > 1e-4L )
    {
        ++nref; rk.update( Mat<L,U,1>(), Mat<L,M,1>() );
        Phi = mul( mul( sub( I, mul( rk.K, m.H ) ), m.A ), Phi );
        norm = 0; for ( auto & r : Phi.a ) for ( auto x : r ) norm += x * x; norm = std::sqrt( norm ); peak = std::max( peak, norm );
    }
    if ( norm > 1e-4L ) { c.count( "recovery slower than 2000 updates, not judged" ); return; }
    c.probe( "recovery judged" ); if ( wild ) c.probe( "recovery from wild readings" ); if ( e0 > 1e3L * unit ) c.probe( "error at end of faults above 1000 units" );
    for ( u64 i = 0; i < nref; ++i )
    {
        c.step(); move(); Mat<L,M,1> z = mul( m.H, truth );
        ka->update( lu(), lib<double,M,1>( z, fwd ) ); kb->update( lu(), lib<double,M,1>( z, fwd ) ); ++n; check( n );
    }
    pub = observe( *ka ); L en = 0; for ( int j = 0; j < 2; ++j ) { L d = (L) pub.x[j] - truth.a[j][0]; en += d * d; } en = std::sqrt( en );
    if ( !( en <= 1e-3L * e0 + 1e-9L * ( biggest * peak + unit + e0 * 1e-6L ) ) ) c.fail( "no-recovery", "error %Lg when faults stopped is still %Lg after %llu faithful readings, by which the model promises contraction to %Lg of it", e0, en, (unsigned long long) nref, norm );
    c.h( (double) en ); c.nontrivial = true; c.simtime += (double) m.dt * n;
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "E03";
    ck.rule = "A run draws a model (position/velocity, stable, oscillating, integrating; covariances positive definite or nearly so), a simulated plant and a faulty sensor (drops, stuck, stale, spikes to 1e9 units, duplicates, sign flips, noise). A twin estimator gets unrelated readings up to 1e120. After every update covariance and gain of both must be equal and the covariance symmetric, semidefinite, finite and not above its prediction. Then the readings become faithful and the error must contract within the number of updates computed from the reference gains. Non-trivial: recovery phase judged; distinct by fault sequence.";
    ck.distinct_measure = "hash of the fault sequence";
    ck.real = { "num::kalman<double> and num::matrix from /repo/include" }; ck.stub = { "plant, sensor and input source (simulated)" };
    ck.assumptions = { "covariances symmetric, measurement noise positive definite", "models whose own error dynamics need more than 2000 updates to contract by 1e4 are run but their recovery is not judged", "health judged to 1e-8 of the predicted trace" };
    ck.scenarios = { { "m1u1", 200000, 20000000, healthy<1,1> }, { "m2u1", 160000, 12000000, healthy<2,1> }, { "m1u2", 80000, 6000000, healthy<1,2> }, { "m2u2", 160000, 12000000, healthy<2,2> } };
    return dst_main( argc, argv, ck );
}
