// E02: an estimator restarted from its published state continues identically.
#define DST_CORO_IMPL
#include "est_common.hpp"

#if USE_GF
using RealN = Pt<double>;
inline double val( RealN x ) { return x.v; }
#else
using RealN = double;
#endif
inline double val( double x ) { return x; }

// Application-level checkpoint store: two slots, the newest may be torn by a crash during its write.
template< typename T > struct Slot { bool valid = false; u64 index = 0; T x[2], P[4]; };

template< typename T, typename R, int M, int U, typename Fwd, typename Same >
void crashes( Ctx & c, Model<R,M,U> const & model, Fwd fwd, u64 steps, std::function<R(bool)> value, Same same )
{
    reset_points();
    // durable input journal
    std::vector<num::colvec<T,U>> us; std::vector<num::colvec<T,M>> zs; Mat<R,U,1> u; Mat<R,M,1> z;
    u64 const mask = c.draw( 8 );
    for ( u64 i = 0; i < steps; ++i )
    {
        for ( auto & r : u.a ) r[0] = value( false );
        u64 f = c.draw( 10 ); if ( f >= 7 && !( mask >> ( f - 7 ) & 1 ) ) f = 0;
        if ( f == 7 && i ) c.fault( "stale reading" ); else if ( f == 8 ) { c.fault( "wild reading" ); for ( auto & r : z.a ) r[0] = value( true ); }
        else if ( f == 9 ) { c.fault( "control lost" ); for ( auto & r : u.a ) r[0] = R( 0 ); for ( auto & r : z.a ) r[0] = value( false ); }
        else for ( auto & r : z.a ) r[0] = value( false );
        us.push_back( lib<T,U,1>( u, fwd ) ); zs.push_back( lib<T,M,1>( z, fwd ) );
    }
    // uninterrupted twin
    std::vector<Pub<T,M>> expect; points().div0 = false;
    { auto k = make_kalman<T,M,U>( model, fwd ); for ( u64 i = 0; i < steps; ++i ) { k->update( us[i], zs[i] ); expect.push_back( observe( *k ) ); } }
    if ( points().div0 ) c.reject();
    u64 const ops_per_update = points().ops / steps;

    // the application, on one fixed piece of memory that keeps whatever a lost estimator left in it
    using Est = num::kalman<T,2,M,U>;
    alignas( Est ) static thread_local unsigned char mem[ sizeof( Est ) ];
    int const garbage = (int) c.draw( 4 );
    u64 const interval = 1 + c.logu( 12 ); int crashes_left = 1 + (int) c.draw( 4 );
    Slot<T> slot[2]; u64 i = 0; int newest = 0; u64 epoch = 0;
    auto save = [&]( u64 at, Est const & k, bool torn ) {
        Slot<T> & s = slot[ newest ^ 1 ]; s.valid = false; auto p = observe( k, (int) c.draw( 4 ) ); s.index = at;
        for ( int j = 0; j < 2; ++j ) s.x[j] = p.x[j]; for ( int j = 0; j < 4; ++j ) s.P[j] = p.P[j];
        if ( torn ) { c.fault( "torn checkpoint" ); return; } s.valid = true; newest ^= 1; };
    u64 guard = 0;
    while ( i < steps )
    {
        if ( ++guard > 40 ) break;
        // (re)start
        Model<R,M,U> m0 = model; u64 base = 0;
        std::memset( mem, garbage == 0 ? 0 : garbage == 1 ? 0xff : garbage == 2 ? 0x55 : mem[0], garbage == 3 ? 0 : sizeof mem );
        Est * k;
        int use = slot[newest].valid ? newest : slot[newest^1].valid ? newest ^ 1 : -1;
        auto cv = [&]( auto const & mm, auto tag ) { (void) tag; return mm; }; (void) cv;
        {
            num::matrix<T,2,2> P0 = lib<T,2,2>( model.P, fwd ); num::colvec<T,2> x0 = lib<T,2,1>( model.x, fwd );
            if ( use >= 0 ) { base = slot[use].index; for ( int j = 0; j < 2; ++j ) x0( j ) = slot[use].x[j]; for ( int j = 0; j < 4; ++j ) P0( j / 2, j % 2 ) = slot[use].P[j]; }
            k = new( mem ) Est( fwd( model.dt ), lib<T,2,2>( model.A, fwd ), lib<T,2,U>( model.B, fwd ), lib<T,M,2>( model.H, fwd ), lib<T,2,2>( model.Q, fwd ), lib<T,M,M>( model.R_, fwd ), P0, x0 );
        }
        c.ev( "start %llu from %s, at update %llu", (unsigned long long) epoch++, use >= 0 ? "checkpoint" : "the initial state", (unsigned long long) base );
        // when does this incarnation die?
        u64 crash_at = ~0ull, crash_op = ~0ull; int kind = 0;
        if ( crashes_left > 0 && c.chance( 5, 6 ) ) { --crashes_left; crash_at = base + c.draw( steps - base + 1 ); kind = (int) c.draw( 3 ); if ( kind == 0 && ops_per_update ) crash_op = c.draw( ops_per_update ); c.cover( crash_at * 31 + crash_op ); }
        bool died = false;
        for ( i = base; i < steps; ++i )
        {
            c.step();
            if ( i == crash_at && ( kind == 1 || crash_op == ~0ull ) ) { if ( kind == 2 ) { save( i, *k, true ); } else c.fault( "crash between updates" ); died = true; break; }
            if ( i == crash_at && kind == 0 )
            {
                if ( Abandon::run( crash_op, [&]{ k->update( us[i], zs[i] ); } ) ) { died = true; c.fault( "crash inside an update" ); c.h( crash_op ); break; }
            }
            else k->update( us[i], zs[i] );
            auto p = observe( *k, (int) ( i & 3 ) ); auto const & e = expect[i];
            for ( int j = 0; j < 2; ++j ) if ( !same( p.x[j], e.x[j], 0 ) ) c.fail( "state", "restarted at update %llu: state[%d] after update %llu differs from the uninterrupted estimator", (unsigned long long) base, j, (unsigned long long) i );
            for ( int j = 0; j < 4; ++j ) if ( !same( p.P[j], e.P[j], 1 ) ) c.fail( "covariance", "restarted at update %llu: covariance[%d] after update %llu differs from the uninterrupted estimator", (unsigned long long) base, j, (unsigned long long) i );
            for ( int j = 0; j < 2 * M; ++j ) if ( !same( p.K[j], e.K[j], 2 ) ) c.fail( "gain", "restarted at update %llu: gain[%d] after update %llu differs from the uninterrupted estimator", (unsigned long long) base, j, (unsigned long long) i );
            T t = T( 0 ); t = base ? p.t + expect[base-1].t : p.t;
            if ( !same( t, e.t, 3 ) ) c.fail( "time", "restarted at update %llu: elapsed time after update %llu does not continue", (unsigned long long) base, (unsigned long long) i );
            if ( ( i + 1 ) % interval == 0 ) save( i + 1, *k, false );
        }
        if ( died ) c.probe( slot[newest].valid ? "restart from newest checkpoint" : "restart from older checkpoint or start" );
        else c.nontrivial = true;
        k->~Est();
        if ( died ) i = 0;
        else break;
    }
    reset_points();
}

#if USE_GF
template< int M, int U > void gf_run( Ctx & c )
{
    auto m = gf_model<M,U>( c ); u64 steps = 1 + c.logu( c.chance( 1, 64 ) ? 3000 : 60 );
    c.ev( "GF(p) estimator %d measurements %d controls, %llu updates", M, U, (unsigned long long) steps );
    crashes<GF,GF,M,U>( c, m, []( GF x ) { return x; }, steps, [&]( bool w ) { return w ? GF::raw( c.draw( GF::P ) ) : gf( c ); }, []( GF a, GF b, int ) { return a == b; } );
}
#endif
template< int M, int U > void real_run( Ctx & c )
{
    using L = long double; auto m = real_model<M,U>( c, true ); u64 steps = 1 + c.logu( c.chance( 1, 64 ) ? 3000 : 60 );
    L unit = std::fabs( m.x.a[0][0] ) + std::fabs( m.x.a[1][0] ) + std::sqrt( m.R_.a[0][0] );
    c.ev( "real estimator %d measurements %d controls, %llu updates", M, U, (unsigned long long) steps );
    L seen[4] = { unit, unit * unit * 1e-9L, 1e-9L, 1e-9L };
    crashes<RealN,L,M,U>( c, m, []( L x ) { return RealN( (double) x ); }, steps, [&]( bool w ) { return (L)(double)( (L) c.real( -2, 2 ) * unit * ( w ? 1e4L : 1 ) ); },
        [&]( RealN a, RealN b, int kind ) { L x = val( a ), y = val( b ); if ( x == y ) return true; if ( std::fabs( y ) > seen[kind] ) seen[kind] = std::fabs( y ); return (bool)( std::fabs( x - y ) <= 1e-6L * seen[kind] ); } );
    c.simtime += (double) m.dt * steps;
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "E02";
    ck.rule = "A run draws a model, a durable journal of inputs from a faulty sensor, a checkpoint interval and crashes: between updates, at a drawn arithmetic operation inside an update, or tearing the newest of two checkpoint slots. Each restart constructs an estimator in the same, garbage-filled memory from the last valid published state and replays the journal; every later published value is compared with an uninterrupted twin. Non-trivial: the run ended normally after at least the comparison of one incarnation; distinct by crash points and fault sequence.";
    ck.distinct_measure = "hash of crash points (update, operation) and sensor/checkpoint fault sequence";
    ck.real = { "num::kalman and num::matrix from /repo/include" }; ck.stub = { "plant, sensor, input journal and two-slot checkpoint store (simulated)" };
    ck.assumptions = { "the application restarts with the same model and time step", "real-valued comparison to 1e-6 of the largest value seen, prime-field comparison exact" };
#if USE_GF
    ck.scenarios = { { "gf_m1u1", 60000, 3000000, gf_run<1,1> }, { "gf_m2u1", 30000, 1500000, gf_run<2,1> }, { "gf_m1u2", 30000, 1500000, gf_run<1,2> }, { "gf_m2u2", 30000, 1500000, gf_run<2,2> } };
#endif
    ck.scenarios.push_back( { "real_m1u1", 40000, 2000000, real_run<1,1> } ); ck.scenarios.push_back( { "real_m2u2", 30000, 1500000, real_run<2,2> } );
    return dst_main( argc, argv, ck );
}
