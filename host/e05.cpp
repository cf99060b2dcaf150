// E05: estimators and filters share nothing under preemption.
#define DST_COPY_POINTS
#include <optional>
#define DST_CORO_IMPL
#include "filt_common.hpp"
#include "est_common.hpp"

#if USE_GF
using V = GF;
inline V val( Ctx & c ) { return gf( c ); }
inline u64 bits( V a ) { return a.v; }
#else
using V = double;   // no schedule points inside the computation: tasks alternate between calls only
inline V val( Ctx & c ) { return c.real( -1, 1 ); }
inline u64 bits( V a ) { if ( a != a ) return 1; if ( a == 0 ) a = 0; u64 x; std::memcpy( &x, &a, 8 ); return x; }
#endif
using W = Pt<double>;
inline u64 bits( W a ) { double d = a.v; if ( d != d ) return 1; if ( d == 0 ) d = 0; u64 x; std::memcpy( &x, &d, 8 ); return x; }

// A job: one object and its own input stream; it appends what it computes to `out`.
struct Job { std::string what; std::function<void( std::vector<u64> &, std::function<void()> )> go; };

template< typename T, int M, int U > Job kalman_job( Ctx & c, std::function<T()> value, u64 n )
{
    std::vector<T> p; for ( int i = 0; i < 24; ++i ) p.push_back( value() );
    std::vector<T> in; for ( u64 i = 0; i < n * ( M + U ); ++i ) in.push_back( value() );
    return { "estimator", [=]( std::vector<u64> & out, std::function<void()> at ) {
        using K = num::kalman<T,2,M,U>; size_t i = 3; auto take = [&]( auto & m, int r, int q ) { for ( int y = 0; y < r; ++y ) for ( int x = 0; x < q; ++x ) m( y, x ) = p[ i++ % p.size() ]; };
        typename K::A_t A( 0 ); typename K::B_t B( 0 ); typename K::H_t H( 0 ); typename K::Q_t Q( 0 ); typename K::R_t R( 0 ); typename K::P_t P( 0 ); num::colvec<T,2> x( 0 );
        take( A, 2, 2 ); take( B, 2, U ); take( H, M, 2 ); x( 0 ) = p[0]; x( 1 ) = p[1];
        auto sym = [&]( auto & m, int d ) { for ( int y = 0; y < d; ++y ) for ( int z = y; z < d; ++z ) m( y, z ) = m( z, y ) = p[ i++ % p.size() ]; for ( int y = 0; y < d; ++y ) m( y, y ) = m( y, y ) * m( y, y ) + T( 2 ); };
        sym( Q, 2 ); sym( R, M ); sym( P, 2 );
        K k( p[2], A, B, H, Q, R, P, x ); size_t j = 0;
        for ( u64 s = 0; s < n; ++s )
        {
            at(); num::colvec<T,U> u( 0 ); num::colvec<T,M> z( 0 ); for ( int a = 0; a < U; ++a ) u( a ) = in[ j++ ]; for ( int a = 0; a < M; ++a ) z( a ) = in[ j++ ];
            k.update( u, z ); auto q = observe( k ); for ( T v : q.x ) out.push_back( bits( v ) ); for ( T v : q.P ) out.push_back( bits( v ) ); for ( T v : q.K ) out.push_back( bits( v ) ); out.push_back( bits( q.t ) );
        } } };
}
template< typename T > Job filter_job( Ctx & c, std::function<T()> value, u64 n )
{
    auto d = draw_filter<T,T>( c, [&]{ return Coef<T>{ value(), value(), value(), value(), value() }; }, []( T x ) { return x; }, false );
    std::vector<T> in; std::vector<bool> rs; for ( u64 i = 0; i < n; ++i ) { in.push_back( value() ); rs.push_back( c.chance( 1, 16 ) ); }
    std::shared_ptr<Obj<T>> recipe = std::move( d.o );
    return { recipe->name(), [=]( std::vector<u64> & out, std::function<void()> at ) { auto o = recipe->fresh(); for ( size_t i = 0; i < in.size(); ++i ) { at(); if ( rs[i] ) o->reset(); out.push_back( bits( o->step( in[i] ) ) ); } } };
}
template< typename T > Job job( Ctx & c, std::function<T()> value )
{
    u64 n = 1 + c.logu( 12 ); u64 k = c.draw( 8 ); c.cover( k * 16 + n );
    switch ( k ) { case 4: return kalman_job<T,1,1>( c, value, n ); case 5: return kalman_job<T,2,1>( c, value, n ); case 6: return kalman_job<T,1,2>( c, value, n ); case 7: return kalman_job<T,2,2>( c, value, n ); default: return filter_job<T>( c, value, 1 + c.logu( 40 ) ); }
}
template< typename T > void preempted( Ctx & c, std::function<T()> value )
{
    std::vector<Job> jobs; int n = 2 + (int) c.draw( 4 );
    for ( int i = 0; i < n; ++i ) jobs.push_back( i && c.chance( 1, 3 ) ? jobs[ c.draw( jobs.size() ) ] : job<T>( c, value ) );   // equal parameters make accidental sharing look most innocent
    std::vector<std::vector<u64>> solo( n ), conc( n );
    reset_points();
    std::vector<u64> ops( n );
    for ( int i = 0; i < n; ++i ) { u64 o0 = points().ops; jobs[i].go( solo[i], []{} ); ops[i] = points().ops - o0; c.ev( "job %d: %s, %zu results", i, jobs[i].what.c_str(), solo[i].size() ); }
    auto judge = [&]( std::vector<u64> const & got, int i, bool whole, char const * when ) {
        if ( got.size() > solo[i].size() || ( whole && got.size() != solo[i].size() ) ) c.fail( "interference", "job %d (%s) gave %zu results %s, alone it gives %zu", i, jobs[i].what.c_str(), got.size(), when, solo[i].size() );
        for ( size_t j = 0; j < got.size(); ++j ) if ( got[j] != solo[i][j] ) c.fail( "interference", "job %d (%s): result %zu %s differs from what the object gives when it runs alone", i, jobs[i].what.c_str(), j, when ); };
    int mode = (int) c.draw( 2 ); std::optional<Sched> sched; 
    if ( mode == 0 )
    {   // tasks under the seeded scheduler, some killed at an arbitrary point
        std::vector<bool> dead( n );
        {
            sched.emplace( c ); Sched & s = *sched; for ( int i = 0; i < n; ++i ) s.spawn( [&, i]{ jobs[i].go( conc[i], []{ sched_point(); } ); } );
            int kills = c.draw( 3 ) == 2 ? 1 + (int) c.draw( 2 ) : 0; u64 gap = c.draw( 2 ) ? 8 : 200;
            s.run( gap, [&]( Sched & q ) { if ( kills && c.chance( 1, 12 ) ) { int t = (int) c.draw( n ); if ( q.started( t ) && !q.finished( t ) ) { q.kill( t ); --kills; dead[t] = true; c.fault( "task killed inside a computation" ); } } } );
            c.fault( "preemption", s.switches );
        }
        for ( int i = 0; i < n; ++i ) { judge( conc[i], i, !dead[i], "under preemption" ); for ( u64 v : conc[i] ) c.h( v ); }
        points().sched = nullptr;
    }
    else
    {   // interrupt style: job 0 computes; at drawn points whole other jobs run to their end inside it, themselves interrupted
        int depth = 0; std::function<void( int )> arm;
        std::function<void()> isr = [&]{
            if ( depth >= 3 ) return; ++depth; int i = 1 + (int) c.draw( n - 1 ); c.cover( i * 8 + depth ); c.fault( depth > 1 ? "nested interrupt" : "interrupt" );
            std::vector<u64> out; arm( i ); jobs[i].go( out, []{ sched_point(); } ); judge( out, i, true, "run inside another computation" ); --depth; arm( 0 ); };
        int left = 24;
        arm = [&]( int i ) { if ( left-- <= 0 ) { points().budget = ~0ull; return; } points().hook = isr; points().budget = c.logu( ops[i] * 2 + 2 ); };
        arm( 0 ); jobs[0].go( conc[0], []{ sched_point(); } ); points().budget = ~0ull; points().hook = {};
        judge( conc[0], 0, true, "while interrupted" ); for ( u64 v : conc[0] ) c.h( v );
    }
    // nothing may outlive the objects either
    for ( int i = 0; i < n; ++i ) { std::vector<u64> again; jobs[i].go( again, []{} ); judge( again, i, true, "after the others are gone" ); }
    reset_points();
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "E05";
    ck.rule = "A run draws 2 to 5 jobs (estimators of four shapes, biquads, one-pole filters, cascades; some with equal parameters), executes each alone, then all together - as tasks switched at drawn operations and possibly killed there, or nested interrupt-style - and then alone again. Every result of every job must be the same each time. Non-trivial: at least one preemption; distinct by schedule.";
    ck.distinct_measure = "hash of the schedule (task and operation count of every slice, interrupt points, kills)";
    ck.real = { "num::kalman, num::matrix, dsp::BiQuadT, dsp::OnePoleT, dsp::BiQuadCascadeT from /repo/include" }; ck.stub = { "task scheduler and interrupt source (simulated); switches happen at arithmetic operations, copies and assignments of the number type" };
    ck.assumptions = { "distinct objects; one object is never stepped by two tasks at once", "preemption at arithmetic operations, copies and assignments of numbers, and between calls (instruction-level preemption on the target is E06)" };
    ck.scenarios.push_back( { "exact", 500000, 20000000, []( Ctx & c ) { preempted<V>( c, [&]{ return val( c ); } ); } } );
#if USE_GF
    ck.scenarios.push_back( { "double", 200000, 8000000, []( Ctx & c ) { preempted<W>( c, [&]{ return W( c.real( -1, 1 ) ); } ); } } );
#endif
    return dst_main( argc, argv, ck );
}
