// F05: snapshots and exchanges of running objects are exact and independent.
#define DST_CORO_IMPL
#include "filt_common.hpp"
#include "est_common.hpp"
#include "num/fixed-point.hpp"
#include <new>

inline u64 bits( double a ) { if ( a != a ) return 1; if ( a == 0 ) a = 0; u64 x; std::memcpy( &x, &a, 8 ); return x; }
inline u64 bits( float a ) { return bits( (double) a ); }
template< typename F > u64 bits( Pt<F> a ) { return bits( (double) a.v ); }
#if USE_GF
inline u64 bits( GF a ) { return a.v; }
#endif
template< typename R, int I, int F > u64 bits( num::fixed_point<R,I,F> a ) { return (u64)(std::int64_t) a.underlying_value(); }

// estimator behind the same interface; its parameters stay constant, so it is copied, never exchanged
template< typename T, int M, int U > struct KaObj : Obj<T>
{
    using K = num::kalman<T,2,M,U>;
    std::vector<T> p; std::unique_ptr<K> k; int updates = 0;
    static K * mk( std::vector<T> const & p )
    {
        size_t i = 1; auto take = [&]( auto & m, int r, int c ) { for ( int y = 0; y < r; ++y ) for ( int x = 0; x < c; ++x ) m( y, x ) = p[ i++ % p.size() ]; };
        typename K::A_t A( 0 ); typename K::B_t B( 0 ); typename K::H_t H( 0 ); typename K::Q_t Q( 0 ); typename K::R_t R( 0 ); typename K::P_t P( 0 ); num::colvec<T,2> x( 0 );
        take( A, 2, 2 ); take( B, 2, U ); take( H, M, 2 ); x( 0 ) = p[0]; x( 1 ) = p[1];
        auto sym = [&]( auto & m, int n ) { for ( int y = 0; y < n; ++y ) for ( int z = y; z < n; ++z ) m( y, z ) = m( z, y ) = p[ i++ % p.size() ]; for ( int y = 0; y < n; ++y ) m( y, y ) = m( y, y ) * m( y, y ) + T( 2 ); };
        sym( Q, 2 ); sym( R, M ); sym( P, 2 ); return new K( p[2], A, B, H, Q, R, P, x );
    }
    explicit KaObj( std::vector<T> q ) : p( q ), k( mk( q ) ) {}
    KaObj( KaObj const & o ) : p( o.p ), k( new K( *o.k ) ), updates( o.updates ) {}
    T step( T x ) override
    {
        num::colvec<T,U> u( 0 ); num::colvec<T,M> z( 0 ); for ( int i = 0; i < U; ++i ) u( i ) = x + T( i ); for ( int i = 0; i < M; ++i ) z( i ) = x * T( i + 1 ) - T( 1 );
        k->update( u, z ); ++updates; T s = T( 0 ), w = T( 1 ); for ( auto v : state() ) { s = s + w * v; w = w * T( 3 ) + T( 1 ); } return s;
    }
    void reset() override { k.reset( mk( p ) ); updates = 0; }
    std::unique_ptr<Obj<T>> clone() const override { return std::make_unique<KaObj>( *this ); }
    std::unique_ptr<Obj<T>> fresh() const override { return std::make_unique<KaObj>( p ); }
    void assign( Obj<T> const & o ) override { auto & q = static_cast<KaObj const &>( o ); if ( &q == this ) return; p = q.p; k.reset( new K( *q.k ) ); updates = q.updates; }
    std::vector<T> coeffs() const override { return p; }
    std::vector<T> state() const override { auto q = observe( *k ); std::vector<T> r{ q.x[0], q.x[1], q.P[0], q.P[1], q.P[2], q.P[3], q.t }; if ( updates ) for ( T v : q.K ) r.push_back( v ); return r; }   // no gain before the first update
    char const * name() const override { return "estimator"; }
};

// The shadow of an object is made by construction and stepped through the object's own history; it is never copied, restored or exchanged.
template< typename T > struct Entity
{
    std::unique_ptr<Obj<T>> real, shadow; std::vector<std::pair<int,T>> hist; std::shared_ptr<Obj<T>> recipe; int group;
    void rebuild() { shadow = recipe->fresh(); for ( auto & h : hist ) if ( h.first ) shadow->reset(); else shadow->step( h.second ); }
};

template< typename T > void exchange_run( Ctx & c, std::function<T()> value, std::function<T()> coef, bool estimators )
{
    reset_points();
    std::vector<Entity<T>> pool; int groups = 1 + (int) c.draw( 3 );
    auto vec = [&]( int n ) { std::vector<T> v; for ( int i = 0; i < n; ++i ) v.push_back( coef() ); return v; };
    for ( int g = 0; g < groups; ++g )
    {
        int kind = (int) c.draw( estimators ? 6 : 4 ), cap = 1 + (int) c.draw( 5 ); Form f = (Form) c.draw( 3 ); int n = 1 + (int) c.draw( 3 ); c.cover( kind * 64 + cap * 8 + f );
        for ( int i = 0; i < n; ++i )
        {
            Entity<T> e; e.group = g;
            switch ( kind )
            {
                case 0: e.real = std::make_unique<BqObj<T>>( vec( 5 ), f ); break;
                case 1: e.real = std::make_unique<OpObj<T>>( vec( 2 ) ); break;
                case 2: case 3: { int m = (int) c.draw( cap_of( cap ) + 1 ); std::vector<std::vector<T>> ks; for ( int j = 0; j < m; ++j ) ks.push_back( vec( 5 ) ); e.real = make_cascade<T>( cap, ks, f, c.draw( 2 ) ); break; }
                case 4: if ( f == DF2 ) e.real = std::make_unique<KaObj<T,1,2>>( vec( 16 ) ); else e.real = std::make_unique<KaObj<T,1,1>>( vec( 16 ) ); break;
                default: if ( f == DF2 ) e.real = std::make_unique<KaObj<T,2,2>>( vec( 20 ) ); else e.real = std::make_unique<KaObj<T,2,1>>( vec( 20 ) );
            }
            e.recipe = e.real->fresh(); e.rebuild(); pool.push_back( std::move( e ) );
        }
    }
    auto compare = [&]( char const * after ) { for ( size_t i = 0; i < pool.size(); ++i ) { auto a = pool[i].real->coeffs(), b = pool[i].shadow->coeffs(); bool ok = a.size() == b.size(); for ( size_t j = 0; ok && j < a.size(); ++j ) ok = bits( a[j] ) == bits( b[j] );
        if ( !ok ) c.fail( "coefficients", "after %s object %zu (%s) does not have the coefficients it should have", after, i, pool[i].real->name() );
        a = pool[i].real->state(); b = pool[i].shadow->state(); ok = a.size() == b.size(); for ( size_t j = 0; ok && j < a.size(); ++j ) ok = bits( a[j] ) == bits( b[j] );
        if ( !ok ) c.fail( "state", "after %s object %zu (%s) does not report the state its history requires", after, i, pool[i].real->name() ); } };
    u64 const steps = 4 + c.logu( c.chance( 1, 64 ) ? 1500 : 150 );
    for ( u64 t = 0; t < steps; ++t )
    {
        c.step(); size_t i = c.draw( pool.size() ); auto & e = pool[i]; u64 op = c.draw( 12 ); char const * what = nullptr;
        auto partner = [&]{ std::vector<size_t> v; for ( size_t j = 0; j < pool.size(); ++j ) if ( pool[j].group == e.group ) v.push_back( j ); return v[ c.draw( v.size() ) ]; };
        switch ( op )
        {
            case 6: case 7: if ( pool.size() < 10 ) { Entity<T> n; n.real = e.real->clone(); n.recipe = e.recipe; n.hist = e.hist; n.group = e.group; n.rebuild(); c.note( "copy %zu -> %zu", i, pool.size() ); pool.push_back( std::move( n ) ); c.fault( "snapshot of a running object" ); what = "a copy"; } break;
            case 8: { size_t j = partner(); auto & o = pool[j]; if ( e.real->exchange( *o.real ) && &e != &o ) { std::swap( e.shadow, o.shadow ); std::swap( e.hist, o.hist ); std::swap( e.recipe, o.recipe ); } c.note( "exchange %zu <-> %zu", i, j ); c.fault( i == j ? "exchange with itself" : "exchange of two running objects" ); what = "an exchange"; break; }
            case 9: { size_t j = partner(); auto & o = pool[j]; if ( c.chance( 1, 2 ) && j != i ) { for ( u64 n = c.draw( 4 ); n--; ) e.real->step( value() ); c.fault( "object faulted before the restore" ); }
                e.real->assign( *o.real ); if ( i != j ) { e.hist = o.hist; e.recipe = o.recipe; e.rebuild(); } c.note( "restore %zu from %zu", i, j ); c.fault( "restore from a snapshot" ); what = "a restore"; break; }
            case 10: if ( pool.size() > 1 && c.chance( 1, 2 ) ) { c.note( "destroy %zu", i ); pool.erase( pool.begin() + i ); c.fault( "original or copy destroyed" ); compare( "a destruction" ); continue; } break;
            case 11: if ( c.chance( 1, 4 ) ) { e.real->reset(); e.shadow->reset(); e.hist.push_back( { 1, T( 0 ) } ); c.fault( "reset" ); } break;
            default:
            {
                T x = value(); T a = e.real->step( x ), b = e.shadow->step( x ); e.hist.push_back( { 0, x } ); c.h( bits( b ) );
                if ( bits( a ) != bits( b ) ) c.fail( "continuation", "object %zu (%s) does not continue as its history requires (step %llu of the run, %zu inputs)", i, e.real->name(), (unsigned long long) t, e.hist.size() );
            }
        }
        if ( what ) compare( what );
    }
    // every object still alive must continue right
    for ( size_t i = 0; i < pool.size(); ++i ) for ( int j = 0; j < 4; ++j ) { T x = value(); if ( bits( pool[i].real->step( x ) ) != bits( pool[i].shadow->step( x ) ) ) c.fail( "continuation", "object %zu (%s) does not continue as its history requires at the end of the run", i, pool[i].real->name() ); }
}
#if USE_GF
void exact( Ctx & c ) { exchange_run<GF>( c, [&]{ return gf( c ); }, [&]{ return gf( c ); }, true ); }
#endif
void doubles( Ctx & c ) { exchange_run<double>( c, [&]() -> double { u64 k = c.draw( 32 ); return k == 31 ? 1e300 * 1e10 : k == 30 ? 1e-310 : c.real( -3, 3 ); }, [&]{ return c.real( -0.9, 0.9 ); }, true ); }
void floats( Ctx & c ) { exchange_run<float>( c, [&]() -> float { return (float) c.real( -3, 3 ); }, [&]{ return (float) c.real( -0.9, 0.9 ); }, true ); }
using X16 = num::fixed_point<std::int16_t,4>;
void fixed( Ctx & c ) { exchange_run<X16>( c, [&]{ return X16( c.real( -3, 3 ) ); }, [&]{ return X16( c.real( -0.9, 0.9 ) ); }, false ); }
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F05";
    ck.rule = "A run draws a pool of running objects (sections in three stepping functions, one-pole filters, cascades of five capacities, estimators with 1 or 2 measurements and controls) and a history of steps, snapshots, exchanges, restores (also after a fault), self-exchanges, resets and destructions. Each object has a shadow built by construction and stepped through the same history, never copied or exchanged; all outputs and coefficients must agree bit for bit. Built with AddressSanitizer. Non-trivial: at least one snapshot, exchange or restore; distinct by object kinds and operation sequence.";
    ck.distinct_measure = "hash of object kinds and fault sequence";
    ck.real = { "num::kalman, dsp::BiQuadT, dsp::OnePoleT, dsp::BiQuadCascadeT, num::fixed_point from /repo/include" }; ck.stub = { "operation and signal source (simulated)" };
    ck.assumptions = { "estimators have constant parameters and are copied, not assigned or exchanged" };
#if USE_GF
    ck.scenarios.push_back( { "exact", 150000, 6000000, exact } );
#endif
    ck.scenarios.push_back( { "double", 100000, 4000000, doubles } ); ck.scenarios.push_back( { "float", 50000, 2000000, floats } ); ck.scenarios.push_back( { "fixed16", 50000, 2000000, fixed } );
    return dst_main( argc, argv, ck );
}
