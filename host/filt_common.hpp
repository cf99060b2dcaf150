// Shared by the filter checks: uniform handle on the real filter objects, independent reference, generators.
#pragma once
#include "../engine/num.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include <array>
#include <memory>

using namespace dst;
#ifndef USE_GF
#define USE_GF 1
#endif

template< typename R > struct Coef { R b0, b1, b2, a1, a2; };

// difference equation from its definition, started from rest
template< typename R > struct RefSection
{
    Coef<R> k; R x1 = R( 0 ), x2 = R( 0 ), y1 = R( 0 ), y2 = R( 0 );
    explicit RefSection( Coef<R> const & c ) : k( c ) {}
    R step( R x ) { R y = k.b0 * x + k.b1 * x1 + k.b2 * x2 - k.a1 * y1 - k.a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; return y; }
    void reset() { x1 = x2 = y1 = y2 = R( 0 ); }
};

enum Form { DF2, STEP, DF2T };
inline char const * form_name( int f ) { return f == DF2 ? "df2" : f == STEP ? "step" : "df2_transposed"; }

// ---- the objects under test behind one interface
template< typename T > struct Obj
{
    virtual ~Obj() {}
    virtual T step( T x ) = 0;
    virtual T step_count( int x ) { return step( T( x ) ); }                      // the same, handed a converter count as it is
    virtual T step_coarse( float x ) { return step( T( (int) x ) ); }                   // the same, handed a single-precision sample
    virtual void reset() = 0;
    virtual std::unique_ptr<Obj> clone() const = 0;
    virtual std::unique_ptr<Obj> fresh() const = 0;          // newly constructed, same coefficients
    virtual bool exchange( Obj & ) { return false; }         // swap with an object of the same kind
    virtual void assign( Obj const & ) = 0;                  // restore from a snapshot of the same kind
    virtual std::vector<T> coeffs() const = 0;
    virtual std::vector<T> state() const = 0;
    virtual void look( double ) const {}                     // exercise the pure observers
    virtual char const * name() const = 0;
};
template< typename T, typename S > dsp::BiQuadT<T,S> make_bq( std::vector<S> const & k )
{
    using Q = dsp::BiQuadT<T,S>; typename Q::B b; b.b0 = k[0]; b.b1 = k[1]; b.b2 = k[2]; typename Q::A a; a.a1 = k[3]; a.a2 = k[4];
    if ( k[3] == S( 0 ) && k[4] == S( 0 ) ) return Q( b );      // without feedback there is a constructor of its own
    return Q( b, a );
}
template< typename V > double sink( V const & v ) { static volatile double s; double x = (double) std::abs( v ); s = x; return x; }
template< typename T, bool Real > struct Looker { template< typename F > static void section( F const &, double ) {} template< typename F > static void cascade( F const &, double ) {} };
template< typename T > struct Looker<T,true>
{
    template< typename F > static void section( F const & q, double f ) { auto p = q.poles(); (void) p; auto z = q.zeros(); (void) z; bool s = q.is_stable(); (void) s; sink( response( q, (T) f ) ); }
    template< typename F > static void cascade( F const & q, double f ) { bool s = is_stable( q ); (void) s; sink( response( q, (T) f ) ); }
};
template< typename T, typename S = T > struct BqObj : Obj<T>
{
    dsp::BiQuadT<T,S> q; std::vector<S> k; Form f;
    BqObj( std::vector<S> k_, Form f_ ) : q( make_bq<T,S>( k_ ) ), k( k_ ), f( f_ ) {}
    T step( T x ) override { return f == DF2 ? q.step_df2( x ) : f == STEP ? q.step( x ) : q.step_df2_transposed( x ); }
    template< typename U > T step_any( U x ) { if constexpr ( std::is_floating_point_v<T> ) { return f == DF2 ? q.step_df2( x ) : f == STEP ? q.step( x ) : q.step_df2_transposed( x ); } else return step( T( (int) x ) ); }
    T step_count( int x ) override { return step_any( x ); }
    T step_coarse( float x ) override { return step_any( x ); }
    void reset() override { q.reset(); }
    std::unique_ptr<Obj<T>> clone() const override { return std::make_unique<BqObj>( *this ); }
    std::unique_ptr<Obj<T>> fresh() const override { return std::make_unique<BqObj>( k, f ); }
    bool exchange( Obj<T> & o ) override { auto & p = static_cast<BqObj &>( o ); q.swap( p.q ); std::swap( k, p.k ); return true; }
    void assign( Obj<T> const & o ) override { auto & p = static_cast<BqObj const &>( o ); q = p.q; k = p.k; f = p.f; }
    std::vector<T> coeffs() const override { auto a = q.coeff_a(); auto b = q.coeff_b(); return { T( b.b0 ), T( b.b1 ), T( b.b2 ), T( a.a1 ), T( a.a2 ) }; }
    std::vector<T> state() const override { auto w = q.state(); return { w.v1, w.v2 }; }
    void look( double fn ) const override { Looker<T,std::is_floating_point_v<T> && std::is_same_v<T,S>>::section( q, fn ); }
    char const * name() const override { return f == DF2T ? "biquad section, transposed form" : "biquad section"; }
};
template< typename T, typename S = T > struct OpObj : Obj<T>
{
    using Q = dsp::OnePoleT<T,S>; Q q; std::vector<S> k;
    static Q mk( std::vector<S> const & k ) { typename Q::B b; b.b0 = k[0]; if ( k[1] == S( 0 ) ) return Q( b ); typename Q::A a; a.a1 = k[1]; return Q( b, a ); }
    explicit OpObj( std::vector<S> k_ ) : q( mk( k_ ) ), k( k_ ) {}
    T step( T x ) override { return q.step( x ); }
    template< typename U > T step_any( U x ) { if constexpr ( std::is_floating_point_v<T> ) { return q.step( x ); } else return step( T( (int) x ) ); }
    T step_count( int x ) override { return step_any( x ); }
    T step_coarse( float x ) override { return step_any( x ); }
    void reset() override { q.reset(); }
    std::unique_ptr<Obj<T>> clone() const override { return std::make_unique<OpObj>( *this ); }
    std::unique_ptr<Obj<T>> fresh() const override { return std::make_unique<OpObj>( k ); }
    bool exchange( Obj<T> & o ) override { auto & p = static_cast<OpObj &>( o ); q.swap( p.q ); std::swap( k, p.k ); return true; }
    void assign( Obj<T> const & o ) override { auto & p = static_cast<OpObj const &>( o ); q = p.q; k = p.k; }
    std::vector<T> coeffs() const override { return { T( q.coeff_b().b0 ), T( q.coeff_a().a1 ) }; }
    std::vector<T> state() const override { return { q.state().v1 }; }
    void look( double fn ) const override { if constexpr ( std::is_floating_point_v<T> && std::is_same_v<T,S> ) { sink( response( q, (T) fn ) ); bool s = q.is_stable(); (void) s; } }
    char const * name() const override { return "one-pole section"; }
};
template< typename T, int N > struct CaObj : Obj<T>
{
    using Q = dsp::BiQuadCascadeT<T,N>; Q q; std::vector<std::vector<T>> k; Form f; bool direct = false;
    CaObj( std::vector<std::vector<T>> k_, Form f_, bool construct ) : k( k_ ), f( f_ ), direct( construct )
    {
        bool done = false;
        if constexpr ( N >= 3 ) if ( construct && k.size() == 3 ) { q = Q( make_bq<T,T>( k[0] ), make_bq<T,T>( k[1] ), make_bq<T,T>( k[2] ) ); done = true; }
        if constexpr ( N >= 2 ) if ( construct && k.size() == 2 ) { q = Q( make_bq<T,T>( k[0] ), make_bq<T,T>( k[1] ) ); done = true; }
        if ( construct && k.size() == 1 ) { q = Q( make_bq<T,T>( k[0] ) ); done = true; }
        if ( !done ) for ( auto & s : k ) q.append( make_bq<T,T>( s ) );
    }
    T step( T x ) override { return f == DF2 ? step_df2( q, x ) : f == STEP ? dsp::biquad_cascade::step( q, x ) : step_df2_transposed( q, x ); }
    template< typename U > T step_any( U x ) { if constexpr ( std::is_floating_point_v<T> ) { return f == DF2 ? step_df2( q, x ) : f == STEP ? dsp::biquad_cascade::step( q, x ) : step_df2_transposed( q, x ); } else return step( T( (int) x ) ); }
    T step_count( int x ) override { return step_any( x ); }
    T step_coarse( float x ) override { return step_any( x ); }
    void reset() override { dsp::biquad_cascade::reset( q ); }
    std::unique_ptr<Obj<T>> clone() const override { return std::make_unique<CaObj>( *this ); }
    std::unique_ptr<Obj<T>> fresh() const override { return std::make_unique<CaObj>( k, f, direct ); }
    bool exchange( Obj<T> & o ) override { auto & p = static_cast<CaObj &>( o ); std::swap( q, p.q ); std::swap( k, p.k ); return true; }
    void assign( Obj<T> const & o ) override { auto & p = static_cast<CaObj const &>( o ); q = p.q; k = p.k; f = p.f; }
    std::vector<T> coeffs() const override { std::vector<T> r; for ( int i = 0; i < (int) q.size(); ++i ) { auto a = q.coeff_a( i ); auto b = q.coeff_b( i ); for ( T x : { b.b0, b.b1, b.b2, a.a1, a.a2 } ) r.push_back( x ); } return r; }
    std::vector<T> state() const override { std::vector<T> r; for ( int i = 0; i < (int) q.size(); ++i ) { auto w = q.state( i ); r.push_back( w.v1 ); r.push_back( w.v2 ); } return r; }
    void look( double fn ) const override { Looker<T,std::is_floating_point_v<T>>::cascade( q, fn ); }
    char const * name() const override { return "cascade"; }
};

// a drawn filter: its real object and the sections that define it
template< typename T, typename R > struct Drawn { std::unique_ptr<Obj<T>> o; std::vector<Coef<R>> sec; double radius = 0; };

template< typename T > std::unique_ptr<Obj<T>> make_cascade( int cap, std::vector<std::vector<T>> const & k, Form f, bool direct )
{
    switch ( cap ) { case 1: return std::make_unique<CaObj<T,1>>( k, f, direct ); case 2: return std::make_unique<CaObj<T,2>>( k, f, direct ); case 3: return std::make_unique<CaObj<T,3>>( k, f, direct ); case 4: return std::make_unique<CaObj<T,5>>( k, f, direct ); default: return std::make_unique<CaObj<T,8>>( k, f, direct ); }
}
inline int cap_of( int c ) { return c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 3 : c == 4 ? 5 : 8; }

// draw coefficients with `coef()` -> Coef<R>, convert with conv
template< typename T, typename R, typename Gen, typename Conv > Drawn<T,R> draw_filter( Ctx & c, Gen coef, Conv conv, bool describe = true )
{
    Drawn<T,R> d; int kind = (int) c.draw( 3 ); Form f = (Form) c.draw( 3 );
    auto vec = [&]( Coef<R> const & k ) { return std::vector<T>{ conv( k.b0 ), conv( k.b1 ), conv( k.b2 ), conv( k.a1 ), conv( k.a2 ) }; };
    if ( kind == 0 ) { auto k = coef(); d.sec.push_back( k ); d.o = std::make_unique<BqObj<T>>( vec( k ), f ); if ( describe ) c.ev( "biquad section, %s", form_name( f ) ); }
    else if ( kind == 1 ) { auto k = coef(); k.b1 = k.b2 = k.a2 = R( 0 ); d.sec.push_back( k ); d.o = std::make_unique<OpObj<T>>( std::vector<T>{ conv( k.b0 ), conv( k.a1 ) } ); if ( describe ) c.ev( "one-pole section" ); }
    else
    {
        int cap = 1 + (int) c.draw( 5 ), n = (int) c.draw( cap_of( cap ) + 1 ); std::vector<std::vector<T>> ks;
        for ( int i = 0; i < n; ++i ) { auto k = coef(); d.sec.push_back( k ); ks.push_back( vec( k ) ); }
        bool direct = c.draw( 2 ); d.o = make_cascade<T>( cap, ks, f, direct ); if ( describe ) c.ev( "cascade of %d of at most %d sections, %s", n, cap_of( cap ), form_name( f ) );
    }
    return d;
}
#if USE_GF
#ifndef DST_HAVE_GF_GEN
#define DST_HAVE_GF_GEN
inline GF gf( Ctx & c ) { u64 k = c.draw( 8 ); if ( k == 0 ) return GF( 0 ); if ( k == 1 ) return GF( 1 ); if ( k < 4 ) return GF( c.range( -5, 5 ) ); return GF::raw( c.draw( GF::P ) ); }
#endif
inline Coef<GF> gf_coef( Ctx & c ) { return { gf( c ), gf( c ), gf( c ), gf( c ), gf( c ) }; }
#endif
// stable section from drawn poles and zeros; radius of the slowest pole is returned through r
inline Coef<double> real_coef( Ctx & c, double & r, bool first_order, double rmax = 0.995 )
{
    Coef<double> k; auto pair = [&]( double lim, double & s, double & p ) {
        if ( c.draw( 2 ) ) { double m = c.real( 0, lim ), w = c.real( 0, 3.14159 ); s = -2 * m * std::cos( w ); p = m * m; r = std::max( r, lim > 1 ? 0 : m ); }
        else { double x = c.real( -lim, lim ), y = c.real( -lim, lim ); s = -( x + y ); p = x * y; if ( lim <= 1 ) r = std::max( { r, std::fabs( x ), std::fabs( y ) } ); } };
    if ( first_order ) { double x = c.real( -rmax, rmax ); k.a1 = -x; k.a2 = 0; r = std::max( r, std::fabs( x ) ); } else pair( rmax, k.a1, k.a2 );
    double g = c.real( -2, 2 ), zs, zp; pair( 1.2, zs, zp ); k.b0 = g; k.b1 = g * zs; k.b2 = g * zp; if ( c.chance( 1, 8 ) ) k.b0 = 0;
    return k;
}
