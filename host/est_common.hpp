// Shared by the estimator checks: independent reference recursion, model generators, sensor fault layer.
#pragma once
#include "../engine/num.hpp"
#include "dsp/kalman.hpp"
#include <array>
#include <memory>

using namespace dst;
#ifndef USE_GF
#define USE_GF 1
#endif

template< typename R > R inv_scalar( R s ) { return s == R( 0 ) ? R( 0 ) : R( 1 ) / s; }

// plain 2-d arrays, sizes as template parameters; written from the textbook, not from the library
template< typename R, int N, int M > struct Mat
{
    R a[N][M];
    Mat() { for ( auto & r : a ) for ( auto & x : r ) x = R( 0 ); }
};
template< typename R, int N, int K, int M > Mat<R,N,M> mul( Mat<R,N,K> const & x, Mat<R,K,M> const & y )
{ Mat<R,N,M> r; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) { R s = R( 0 ); for ( int k = 0; k < K; ++k ) s = s + x.a[i][k] * y.a[k][j]; r.a[i][j] = s; } return r; }
template< typename R, int N, int M > Mat<R,N,M> add( Mat<R,N,M> const & x, Mat<R,N,M> const & y ) { Mat<R,N,M> r; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r.a[i][j] = x.a[i][j] + y.a[i][j]; return r; }
template< typename R, int N, int M > Mat<R,N,M> sub( Mat<R,N,M> const & x, Mat<R,N,M> const & y ) { Mat<R,N,M> r; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r.a[i][j] = x.a[i][j] - y.a[i][j]; return r; }
template< typename R, int N, int M > Mat<R,M,N> tr( Mat<R,N,M> const & x ) { Mat<R,M,N> r; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r.a[j][i] = x.a[i][j]; return r; }

template< typename R, int M, int U > struct Model
{
    R dt; Mat<R,2,2> A; Mat<R,2,U> B; Mat<R,M,2> H; Mat<R,2,2> Q; Mat<R,M,M> R_; Mat<R,2,2> P; Mat<R,2,1> x;
};

template< typename R, int M, int U > struct RefKalman
{
    Model<R,M,U> m; Mat<R,2,M> K; Mat<R,2,2> Ppred; R t = R( 0 ); bool singular = false; Mat<R,M,M> S;
    explicit RefKalman( Model<R,M,U> const & mm ) : m( mm ) {}
    void update( Mat<R,U,1> const & u, Mat<R,M,1> const & z )
    {
        t = t + m.dt;
        m.x = add( mul( m.A, m.x ), mul( m.B, u ) );
        m.P = add( mul( mul( m.A, m.P ), tr( m.A ) ), m.Q ); Ppred = m.P;
        Mat<R,M,M> Si; S = add( mul( mul( m.H, m.P ), tr( m.H ) ), m.R_ );
        if constexpr ( M == 1 ) Si.a[0][0] = inv_scalar( S.a[0][0] );
        else
        {
            R det = S.a[0][0] * S.a[1][1] - S.a[0][1] * S.a[1][0];
            if ( det == R( 0 ) ) { singular = true; return; }
            Si.a[0][0] = S.a[1][1] / det; Si.a[1][1] = S.a[0][0] / det; Si.a[0][1] = R( 0 ) - S.a[0][1] / det; Si.a[1][0] = R( 0 ) - S.a[1][0] / det;
        }
        K = mul( mul( m.P, tr( m.H ) ), Si );
        m.x = add( m.x, mul( K, sub( z, mul( m.H, m.x ) ) ) );
        Mat<R,2,2> I; I.a[0][0] = I.a[1][1] = R( 1 );
        m.P = mul( sub( I, mul( K, m.H ) ), m.P );
    }
};

template< typename T, int N, int M, typename R, typename F > num::matrix<T,N,M> lib( Mat<R,N,M> const & x, F conv )
{ num::matrix<T,N,M> r( 0 ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r( i, j ) = conv( x.a[i][j] ); return r; }

template< typename T, int M, int U, typename R, typename F > std::unique_ptr<num::kalman<T,2,M,U>> make_kalman( Model<R,M,U> const & m, F conv )
{
    return std::unique_ptr<num::kalman<T,2,M,U>>( new num::kalman<T,2,M,U>( conv( m.dt ), lib<T,2,2>( m.A, conv ), lib<T,2,U>( m.B, conv ), lib<T,M,2>( m.H, conv ), lib<T,2,2>( m.Q, conv ), lib<T,M,M>( m.R_, conv ), lib<T,2,2>( m.P, conv ), lib<T,2,1>( m.x, conv ) ) );
}

// how far rounding may be amplified by one more update of this history
template< int M, int U > long double conditioning( RefKalman<long double,M,U> const & r )
{
    using L = long double; auto cond = []( L tr, L det ) { return det > 0 ? tr * tr / det : (L) 1; };
    L k = cond( r.m.P.a[0][0] + r.m.P.a[1][1] + r.Ppred.a[0][0] + r.Ppred.a[1][1], r.m.P.a[0][0] * r.m.P.a[1][1] - r.m.P.a[0][1] * r.m.P.a[1][0] );
    if constexpr ( M == 2 ) k = std::max( k, cond( r.S.a[0][0] + r.S.a[1][1], r.S.a[0][0] * r.S.a[1][1] - r.S.a[0][1] * r.S.a[1][0] ) );
    return k;
}

// published state of an estimator, read through its observers
template< typename T, int M > struct Pub { T x[2], P[4], K[2*M], t; };
template< typename T, int M, int U > Pub<T,M> observe( num::kalman<T,2,M,U> const & k, int order = 0 )
{
    Pub<T,M> p;
    for ( int i = 0; i < 4; ++i ) switch ( ( i + order ) & 3 )
    {
        case 0: { auto v = k.system_state();                 for ( int j = 0; j < 2; ++j ) p.x[j] = v( j ); break; }
        case 1: { auto v = k.estimation_error_covariance();  for ( int r = 0; r < 2; ++r ) for ( int c = 0; c < 2; ++c ) p.P[r*2+c] = v( r, c ); break; }
        case 2: { auto v = k.kalman_gain();                  for ( int r = 0; r < 2; ++r ) for ( int c = 0; c < M; ++c ) p.K[r*M+c] = v( r, c ); break; }
        case 3: p.t = k.time();
    }
    return p;
}

// ---------------------------------------------------------------- generators
#if USE_GF
#ifndef DST_HAVE_GF_GEN
#define DST_HAVE_GF_GEN
inline GF gf( Ctx & c ) { u64 k = c.draw( 8 ); if ( k == 0 ) return GF( 0 ); if ( k == 1 ) return GF( 1 ); if ( k < 4 ) return GF( c.range( -5, 5 ) ); return GF::raw( c.draw( GF::P ) ); }
#endif
template< int N, int M > Mat<GF,N,M> gf_mat( Ctx & c ) { Mat<GF,N,M> r; for ( auto & row : r.a ) for ( auto & x : row ) x = gf( c ); return r; }
template< int N > Mat<GF,N,N> gf_sym( Ctx & c, bool zero ) { Mat<GF,N,N> r; if ( zero ) return r; for ( int i = 0; i < N; ++i ) for ( int j = i; j < N; ++j ) r.a[i][j] = r.a[j][i] = gf( c ); return r; }
template< int M, int U > Model<GF,M,U> gf_model( Ctx & c )
{
    Model<GF,M,U> m; u64 deg = M == 1 ? c.draw( 12 ) : 0;   // 10: no uncertainty at all, 11: nothing measured and no noise -> zero innovation covariance
    m.dt = gf( c ); m.A = gf_mat<2,2>( c ); m.B = gf_mat<2,U>( c ); m.H = gf_mat<M,2>( c );
    m.Q = gf_sym<2>( c, deg == 10 ); m.R_ = gf_sym<M>( c, deg >= 10 ); m.P = gf_sym<2>( c, deg == 10 ); m.x = gf_mat<2,1>( c );
    if ( deg == 11 ) m.H = Mat<GF,M,2>();
    if ( deg >= 10 ) c.probe( "zero innovation covariance model" );
    return m;
}
#endif

// real-valued model; unit scale, stable or integrating dynamics, well-posed noise
template< int M, int U > Model<long double,M,U> real_model( Ctx & c, bool degenerate_ok )
{
    using L = long double; Model<L,M,U> m;
    L const s = std::pow( 10.0L, (L) c.range( -4, 4 ) );                 // physical unit scale
    auto rnd = [&]( double a, double b ) { return (L) (double) (float) c.real( a, b ); };
    m.dt = rnd( 0.001, 1.0 );
    switch ( c.draw( 4 ) )
    {
        case 0: m.A.a[0][0] = 1; m.A.a[0][1] = m.dt; m.A.a[1][0] = 0; m.A.a[1][1] = 1; break;                                  // position/velocity
        case 1: m.A.a[0][0] = rnd( -0.95, 0.95 ); m.A.a[1][1] = rnd( -0.95, 0.95 ); m.A.a[0][1] = rnd( -1, 1 ); break;           // stable triangular
        case 2: { L r = rnd( 0.3, 0.99 ), w = rnd( 0, 3.1 ); m.A.a[0][0] = m.A.a[1][1] = (L)(double)( r * std::cos( w ) ); m.A.a[0][1] = (L)(double)( -r * std::sin( w ) ); m.A.a[1][0] = (L)(double)( r * std::sin( w ) ); break; } // damped oscillation
        default: m.A.a[0][0] = 1; m.A.a[1][1] = rnd( 0.2, 0.98 ); m.A.a[0][1] = rnd( 0.05, 1 ); break;                           // integrator with lag
    }
    for ( auto & r : m.B.a ) for ( auto & x : r ) x = rnd( -1, 1 );
    if constexpr ( M == 1 ) { m.H.a[0][0] = rnd( 0.2, 2 ); m.H.a[0][1] = c.draw( 2 ) ? rnd( -1, 1 ) : 0; }
    else { m.H.a[0][0] = rnd( 0.2, 2 ); m.H.a[1][1] = rnd( 0.2, 2 ); m.H.a[0][1] = rnd( -1, 1 ); m.H.a[1][0] = rnd( -1, 1 ); }
    auto spd = [&]( auto & X, int n, L scale, bool zero_ok ) {
        L l[2][2] = { { 0 } }; for ( int i = 0; i < n; ++i ) { l[i][i] = rnd( 0.1, 1 ); for ( int j = 0; j < i; ++j ) l[i][j] = rnd( -0.8, 0.8 ); }
        L z = zero_ok && c.chance( 1, 8 ) ? 0 : scale;
        for ( int i = 0; i < n; ++i ) for ( int j = 0; j <= i; ++j ) { L v = 0; for ( int k = 0; k < n; ++k ) v += l[i][k] * l[j][k]; X.a[i][j] = X.a[j][i] = (L)(double)( z * v ); } };
    spd( m.R_, M, s * s * std::pow( 10.0L, (L) c.range( -2, 1 ) ), false );
    spd( m.Q, 2, s * s * std::pow( 10.0L, (L) c.range( -4, 0 ) ), degenerate_ok );
    spd( m.P, 2, s * s * std::pow( 10.0L, (L) c.range( -2, 2 ) ), degenerate_ok );
    for ( int i = 0; i < 2; ++i ) m.x.a[i][0] = rnd( -10, 10 ) * s;
    if ( degenerate_ok && M == 1 && c.chance( 1, 16 ) ) { m.R_ = Mat<L,M,M>(); m.Q = m.P = Mat<L,2,2>(); c.probe( "zero innovation covariance model" ); }
    return m;
}
