// F04: designed filters stay bounded under faults and settle to the designed gain.
#define DST_CORO_IMPL
#include "filt_common.hpp"
#include "dsp/chebyshev-design.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/biquad-design.hpp"
#include "dsp/filter.hpp"
#include <complex>

using L = long double; using C = std::complex<L>; L const PI = std::acos( (L) -1 );

// The textbook filter: analog zeros, poles and gain, brought to the z-plane by the bilinear transform s = (1 - z^-1)/(1 + z^-1).
struct Ref
{
    std::vector<C> z, p; L k = 1;      // digital
    void analog( std::vector<C> az, std::vector<C> ap, L gain )
    {
        C g = gain; for ( auto s : az ) { z.push_back( ( (L) 1 + s ) / ( (L) 1 - s ) ); g *= (L) 1 - s; } for ( auto s : ap ) { p.push_back( ( (L) 1 + s ) / ( (L) 1 - s ) ); g /= (L) 1 - s; }
        while ( z.size() < p.size() ) z.push_back( -1 ); k = g.real();
    }
    C H( L f ) const { C w = std::exp( C( 0, 2 * PI * f ) ), h = k; for ( auto a : z ) h *= w - a; for ( auto a : p ) h /= w - a; for ( size_t i = z.size(); i < p.size(); ++i ) h *= w; return h; }
    L radius() const { L r = 0; for ( auto a : p ) r = std::max( r, std::abs( a ) ); return r; }
    // sum of |impulse response|: the largest output any input bounded by one can cause
    L bound( u64 n ) const
    {
        std::vector<C> a{ 1 }, b{ k }; for ( auto q : p ) { a.push_back( 0 ); for ( size_t i = a.size() - 1; i > 0; --i ) a[i] -= q * a[i-1]; } for ( auto q : z ) { b.push_back( 0 ); for ( size_t i = b.size() - 1; i > 0; --i ) b[i] -= q * b[i-1]; }
        (void) n; return polynomial_free( n );
    }
    // through partial cascades, one complex section at a time: well conditioned
    L polynomial_free( u64 n ) const
    {
        std::vector<C> y( n + 1 ); y[0] = k;
        for ( size_t i = 0; i < p.size(); ++i ) { C zz = i < z.size() ? z[i] : C( 0 ), x1 = 0, y1 = 0; for ( auto & v : y ) { C x = v; C o = x - zz * x1 + p[i] * y1; x1 = x; y1 = o; v = o; } }
        L s = 0; for ( auto v : y ) s += std::abs( v.real() ); return s;
    }
};
// second order analog section ( n2 s^2 + n1 s + n0 ) / ( d2 s^2 + d1 s + d0 ) with s in units of the design frequency
inline void roots( L a, L b, L c, std::vector<C> & r ) { if ( a == 0 ) { if ( b != 0 ) r.push_back( -c / b ); return; } C d = std::sqrt( C( b * b - 4 * a * c ) ); r.push_back( ( -b + d ) / ( 2 * a ) ); r.push_back( ( -b - d ) / ( 2 * a ) ); }
inline Ref second( L W, L n2, L n1, L n0, L d2, L d1, L d0 )
{
    Ref r; std::vector<C> z, p; roots( n2 / W / W, n1 / W, n0, z ); roots( d2 / W / W, d1 / W, d0, p );
    L lead = n2 != 0 ? n2 / d2 : n1 != 0 ? n1 * W / d2 : n0 * W * W / d2; r.analog( z, p, lead ); return r;
}

template< typename T > struct Any { std::function<T(T)> step; size_t sections = 1; std::function<bool()> stable; };

template< typename T > void judge( Ctx & c, char const * what, Any<T> const & f, Ref const & ref, std::function<void( L, L )> spec )
{
    L const rad = ref.radius(); L const eps = sizeof( T ) == 4 ? 1.2e-7L : 2.3e-16L;
    if ( rad > ( sizeof( T ) == 4 ? 0.97L : 0.999L ) ) c.reject();
    // accuracy of coefficients: errors of eps move a pole of a section by about eps / (distance to its conjugate), floor it by the section's own conditioning
    L const sens = eps * 64 / ( ( 1 - rad ) * ( 1 - rad ) ); L tol = std::max<L>( sens * ( 4 + f.sections ), sizeof( T ) == 4 ? 2e-4L : 1e-7L ); if ( tol > 0.02L ) c.reject();
    L const burst = std::pow( 10.0L, (L) c.range( 0, sizeof( T ) == 4 ? 2 : 6 ) );
    u64 const settle = (u64)( ( std::log( burst * 1e3L / tol ) + 12 + 4 * ref.p.size() ) / -std::log( std::max<L>( rad, 0.2L ) ) * ( 1 + 0.25L * f.sections ) ) + 16 + 4 * f.sections;
    if ( settle > 40000 ) c.reject();
    L const bound = ref.bound( settle );
    int rounds = 1 + (int) c.draw( 3 ); L worst = 0;
    for ( int r = 0; r < rounds; ++r )
    {
        u64 n = c.logu( 200 ); u64 mask = c.draw( 32 ); T last = 0, held = 0; bool stuck = false;
        for ( u64 i = 0; i < n; ++i )
        {
            c.step(); u64 k = c.draw( 10 ); if ( k >= 5 && !( mask >> ( k - 5 ) & 1 ) ) k = 0; T x = (T) ( c.real( -1, 1 ) );
            switch ( k ) { case 5: c.fault( "spike" ); x = (T)( ( c.draw( 2 ) ? 1 : -1 ) * burst ); break; case 6: if ( !stuck ) { c.fault( "input stuck" ); held = last; } stuck = !stuck; break; case 7: c.fault( "input lost" ); x = 0; break; case 8: c.fault( "input railed" ); x = (T) burst; break; case 9: c.fault( "worst-case alternation" ); x = (T)( i % 2 ? burst : -burst ); break; }
            if ( stuck ) x = held; last = x; worst = std::max<L>( worst, std::fabs( (L) x ) );
            T y = f.step( x ); c.h( (double) y );
            if ( !( std::fabs( (L) y ) <= bound * std::max<L>( worst, 1 ) * ( 1 + 50 * tol ) ) ) c.fail( "unbounded", "%s: output %Lg for inputs up to %Lg, the design allows at most %Lg times the input", what, (L) y, worst, bound );
        }
        // the burst is over: a plain tone, DC or Nyquist
        u64 q = c.draw( 6 ); L fr = q == 0 ? 0 : q == 1 ? 0.5L : (L) c.real( 0.0005, 0.4995 ); if ( q == 5 ) { fr = 0; }
        L ph = (L) c.real( 0, 6.28 ); if ( fr == 0 || fr == 0.5L ) ph = 0;
        for ( u64 i = 0; i < settle; ++i ) { T y = f.step( (T)( q == 5 ? 0 : std::cos( 2 * PI * fr * i + ph ) ) ); if ( !std::isfinite( y ) || std::fabs( (L) y ) > bound * std::max<L>( worst, 1 ) * ( 1 + 50 * tol ) ) c.fail( "unbounded", "%s: output %Lg after the burst ended", what, (L) y ); }
        c.steps += settle;
        u64 const m = 64; L cc = 0, cs = 0, ss = 0, yc = 0, ys = 0, ymax = 0;
        for ( u64 i = 0; i < m; ++i )
        {
            L th = 2 * PI * fr * ( settle + i ) + ph; T y = f.step( (T)( q == 5 ? 0 : std::cos( th ) ) ); L co = std::cos( th ), si = std::sin( th ); cc += co * co; cs += co * si; ss += si * si; yc += y * co; ys += y * si; ymax = std::max( ymax, std::fabs( (L) y ) ); c.h( (double) y );
        }
        L gain;
        if ( q == 5 ) { c.probe( "silence after burst" ); if ( ymax > tol ) c.fail( "does-not-settle", "%s: still %Lg at the output %llu samples after a burst of at most %Lg, with nothing at the input", what, ymax, (unsigned long long) settle, worst ); continue; }
        if ( fr == 0 || fr == 0.5L ) gain = yc / cc; else { L det = cc * ss - cs * cs; if ( det < 1e-3L ) continue; L A = ( yc * ss - ys * cs ) / det, B = ( ys * cc - yc * cs ) / det; gain = std::sqrt( A * A + B * B ); }
        C h = ref.H( fr ); L want = fr == 0 || fr == 0.5L ? h.real() : std::abs( h ); L t = tol * ( 1 + std::fabs( want ) ) * ( fr > 0 && fr < 0.5L ? std::max<L>( 1, 0.05L / std::min( fr, 0.5L - fr ) ) : 1 );
        c.probe( fr == 0 ? "gain at DC" : fr == 0.5L ? "gain at Nyquist" : "gain at a tone" );
        if ( !( std::fabs( gain - want ) <= t ) ) c.fail( "gain", "%s: settled gain at %Lg of the sample rate is %Lg, the design asks for %Lg (tolerance %Lg)", what, fr, gain, want, t );
        if ( spec ) spec( fr, std::fabs( gain ) );
        c.cover( (u64)( fr * 1e4L ) );
    }
    c.nontrivial = true;
}
template< typename T > void biquads( Ctx & c )
{
    using dsp::FilterResponse; T fs = (T) std::pow( 10.0, c.range( 0, 5 ) ), f = (T)( fs * c.real( 0.004, 0.49 ) ), Q = (T) c.real( 0.3, 12 ); T db = (T) ( c.chance( 1, 8 ) ? 0 : c.real( -24, 24 ) ); int kind = (int) c.draw( 9 ); c.cover( kind * 1000 + (u64)( f / fs * 1000 ) );
    L W = std::tan( PI * (L) f / fs ), V = std::pow( (L) 10, std::fabs( (L) db ) / 20 ), q = Q; Ref r; Any<T> a; char const * name = "";
    auto use = [&]( auto const & coeff ) { auto bq = std::make_shared<dsp::BiQuadT<T>>( dsp::make_biquad( coeff ) ); int fm = (int) c.draw( 3 ); a.step = [bq, fm]( T x ) -> T { return fm == 0 ? bq->step( x ) : fm == 1 ? bq->step_df2( x ) : bq->step_df2_transposed( x ); }; };
    switch ( kind )
    {
        case 0: name = "low pass";  use( dsp::biquad_design<FilterResponse::low_pass>( db, f, fs, Q ) );  r = second( W, 0, 0, 1, 1, 1/q, 1 ); break;
        case 1: name = "high pass"; use( dsp::biquad_design<FilterResponse::high_pass>( db, f, fs, Q ) ); r = second( W, 1, 0, 0, 1, 1/q, 1 ); break;
        case 2: name = "band pass"; use( dsp::biquad_design<FilterResponse::band_pass>( db, f, fs, Q ) ); r = second( W, 0, 1/q, 0, 1, 1/q, 1 ); break;
        case 3: name = "band stop"; use( dsp::biquad_design<FilterResponse::band_stop>( db, f, fs, Q ) ); r = second( W, 1, 0, 1, 1, 1/q, 1 ); break;
        case 4: name = db >= 0 ? "low shelf, boost" : "low shelf, cut"; use( dsp::biquad_design<FilterResponse::low_shelf>( db, f, fs, Q ) );
            r = db >= 0 ? second( W, 1, std::sqrt( 2 * V ), V, 1, std::sqrt( (L) 2 ), 1 ) : second( W, 1, std::sqrt( (L) 2 ), 1, 1, std::sqrt( 2 * V ), V ); break;
        case 5: name = db >= 0 ? "high shelf, boost" : "high shelf, cut"; use( dsp::biquad_design<FilterResponse::high_shelf>( db, f, fs, Q ) );
            r = db >= 0 ? second( W, V, std::sqrt( 2 * V ), 1, 1, std::sqrt( (L) 2 ), 1 ) : second( W, 1, std::sqrt( (L) 2 ), 1, V, std::sqrt( 2 * V ), 1 ); break;
        case 6: name = db >= 0 ? "peaking, boost" : "peaking, cut"; use( dsp::biquad_design<FilterResponse::peak_band_eq>( db, f, fs, Q ) );
            r = db >= 0 ? second( W, 1, V/q, 1, 1, 1/q, 1 ) : second( W, 1, 1/q, 1, 1, V/q, 1 ); break;
        case 7: { name = "ready-made low pass"; auto p = std::make_shared<dsp::Lpf<T>>( f, fs, Q ); a.step = [p]( T x ) -> T { return (*p)( x ); }; r = second( W, 0, 0, 1, 1, 1/q, 1 ); break; }
        default: { name = "ready-made high pass"; auto p = std::make_shared<dsp::Hpf<T>>( f, fs, Q ); a.step = [p]( T x ) -> T { return (*p)( x ); }; r = second( W, 1, 0, 0, 1, 1/q, 1 ); }
    }
    c.ev( "%s at %g of %g, Q %g, %g dB", name, (double) f, (double) fs, (double) Q, (double) db );
    judge<T>( c, name, a, r, {} );
}
template< typename T > void onepoles( Ctx & c )
{
    T fs = (T) std::pow( 10.0, c.range( 0, 5 ) ), f = (T)( fs * c.real( 0.002, 0.498 ) ); bool hp = c.draw( 2 ); c.cover( (u64)( f / fs * 1e5 ) * 2 + hp ); Ref r; Any<T> a;
    using dsp::FilterResponse; auto o = std::make_shared<dsp::OnePoleT<T>>( hp ? dsp::make_onepole( dsp::onepole_design<FilterResponse::high_pass>( f, fs ) ) : dsp::make_onepole( dsp::onepole_design<FilterResponse::low_pass>( f, fs ) ) );
    a.step = [o]( T x ) -> T { return o->step( x ); };
    L p = hp ? -std::exp( -2 * PI * ( 0.5L - (L) f / fs ) ) : std::exp( -2 * PI * (L) f / fs ); r.p = { p }; r.z = { 0 }; r.k = 1 - std::fabs( p );
    c.ev( "one-pole %s pass at %g of %g", hp ? "high" : "low", (double) f, (double) fs );
    judge<T>( c, hp ? "one-pole high pass" : "one-pole low pass", a, r, {} );
}
template< typename T > void chebyshev( Ctx & c )
{
    using dsp::FilterResponse; bool type2 = c.draw( 2 ), hp = c.draw( 2 );
    T fs = (T) std::pow( 10.0, c.range( 0, 5 ) ), fa = (T)( fs * c.real( 0.01, 0.4 ) ), fb = (T)( fa + ( fs / 2 - fa ) * c.real( 0.03, 0.9 ) ); T fpass = hp ? fb : fa, fstop = hp ? fa : fb; T Ap = (T) c.real( 0.05, 4 ), As = (T) c.real( 6, 60 );
    L s = hp ? -1 : 1, Wp = std::pow( std::tan( PI * (L) fpass / fs ), s ), Ws = std::pow( std::tan( PI * (L) fstop / fs ), s );
    L ep = std::sqrt( std::pow( (L) 10, (L) Ap / 10 ) - 1 ), es = std::sqrt( std::pow( (L) 10, (L) As / 10 ) - 1 ); L Nex = std::acosh( es / ep ) / std::acosh( Ws / Wp );
    if ( As <= Ap + (T) 1 || std::fabs( Nex - std::round( Nex ) ) < ( sizeof( T ) == 4 ? 1e-3L : 1e-8L ) || Nex > 10 ) c.reject();
    int N = (int) std::ceil( Nex ); c.cover( N * 8 + type2 * 4 + hp * 2 ); c.cover( (u64)( fa / fs * 1000 ) );
    // analog prototype (low pass in W; a high pass swaps W for 1/W, i.e. z for -z after the transform)
    Ref r; std::vector<C> z, p; C den = 1;
    L mu = type2 ? std::asinh( es ) / N : std::asinh( 1 / ep ) / N;
    for ( int i = 1; i <= N; ++i ) { L th = PI * ( 2 * i - 1 ) / ( 2 * N ); C q( -std::sinh( mu ) * std::sin( th ), std::cosh( mu ) * std::cos( th ) );
        if ( type2 ) { p.push_back( Ws / q ); if ( 2 * i - 1 != N ) z.push_back( C( 0, Ws / std::cos( th ) ) ); } else p.push_back( Wp * q ); }
    for ( auto q : p ) den *= -q; C num = 1; for ( auto q : z ) num *= -q; L dc = !type2 && N % 2 == 0 ? 1 / std::sqrt( 1 + ep * ep ) : 1;
    r.analog( z, p, ( dc * den / num ).real() );
    if ( hp ) { for ( auto & q : r.z ) q = -q; for ( auto & q : r.p ) q = -q; }
    auto coeff = type2 ? dsp::chebyshev2_lp_hp( hp ? FilterResponse::high_pass : FilterResponse::low_pass, fs, fpass, fstop, Ap, As ) : dsp::chebyshev1_lp_hp( hp ? FilterResponse::high_pass : FilterResponse::low_pass, fs, fpass, fstop, Ap, As );
    if ( coeff.size() > 8 || coeff.size() > (size_t)( N / 2 + 2 ) ) c.fail( "gain", "a Chebyshev design of order %d has %d sections", N, (int) coeff.size() );
    auto q = std::make_shared<dsp::BiQuadCascadeT<T,8>>( dsp::make_biquad_cascade<8>( coeff ) ); Any<T> a; a.sections = q->size(); int fm = (int) c.draw( 3 );
    a.step = [q, fm]( T x ) -> T { return fm == 0 ? step( *q, x ) : fm == 1 ? step_df2( *q, x ) : step_df2_transposed( *q, x ); };
    char what[96]; snprintf( what, sizeof what, "Chebyshev %d %s pass of order %d", type2 ? 2 : 1, hp ? "high" : "low", N ); c.ev( "%s: fs %g pass %g stop %g ripple %g dB attenuation %g dB", what, (double) fs, (double) fpass, (double) fstop, (double) Ap, (double) As );
    L slack = sizeof( T ) == 4 ? 5e-3L : 1e-5L;
    judge<T>( c, what, a, r, [&]( L fn, L g ) {
        L W = std::pow( std::tan( PI * fn ), s ); if ( fn == 0 ) W = hp ? 1e30L : 0; if ( fn == 0.5L ) W = hp ? 0 : 1e30L;
        if ( W <= Wp ) { c.probe( "inside the pass band" ); if ( g > 1 + slack || g < std::pow( (L) 10, -(L) Ap / 20 ) - slack ) c.fail( "pass-band", "%s: gain %Lg at %Lg of the sample rate is outside the requested ripple of %g dB", what, g, fn, (double) Ap ); }
        if ( W >= Ws ) { c.probe( "inside the stop band" ); if ( g > std::pow( (L) 10, -(L) As / 20 ) + slack ) c.fail( "stop-band", "%s: gain %Lg at %Lg of the sample rate is above the requested attenuation of %g dB", what, g, fn, (double) As ); } } );
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F04"; ck.run_cpu_s = 60;
    ck.rule = "A run draws a design request (all biquad responses, ready-made filters, one-pole, Chebyshev 1 and 2 low and high pass up to order 10; sample rates 1 to 1e5), builds the filter with the library and puts it through rounds of: a burst with spikes, stuck, railed, lost and alternating input, every output checked against the bound of the textbook filter; then silence, DC, a Nyquist or a drawn tone; after the settling time of the textbook filter's slowest pole the output must have the textbook gain (and, for Chebyshev, respect ripple and attenuation). Non-trivial: at least one settled round; distinct by design parameters, faults and tone.";
    ck.distinct_measure = "hash of design parameters, fault sequence and test tones";
    ck.real = { "dsp design functions, dsp::Lpf, dsp::Hpf and the filter sections from /repo/include" }; ck.stub = { "signal source (simulated)" };
    ck.assumptions = { "textbook filter derived separately from analog poles, zeros and the bilinear transform", "slowest pole radius at most 0.999 (float: 0.97)", "Chebyshev requests within 1e-8 of an exact order are not judged" };
    ck.scenarios = { { "biquad_double", 60000, 2500000, biquads<double> }, { "biquad_float", 20000, 900000, biquads<float> }, { "onepole_double", 20000, 900000, onepoles<double> }, { "onepole_float", 10000, 400000, onepoles<float> }, { "chebyshev_double", 60000, 2500000, chebyshev<double> }, { "chebyshev_float", 16000, 700000, chebyshev<float> } };
    return dst_main( argc, argv, ck );
}
