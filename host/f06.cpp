// F06: what a filter reports about itself is what it does to signals.
#define DST_CORO_IMPL
#define USE_GF 0
#include "filt_common.hpp"
#include <complex>
using L = long double;
// the reports of the objects under test
template< typename T > struct Report { std::function<std::complex<double>( double )> response; std::function<bool()> stable; std::function<void( std::complex<double> &, std::complex<double> & )> poles, zeros; };
template< typename C > std::complex<double> cd( C const & z ) { return { (double) z.real(), (double) z.imag() }; }
template< typename T > struct Probe { std::unique_ptr<Obj<T>> o; std::vector<Coef<L>> sec; double radius = 0, slowest = 0; std::string name; Report<T> r; std::vector<RefSection<L>> ref; };
template< typename T, int N > Report<T> of( CaObj<T,N> & p ) { auto * q = &p.q; return { [q]( double f ) { return cd( response( *q, (T) f ) ); }, [q]{ return (bool) is_stable( *q ); }, nullptr, nullptr }; }
template< typename T > Report<T> of( BqObj<T> & p ) { auto * q = &p.q; return { [q]( double f ) { return cd( response( *q, (T) f ) ); }, [q]{ return (bool) q->is_stable(); }, [q]( auto & a, auto & b ) { auto s = q->poles(); a = cd( s.s0 ); b = cd( s.s1 ); }, [q]( auto & a, auto & b ) { auto s = q->zeros(); a = cd( s.s0 ); b = cd( s.s1 ); } }; }
template< typename T > Report<T> of( OpObj<T> & p ) { auto * q = &p.q; return { [q]( double f ) { return cd( response( *q, (T) f ) ); }, [q]{ return (bool) q->is_stable(); }, [q]( auto & a, auto & b ) { a = cd( q->poles().s0 ); b = 0; }, [q]( auto & a, auto & b ) { a = cd( q->zeros().s0 ); b = 0; } }; }
// pole pair by size and angle, or two real poles; the larger size through r, the smaller through s
static void pair( Ctx & c, double lo, double hi, double & s, double & p, double & big )
{
    double m = c.real( lo, hi ); if ( c.draw( 8 ) == 0 ) m = 0;
    if ( c.draw( 2 ) ) { double w = c.draw( 6 ) ? c.real( 0, 3.14159 ) : 0; s = -2 * m * std::cos( w ); p = m * m; big = m; }
    else { double a = c.draw( 2 ) ? m : -m, b = c.draw( 5 ) ? c.real( -m, m ) : 0; s = -( a + b ); p = a * b; big = m; }
}
template< typename T > Probe<T> draw( Ctx & c, int kinds, double lo, double hi, int most )
{
    Probe<T> d; int kind = c.draw( kinds ); Form f = (Form) c.draw( 3 ); std::vector<std::vector<T>> ks; int n = kind == 2 ? c.draw( most + 1 ) : 1;
    for ( int i = 0; i < n; ++i )
    {
        Coef<double> k{}; double big = 0, zs, zp, zb; if ( kind == 1 ) { double m = c.real( lo, hi ); if ( c.draw( 8 ) == 0 ) m = 0; k.a1 = c.draw( 2 ) ? m : -m; big = m; } else pair( c, lo, hi, k.a1, k.a2, big );
        pair( c, 0, 1.3, zs, zp, zb ); double g = c.real( 0.1, 2 ) * ( c.draw( 2 ) ? 1 : -1 ); k.b0 = g; if ( kind != 1 ) { k.b1 = g * zs; k.b2 = g * zp; }
        for ( double * p : { &k.b0, &k.b1, &k.b2, &k.a1, &k.a2 } ) *p = (T) *p; d.radius = std::max( d.radius, big );
        d.sec.push_back( { k.b0, k.b1, k.b2, k.a1, k.a2 } ); ks.push_back( { (T) k.b0, (T) k.b1, (T) k.b2, (T) k.a1, (T) k.a2 } ); c.cover( (u64)(std::int64_t)( k.a1 * 1e6 ) );
    }
    if ( kind == 0 ) { auto p = std::make_unique<BqObj<T>>( ks[0], f ); d.r = of( *p ); d.o = std::move( p ); d.name = "biquad section"; }
    else if ( kind == 1 ) { auto p = std::make_unique<OpObj<T>>( std::vector<T>{ ks[0][0], ks[0][3] } ); d.r = of( *p ); d.o = std::move( p ); d.name = "one-pole section"; }
    else { auto p = std::make_unique<CaObj<T,4>>( ks, f, false ); d.r = of( *p ); d.o = std::move( p ); d.name = "cascade of " + std::to_string( n ); }
    for ( auto & k : d.sec ) d.ref.emplace_back( k ); c.ev( "%s, %s, pole radius %.3f", d.name.c_str(), form_name( f ), d.radius ); return d;
}
// a tone with faults in it; once they stop, what comes out is the tone times the reported response
template< typename T > void tone( Ctx & c )
{
    double const hi = sizeof( T ) == 4 ? 0.85 : 0.95, rel = sizeof( T ) == 4 ? 4e-4 : 1e-9; auto d = draw<T>( c, 3, 0, hi, 4 );
    double f = c.draw( 8 ) ? c.real( 0, 0.5 ) : c.draw( 2 ) * 0.5, ph = c.real( 0, 6.28 ), amp = std::pow( 10.0, c.range( -6, 6 ) ); f = (T) f; auto H = d.r.response( f ); L const w = 2 * std::acos( (L) -1 ) * (L) f;
    u64 noisy = c.logu( 60 ), settle = 8 + (u64)( ( 34 + 9 * d.sec.size() ) / ( 1 - d.radius ) ), n = noisy + settle + 12; L peak = 0; T last = 0; c.note( "frequency %g, reported response %g%+gi", f, H.real(), H.imag() );
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); L clean = amp * std::cos( w * i + ph ); T x = (T) clean;
        if ( i < noisy ) switch ( c.draw( 8 ) ) { case 4: c.fault( "sample dropped" ); continue; case 5: c.fault( "spike" ); x = (T)( amp * c.real( -50, 50 ) ); break; case 6: c.fault( "sample repeated" ); x = last; break; case 7: c.fault( "input lost (zero)" ); x = 0; break; }
        last = x; T y = d.o->step( x ); L v = x; bool tail = i >= noisy + settle; if ( tail ) peak = std::max( peak, std::fabs( v ) ); for ( auto & s : d.ref ) { v = s.step( v ); if ( i + 40 >= noisy + settle ) peak = std::max( { peak, std::fabs( v ), std::fabs( s.y2 ) } ); }
        if ( i == noisy / 2 && c.draw( 2 ) ) { auto H2 = d.r.response( f ); if ( H2 != H ) c.fail( "response", "the response a %s reports at %g changes while it runs", d.name.c_str(), f ); }
        if ( tail ) { L want = amp * ( (L) H.real() * std::cos( w * i + ph ) - (L) H.imag() * std::sin( w * i + ph ) ), t = rel * ( amp + peak ) / ( 1 - d.radius ) * ( 1 + d.sec.size() ); if ( !( std::fabs( (L) y - want ) <= t ) ) c.fail( "response", "a %s reports response %g%+gi at frequency %g; a tone settled for %llu samples comes out as %g instead of %Lg", d.name.c_str(), H.real(), H.imag(), f, (unsigned long long) settle, (double) y, want ); }
    }
    c.cover( (u64)( f * 1e6 ) ); c.nontrivial = true;
}
// any burst, then the reported zeros' own signal, then silence: what comes out obeys the reported poles
template< typename T > void roots( Ctx & c )
{
    double const rel = sizeof( T ) == 4 ? 3e-5 : 1e-11; auto d = draw<T>( c, 2, 0, 1.4, 1 ); std::complex<double> p0, p1, z0, z1; d.r.poles( p0, p1 ); d.r.zeros( z0, z1 ); bool one = d.name[0] == 'o';
    auto ps = p0 + p1, pp = p0 * p1, zs = z0 + z1, zp = z0 * z1; if ( std::abs( ps.imag() ) + std::abs( pp.imag() ) > 1e-6 || std::abs( zs.imag() ) + std::abs( zp.imag() ) > 1e-6 ) c.fail( "roots", "a %s reports roots that are not conjugate", d.name.c_str() );
    c.note( "poles reported: %g%+gi, %g%+gi; zeros: %g%+gi, %g%+gi", p0.real(), p0.imag(), p1.real(), p1.imag(), z0.real(), z0.imag(), z1.real(), z1.imag() );
    u64 burst = 2 + c.draw( 12 ), tuned = one ? 0 : c.draw( 25 ), n = burst + tuned + 4 + c.draw( 40 ); T x1 = 0, x2 = 0; L y1 = 0, y2 = 0, big = 0;
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); T x; if ( i < burst ) { x = (T) c.real( -1, 1 ); if ( c.chance( 1, 8 ) ) { c.fault( "spike" ); x *= 1000; } } else if ( i < burst + tuned ) x = (T)( zs.real() * (L) x1 - zp.real() * (L) x2 ); else { x = 0; if ( i == burst + tuned ) c.fault( "input lost (zero)" ); }
        T y = d.o->step( x ); d.ref[0].step( x ); for ( T w : d.o->state() ) big = std::max( big, std::fabs( (L) w ) * ( 1 + std::fabs( d.sec[0].b0 ) + std::fabs( d.sec[0].b1 ) + std::fabs( d.sec[0].b2 ) ) ); big = std::max( { big * (L) 0.5, std::fabs( (L) y ), std::fabs( (L) x ), std::fabs( (L) x1 ), std::fabs( (L) x2 ), std::fabs( y1 ), std::fabs( y2 ) } );
        // tuned samples count from the first one on, silence once the last input has left the section
        bool judged = ( i >= burst && i < burst + tuned ) || i >= burst + tuned + 2 || ( one && i >= burst ); L r = (L) y - (L) ps.real() * y1 + (L) pp.real() * y2;
        if ( judged && !( std::fabs( r ) <= rel * big * 40 ) ) c.fail( "roots", "after %llu samples a %s does not follow the %s it reports: it is off by %Lg at values up to %Lg", (unsigned long long) i + 1, d.name.c_str(), i < burst + tuned ? "zeros" : "poles", r, big );
        x2 = x1; x1 = x; y2 = y1; y1 = (L) y;
    }
    c.nontrivial = true;
}
// stable is reported exactly when what a burst leaves behind dies away
template< typename T > void stable( Ctx & c )
{
    bool un = c.draw( 2 ); auto d = draw<T>( c, 3, 0, 0.97, 4 ); 
    if ( d.sec.empty() || !un ) { un = false; } else
    {   // one section of it unstable
        double big, lo = 1.03, hi = 1.3; Coef<double> k{}; bool one = d.name[0] == 'o'; size_t at = c.draw( d.sec.size() ); if ( one ) { double m = c.real( lo, hi ); k.a1 = c.draw( 2 ) ? m : -m; } else { k.a1 = 0; do pair( c, lo, hi, k.a1, k.a2, big ); while ( k.a1 == 0 && k.a2 == 0 ); }
        auto & s = d.sec[at]; s.a1 = (T) k.a1; s.a2 = (T) k.a2; std::vector<std::vector<T>> ks; for ( auto & q : d.sec ) ks.push_back( { (T) q.b0, (T) q.b1, (T) q.b2, (T) q.a1, (T) q.a2 } );
        if ( one ) { auto p = std::make_unique<OpObj<T>>( std::vector<T>{ ks[0][0], ks[0][3] } ); d.r = of( *p ); d.o = std::move( p ); } else if ( d.name[0] == 'b' ) { auto p = std::make_unique<BqObj<T>>( ks[0], (Form) c.draw( 3 ) ); d.r = of( *p ); d.o = std::move( p ); } else { auto p = std::make_unique<CaObj<T,4>>( ks, (Form) c.draw( 3 ), false ); d.r = of( *p ); d.o = std::move( p ); }
        c.ev( "section %zu made unstable", at );
    }
    bool said = d.r.stable(); double early = 0, late = 0; u64 burst = 3 + c.draw( 20 ), n = burst + 1500;
    for ( u64 i = 0; i < n; ++i ) { c.step(); T x = 0; if ( i < burst ) { x = (T) c.real( -1, 1 ); if ( c.chance( 1, 6 ) ) { c.fault( "spike" ); x *= 100; } } double y = std::fabs( (double) d.o->step( x ) ); if ( i >= burst && i < burst + 60 ) early = std::max( early, y ); if ( i + 60 >= n ) late = std::max( late, y ); if ( !( y < 1e25 ) ) { late = y; break; } }
    c.fault( "input lost (zero)" ); if ( early < 1e-9 ) { c.reject(); return; }
    bool dies = late < early * 1e-3, grows = !( late < early * 1e3 ); if ( d.r.stable() != said ) c.fail( "stability", "the stability a %s reports changes while it runs", d.name.c_str() );
    if ( dies && !said ) c.fail( "stability", "a %s reports to be unstable; what a burst leaves behind dies away (%g, later %g)", d.name.c_str(), early, late ); if ( grows && said ) c.fail( "stability", "a %s reports to be stable; what a burst leaves behind grows (%g, later %g)", d.name.c_str(), early, late );
    c.probe( grows ? "grew" : dies ? "died away" : "neither" ); c.nontrivial = grows || dies;
}
// a section made from zeros, poles and gain is the filter they describe
template< typename T > void zpk( Ctx & c )
{
    using Q = dsp::BiQuadT<T>; using S = typename Q::Solution; using C = typename Q::Complex; double const eps = sizeof( T ) == 4 ? 1.2e-7 : 2.3e-16; double radius = 0;
    auto roots = [&]( double lim, L & s, L & p ) { if ( c.draw( 2 ) ) { T m = (T) c.real( 0.01, lim ), w = (T) c.real( 0.01, 3.13 ), a = (T)( m * std::cos( w ) ), b = (T)( m * std::sin( w ) ); bool up = c.draw( 2 ); s = -2 * (L) a; p = (L) a * a + (L) b * b; radius = std::max( radius, lim < 1 ? (double) m : 0. ); return S{ C{ a, up ? b : -b }, C{ a, up ? -b : b } }; }
        T a = (T) c.real( -lim, lim ), b = (T) c.real( -lim, lim ); if ( c.draw( 8 ) == 0 ) a = 0; s = -( (L) a + b ); p = (L) a * b; if ( lim < 1 ) radius = std::max( { radius, (double) std::fabs( a ), (double) std::fabs( b ) } ); return S{ C{ a, 0 }, C{ b, 0 } }; };
    Coef<L> k; L zs, zp; S z = roots( 1.3, zs, zp ), p = roots( sizeof( T ) == 4 ? 0.85 : 0.97, k.a1, k.a2 ); T g = (T)( c.real( 0.05, 3 ) * ( c.draw( 2 ) ? 1 : -1 ) ); k.b0 = g; k.b1 = g * zs; k.b2 = g * zp; Q q( z, p, g ); RefSection<L> ref( k ); L big = 0; int form = c.draw( 3 ); u64 n = 5 + c.logu( 150 );
    c.ev( "zeros %g%+gi %g%+gi, poles %g%+gi %g%+gi, gain %g, %s", (double) z.s0.real(), (double) z.s0.imag(), (double) z.s1.real(), (double) z.s1.imag(), (double) p.s0.real(), (double) p.s0.imag(), (double) p.s1.real(), (double) p.s1.imag(), (double) g, form_name( form ) );
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); T x = (T) c.real( -1, 1 ); switch ( c.draw( 12 ) ) { case 9: c.fault( "spike" ); x *= 1000; break; case 10: c.fault( "input lost (zero)" ); x = 0; break; case 11: c.fault( "sample dropped" ); continue; }
        T y = form == DF2 ? q.step_df2( x ) : form == STEP ? q.step( x ) : q.step_df2_transposed( x ); L v = ref.step( x ); big = std::max( { big * (L) 0.999, std::fabs( v ), std::fabs( (L) x ) } ); L t = big * eps * 2000 / std::pow( 1 - radius, 2 );
        if ( !( std::fabs( (L) y - v ) <= t ) ) c.fail( "zpk", "output %llu is %g; the filter of these zeros, poles and gain gives %Lg", (unsigned long long) i, (double) y, v );
    }
    auto back = q.poles(); std::complex<double> a = cd( back.s0 ), b = cd( back.s1 ); double tl = eps * 50; if ( std::abs( a + b + (double) k.a1 ) > tl * 4 || std::abs( a * b - (double) k.a2 ) > tl * 4 ) c.fail( "zpk", "the poles given are not the poles reported" );
    back = q.zeros(); a = cd( back.s0 ); b = cd( back.s1 ); if ( std::abs( a + b + (double) zs ) > tl * 10 || std::abs( a * b - (double) zp ) > tl * 10 ) c.fail( "zpk", "the zeros given are not the zeros reported" );
    c.cover( (u64)( radius * 1e9 ) ); c.nontrivial = true;
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F06";
    ck.rule = "A run draws a filter (biquad in the three stepping functions, one-pole, cascade of up to four sections) and a signal with dropped, repeated, spiked and lost samples, and compares what the filter reports with what it did to the signal. tone: once faults stop and the slowest pole has died away, a tone comes out times the reported response (size and phase). roots: fed with the signal the reported zeros cancel, and then with silence, the output obeys the recurrence of the reported poles. stable: what a burst leaves behind dies away or grows as reported (poles within 3% of one are not drawn). zpk: a section made from zeros, poles and gain does what they describe and reports them back. Distinct by filter, frequency and fault sequence.";
    ck.distinct_measure = "hash of filter, frequency and fault sequence"; ck.real = { "dsp::BiQuadT, dsp::OnePoleT, dsp::BiQuadCascadeT and their observers from /repo/include" }; ck.stub = { "signal source (simulated)" };
    ck.assumptions = { "tolerances are relative to the largest value inside the filter and grow with its slowest pole", "sections have a non-zero leading coefficient where zeros are judged" };
    ck.scenarios = { { "tone", 60000, 1500000, tone<double> }, { "tone_float", 40000, 1000000, tone<float> }, { "roots", 600000, 15000000, roots<double> }, { "roots_float", 300000, 8000000, roots<float> }, { "stable", 60000, 1500000, stable<double> }, { "stable_float", 30000, 800000, stable<float> }, { "zpk", 600000, 15000000, zpk<double> }, { "zpk_float", 300000, 8000000, zpk<float> } };
    return dst_main( argc, argv, ck );
}
