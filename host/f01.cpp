// F01: filter streams obey their difference equation over any history.
#define DST_CORO_IMPL
#include "filt_common.hpp"
using L = long double;

template< typename T, typename Value, typename Cmp > void stream( Ctx & c, Obj<T> & o, u64 n, Value value, Cmp judge, std::function<void()> at_rest )
{
    u64 const mask = c.draw( 128 ); T last = value( false ), held = last; bool stuck = false; auto k0 = o.coeffs();
    auto same = []( std::vector<T> const & a, std::vector<T> const & b ) { if ( a.size() != b.size() ) return false; for ( size_t i = 0; i < a.size(); ++i ) if ( !( a[i] == b[i] ) ) return false; return true; };
    for ( u64 i = 0; i < n; ++i )
    {
        c.step(); T x = value( false );
        u64 f = c.draw( 16 ); if ( f < 9 || !( mask >> ( f - 9 ) & 1 ) ) f = 0;
        switch ( f )
        {
            case 9:  c.fault( "sample dropped" ); continue;
            case 10: c.fault( "sample repeated" ); x = last; break;
            case 11: c.fault( "spike" ); x = value( true ); break;
            case 12: if ( !stuck ) { c.fault( "input stuck" ); held = x; } stuck = !stuck; break;
            case 13: c.fault( "input lost (zero)" ); x = T( 0 ); break;
            case 14: c.probe( "observers read between steps" ); o.look( c.real( 0, 0.5 ) ); (void) o.state(); break;
            case 15: if ( c.chance( 1, 4 ) ) { c.fault( "filter reset" ); o.reset(); at_rest(); } break;
        }
        if ( stuck ) x = held;
        T y;
        bool coarse = false;
        if constexpr ( std::is_floating_point_v<T> ) if ( !stuck && f == 0 && c.chance( 1, 8 ) ) { float k = (float) x; x = T( k ); y = o.step_coarse( k ); c.probe( "single-precision sample" ); coarse = true; }
        if ( coarse ) {}
        else if ( !stuck && f == 0 && c.chance( 1, 8 ) ) { int k = (int) c.range( -1000, 1000 ); x = T( k ); y = o.step_count( k ); c.probe( "integer sample" ); }
        else y = o.step( x );
        last = x; judge( i, x, y );
        if ( i % 8 == 0 && !same( o.coeffs(), k0 ) ) c.fail( "coefficients", "stepping altered the coefficients of a %s after %llu steps", o.name(), (unsigned long long) i + 1 );
    }
    if ( !same( o.coeffs(), k0 ) ) c.fail( "coefficients", "stepping altered the coefficients of a %s", o.name() );
    c.nontrivial = true;
}
#if USE_GF
void exact( Ctx & c )
{
    auto d = draw_filter<GF,GF>( c, [&]{ return gf_coef( c ); }, []( GF x ) { return x; } );
    std::vector<RefSection<GF>> ref; for ( auto & k : d.sec ) ref.emplace_back( k );
    c.cover( d.sec.size() ); u64 n = 1 + c.logu( c.chance( 1, 128 ) ? 20000 : 120 );
    stream<GF>( c, *d.o, n, [&]( bool ) { return gf( c ); },
        [&]( u64 i, GF x, GF y ) { GF v = x; for ( auto & s : ref ) v = s.step( v ); c.h( y.v ); if ( y != v ) c.fail( "stream", "output %llu of a %s is not what its difference equation gives", (unsigned long long) i, d.o->name() ); },
        [&]{ for ( auto & s : ref ) s.reset(); } );
    for ( size_t j = 0; j < d.sec.size(); ++j ) c.cover( d.sec[j].a1.v );
}
#endif
// tolerance: rounding errors enter at every step relative to the values then present and decay with the slowest pole
struct Tol { double r, rr, env = 0, gain, floor_; Tol( double radius, size_t n, double eps, double amp ) : r( radius ), rr( ( 1 + 3 * radius ) / 4 ), gain( eps * amp * 64 * std::pow( 2 / ( 1 - radius ), 1.0 + 1.0 * n ) ), floor_( gain / eps * ( eps > 1e-10 ? 1e-44 : 1e-300 ) ) {} 
    double at( double seen ) { env = std::max( env * rr, std::fabs( seen ) ); return gain * env + floor_; } };

template< typename T, typename Make > void real_run( Ctx & c, Make make, double eps, double rmax, int maxsec )
{
    double r = 0, amp = 1; std::vector<Coef<L>> sec; std::unique_ptr<Obj<T>> o = make( r, sec, amp ); (void) rmax; (void) maxsec;
    std::vector<RefSection<L>> ref; for ( auto & k : sec ) ref.emplace_back( k );
    double scale = std::pow( 10.0, (double) c.range( -12, 12 ) ); if ( eps > 1e-10 ) scale = std::pow( 10.0, (double) c.range( -6, 6 ) );
    Tol tol( r, sec.size(), eps, amp ); u64 n = 1 + c.logu( c.chance( 1, 64 ) ? 20000 : 200 );
    bool burst = c.draw( 2 ); u64 quiet = burst ? c.draw( n + 1 ) : n, cnt = 0;
    stream<T>( c, *o, n, [&]( bool w ) { bool q = cnt++ >= quiet; double v = c.real( -1, 1 ); return q && !w ? T( 0 ) : T( v * scale * ( w ? 1e3 : 1 ) ); },
        [&]( u64 i, T x, T y ) { L v = x; L seen = std::fabs( v ); for ( auto & s : ref ) { v = s.step( v ); seen = std::max( { seen, std::fabs( v ), std::fabs( s.y2 ), std::fabs( s.x2 ) } ); } double t = tol.at( (double) seen ); c.h( (double) y );
            if ( !( std::fabs( (L) y - v ) <= t ) ) c.fail( "stream", "output %llu of a %s is %.17g, its difference equation gives %.17Lg (tolerance %g)", (unsigned long long) i, o->name(), (double) y, v, t ); },
        [&]{ for ( auto & s : ref ) s.reset(); tol.env = 0; } );
    for ( auto & k : sec ) c.cover( (u64)( k.a1 * 1e6L ) );
}
template< typename T > void real_kind( Ctx & c )
{
    double const eps = sizeof( T ) == 4 ? 1.2e-7 : 2.3e-16, rmax = sizeof( T ) == 4 ? 0.9 : 0.98;
    real_run<T>( c, [&]( double & r, std::vector<Coef<L>> & sec, double & amp ) {
        auto d = draw_filter<T,double>( c, [&]{ auto k = real_coef( c, r, false, rmax ); for ( double * p : { &k.b0, &k.b1, &k.b2, &k.a1, &k.a2 } ) *p = (T) *p; amp *= 1 + std::fabs( k.b0 ) + std::fabs( k.b1 ) + std::fabs( k.b2 ); return k; }, []( double x ) { return (T) x; } );
        for ( auto & k : d.sec ) sec.push_back( { k.b0, k.b1, k.b2, k.a1, k.a2 } );
        if ( sec.size() == 1 ) if ( auto * p = dynamic_cast<OpObj<T> *>( d.o.get() ) ) { double a = sec[0].a1; if ( std::fabs( a ) > rmax ) { a = std::fmod( a, rmax ); a = (T) a; } sec[0].a1 = a; d.o = std::make_unique<OpObj<T>>( std::vector<T>{ (T) (double) sec[0].b0, (T) a } ); r = std::max( r, std::fabs( a ) ); (void) p; }
        return std::move( d.o ); }, eps, rmax, 8 );
}
void mixed( Ctx & c )   // arithmetic in double, coefficients in float
{
    real_run<double>( c, [&]( double & r, std::vector<Coef<L>> & sec, double & amp ) -> std::unique_ptr<Obj<double>> {
        bool one = c.draw( 2 ); auto k = real_coef( c, r, one, 0.98 ); float f[5] = { (float) k.b0, (float) k.b1, (float) k.b2, (float) k.a1, (float) k.a2 }; r = std::min( 0.99, r + 1e-3 );
        amp *= 1 + std::fabs( k.b0 ) + std::fabs( k.b1 ) + std::fabs( k.b2 ); Form fm = (Form) c.draw( 3 );
        if ( one ) { sec.push_back( { f[0], 0, 0, f[3], 0 } ); c.ev( "one-pole, float coefficients" ); return std::make_unique<OpObj<double,float>>( std::vector<float>{ f[0], f[3] } ); }
        sec.push_back( { f[0], f[1], f[2], f[3], f[4] } ); c.ev( "biquad, float coefficients, %s", form_name( fm ) ); return std::make_unique<BqObj<double,float>>( std::vector<float>( f, f + 5 ), fm ); }, 2.3e-16, 0.98, 1 );
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F01";
    ck.rule = "A run draws a filter (biquad in the three stepping functions, one-pole, cascades of capacity 1, 2, 3, 5, 8 built by construction or by append), its coefficients and an input history with dropped, repeated, spiked, stuck and lost samples, resets and observer calls between steps. Every output is compared with the difference equation evaluated from its definition: exactly over a prime field, and in extended precision for float and double. Non-trivial: the whole stream was judged; distinct by coefficients and fault sequence.";
    ck.distinct_measure = "hash of coefficients and fault sequence";
    ck.real = { "dsp::BiQuadT, dsp::OnePoleT, dsp::BiQuadCascadeT from /repo/include" }; ck.stub = { "signal source (simulated)" };
    ck.assumptions = { "the number type's own arithmetic is right (prime field for exact runs)", "real-valued runs use stable filters and a rounding bound that decays with the slowest pole" };
#if USE_GF
    ck.scenarios.push_back( { "exact", 2000000, 60000000, exact } );
#endif
    ck.scenarios.push_back( { "double", 1500000, 40000000, real_kind<double> } ); ck.scenarios.push_back( { "float", 800000, 20000000, real_kind<float> } ); ck.scenarios.push_back( { "double_float", 500000, 15000000, mixed } );
    return dst_main( argc, argv, ck );
}
