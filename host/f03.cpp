// F03: a cascade survives live reconfiguration without disturbing other sections.
#define DST_CORO_IMPL
#include "filt_common.hpp"

#if USE_GF
using V = GF;
inline V val( Ctx & c ) { return gf( c ); }
inline bool eq( V a, V b ) { return a == b; }
inline u64 bits( V a ) { return a.v; }
#else
using V = double;   // dyadic coefficients and inputs: comparable exactly with sections stepped one by one
inline V val( Ctx & c ) { return (double) c.range( -8, 8 ) / 8; }
inline bool eq( V a, V b ) { return a == b || ( a != a && b != b ); }
inline u64 bits( V a ) { u64 x; std::memcpy( &x, &a, 8 ); return x; }
#endif
using Bq = dsp::BiQuadT<V>;

// The model of a section: its coefficients, and a section of its own that never enters a cascade and never gets swapped.
struct Model { V k[5]; Bq q;
    V step( V x, Form f ) { return f == DF2 ? q.step_df2( x ) : f == STEP ? q.step( x ) : q.step_df2_transposed( x ); }
    V v1() const { return q.state().v1; } V v2() const { return q.state().v2; } };
struct Pair { Bq q; Model m; };     // a loose section and its model

inline Pair section( Ctx & c )
{
    Pair p; std::vector<V> k; for ( int i = 0; i < 5; ++i ) { p.m.k[i] = val( c ); k.push_back( p.m.k[i] ); }
    p.q = make_bq<V,V>( k ); p.m.q = make_bq<V,V>( k );
    for ( u64 n = c.draw( 3 ); n--; ) { V x = val( c ); p.q.step( x ); p.m.step( x, DF2 ); }     // sections arrive with a running state, too
    return p;
}

template< int N > struct Box { dsp::BiQuadCascadeT<V,N> q; std::vector<Model> m; };

template< int N > void reconfigure( Ctx & c )
{
    using Ca = dsp::BiQuadCascadeT<V,N>;
    std::vector<std::unique_ptr<Box<N>>> box; std::vector<Pair> loose;
    auto make = [&]{ auto b = std::make_unique<Box<N>>(); if ( c.draw( 2 ) ) { Pair p = section( c ); b->q = Ca( p.q ); b->m.push_back( p.m ); if constexpr ( N >= 2 ) if ( c.draw( 2 ) ) { Pair r = section( c ); b->q = Ca( p.q, r.q ); b->m.push_back( r.m ); } } return b; };
    box.push_back( make() ); box.push_back( make() );
    u64 const steps = 4 + c.logu( c.chance( 1, 64 ) ? 2000 : 120 );
    auto check = [&]( Box<N> & b, char const * after ) {
        if ( (size_t) b.q.size() != b.m.size() ) c.fail( "size", "after %s a cascade reports %d sections, should be %zu", after, (int) b.q.size(), b.m.size() );
        if ( b.q.reserved() != N ) c.fail( "size", "capacity reported as %d, is %d", (int) b.q.reserved(), N );
        if ( (size_t)( b.q.end() - b.q.begin() ) != b.m.size() ) c.fail( "size", "after %s iteration covers %d sections, should be %zu", after, (int)( b.q.end() - b.q.begin() ), b.m.size() );
        size_t i = 0; Ca const & cq = b.q;
        for ( auto const & s : cq )
        {
            auto A = s.coeff_a(); auto B = s.coeff_b(); auto a = b.q.coeff_a( (int) i ); auto bb = b.q.coeff_b( (int) i ); auto w = b.q.state( (int) i ); auto W = s.state(); V const * k = b.m[i].k;
            if ( !( eq( B.b0, k[0] ) && eq( B.b1, k[1] ) && eq( B.b2, k[2] ) && eq( A.a1, k[3] ) && eq( A.a2, k[4] ) && eq( bb.b0, k[0] ) && eq( bb.b1, k[1] ) && eq( bb.b2, k[2] ) && eq( a.a1, k[3] ) && eq( a.a2, k[4] ) ) ) c.fail( "coefficients", "after %s section %zu of %zu has the wrong coefficients", after, i, b.m.size() );
            if ( !( eq( w.v1, b.m[i].v1() ) && eq( w.v2, b.m[i].v2() ) && eq( W.v1, w.v1 ) && eq( W.v2, w.v2 ) ) ) c.fail( "state", "after %s the running state of section %zu of %zu is disturbed", after, i, b.m.size() );
            c.h( bits( w.v1 ) ); ++i;
        } };
    auto one = [&]( Bq const & q, Model const & m, char const * what ) { auto A = q.coeff_a(); auto B = q.coeff_b(); auto w = q.state();
        if ( !( eq( B.b0, m.k[0] ) && eq( B.b1, m.k[1] ) && eq( B.b2, m.k[2] ) && eq( A.a1, m.k[3] ) && eq( A.a2, m.k[4] ) ) ) c.fail( "displaced", "%s has the wrong coefficients", what );
        if ( !( eq( w.v1, m.v1() ) && eq( w.v2, m.v2() ) ) ) c.fail( "displaced", "%s does not carry its running state", what ); };
    // a section to put in: a loose one, or one that runs in some cascade, possibly this one. The one given stays as it was.
    auto given = [&]( auto op ) { Box<N> & o = *box[ c.draw( box.size() ) ]; if ( !o.m.empty() && c.draw( 4 ) == 0 ) { size_t j = c.draw( o.m.size() ); c.fault( "section copied from a running cascade" ); Model m = o.m[j]; op( *( o.q.begin() + j ), m ); return; }
        Pair p = section( c ); op( p.q, p.m ); one( p.q, p.m, "the section given" ); };
    for ( u64 t = 0; t < steps; ++t )
    {
        c.step(); Box<N> & b = *box[ c.draw( box.size() ) ]; size_t n = b.m.size(); u64 op = c.draw( 16 ); c.cover( op * 64 + n );
        char const * what = "a step";
        switch ( op )
        {
            case 6: case 7: if ( n < N ) { given( [&]( Bq & q, Model const & m ) { b.q.append( q ); b.m.push_back( m ); } ); c.fault( n + 1 == N ? "append up to capacity" : "append while running" ); what = "append"; } break;
            case 8: if ( n && n < N ) { size_t i = c.draw( n ); given( [&]( Bq & q, Model const & m ) { b.q.insert( (int) i, q ); b.m.insert( b.m.begin() + i, m ); } ); c.fault( n + 1 == N ? "insert up to capacity" : "insert while running" ); what = "insert"; } break;
            case 9: if ( n ) { size_t i = c.draw( n ); b.q.remove( (int) i ); b.m.erase( b.m.begin() + i ); c.fault( n == N ? "remove from full cascade" : "remove while running" ); what = "remove"; } break;
            case 10: if ( n ) { size_t i = c.draw( n ); Pair p; if ( !loose.empty() && c.draw( 2 ) ) { p = loose.back(); loose.pop_back(); c.probe( "displaced section put back" ); Bq old = b.q.replace( (int) i, p.q ); Model om = b.m[i]; b.m[i] = p.m; one( old, om, "the section handed back by replace" ); one( p.q, p.m, "the section given" ); loose.push_back( { old, om } ); }
                else given( [&]( Bq & q, Model const & m ) { Model om = b.m[i]; Bq old = b.q.replace( (int) i, q ); b.m[i] = m; one( old, om, "the section handed back by replace" ); loose.push_back( { old, om } ); } );
                c.fault( "replace while running" ); what = "replace"; } break;
            case 11: if ( c.chance( 1, 3 ) ) { b.q.clear(); b.m.clear(); c.fault( "clear while running" ); what = "clear"; } break;
            case 12: if ( c.chance( 1, 2 ) ) { dsp::biquad_cascade::reset( b.q ); for ( auto & m : b.m ) m.q.reset(); c.fault( "reset while running" ); what = "reset"; } break;
            case 13: if ( box.size() < 4 ) { auto nb = std::make_unique<Box<N>>( b ); box.push_back( std::move( nb ) ); c.fault( "snapshot taken" ); what = "copy"; } break;
            case 14: { auto & o = *box[ c.draw( box.size() ) ]; if ( &o != &b ) { b.q = o.q; b.m = o.m; c.fault( "restored from another cascade" ); what = "assignment"; } break; }
            case 15: if ( box.size() > 1 && c.chance( 1, 3 ) ) { box.erase( box.begin() + c.draw( box.size() ) ); c.fault( "cascade destroyed" ); for ( auto & x : box ) check( *x, "destruction of another" ); continue; } if ( !loose.empty() ) { auto & l = loose[ c.draw( loose.size() ) ]; V x = val( c ); if ( !eq( l.q.step( x ), l.m.step( x, STEP ) ) ) c.fail( "displaced", "a displaced section gives a wrong output" ); } break;
            default:
            {
                Form f = (Form) c.draw( 3 ); V x = val( c ), v = x;
                V y = f == DF2 ? step_df2( b.q, x ) : f == STEP ? dsp::biquad_cascade::step( b.q, x ) : step_df2_transposed( b.q, x );
                for ( auto & m : b.m ) v = m.step( v, f );
                c.h( bits( y ) ); if ( !eq( y, v ) ) c.fail( "output", "%s of a cascade of %zu sections does not give the output of its sections in order", form_name( f ), n );
            }
        }
        if ( (size_t) b.q.size() == N ) c.probe( "cascade at capacity" ); if ( b.m.empty() ) c.probe( "empty cascade" );
        for ( auto & x : box ) check( *x, x.get() == &b ? what : "an operation on another cascade" );
    }
}
int main( int argc, char ** argv )
{
    Check ck; ck.property = "F03";
    ck.rule = "A run draws up to four live cascades of one capacity (1, 2, 3, 5, 8) and a history of append, insert, remove, replace, clear, reset, snapshot, restore, destruction and steps; the incoming and displaced sections carry running state; some incoming ones are those of a running cascade, also of the one being changed; the section given must stay as it was. After every operation size, iteration, coefficients and state of every section of every cascade are compared with a list model over a prime field; the build has AddressSanitizer. Non-trivial: at least one reconfiguration; distinct by operation and size sequence.";
    ck.distinct_measure = "hash of the sequence of (operation, cascade size)";
    ck.real = { "dsp::BiQuadCascadeT, dsp::BiQuadT from /repo/include" }; ck.stub = { "reconfiguration commands and signal source (simulated)" };
    ck.assumptions = { "the documented preconditions (asserted in the code) are respected: index within size, size below capacity before append and insert", "a single section steps and resets correctly (F01, F02): the list model is made of loose sections of the library" };
    ck.scenarios = { { "cap1", 60000, 1200000, reconfigure<1> }, { "cap2", 90000, 1800000, reconfigure<2> }, { "cap3", 120000, 2400000, reconfigure<3> }, { "cap5", 120000, 2400000, reconfigure<5> }, { "cap8", 120000, 2400000, reconfigure<8> } };
    return dst_main( argc, argv, ck );
}
