// Arithmetic exercised identically on the host and on the simulated core (simulator self-test).
#include <stdint.h>
#include <string.h>
static uint32_t st_state; static uint32_t st_hash;
static uint32_t st_rnd() { st_state = st_state * 1664525u + 1013904223u; uint32_t r = st_state ^ st_state >> 15; return ( r & 0x30000 ) ? r : r & 0x8100ff01; }
static void st_put( uint32_t x ) { st_hash = ( st_hash ^ x ) * 16777619u; st_hash ^= st_hash >> 13; }
static float st_f( uint32_t x ) { float f; x = ( x & 0x807fffff ) | ( ( ( x >> 23 & 31 ) + 112 ) << 23 ); memcpy( &f, &x, 4 ); return f; }
static void st_pf( float f ) { uint32_t x; memcpy( &x, &f, 4 ); st_put( x ); }
static void __attribute__((noinline)) st_round()
{
    volatile uint32_t va = st_rnd(), vb = st_rnd(); uint32_t a = va, b = vb; int32_t sa = a, sb = b;
    st_put( a + b ); st_put( a - b ); st_put( a * b ); st_put( b ? a / b : 1 ); st_put( b ? a % b : 1 ); st_put( sb && sb != -1 ? sa / sb : 1 ); st_put( sb && sb != -1 ? sa % sb : 1 );
    st_put( a < b ); st_put( sa < sb ); st_put( sa <= sb ); st_put( a >= b ); st_put( a << ( b & 31 ) ); st_put( a >> ( b & 31 ) ); st_put( sa >> ( b & 31 ) ); st_put( a & b ); st_put( a | b ); st_put( a ^ b ); st_put( ~a ); st_put( -a );
    int16_t ha = a, hb = b; uint16_t ua = a, ub = b; st_put( (uint16_t)( ua + ub ) ); st_put( (uint16_t)( ua - ub ) ); st_put( (uint32_t)( (int32_t) ha * hb ) ); st_put( (uint32_t) ua * ub ); st_put( ub ? ua / ub : 0 ); st_put( ha < hb ); st_put( (uint16_t)( ha >> ( b & 15 ) ) ); st_put( ub ? ua % ub : 0 );
    int8_t qa = a, qb = b; uint8_t pa = a, pb = b; st_put( (uint16_t)( (int16_t)( qa * qb ) ) ); st_put( (uint32_t)( (uint16_t) pa * pb ) ); st_put( (uint16_t)( (int16_t)( qa * (int16_t) pb ) ) ); st_put( qa < qb ); st_put( (uint8_t)( qa >> ( b & 7 ) ) ); st_put( pb ? pa / pb : 0 ); st_put( (uint8_t) -qa );
    int64_t la = (int64_t) sa * sb, lb = (int64_t)( (uint64_t) a << 32 | b ); st_put( la ); st_put( (uint64_t) la >> 32 ); st_put( ( la + lb ) ); st_put( (uint64_t)( la - lb ) >> 32 ); st_put( la >> ( a & 63 ) ); st_put( (uint64_t)( la >> ( b & 63 ) ) >> 32 ); if ( sb ) { st_put( lb / sb ); st_put( lb % sb ); } st_put( la < lb );
    float fa = st_f( a ), fb = st_f( b ); st_pf( fa + fb ); st_pf( fa - fb ); st_pf( fa * fb ); st_pf( fa / fb ); st_put( fa < fb ); st_put( (int32_t) fa ); st_pf( (float) sa ); st_pf( (float) ha );
}
static uint32_t st_run( uint32_t seed, uint16_t n ) { st_state = seed; st_hash = 1; while ( n-- ) st_round(); return st_hash; }
