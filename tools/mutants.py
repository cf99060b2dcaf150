B='include/dsp/biquad.hpp';C='include/dsp/biquad-cascade.hpp';O='include/dsp/onepole.hpp';K='include/dsp/kalman.hpp';M='include/num/matrix.hpp';X='include/num/fixed-point.hpp'
MUTANTS=[
 ('bq-static-w0',B,'const auto w0 = x -','static value_type w0; w0 = x -',['E05']),
 ('bq-static-y',B,'const auto y = b.b0 * x + w.v1;','static value_type y; y = b.b0 * x + w.v1;',['E05']),
 ('kal-static-K',K,'    K_t K;          // Kalman gain','    inline static K_t K;',['E05','F05','E01']),
 ('kal-static-t',K,'    real_t t;       // Elapsed time','    inline static real_t t;',['E05','F05','E01']),
 ('bq-swap-noW',B,'        swap( w, other.w );','',['F05','F03']),
 ('bq-swap-noA',B,'        swap( a, other.a );','',['F05','F03']),
 ('op-swap-noW',O,'        swap( w, other.w );','',['F05']),
 ('bq-reset-v1',B,'w = W{};','w.v1 = value_type{0};',['F02','F03']),
 ('op-reset-mul',O,'w = W{};','w.v1 = w.v1 * value_type{0};',['F02']),
 ('bq-reset-mul',B,'w = W{};','w.v1 *= 0; w.v2 *= 0;',['F02']),
 ('ca-remove-end',C,'k != next; ++k','k < next - 1; ++k',['F03']),
 ('ca-insert-state',C,'        biquad[i] = bq;\n    }\n\n    // replace','        biquad[i] = bq; if ( next == N ) biquad[next-1].reset();\n    }\n\n    // replace',['F03']),
 ('ca-replace-reset',C,'        bq.swap( biquad[i] );','        bq.swap( biquad[i] ); bq.reset();',['F03']),
 ('ca-insert-off',C,'for ( auto k = next; k != i; --k )','for ( auto k = next; k > i + 1; --k )',['F03']),
 ('bq-df2t-skip',B,'w.v2 = b.b2 * x - a.a2 * y;','w.v2 = b.b2 * x - a.a2 * w.v1;',['F01']),
 ('ca-step-short',C,'        v = bq.step_df2_transposed( v );','        v = bq.step( v );',['F01']),
 ('kal-joseph-bad',K,'xhat = xhat + K * (z - H * xhat);','xhat = xhat + K * (z - H * xhat); if ( t > real_t(1000) * dt ) P = P + Q;',['E01','E02','E03']),
]
