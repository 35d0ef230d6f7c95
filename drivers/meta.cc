// The meta library: GEMM executors for every kernel family, shape and stream
// order, the multi-threaded forms and the legacy functions.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include "public/gemmlowp.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/single_thread_gemm.h"
#include "meta/streams.h"
#if VP_PART == 9
#include "meta/legacy_multi_thread_gemm.h"
#else
#include "meta/multi_thread_gemm.h"
#endif

using namespace gemmlowp::meta;
typedef std::uint8_t u8;
typedef std::int32_t i32;

struct A {
  int m, n, k, ls, rs, lm, la, rm, ra, ds, mult, round, shift;
  float scale;
};

inline void kern(const A& a, QuantizedStaticPreprocessed* k) {
  k->multiplicative_offset = a.mult;
  k->rounding_offset = a.round;
  k->shift = -a.shift;  // to the right
  k->count = a.k;
}
inline void kern(const A& a, QuantizedStaticPreprocessedAsInt32* k) { k->count = a.k; }
inline void kern(const A& a, QuantizedStaticPreprocessedAsFloat* k) {
  k->count = a.k;
  k->scale = a.scale;
}

template <typename P>
inline void fill(const A& a, const u8* l, const u8* r, typename P::OutType* d, u8* s, P* p) {
  p->m = a.m;
  p->n = a.n;
  p->k = a.k;
  p->lhs = l;
  p->rhs = r;
  p->result = d;
  p->scratch = s;
  p->left_stream.count = a.k;
  p->left_stream.stride = a.ls;
  p->left_stream.multiplicative_sum_offset = a.lm;
  p->left_stream.additive_sum_offset = a.la;
  p->right_stream.count = a.k;
  p->right_stream.stride = a.rs;
  p->right_stream.multiplicative_sum_offset = a.rm;
  p->right_stream.additive_sum_offset = a.ra;
  kern(a, &p->fused_kernel.kernel);
  p->fused_kernel.output_stream.stride = a.ds;
}

typedef QuantizedStaticPreprocessed q8;
typedef QuantizedStaticPreprocessedAsInt32 i3;
typedef QuantizedStaticPreprocessedAsFloat f3;
typedef RowMajorWithSum R;
typedef ColumnMajorWithSum C;
typedef GemmExecutorPackRHS ER;
typedef GemmExecutorPackLHS EL;
typedef GemmExecutorPackRHSCacheFriendly<1024> CR;
typedef GemmExecutorPackLHSCacheFriendly<1024> CL;
typedef GemmExecutorPackRHSCacheFriendly<> DR;
typedef GemmExecutorPackLHSCacheFriendly<> DL;
template <typename K> struct Out { typedef float T; };
template <> struct Out<q8> { typedef u8 T; };
template <> struct Out<i3> { typedef i32 T; };

#define G(E, K, M, N, L, S)                                                                        \
  extern "C" void vp_st_##E##_##K##_##M##x##N##_##L##S(const A& a, const u8* l, const u8* r,       \
                                                       Out<K>::T* d, u8* s) {                      \
    GemmParams<u8, Out<K>::T, L, S, K, RowMajor> p;                                                \
    fill(a, l, r, d, s, &p);                                                                       \
    Gemm<E, decltype(p), M, N, 8>(p);                                                              \
  }                                                                                                \
  extern "C" int vp_size_##E##_##K##_##M##x##N##_##L##S(const A& a) {                              \
    GemmParams<u8, Out<K>::T, L, S, K, RowMajor> p;                                                \
    fill(a, nullptr, nullptr, nullptr, nullptr, &p);                                               \
    return E::EstimateScratchSize(p, M, N, 8);                                                     \
  }

#define MT(E, K, M, N, L, S)                                                                       \
  extern "C" void vp_mt_##E##_##K##_##M##x##N##_##L##S(SimpleContext<gemmlowp::WorkersPool>* c,    \
                                                       const A& a, const u8* l, const u8* r,       \
                                                       Out<K>::T* d, u8* s) {                      \
    GemmParams<u8, Out<K>::T, L, S, K, RowMajor> p;                                                \
    fill(a, l, r, d, s, &p);                                                                       \
    MultiThreadGemm<SimpleContext<gemmlowp::WorkersPool>, E, decltype(p), M, N, 8>(c, p);          \
  }                                                                                                \
  extern "C" int vp_msize_##E##_##K##_##M##x##N##_##L##S(const A& a) {                             \
    GemmParams<u8, Out<K>::T, L, S, K, RowMajor> p;                                                \
    fill(a, nullptr, nullptr, nullptr, nullptr, &p);                                               \
    return E::EstimateScratchSize(p, M, N, 8);                                                     \
  }

#if VP_PART == 1
G(ER, i3, 1, 8, R, R) G(ER, i3, 2, 4, R, R) G(ER, i3, 3, 3, R, R)
#elif VP_PART == 2
G(EL, i3, 1, 8, R, R) G(EL, i3, 2, 4, R, R) G(EL, i3, 3, 3, R, R)
#elif VP_PART == 3
G(ER, i3, 1, 8, R, C) G(ER, i3, 2, 4, R, C) G(ER, i3, 3, 3, C, C)
#elif VP_PART == 4
G(ER, q8, 1, 8, R, R) G(EL, q8, 2, 4, R, C) G(ER, q8, 3, 3, R, R)
#elif VP_PART == 5
G(ER, f3, 1, 8, R, R) G(EL, f3, 2, 4, R, C) G(ER, f3, 3, 3, R, R)
#elif VP_PART == 6
G(CR, i3, 2, 4, R, C) G(CL, i3, 3, 3, R, R) G(CL, i3, 2, 4, C, R)
#elif VP_PART == 7
MT(ER, i3, 2, 4, R, R) MT(DL, q8, 2, 4, R, R)
#elif VP_PART == 8
MT(DR, f3, 2, 4, R, C) MT(EL, i3, 3, 3, R, R)
#elif VP_PART == 9
extern "C" void vp_q8(gemmlowp::WorkersPool* p, const A& a, const u8* l, const u8* r, u8* d, u8* s, int t) {
  multi_thread_gemm_q8(p, t, s, l, r, a.m, a.n, a.k, a.lm, a.rm, a.la, a.mult, a.shift, d);
}
extern "C" void vp_i32(gemmlowp::WorkersPool* p, const A& a, const u8* l, const u8* r, i32* d, u8* s, int t) {
  multi_thread_gemm_i32(p, t, s, l, r, a.m, a.n, a.k, a.lm, a.rm, d);
}
extern "C" void vp_f(gemmlowp::WorkersPool* p, const A& a, const u8* l, const u8* r, float* d, u8* s, int t) {
  multi_thread_gemm_f(p, t, s, l, r, a.m, a.n, a.k, a.lm, a.rm, a.scale, d);
}
extern "C" int vp_q8_scratch(const A& a, int t) { return gemm_q8_scratch(a.m, a.n, a.k, t); }
extern "C" int vp_i32_scratch(const A& a, int t) { return gemm_i32_scratch(a.m, a.n, a.k, t); }
extern "C" int vp_f_scratch(const A& a, int t) { return gemm_f_scratch(a.m, a.n, a.k, t); }
#endif
