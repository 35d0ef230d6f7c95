// One function per fixed-point primitive, raw type and exponent.  The lanes of
// every function are compared with the documented scalar function.
#include <cstdint>
#include <cassert>
#include <algorithm>
#include <limits>
#include "fixedpoint/fixedpoint.h"

using namespace gemmlowp;

#define V extern "C" void

#define U1(OP, T, N) \
  V vp__##OP##__##N(const T* a, T* r) { *r = OP(*a); }
#define U2(OP, T, N) \
  V vp__##OP##__##N(const T* a, const T* b, T* r) { *r = OP(*a, *b); }
#define SH(OP, T, N, E) \
  V vp__##OP##__##N##__##E(const T* a, T* r) { *r = OP(*a, E); }
#define MP(T, N, E) \
  V vp__MulPOT__##N##__p##E(const T* a, T* r) { *r = SaturatingRoundingMultiplyByPOT<E>(*a); }
#define MN(T, N, E) \
  V vp__MulPOT__##N##__m##E(const T* a, T* r) { *r = SaturatingRoundingMultiplyByPOT<-E>(*a); }

// the dup'ed exponent variant of the rounding division
#define E16(X, ...) \
  X(__VA_ARGS__, 1) X(__VA_ARGS__, 2) X(__VA_ARGS__, 3) X(__VA_ARGS__, 4) X(__VA_ARGS__, 5)     \
  X(__VA_ARGS__, 6) X(__VA_ARGS__, 7) X(__VA_ARGS__, 8) X(__VA_ARGS__, 9) X(__VA_ARGS__, 10)    \
  X(__VA_ARGS__, 11) X(__VA_ARGS__, 12) X(__VA_ARGS__, 13) X(__VA_ARGS__, 14)
#define E15(X, ...) X(__VA_ARGS__, 0) E16(X, __VA_ARGS__) X(__VA_ARGS__, 15)
#define E30(X, ...)                                                                            \
  E16(X, __VA_ARGS__)                                                                          \
  X(__VA_ARGS__, 15) X(__VA_ARGS__, 16) X(__VA_ARGS__, 17) X(__VA_ARGS__, 18)                   \
  X(__VA_ARGS__, 19) X(__VA_ARGS__, 20) X(__VA_ARGS__, 21) X(__VA_ARGS__, 22)                   \
  X(__VA_ARGS__, 23) X(__VA_ARGS__, 24) X(__VA_ARGS__, 25) X(__VA_ARGS__, 26)                   \
  X(__VA_ARGS__, 27) X(__VA_ARGS__, 28) X(__VA_ARGS__, 29) X(__VA_ARGS__, 30)
#define E31(X, ...) X(__VA_ARGS__, 0) E30(X, __VA_ARGS__) X(__VA_ARGS__, 31)

#define COMMON(T, N)                                                                           \
  U2(BitAnd, T, N) U2(BitOr, T, N) U2(BitXor, T, N) U1(BitNot, T, N) U2(Add, T, N)              \
  U2(Sub, T, N) U2(Mul, T, N) U1(Neg, T, N) U1(MaskIfZero, T, N) U1(MaskIfNonZero, T, N)        \
  U2(MaskIfEqual, T, N) U2(MaskIfNotEqual, T, N) U2(MaskIfGreaterThan, T, N)                    \
  U2(MaskIfGreaterThanOrEqual, T, N) U2(MaskIfLessThan, T, N) U2(MaskIfLessThanOrEqual, T, N)   \
  U2(RoundingHalfSum, T, N) U2(SaturatingRoundingDoublingHighMul, T, N)                         \
  U2(AddSaturatingIf16Bit, T, N)                                                                \
  V vp__SelectUsingMask__##N(const T* a, const T* b, const T* c, T* r) {                        \
    *r = SelectUsingMask(*a, *b, *c);                                                           \
  }                                                                                             \
  V vp__All__##N(const T* a, unsigned char* r) { *r = All(*a); }                                \
  V vp__Any__##N(const T* a, unsigned char* r) { *r = Any(*a); }                                \
  V vp__Equal__##N(const T* a, const T* b, unsigned char* r) {                                  \
    *r = FixedPoint<T, 3>::FromRaw(*a) == FixedPoint<T, 3>::FromRaw(*b);                        \
  }                                                                                             \
  V vp__NotEqual__##N(const T* a, const T* b, unsigned char* r) {                               \
    *r = FixedPoint<T, 3>::FromRaw(*a) != FixedPoint<T, 3>::FromRaw(*b);                        \
  }                                                                                             \
  V vp__FMul__##N(const T* a, const T* b, T* r) {                                               \
    FixedPoint<T, 5> p = FixedPoint<T, 2>::FromRaw(*a) * FixedPoint<T, 3>::FromRaw(*b);         \
    *r = p.raw();                                                                               \
  }                                                                                             \
  V vp__Rescale__##N##__m2(const T* a, T* r) {                                                  \
    FixedPoint<T, 5> p = Rescale<5>(FixedPoint<T, 3>::FromRaw(*a));                             \
    *r = p.raw();                                                                               \
  }                                                                                             \
  V vp__Rescale__##N##__p3(const T* a, T* r) {                                                  \
    FixedPoint<T, 2> p = Rescale<2>(FixedPoint<T, 5>::FromRaw(*a));                             \
    *r = p.raw();                                                                               \
  }                                                                                             \
  V vp__ExactMulByPot__##N(const T* a, T* r) {                                                  \
    FixedPoint<T, 5> p = ExactMulByPot<2>(FixedPoint<T, 3>::FromRaw(*a));                       \
    *r = p.raw();                                                                               \
  }                                                                                             \
  V vp__Dup__##N(const FixedPointRawTypeTraits<T>::ScalarRawType* a, T* r) { *r = Dup<T>(*a); } \
  V vp__One__##N(T* r) { *r = FixedPoint<T, 3>::One().raw(); }                                  \
  V vp__One0__##N(T* r) { *r = FixedPoint<T, 0>::One().raw(); }                                 \
  V vp__Zero__##N(T* r) { *r = FixedPoint<T, 3>::Zero().raw(); }                                \
  V vp__PotM2__##N(T* r) { *r = FixedPoint<T, 3>::template ConstantPOT<-2>().raw(); }           \
  V vp__Pot1__##N(T* r) { *r = FixedPoint<T, 3>::template ConstantPOT<1>().raw(); }             \
  extern "C" const int vp_lanes_##N = FixedPointRawTypeTraits<T>::kLanes;                       \
  extern "C" const int vp_bits_##N = 8 * sizeof(FixedPointRawTypeTraits<T>::ScalarRawType);     \
  extern "C" const int vp_size_##N = sizeof(T);

#define ALL32(T, N)                                                                            \
  COMMON(T, N) E31(SH, RoundingDivideByPOT, T, N) E31(SH, ShiftRight, T, N)                     \
  E30(SH, ShiftLeft, T, N) E30(MP, T, N) E30(MN, T, N) MN(T, N, 31)
#define ALL16(T, N)                                                                            \
  COMMON(T, N) E15(SH, RoundingDivideByPOT, T, N) E15(SH, ShiftRight, T, N)                     \
  E16(SH, ShiftLeft, T, N) E16(MP, T, N) E16(MN, T, N) MN(T, N, 15) U2(SaturatingAdd, T, N)

ALL32(std::int32_t, s32)
ALL16(std::int16_t, s16)
U2(SaturatingAdd, std::int8_t, s8)

#define SHV(OP, T, N, E) \
  V vp__##OP##V__##N##__##E(const T* a, T* r) { *r = OP(*a, Dup<T>(E)); }

#if defined(GEMMLOWP_NEON)
ALL32(int32x4_t, v32)
ALL16(int16x8_t, v16)
E31(SHV, RoundingDivideByPOT, int32x4_t, v32)
E15(SHV, RoundingDivideByPOT, int16x8_t, v16)
#elif defined(GEMMLOWP_AVX2)
ALL32(__m256i, w32)
ALL16(int16x16_m256i, w16)
ALL32(__m128i, v32)
ALL16(int16x8_m128i, v16)
#elif defined(GEMMLOWP_SSE4)
ALL32(__m128i, v32)
ALL16(int16x8_m128i, v16)
#elif defined(GEMMLOWP_MSA)
ALL32(v4i32, v32)
ALL16(v8i16, v16)
#elif defined(GEMMLOWP_WASMSIMD)
ALL32(v128_t, v32)
ALL16(int16x8_v128_t, v16)
#endif
