// One function per output pipeline, register block shape and destination
// order; parameters come from p0/p1/p2, shifts and exponents are enumerated.
#include <cstdint>
#include <tuple>
#include "internal/platform.h"
#include "internal/kernel_default.h"
#include "internal/single_thread_gemm.h"
#include "public/output_stages.h"

using namespace gemmlowp;
typedef std::int32_t i32;
typedef std::int16_t i16;
typedef std::int8_t i8;
typedef std::uint8_t u8;

typedef VectorMap<const i32, VectorShape::Col> VC;
typedef VectorMap<const i32, VectorShape::Row> VR;

inline OutputStageQuantizeDownInt32ToUint8Scale Scale(const i32* p, int shift) {
  OutputStageQuantizeDownInt32ToUint8Scale s;
  s.result_offset = p[0];
  s.result_mult_int = p[1];
  s.result_shift = shift;
  return s;
}
template <VectorShape S>
inline OutputStageQuantizeDownInt32ToUint8ScalePC<S> ScalePC(const i32* o, const i32* m, int shift) {
  OutputStageQuantizeDownInt32ToUint8ScalePC<S> s;
  s.result_offset = VectorMap<const i32, S>(o, 1);
  s.result_mult_int = VectorMap<const i32, S>(m, 1);
  s.result_shift = shift;
  return s;
}
inline OutputStageQuantizeDownInt32ByFixedPoint Fix(const i32* p, int shift) {
  OutputStageQuantizeDownInt32ByFixedPoint s;
  s.result_fixedpoint_multiplier = p[0];
  s.result_offset_after_shift = p[1];
  s.result_shift = shift;
  return s;
}
inline OutputStageScaleInt32ByFixedPointAndExponent FixE(const i32* p, int e) {
  OutputStageScaleInt32ByFixedPointAndExponent s;
  s.result_fixedpoint_multiplier = p[0];
  s.result_offset_after_shift = p[1];
  s.result_exponent = e;
  return s;
}
template <VectorShape S>
inline OutputStageScaleInt32ByFixedPointAndExponentPC<S> FixEPC(const i32* p, const i32* m, const i32* e) {
  OutputStageScaleInt32ByFixedPointAndExponentPC<S> s;
  s.result_fixedpoint_multiplier = VectorMap<const i32, S>(m, 1);
  s.result_exponent = VectorMap<const i32, S>(e, 1);
  s.result_offset_after_shift = p[1];
  return s;
}
inline OutputStageClamp Clamp(const i32* p) {
  OutputStageClamp s;
  s.min = p[2];
  s.max = p[3];
  return s;
}
template <typename V>
inline OutputStageBiasAddition<V> Bias(const i32* b) {
  OutputStageBiasAddition<V> s;
  s.bias_vector = V(b, 1);
  return s;
}

#define P1(NAME, T, R, C, O, ...)                                                              \
  extern "C" void vp__p__##NAME##__##R##_##C##__##O(                                            \
      const i32* in, T* dst, int ds, int gr, int gc, int dr, int dc, const i32* p0,             \
      const i32* p1, const i32* p2) {                                                           \
    MatrixMap<const i32, MapOrder::ColMajor> s(in, R, C, R);                                    \
    MatrixMap<T, MapOrder::O> d(dst, 1, 1, ds);                                                 \
    auto block = Load<RegisterBlock<i32, R, C>>(s, 0, 0);                                       \
    auto pipeline = std::make_tuple(__VA_ARGS__);                                               \
    OutputPipelineExecutor<decltype(pipeline), RegisterBlock<i32, R, C>> ex(pipeline);          \
    ex.Execute(block, &d, gr, gc, dr, dc);                                                      \
  }
#define P2(NAME, T, R, C, ...) \
  P1(NAME, T, R, C, ColMajor, __VA_ARGS__) P1(NAME, T, R, C, RowMajor, __VA_ARGS__)
#define PS(NAME, T, ...)                                                                       \
  P2(NAME, T, 1, 1, __VA_ARGS__) P2(NAME, T, 4, 1, __VA_ARGS__) P2(NAME, T, 8, 1, __VA_ARGS__)  \
  P2(NAME, T, 1, 4, __VA_ARGS__) P2(NAME, T, 4, 4, __VA_ARGS__) P2(NAME, T, 8, 4, __VA_ARGS__)

PS(biasC, i32, Bias<VC>(p0))
PS(biasR, i32, Bias<VR>(p0))
PS(biasRC, i32, Bias<VR>(p0), Bias<VC>(p1))
PS(scale_0, i32, Scale(p0, 0))
PS(scale_1, i32, Scale(p0, 1))
PS(scale_9, i32, Scale(p0, 9))
PS(scale_31, i32, Scale(p0, 31))
PS(scaleC_7, i32, ScalePC<VectorShape::Col>(p0, p1, 7))
PS(scaleR_7, i32, ScalePC<VectorShape::Row>(p0, p1, 7))
PS(scaleC_0, i32, ScalePC<VectorShape::Col>(p0, p1, 0))
PS(scaleR_0, i32, ScalePC<VectorShape::Row>(p0, p1, 0))
PS(fix_0, i32, Fix(p0, 0))
PS(fix_1, i32, Fix(p0, 1))
PS(fix_13, i32, Fix(p0, 13))
PS(fix_31, i32, Fix(p0, 31))
PS(fixe_0, i32, FixE(p0, 0))
PS(fixe_m1, i32, FixE(p0, -1))
PS(fixe_m11, i32, FixE(p0, -11))
PS(fixe_m31, i32, FixE(p0, -31))
PS(fixe_p1, i32, FixE(p0, 1))
PS(fixe_p5, i32, FixE(p0, 5))
PS(clamp, i32, Clamp(p0))
PS(satu8, u8, OutputStageSaturatingCastToUint8())
PS(sati16, i16, OutputStageSaturatingCastToInt16())
#if !(defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_NEON))
PS(truncu8, u8, OutputStageTruncatingCastToUint8())
#endif
#if defined(GEMMLOWP_NEON) || !(defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA))
PS(fixeC, i32, FixEPC<VectorShape::Col>(p0, p1, p2))
PS(fixeR, i32, FixEPC<VectorShape::Row>(p0, p1, p2))
PS(sati8, i8, OutputStageSaturatingCastToInt8())
PS(chain3, i8, Bias<VC>(p1), Clamp(p0), OutputStageSaturatingCastToInt8())
#endif
PS(chain1, u8, Bias<VC>(p1), Scale(p0, 5), OutputStageSaturatingCastToUint8())
PS(chain2, i16, Fix(p0, 4), Bias<VR>(p1), Clamp(p0), OutputStageSaturatingCastToInt16())
PS(chain4, u8, Bias<VR>(p1), Fix(p0, 3), Clamp(p0), OutputStageSaturatingCastToUint8())

inline OutputStageTanh Tanh(i32 zero, i32 amplitude) {
  OutputStageTanh s;
  s.real_zero_as_int32 = zero;
  s.real_amplitude_as_int32 = amplitude;
  return s;
}
#define PT(NAME, T, ...)                                                                       \
  P2(NAME, T, 1, 1, __VA_ARGS__) P2(NAME, T, 4, 1, __VA_ARGS__) P2(NAME, T, 4, 4, __VA_ARGS__)
PT(tanh_0_1000, i32, Tanh(0, 1000))
PT(tanh_128_127, i32, Tanh(128, 127))

#define S8(T)                                                                                  \
  extern "C" void vp__s__##T(const T* buf, T* dst, int ds, int r, int c) {                      \
    MatrixMap<T, MapOrder::RowMajor> d(dst, 1, 1, ds);                                          \
    StoreFinalOutput(LoadContiguous<RegisterBlock<T, 8, 8>>(buf), &d, r, c);                    \
  }
S8(u8)
S8(i16)
S8(i32)
#if defined(GEMMLOWP_NEON) || !(defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA))
S8(i8)
#endif
