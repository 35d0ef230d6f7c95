// The public entry points, one function per storage order and pipeline: the
// kernel is the one the library selects.
#include <cstdint>
#include <tuple>
#include <type_traits>
#include "public/gemmlowp.h"

using namespace gemmlowp;
typedef std::uint8_t u8;
typedef std::int8_t i8;
typedef std::int16_t i16;
typedef std::int32_t i32;

#define R MapOrder::RowMajor
#define C MapOrder::ColMajor
typedef VectorMap<const i32, VectorShape::Col> VC;
typedef VectorMap<const i32, VectorShape::Row> VR;

#define FORMAT(NAME, BDP)                                                                                       \
  typedef BDP B_##NAME;                                                                                         \
  extern "C" const int vp_format_##NAME[] = {                                                                   \
      DefaultKernel<BDP>::Format::Lhs::Cell::kWidth, DefaultKernel<BDP>::Format::Lhs::Cell::kDepth,             \
      static_cast<int>(DefaultKernel<BDP>::Format::Lhs::Cell::kOrder), DefaultKernel<BDP>::Format::Lhs::kCells, \
      std::is_signed<DefaultKernel<BDP>::Format::Lhs::Scalar>::value,                                           \
      DefaultKernel<BDP>::Format::Rhs::Cell::kWidth, DefaultKernel<BDP>::Format::Rhs::Cell::kDepth,             \
      static_cast<int>(DefaultKernel<BDP>::Format::Rhs::Cell::kOrder), DefaultKernel<BDP>::Format::Rhs::kCells, \
      std::is_signed<DefaultKernel<BDP>::Format::Rhs::Scalar>::value, static_cast<int>(CellOrder::DepthMajor),  \
      static_cast<int>(CellOrder::WidthMajor), kRegisterSize};
FORMAT(l8r8, DefaultL8R8BitDepthParams)
FORMAT(l7r5, DefaultL7R5BitDepthParams)
FORMAT(nz, L8R8WithLhsNonzeroBitDepthParams)
#if defined(GEMMLOWP_NEON)
FORMAT(s8, SignedL8R8WithLhsNonzeroBitDepthParams)
#endif

#define ARGS(IN, OUT)                                                                                        \
  const IN *lhs, int ls, const IN *rhs, int rs, OUT *dst, int ds, const i32 *lo, const i32 *ro, const i32 *p, \
      const i32 *bc, const i32 *br, const i32 *q0, const i32 *q1, int rows, int cols, int depth
#define MAPS(IN, OUT, LO, RO, DO)                       \
  GemmContext ctx;                                      \
  const MatrixMap<const IN, LO> lm(lhs, rows, depth, ls); \
  const MatrixMap<const IN, RO> rm(rhs, depth, cols, rs); \
  MatrixMap<OUT, DO> dm(dst, rows, cols, ds);

// stages
inline OutputStageQuantizeDownInt32ToUint8Scale Scale(const i32* p, int shift) {
  OutputStageQuantizeDownInt32ToUint8Scale s;
  s.result_offset = p[0];
  s.result_mult_int = p[1];
  s.result_shift = shift;
  return s;
}
template <VectorShape S>
inline OutputStageQuantizeDownInt32ToUint8ScalePC<S> ScalePC(const i32* o, const i32* m, int n, int shift) {
  OutputStageQuantizeDownInt32ToUint8ScalePC<S> s;
  s.result_offset = VectorMap<const i32, S>(o, n);
  s.result_mult_int = VectorMap<const i32, S>(m, n);
  s.result_shift = shift;
  return s;
}
inline OutputStageQuantizeDownInt32ByFixedPoint Fix(const i32* p, int shift) {
  OutputStageQuantizeDownInt32ByFixedPoint s;
  s.result_fixedpoint_multiplier = p[4];
  s.result_offset_after_shift = p[5];
  s.result_shift = shift;
  return s;
}
inline OutputStageScaleInt32ByFixedPointAndExponent FixE(const i32* p, int e) {
  OutputStageScaleInt32ByFixedPointAndExponent s;
  s.result_fixedpoint_multiplier = p[4];
  s.result_offset_after_shift = p[5];
  s.result_exponent = e;
  return s;
}
template <VectorShape S>
inline OutputStageScaleInt32ByFixedPointAndExponentPC<S> FixEPC(const i32* p, const i32* m, const i32* e, int n) {
  OutputStageScaleInt32ByFixedPointAndExponentPC<S> s;
  s.result_fixedpoint_multiplier = VectorMap<const i32, S>(m, n);
  s.result_exponent = VectorMap<const i32, S>(e, n);
  s.result_offset_after_shift = p[5];
  return s;
}
inline OutputStageClamp Clamp(const i32* p) {
  OutputStageClamp s;
  s.min = p[2];
  s.max = p[3];
  return s;
}
template <typename V>
inline OutputStageBiasAddition<V> Bias(const i32* b, int n) {
  OutputStageBiasAddition<V> s;
  s.bias_vector = V(b, n);
  return s;
}
#define ROW VectorShape::Row
#define COL VectorShape::Col
#define BC Bias<VC>(bc, rows)
#define BR Bias<VR>(br, cols)
#define BQ Bias<VC>(q0, rows)
#define BS Bias<VR>(q1, cols)
#define T_p0 i32
#define P_p0 std::make_tuple()
#define T_p1 i32
#define P_p1 std::make_tuple(BC)
#define T_p1r i32
#define P_p1r std::make_tuple(BR)
#define T_p2 i32
#define P_p2 std::make_tuple(BC, BR)
#define T_p2s u8
#define P_p2s std::make_tuple(ScalePC<COL>(q0, q1, rows, 0), OutputStageSaturatingCastToUint8())
#define T_p3 u8
#define P_p3 std::make_tuple(BR, ScalePC<COL>(q0, q1, rows, 5), OutputStageSaturatingCastToUint8())
#define T_p4 u8
#define P_p4 std::make_tuple(ScalePC<ROW>(q0, q1, cols, 3), BC, Clamp(p), OutputStageSaturatingCastToUint8())
#define T_p5 i16
#define P_p5 std::make_tuple(BR, Fix(p, 4), BC, Clamp(p), OutputStageSaturatingCastToInt16())
#define T_p6 u8
#define P_p6 std::make_tuple(BC, BR, Scale(p, 2), BQ, Clamp(p), OutputStageSaturatingCastToUint8())
#define T_p2b i32
#define P_p2b std::make_tuple(BC, BQ)
#define T_p3b i32
#define P_p3b std::make_tuple(BC, BR, BQ)
#define T_p4b i32
#define P_p4b std::make_tuple(BC, BQ, BR, BS)
#define T_p5b u8
#define P_p5b std::make_tuple(BC, BR, BS, BQ, OutputStageSaturatingCastToUint8())
#define T_pe i32
#define P_pe std::make_tuple(FixE(p, -3), BR)
#define T_pec i32
#define P_pec std::make_tuple(BR, FixEPC<COL>(p, q0, q1, rows))
#define T_per i32
#define P_per std::make_tuple(BC, FixEPC<ROW>(p, q0, q1, cols))

// GemmWithOutputPipeline: one offset for each operand.
#define WP(BDP, IN, PIPE, LO, RO, DO)                                                                   \
  extern "C" void vp__wp__##BDP##__##PIPE##__##LO##RO##DO(ARGS(IN, T_##PIPE)) {                         \
    MAPS(IN, T_##PIPE, LO, RO, DO)                                                                      \
    GemmWithOutputPipeline<IN, T_##PIPE, B_##BDP>(&ctx, lm, rm, &dm, lo[0], ro[0], P_##PIPE);           \
  }
// GemmWithOutputPipelinePC: an offset for each row and column.
#define PC(BDP, IN, PIPE, LO, RO, DO)                                                                   \
  extern "C" void vp__pc__##BDP##__##PIPE##__##LO##RO##DO(ARGS(IN, T_##PIPE)) {                         \
    MAPS(IN, T_##PIPE, LO, RO, DO)                                                                      \
    GemmWithOutputPipelinePC<IN, T_##PIPE, B_##BDP>(&ctx, lm, rm, &dm, VC(lo, rows), VR(ro, cols),      \
                                                    P_##PIPE);                                          \
  }
// PC with one of the offsets a constant.
#define PD(BDP, IN, PIPE, LO, RO, DO)                                                                   \
  extern "C" void vp__pd__##BDP##__##PIPE##__##LO##RO##DO(ARGS(IN, T_##PIPE)) {                         \
    MAPS(IN, T_##PIPE, LO, RO, DO)                                                                      \
    typedef VectorDup<const i32, VectorShape::Row> DR;                                                  \
    GemmWithOutputPipelinePC<IN, T_##PIPE, B_##BDP>(&ctx, lm, rm, &dm, VC(lo, rows), DR(ro[0], cols),   \
                                                    P_##PIPE);                                          \
  }
// Gemm: the standard pipeline.
#define GM(BDP, IN, SHIFT, LO, RO, DO)                                                                  \
  extern "C" void vp__gm__##BDP##__##SHIFT##__##LO##RO##DO(ARGS(IN, u8)) {                               \
    MAPS(IN, u8, LO, RO, DO)                                                                            \
    Gemm<u8, B_##BDP>(&ctx, lm, rm, &dm, lo[0], ro[0], p[0], p[1], SHIFT);                              \
  }

GM(l8r8, u8, 0, R, C, R) GM(l8r8, u8, 7, C, R, C) GM(l8r8, u8, 21, R, R, C) GM(l7r5, u8, 3, C, C, R)
WP(l8r8, u8, p0, R, C, C) WP(l8r8, u8, p1, C, C, R) WP(l8r8, u8, p1r, R, R, C) WP(l8r8, u8, p2, R, R, R)
PC(l8r8, u8, p0, R, C, R) PC(l8r8, u8, p2, C, R, C) PD(l8r8, u8, p1, C, C, C) PD(l8r8, u8, p0, R, R, C)
WP(l8r8, u8, p2s, C, R, R) PC(l8r8, u8, p3, R, C, C) PC(l8r8, u8, p4, C, R, R) WP(l8r8, u8, p5, R, C, R)
PC(l8r8, u8, p6, C, C, C) WP(l8r8, u8, pe, C, R, C) WP(nz, u8, p1, R, C, C) PC(nz, u8, p2, C, R, R)
WP(l8r8, u8, p2b, C, C, R) PC(l8r8, u8, p3b, R, R, R) WP(l8r8, u8, p4b, R, R, C) WP(l8r8, u8, p5b, C, R, R)
#if defined(GEMMLOWP_NEON) || !(defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA))
PC(l8r8, u8, pec, R, C, R) WP(l8r8, u8, per, C, C, R)
#endif
#if defined(GEMMLOWP_NEON)
WP(s8, i8, p1, R, C, C) PC(s8, i8, p2, R, C, R)
#endif
