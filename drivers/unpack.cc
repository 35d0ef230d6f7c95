// One function per register block shape, destination order and kind of
// operand offset: the step from a packed int32 block to the destination.
#include <cstdint>
#include <tuple>
#include "internal/platform.h"
#include "internal/kernel_default.h"
#include "internal/single_thread_gemm.h"
#include "public/output_stages.h"

using namespace gemmlowp;
typedef std::int32_t i32;

struct FmtU { struct Lhs { typedef std::uint8_t Scalar, InputScalar; };
              struct Rhs { typedef std::uint8_t Scalar, InputScalar; }; };
struct FmtS { struct Lhs { typedef std::int8_t Scalar; typedef std::uint8_t InputScalar; };
              struct Rhs { typedef std::int8_t Scalar; typedef std::uint8_t InputScalar; }; };
struct FmtM { struct Lhs { typedef std::int8_t Scalar; typedef std::uint8_t InputScalar; };
              struct Rhs { typedef std::uint8_t Scalar, InputScalar; }; };
struct FmtI { struct Lhs { typedef std::int8_t Scalar, InputScalar; };
              struct Rhs { typedef std::int8_t Scalar, InputScalar; }; };

typedef std::tuple<> Empty;
static const Empty kEmpty;

#define F(FMT, R, C, O)                                                                        \
  extern "C" void vp__u__##FMT##__##R##_##C##__##O##__v(                                        \
      const i32* src, int ss, i32* dst, int ds, const i32* lsum, const i32* rsum,               \
      const i32* loff, const i32* roff, int depth, int r, int c, int gr, int gc, int dr,        \
      int dc) {                                                                                 \
    MatrixMap<const i32, MapOrder::ColMajor> s(src, 1, 1, ss);                                  \
    MatrixMap<i32, MapOrder::O> d(dst, 1, 1, ds);                                               \
    VectorMap<const i32, VectorShape::Col> ls(lsum, 1);                                         \
    VectorMap<const i32, VectorShape::Row> rs(rsum, 1);                                         \
    VectorMap<const i32, VectorShape::Col> lo(loff, 1);                                         \
    VectorMap<const i32, VectorShape::Row> ro(roff, 1);                                         \
    OutputPipelineExecutor<Empty, RegisterBlock<i32, R, C>> ex(kEmpty);                         \
    UnpackResultBlock<FMT, RegisterBlock<i32, R, C>>(s, ex, &d, ls, rs, lo, ro, depth, r, c,    \
                                                     gr, gc, dr, dc);                           \
  }                                                                                             \
  extern "C" void vp__u__##FMT##__##R##_##C##__##O##__d(                                        \
      const i32* src, int ss, i32* dst, int ds, const i32* lsum, const i32* rsum,               \
      const i32* loff, const i32* roff, int depth, int r, int c, int gr, int gc, int dr,        \
      int dc) {                                                                                 \
    MatrixMap<const i32, MapOrder::ColMajor> s(src, 1, 1, ss);                                  \
    MatrixMap<i32, MapOrder::O> d(dst, 1, 1, ds);                                               \
    VectorMap<const i32, VectorShape::Col> ls(lsum, 1);                                         \
    VectorMap<const i32, VectorShape::Row> rs(rsum, 1);                                         \
    VectorDup<const i32, VectorShape::Col> lo(*loff, 1);                                        \
    VectorDup<const i32, VectorShape::Row> ro(*roff, 1);                                        \
    OutputPipelineExecutor<Empty, RegisterBlock<i32, R, C>> ex(kEmpty);                         \
    UnpackResultBlock<FMT, RegisterBlock<i32, R, C>>(s, ex, &d, ls, rs, lo, ro, depth, r, c,    \
                                                     gr, gc, dr, dc);                           \
  }
#define O2(FMT, R, C) F(FMT, R, C, ColMajor) F(FMT, R, C, RowMajor)
#define SHAPES(FMT) O2(FMT, 1, 1) O2(FMT, 4, 1) O2(FMT, 8, 1) O2(FMT, 1, 4) O2(FMT, 4, 4) O2(FMT, 8, 4)
SHAPES(FmtU)
SHAPES(FmtS)
SHAPES(FmtM)
SHAPES(FmtI)
