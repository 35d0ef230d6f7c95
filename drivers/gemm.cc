// The blocked multiplication around a kernel that only announces its calls:
// packing, block loops, unpacking and the task split, for a few kernel
// formats, orders of operands and result, and kinds of offsets.
#include <cstdint>
#include "internal/platform.h"
#include "internal/kernel_default.h"
#include "internal/multi_thread_gemm.h"
#include "internal/single_thread_gemm.h"
#include "internal/dispatch_gemm_shape.h"
#include "public/map.h"
#include "public/output_stages.h"

using namespace gemmlowp;
typedef std::uint8_t u8;
typedef std::int32_t i32;

extern "C" void vp_kernel(i32* dst, long dst_row_stride, long dst_col_stride, const u8* lhs, const u8* rhs,
                          long start_depth, long run_depth);
extern "C" void vp_task(int n);

#define WM CellOrder::WidthMajor
#define DM CellOrder::DepthMajor
typedef KernelFormat<KernelSideFormat<CellFormat<4, 16, WM>, 1>, KernelSideFormat<CellFormat<4, 16, WM>, 1>> K4x4d16;
typedef KernelFormat<KernelSideFormat<CellFormat<4, 2, WM>, 3>, KernelSideFormat<CellFormat<4, 2, WM>, 1>> K12x4d2;
typedef KernelFormat<KernelSideFormat<CellFormat<8, 2, WM>, 3>, KernelSideFormat<CellFormat<8, 2, WM>, 1>> K24x8d2;
typedef KernelFormat<KernelSideFormat<CellFormat<4, 2, DM>, 3>, KernelSideFormat<CellFormat<4, 2, DM>, 2>> D12x8d2;
typedef KernelFormat<KernelSideFormat<CellFormat<4, 2, DM>, 3>, KernelSideFormat<CellFormat<4, 2, DM>, 1>> D12x4d2;
typedef KernelFormat<KernelSideFormat<CellFormat<4, 2, WM>, 3>, KernelSideFormat<CellFormat<4, 2, WM>, 2>> K12x8d2;
typedef KernelFormat<KernelSideFormatInt8<CellFormat<4, 16, WM>, 1>, KernelSideFormatInt8<CellFormat<4, 16, WM>, 1>>
    S4x4d16;
typedef KernelFormat<KernelSideFormatInt8<CellFormat<4, 16, WM>, 1>, KernelSideFormatInt8<CellFormat<2, 16, WM>, 1>>
    S4x2d16;
typedef KernelFormat<KernelSideFormat<CellFormat<3, 4, DM>, 2>, KernelSideFormat<CellFormat<5, 4, DM>, 1>> D6x5d4;

template <typename F>
struct Announce : KernelBase {
  typedef F Format;
  const char* Name() const override { return "announce"; }
  void Run(i32* dst, std::size_t rs, std::size_t cs, const u8* lhs, const u8* rhs, std::size_t sd,
           std::size_t rd) const override {
    vp_kernel(dst, rs, cs, lhs, rhs, sd, rd);
  }
};

#define R MapOrder::RowMajor
#define C MapOrder::ColMajor
typedef OutputStageBiasAddition<VectorMap<const i32, VectorShape::Col>> ColBias;
typedef OutputStageBiasAddition<VectorMap<const i32, VectorShape::Row>> RowBias;

#define ARGS                                                                                          \
  const u8 *lhs, int ls, const u8 *rhs, int rs, i32 *dst, int ds, const i32 *lo, const i32 *ro,        \
      const i32 *rowbias, const i32 *colbias, int rows, int cols, int depth, int l1, int l2, float f,  \
      int threads

// Single thread.
#define ST(F, LO, RO, DO) SINGLE(F, LO, RO, DO, vp__st__##F##__##LO##RO##DO, VectorMap, lo, ro)
#define SD(F, LO, RO, DO) SINGLE(F, LO, RO, DO, vp__sd__##F##__##LO##RO##DO, VectorDup, lo[0], ro[0])
#define SINGLE(F, LO, RO, DO, NAME, VEC, LV, RV)                                                          \
  extern "C" void NAME(ARGS) {                                                     \
    SingleThreadGemmContext ctx;                                                                          \
    ctx.set_l1_bytes_to_use(l1);                                                                          \
    ctx.set_l2_bytes_to_use(l2);                                                                          \
    ctx.set_l2_rhs_factor(f);                                                                             \
    MatrixMap<const u8, LO> lm(lhs, rows, depth, ls);                                                     \
    MatrixMap<const u8, RO> rm(rhs, depth, cols, rs);                                                     \
    MatrixMap<i32, DO> dm(dst, rows, cols, ds);                                                           \
    ColBias cb;                                                                                           \
    cb.bias_vector = VectorMap<const i32, VectorShape::Col>(colbias, rows);                               \
    RowBias rb;                                                                                           \
    rb.bias_vector = VectorMap<const i32, VectorShape::Row>(rowbias, cols);                               \
    SingleThreadGemm<F, u8, i32, DefaultL8R8BitDepthParams>(                                              \
        &ctx, Announce<F>(), lm, rm, &dm, VEC<const i32, VectorShape::Col>(LV, rows),                     \
        VEC<const i32, VectorShape::Row>(RV, cols), std::make_tuple(cb, rb));                             \
  }

// Several threads: the pool runs the tasks one after the other.
template <typename F, MapOrder LO, MapOrder RO, MapOrder DO>
struct Context : MultiThreadGemmContextBase {
  typedef VectorMap<const i32, VectorShape::Col> LOff;
  typedef VectorMap<const i32, VectorShape::Row> ROff;
  typedef std::tuple<ColBias, RowBias> Pipe;
  typedef GemmWithPackedRhsTask<F, u8, i32, DefaultL8R8BitDepthParams, LO, RO, DO, LOff, ROff, Pipe, Context> TaskType;
  struct Pool {
    Allocator a;
    void Execute(const std::vector<Task*>& tasks) {
      for (std::size_t i = 0; i < tasks.size(); i++) {
        vp_task(static_cast<int>(i));
        tasks[i]->local_allocator = &a;
        static_cast<TaskType*>(tasks[i])->TaskType::Run();
        static_cast<TaskType*>(tasks[i])->TaskType::~TaskType();
        ::operator delete(static_cast<void*>(tasks[i]));
      }
    }
  } pool;
  Pool* workers_pool() { return &pool; }
};
#define MT(F, LO, RO, DO)                                                                                 \
  extern "C" void vp__mt__##F##__##LO##RO##DO(ARGS) {                                                     \
    Context<F, LO, RO, DO> ctx;                                                                           \
    ctx.set_l1_bytes_to_use(l1);                                                                          \
    ctx.set_l2_bytes_to_use(l2);                                                                          \
    ctx.set_l2_rhs_factor(f);                                                                             \
    ctx.set_max_num_threads(threads);                                                                     \
    MatrixMap<const u8, LO> lm(lhs, rows, depth, ls);                                                     \
    MatrixMap<const u8, RO> rm(rhs, depth, cols, rs);                                                     \
    MatrixMap<i32, DO> dm(dst, rows, cols, ds);                                                           \
    ColBias cb;                                                                                           \
    cb.bias_vector = VectorMap<const i32, VectorShape::Col>(colbias, rows);                               \
    RowBias rb;                                                                                           \
    rb.bias_vector = VectorMap<const i32, VectorShape::Row>(rowbias, cols);                               \
    MultiThreadGemm<F, u8, i32, DefaultL8R8BitDepthParams>(                                               \
        &ctx, Announce<F>(), lm, rm, &dm, VectorMap<const i32, VectorShape::Col>(lo, rows),               \
        VectorMap<const i32, VectorShape::Row>(ro, cols), std::make_tuple(cb, rb));                    \
  }

#if defined(GEMMLOWP_AVX2)
ST(K24x8d2, R, C, C) ST(K24x8d2, C, R, R) MT(K24x8d2, R, C, C)
#elif defined(GEMMLOWP_SSE4)
ST(K12x4d2, R, C, C) ST(K12x4d2, C, R, R) MT(K12x4d2, R, C, R) MT(K12x4d2, C, C, C)
#elif defined(GEMMLOWP_NEON_64)
ST(D12x8d2, R, C, C) ST(D12x8d2, C, R, R) ST(S4x4d16, R, C, R) MT(D12x8d2, R, C, C)
#elif defined(GEMMLOWP_NEON_32)
ST(D12x4d2, R, C, C) ST(K12x4d2, C, R, R) ST(S4x2d16, R, C, R) MT(D12x4d2, R, R, C)
#elif defined(GEMMLOWP_MSA)
ST(K12x8d2, R, C, C) ST(S4x4d16, C, R, R) MT(K12x8d2, R, C, C)
#else
ST(K4x4d16, R, C, C) ST(K4x4d16, C, R, R) ST(K4x4d16, R, R, C) ST(D6x5d4, C, C, R) ST(D6x5d4, R, R, R)
SD(K4x4d16, R, C, C) MT(K4x4d16, R, C, C) MT(D6x5d4, C, R, R) MT(K4x4d16, C, C, R)
#endif
