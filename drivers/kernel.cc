// Every kernel class found by the checker (VP_KERNELS), and the reference
// kernel for a few formats: Run() and the format it announces.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"

using namespace gemmlowp;
#ifndef VP_KERNELS
#define VP_KERNELS(X)
#endif
#define WM CellOrder::WidthMajor
#define DM CellOrder::DepthMajor
#define DG CellOrder::Diagonal
#ifndef GEMMLOWP_ARM
typedef ReferenceKernel<KernelFormat<KernelSideFormat<CellFormat<4, 16, WM>, 1>,
                                     KernelSideFormat<CellFormat<4, 16, WM>, 1>>> ref__4x4d16w;
typedef ReferenceKernel<KernelFormat<KernelSideFormat<CellFormat<3, 4, DM>, 2>,
                                     KernelSideFormat<CellFormat<5, 4, WM>, 1>>> ref__6x5d4;
typedef ReferenceKernel<KernelFormat<KernelSideFormat<CellFormat<4, 4, DG>, 1>,
                                     KernelSideFormat<CellFormat<4, 4, DM>, 2>>> ref__4x8d4g;
typedef ReferenceKernel<KernelFormat<KernelSideFormat<CellFormat<1, 1, DM>, 3>,
                                     KernelSideFormat<CellFormat<2, 1, DM>, 1>>> ref__3x2d1;
#define VP_REF(X) X(ref__4x4d16w) X(ref__6x5d4) X(ref__4x8d4g) X(ref__3x2d1)
#else
#define VP_REF(X)
#endif

#define VP_ONE(K)                                                                        \
  extern "C" const int vp_format_##K[] = {                                               \
      K::Format::Lhs::Cell::kWidth, K::Format::Lhs::Cell::kDepth,                        \
      static_cast<int>(K::Format::Lhs::Cell::kOrder), K::Format::Lhs::kCells,            \
      std::is_signed<K::Format::Lhs::Scalar>::value, K::Format::Rhs::Cell::kWidth,       \
      K::Format::Rhs::Cell::kDepth, static_cast<int>(K::Format::Rhs::Cell::kOrder),      \
      K::Format::Rhs::kCells, std::is_signed<K::Format::Rhs::Scalar>::value,             \
      static_cast<int>(CellOrder::DepthMajor), static_cast<int>(CellOrder::WidthMajor),  \
      kRegisterSize};                                                                    \
  extern "C" void vp_kernel_##K(std::int32_t* dst, std::size_t rs, std::size_t cs,       \
                                const std::uint8_t* l, const std::uint8_t* r,            \
                                std::size_t s, std::size_t d) {                          \
    K k;                                                                                 \
    k.K::Run(dst, rs, cs, l, r, s, d);                                                   \
  }
VP_KERNELS(VP_ONE)
VP_REF(VP_ONE)
