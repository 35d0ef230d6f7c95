// One function per packed side format and source order: one register block taken from the source to the packed buffer.
#include <cstdint>
#include "internal/platform.h"
#include "internal/kernel_default.h"
#include "public/map.h"
#include "internal/pack.h"

using namespace gemmlowp;
typedef std::uint8_t u8;
typedef std::int8_t i8;

extern "C" void vp_note(const void* p);

#define WM CellOrder::WidthMajor
#define DM CellOrder::DepthMajor
#define DG CellOrder::Diagonal
// name = kind_cellwidth_celldepth_order_cells
typedef KernelSideFormat<CellFormat<4, 16, WM>, 1> U_4_16_W_1;
typedef KernelSideFormat<CellFormat<3, 4, DM>, 2> U_3_4_D_2;
typedef KernelSideFormat<CellFormat<5, 1, WM>, 1> U_5_1_W_1;
typedef KernelSideFormat<CellFormat<4, 4, DG>, 2> U_4_4_X_2;
typedef KernelSideFormat<CellFormat<4, 2, WM>, 1> U_4_2_W_1;
typedef KernelSideFormat<CellFormat<4, 2, WM>, 2> U_4_2_W_2;
typedef KernelSideFormat<CellFormat<4, 2, WM>, 3> U_4_2_W_3;
typedef KernelSideFormat<CellFormat<8, 2, WM>, 1> U_8_2_W_1;
typedef KernelSideFormat<CellFormat<8, 2, WM>, 3> U_8_2_W_3;
typedef KernelSideFormat<CellFormat<4, 2, DM>, 1> U_4_2_D_1;
typedef KernelSideFormat<CellFormat<4, 2, DM>, 2> U_4_2_D_2;
typedef KernelSideFormat<CellFormat<4, 2, DM>, 3> U_4_2_D_3;
typedef KernelSideFormat<CellFormat<4, 4, WM>, 2> U_4_4_W_2;
typedef KernelSideFormat<CellFormat<4, 4, WM>, 3> U_4_4_W_3;
typedef KernelSideFormatInt8<CellFormat<4, 16, WM>, 1> S_4_16_W_1;
typedef KernelSideFormatInt8<CellFormat<2, 16, WM>, 1> S_2_16_W_1;
typedef KernelSideFormatInt8Inputs<CellFormat<4, 16, WM>, 1> I_4_16_W_1;
typedef KernelSideFormatInt8Inputs<CellFormat<2, 16, WM>, 1> I_2_16_W_1;

extern "C" int vp__register_size() { return kRegisterSize; }

template <typename Fmt, SideMapOrder O>
inline int PackOne(const typename Fmt::InputScalar* src, int stride, int start_width,
                   PackedSideBlock<Fmt>* dst, int w, int d) {
  typedef SideMap<const typename Fmt::InputScalar, O> Map;
  const u8* p0 = dst->current_data();
  vp_note(p0);
  PackingRegisterBlock<Map, PackedSideBlock<Fmt>> b;
  Map m(src, w, d, stride);
  if (w == Fmt::kWidth && d == kRegisterSize) {
    b.UseCompleteSrcInPlace(m);
  } else {
    b.MakeCompleteSrc(m);
  }
  b.Pack(dst, start_width);
  return static_cast<int>(dst->current_data() - p0);
}

#define K1(F, O)                                                                           \
  extern "C" int vp__k__##F##__##O(const F::InputScalar* src, int stride, int start_width,  \
                                   PackedSideBlock<F>* dst, int w, int d) {                 \
    return PackOne<F, SideMapOrder::O>(src, stride, start_width, dst, w, d);                \
  }
#define BOTH(F) K1(F, WidthMajor) K1(F, DepthMajor)

BOTH(U_4_16_W_1)
BOTH(U_3_4_D_2)
BOTH(U_5_1_W_1)
BOTH(U_4_4_X_2)
BOTH(U_4_2_W_1)
BOTH(U_4_2_W_3)
#if defined(GEMMLOWP_AVX2)
BOTH(U_8_2_W_1)
BOTH(U_8_2_W_3)
#endif
#if defined(GEMMLOWP_MSA)
BOTH(U_4_2_W_2)
BOTH(S_4_16_W_1)
#endif
#if defined(GEMMLOWP_NEON)
BOTH(U_4_2_D_1)
BOTH(U_4_2_D_2)
BOTH(U_4_2_D_3)
BOTH(S_4_16_W_1)
BOTH(S_2_16_W_1)
K1(I_4_16_W_1, WidthMajor)
K1(I_2_16_W_1, WidthMajor)
BOTH(U_4_4_W_2)
BOTH(U_4_4_W_3)
#endif
