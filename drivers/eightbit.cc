// The EightBitIntGemm interface.
#include "eight_bit_int_gemm/eight_bit_int_gemm.cc"

namespace e8 = gemmlowp::eight_bit_int_gemm;
typedef std::uint8_t u8;
typedef std::int32_t i32;

#define FORMAT(NAME, BDP)                                                                                       \
  extern "C" const int vp_format_##NAME[] = {                                                                   \
      gemmlowp::DefaultKernel<BDP>::Format::Lhs::Cell::kWidth,                                                  \
      gemmlowp::DefaultKernel<BDP>::Format::Lhs::Cell::kDepth,                                                  \
      static_cast<int>(gemmlowp::DefaultKernel<BDP>::Format::Lhs::Cell::kOrder),                                \
      gemmlowp::DefaultKernel<BDP>::Format::Lhs::kCells,                                                        \
      std::is_signed<gemmlowp::DefaultKernel<BDP>::Format::Lhs::Scalar>::value,                                 \
      gemmlowp::DefaultKernel<BDP>::Format::Rhs::Cell::kWidth,                                                  \
      gemmlowp::DefaultKernel<BDP>::Format::Rhs::Cell::kDepth,                                                  \
      static_cast<int>(gemmlowp::DefaultKernel<BDP>::Format::Rhs::Cell::kOrder),                                \
      gemmlowp::DefaultKernel<BDP>::Format::Rhs::kCells,                                                        \
      std::is_signed<gemmlowp::DefaultKernel<BDP>::Format::Rhs::Scalar>::value,                                 \
      static_cast<int>(gemmlowp::CellOrder::DepthMajor), static_cast<int>(gemmlowp::CellOrder::WidthMajor),     \
      gemmlowp::kRegisterSize};
FORMAT(A8B8, gemmlowp::DefaultL8R8BitDepthParams)
FORMAT(A5B7, gemmlowp::DefaultL7R5BitDepthParams)
extern "C" const int vp_depths[] = {static_cast<int>(e8::BitDepthSetting::A8B8),
                                    static_cast<int>(e8::BitDepthSetting::A5B7)};

extern "C" void vp__u8(bool ta, bool tb, bool tc, int m, int n, int k, const u8* a, i32 ao, int lda, const u8* b,
                       i32 bo, int ldb, u8* c, i32 co, i32 cm, i32 cs, int ldc, int bits) {
  e8::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, co, cm, cs, ldc,
                      static_cast<e8::BitDepthSetting>(bits));
}
extern "C" void vp__f32(bool ta, bool tb, bool tc, int m, int n, int k, const u8* a, i32 ao, int lda, const u8* b,
                        i32 bo, int ldb, float* c, float co, int ldc, int bits) {
  e8::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, co, ldc,
                      static_cast<e8::BitDepthSetting>(bits));
}
extern "C" void vp__threads(int n) { e8::SetMaxNumThreads(n); }
extern "C" void vp__free() { e8::FreePersistentResources(); }
