PROPERTY='P13'
NEEDS='a result with fewer rows than columns and a per-channel fixed-point stage with a nonzero offset'
BREAKS='The transposed copy of the stage loses its offset, so wide results lack result_offset_after_shift.'
EDITS=[('internal/dispatch_gemm_shape.h','''    dst.result_exponent = Transpose(src.result_exponent);
    dst.result_offset_after_shift = src.result_offset_after_shift;
''','''    dst.result_exponent = Transpose(src.result_exponent);
    dst.result_offset_after_shift = 0;
''')]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include <cstdio>
#include <vector>
using namespace gemmlowp;
static int run(int rows, int cols) {
  const int depth = 3;
  std::vector<std::uint8_t> a(rows * depth, 2), b(depth * cols, 3);
  std::vector<std::int32_t> m(rows, 1 << 30), e(rows, 0), c(rows * cols);
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> ma(a.data(), rows, depth);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> mb(b.data(), depth, cols);
  MatrixMap<std::int32_t, MapOrder::ColMajor> mc(c.data(), rows, cols);
  OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> s;
  s.result_fixedpoint_multiplier = VectorMap<const std::int32_t, VectorShape::Col>(m.data(), rows);
  s.result_exponent = VectorMap<const std::int32_t, VectorShape::Col>(e.data(), rows);
  s.result_offset_after_shift = 100;
  GemmContext ctx;
  GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(&ctx, ma, mb, &mc, 0, 0,
                                                                                 std::make_tuple(s));
  for (int x : c)
    if (x != 109) return printf("%dx%d: %d instead of 109\n", rows, cols, x), 1;
  return 0;
}
int main() { return run(5, 3) | run(3, 5); }
'''}
