PROPERTY='P22'
NEEDS='per-column rhs offsets and a result wider than one L2 block (a small L2 setting)'
BREAKS='The second and later column blocks are unpacked with the per-column offsets of the first block.'
EDITS=[('internal/single_thread_gemm.h','lhs_offset.block(r, rs), rhs_offset.block(c, cs), output_pipeline);','lhs_offset.block(r, rs), rhs_offset.block(pack_rhs_once ? c : 0, cs),\n          output_pipeline);')]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include <cstdio>
#include <vector>
using namespace gemmlowp;
int main() {
  const int rows = 70, cols = 60, depth = 80;
  std::vector<std::uint8_t> a(rows * depth), b(depth * cols);
  std::vector<std::int32_t> lo(rows), ro(cols), c(rows * cols);
  unsigned s = 1;
  for (auto& x : a) x = (s = s * 1664525 + 1013904223) >> 24;
  for (auto& x : b) x = (s = s * 1664525 + 1013904223) >> 24;
  for (int i = 0; i < rows; i++) lo[i] = -3 * i;
  for (int i = 0; i < cols; i++) ro[i] = -2 * i - 1;
  SingleThreadGemmContext ctx;
  ctx.set_l1_bytes_to_use(1024);
  ctx.set_l2_bytes_to_use(4096);
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> ma(a.data(), rows, depth);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> mb(b.data(), depth, cols);
  MatrixMap<std::int32_t, MapOrder::ColMajor> mc(c.data(), rows, cols);
  typedef DefaultKernel<DefaultL8R8BitDepthParams> K;
  SingleThreadGemm<K::Format, std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(
      &ctx, K(), ma, mb, &mc, VectorMap<const std::int32_t, VectorShape::Col>(lo.data(), rows),
      VectorMap<const std::int32_t, VectorShape::Row>(ro.data(), cols), std::make_tuple());
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) {
      int e = 0;
      for (int d = 0; d < depth; d++) e += (a[i * depth + d] + lo[i]) * (b[j * depth + d] + ro[j]);
      if (e != c[j * rows + i]) {
        printf("element %d %d: %d instead of %d\n", i, j, c[j * rows + i], e);
        return 1;
      }
    }
  return 0;
}
'''}
