PROPERTY='P24'
NEEDS='a second depth run that starts exactly one kernel depth in (L1 blocks of depth 16), on the portable kernel'
BREAKS='The reference kernel discards what the first depth run accumulated.'
EDITS=[('internal/kernel_reference.h','if (start_depth == 0) {','if (start_depth <= static_cast<std::size_t>(Format::kDepth)) {')]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include <cstdio>
#include <vector>
using namespace gemmlowp;
int main() {
  typedef KernelFormat<KernelSideFormat<CellFormat<4, 16, CellOrder::WidthMajor>, 1>,
                       KernelSideFormat<CellFormat<4, 16, CellOrder::WidthMajor>, 1>> F;
  ReferenceKernel<F> k;
  std::uint8_t l[64 * 4], r[64 * 4];
  std::int32_t dst[16] = {};
  for (int i = 0; i < 256; i++) l[i] = i * 7, r[i] = i * 3 + 1;
  for (std::size_t d = 0; d < 64; d += 16) k.Run(dst, 1, 4, l + d * 4, r + d * 4, d, 16);
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      int e = 0;
      for (int d = 0; d < 64; d++)
        e += l[d / 16 * 64 + i * 16 + d % 16] * r[d / 16 * 64 + j * 16 + d % 16];
      if (e != dst[i + 4 * j]) return printf("%d %d: %d instead of %d\n", i, j, dst[i + 4 * j], e), 1;
    }
  return 0;
}
'''}
