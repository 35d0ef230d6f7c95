PROPERTY='P14'
NEEDS='the float interface with a result whose leading dimension exceeds its width'
BREAKS='The scratch buffer is sized without the gaps between rows or columns of C, and is written beyond its end.'
EDITS=[('eight_bit_int_gemm/eight_bit_int_gemm.cc','''    scratch->AssureSize(n * ldc * sizeof(std::int32_t));''','''    scratch->AssureSize(n * m * sizeof(std::int32_t));''')]
DEMO='''g++ -std=c++11 -O1 -g -fsanitize=address -I. "$D/demo.cc" eight_bit_int_gemm/eight_bit_int_gemm.cc -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <cstdio>
#include <vector>
using namespace gemmlowp::eight_bit_int_gemm;
int main() {
  const int m = 9, n = 7, k = 5, ldc = 64;
  std::vector<std::uint8_t> a(m * k), b(k * n);
  for (int i = 0; i < m * k; i++) a[i] = i * 5;
  for (int i = 0; i < k * n; i++) b[i] = i * 3;
  std::vector<float> c(n * ldc);
  EightBitIntGemm(false, false, false, m, n, k, a.data(), -3, m, b.data(), -4, k, c.data(), .5f, ldc,
                  BitDepthSetting::A8B8);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int e = 0;
      for (int d = 0; d < k; d++) e += (a[d * m + i] - 3) * (b[j * k + d] - 4);
      if (c[j * ldc + i] != e * .5f) return printf("wrong\n"), 1;
    }
  FreePersistentResources();
  return 0;
}
'''}
