PROPERTY='P01'
NEEDS='two threads multiplying matrices of different sizes at the same time, each with its own context'
BREAKS='The block sizes live in an object shared by all calls, so concurrent calls with separate contexts tile with each other\'s sizes.'
EDITS=[('internal/single_thread_gemm.h','''  BlockParams block_params;
  block_params.Init<KernelFormat>(''','''  // Kept across calls: recomputing it for the same shape yields the same value.
  static BlockParams block_params;
  block_params.Init<KernelFormat>(''')]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 250 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
using namespace gemmlowp;
static std::atomic<int> bad(0);
static void work(int rows, int depth, int cols, int iters) {
  GemmContext context;
  context.set_max_num_threads(1);
  std::vector<std::uint8_t> a(rows * depth, 3), b(depth * cols, 5);
  for (int it = 0; it < iters && !bad; it++) {
    std::vector<std::int32_t> r(rows * cols, -1);
    MatrixMap<const std::uint8_t, MapOrder::RowMajor> lhs(a.data(), rows, depth);
    MatrixMap<const std::uint8_t, MapOrder::ColMajor> rhs(b.data(), depth, cols);
    MatrixMap<std::int32_t, MapOrder::ColMajor> res(r.data(), rows, cols);
    GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(
        &context, lhs, rhs, &res, 0, 0, std::make_tuple());
    for (int i = 0; i < rows * cols; i++)
      if (r[i] != 15 * depth) { bad++; break; }
  }
}
int main() {
  std::vector<std::thread> v;
  for (int i = 0; i < 4; i++)
    v.emplace_back(work, i % 2 ? 300 : 40, i % 2 ? 200 : 33, i % 2 ? 150 : 20, i % 2 ? 300 : 20000);
  for (auto& t : v) t.join();
  printf("bad %d\n", bad.load());
  return bad ? 1 : 0;
}
'''}
