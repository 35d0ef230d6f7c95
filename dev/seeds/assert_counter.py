PROPERTY='P23'
NEEDS='a build with NDEBUG and a multi-threaded GEMM'
BREAKS='The completion counter is decremented inside an assertion, so with NDEBUG no worker ever reports completion and the caller waits for ever.'
EDITS=[('internal/multi_thread_gemm.h','''    std::size_t old_count_value =
        count_.fetch_sub(1, std::memory_order_acq_rel);
    assert(old_count_value > 0);
    std::size_t count_value = old_count_value - 1;
    return count_value == 0;''','''    std::size_t count_value = count_.load(std::memory_order_relaxed);
    assert((count_value = count_.fetch_sub(1, std::memory_order_acq_rel)) > 0);
    return count_value == 1;''')]
DEMO='''g++ -std=c++11 -O2 -DNDEBUG -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include <unistd.h>
using namespace gemmlowp;
struct Incr : Task {
  std::atomic<int>* n;
  void Run() override { ++*n; }
};
int main() {
  alarm(20);
  std::atomic<int> n(0);
  WorkersPool pool;
  for (int k = 0; k < 3; k++) {
    std::vector<Task*> v;
    for (int i = 0; i < 3; i++) {
      Incr* t = new Incr;
      t->n = &n;
      v.push_back(t);
    }
    pool.LegacyExecuteAndDestroyTasks(v);
  }
  return n == 9 ? 0 : 1;
}
'''}
