PROPERTY='P07'
NEEDS='a pool that was grown in more than one step (first few threads, later more), then destroyed'
BREAKS='Only the workers of the last growth are joined and deleted; earlier worker threads are left running on a destroyed pool.'
EDITS=[('internal/multi_thread_gemm.h','''    for (auto w : workers_) {
      delete w;
    }''','''    for (std::size_t i = first_owned_; i < workers_.size(); i++) {
      delete workers_[i];
    }'''),
('internal/multi_thread_gemm.h','''    counter_to_decrement_when_ready_.Reset(workers_count - workers_.size());
''','''    counter_to_decrement_when_ready_.Reset(workers_count - workers_.size());
    first_owned_ = workers_.size();
'''),
('internal/multi_thread_gemm.h','''  // copy construction disallowed
  WorkersPool(''','''  // index of the first worker started by the last CreateWorkers
  std::size_t first_owned_ = 0;

  // copy construction disallowed
  WorkersPool('''),
]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 100 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include "internal/multi_thread_gemm.h"
#include <dirent.h>
#include <unistd.h>
#include <cstdio>
#include <string>
struct T : gemmlowp::Task { void Run() override {} };
static int threads() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (struct dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
int main() {
  int before = threads();
  {
    gemmlowp::WorkersPool* pool = new gemmlowp::WorkersPool;
    for (int n : {2, 4}) {
      std::vector<gemmlowp::Task*> tasks;
      for (int i = 0; i < n; i++) tasks.push_back(new T);
      pool->LegacyExecuteAndDestroyTasks(tasks);
    }
    // deliberately not freeing the pool memory itself keeps a leaked worker from crashing
    pool->~WorkersPool();
  }
  // a joined thread may take a moment to vanish from /proc
  int after = threads();
  for (int i = 0; i < 200 && after != before; i++) {
    usleep(20000);
    after = threads();
  }
  printf("threads before %d after %d\n", before, after);
  return before == after ? 0 : 1;
}
'''}
