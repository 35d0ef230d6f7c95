PROPERTY='P09'
NEEDS='SetMaxNumThreads called while another thread frees the resources or multiplies'
BREAKS='The global context is looked up before the lock is taken: it can be freed in between, or created twice.'
EDITS=[('eight_bit_int_gemm/eight_bit_int_gemm.cc','''  ScopedLock sl(GlobalMutexes::EightBitIntGemm());
  GemmContext* context = GetOrCreateGlobalContext();
  context->set_max_num_threads(n);''','''  GemmContext* context = GetOrCreateGlobalContext();
  ScopedLock sl(GlobalMutexes::EightBitIntGemm());
  context->set_max_num_threads(n);''')]
DEMO='''g++ -std=c++11 -O1 -g -fsanitize=thread -I. "$D/demo.cc" eight_bit_int_gemm/eight_bit_int_gemm.cc -o "$T/demo" -lpthread
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 200 setarch -R "$T/demo" || { rc=$?; [ $rc = 66 ] && exit 1; TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 200 "$T/demo"; }
'''
FILES={'demo.cc':r'''
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <thread>
using namespace gemmlowp::eight_bit_int_gemm;
int main() {
  std::thread t([] {
    for (int i = 0; i < 300; i++) FreePersistentResources();
  });
  for (int i = 0; i < 300; i++) SetMaxNumThreads(1 + i % 3);
  t.join();
  FreePersistentResources();
  return 0;
}
'''}
