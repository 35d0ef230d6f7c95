// Instantiates the worker-pool machinery of internal/multi_thread_gemm.h.
// The task type is opaque: nothing is assumed about what a task does.
#include <new>
#include "public/gemmlowp.h"
using namespace gemmlowp;

struct VpTask : Task {
  void Run() override;
  long payload[4];
};

extern "C" {
extern const unsigned vp_sizeof_task;
const unsigned vp_sizeof_task = sizeof(VpTask);
void vp_pool_execute_array(WorkersPool* p, int n, VpTask* t) { p->Execute(n, t); }
void vp_pool_execute_vector(WorkersPool* p, const std::vector<Task*>& t) { p->Execute(t); }
void vp_pool_legacy(WorkersPool* p, const std::vector<Task*>& t) {
  p->LegacyExecuteAndDestroyTasks(t);
}
void vp_pool_construct(void* p) { new (p) WorkersPool; }
void vp_pool_destroy(WorkersPool* p) { p->~WorkersPool(); }
void vp_worker_construct(void* w, BlockingCounter* c) { new (w) Worker(c); }
void vp_worker_destroy(Worker* w) { w->~Worker(); }
void vp_worker_start(Worker* w, Task* t) { w->StartWork(t); }
void vp_counter_wait(BlockingCounter* c) { c->Wait(); }
void vp_counter_reset(BlockingCounter* c, std::size_t n) { c->Reset(n); }
bool vp_counter_decrement(BlockingCounter* c) { return c->DecrementCount(); }
}
