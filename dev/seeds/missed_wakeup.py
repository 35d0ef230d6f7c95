PROPERTY='P06'
NEEDS='the poster runs between the waiter\'s check of the state and its going to sleep'
BREAKS='The new state is published and signalled after the mutex is released, so both can fall between the check and the wait of the worker, which then sleeps for ever.'
EDITS=[('internal/multi_thread_gemm.h','''    state_.store(new_state, std::memory_order_relaxed);
    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);''','''    pthread_mutex_unlock(&state_mutex_);
    // Wake the worker up without holding the mutex, so that it can proceed.
    state_.store(new_state, std::memory_order_release);
    pthread_cond_broadcast(&state_cond_);''')]
DEMO='''g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -lpthread
timeout 60 "$T/demo"
'''
FILES={'demo.cc':r'''
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
// A schedule is forced by delaying the threads inside the pthread calls they make.
static std::atomic<int> phase(0), worker_at_lock(0), poster_unlocked(0);
static pthread_t main_thread;
static int hook_lock(pthread_mutex_t* m) {
  if (phase == 1 && !pthread_equal(pthread_self(), main_thread)) {
    worker_at_lock = 1;
    for (int i = 0; i < 4000 && !poster_unlocked; i++) usleep(1000);
  }
  return pthread_mutex_lock(m);
}
static int hook_unlock(pthread_mutex_t* m) {
  int r = pthread_mutex_unlock(m);
  if (phase == 1 && pthread_equal(pthread_self(), main_thread)) {
    poster_unlocked = 1;
    sleep(1);
  }
  return r;
}
static int hook_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (phase == 1) sleep(3);  // preempted right before going to sleep, mutex held
  return pthread_cond_wait(c, m);
}
#define pthread_mutex_lock hook_lock
#define pthread_mutex_unlock hook_unlock
#define pthread_cond_wait hook_wait
#include "public/gemmlowp.h"
#include "internal/multi_thread_gemm.h"
struct T : gemmlowp::Task { void Run() override { usleep(1000); } };
int main() {
  main_thread = pthread_self();
  for (int attempt = 0; attempt < 8; attempt++) {
    phase = 0; worker_at_lock = 0; poster_unlocked = 0;
    gemmlowp::WorkersPool pool;
    std::vector<gemmlowp::Task*> t;
    t.push_back(new T); t.push_back(new T);
    pool.LegacyExecuteAndDestroyTasks(t);  // the worker now busy-waits, then locks
    phase = 1;
    for (int i = 0; i < 10000 && !worker_at_lock; i++) usleep(100);
    if (!worker_at_lock) { phase = 2; continue; }  // it was asleep already: try again
    t.clear();
    t.push_back(new T); t.push_back(new T);
    alarm(25);  // a missed wake-up hangs: killed by SIGALRM
    pool.LegacyExecuteAndDestroyTasks(t);
    alarm(0);
    phase = 2;
    break;
  }
  puts("ok");
  return 0;
}
'''}
