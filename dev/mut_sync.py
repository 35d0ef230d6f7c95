F='internal/multi_thread_gemm.h'
CHECKS=['P05','P06','P07','P08']
ALL=set(CHECKS)
M=[
 ('rel-relaxed',{'P05'},[(F,'count_.fetch_sub(1, std::memory_order_acq_rel)','count_.fetch_sub(1, std::memory_order_relaxed)')]),
 ('wait-relaxed',{'P05'},[(F,'while (count_.load(std::memory_order_acquire))','while (count_.load(std::memory_order_relaxed))')]),
 ('dec-nonatomic',{'P05','P08'},[(F,'''    std::size_t old_count_value =
        count_.fetch_sub(1, std::memory_order_acq_rel);''','''    std::size_t old_count_value = count_.load(std::memory_order_acquire);
    count_.store(old_count_value - 1, std::memory_order_release);''')]),
 ('dec-by-old',{'P08'},[(F,'count_.fetch_sub(1, std','count_.fetch_sub(2, std')]),
 ('dec-before-run',{'P08','P05'},[(F,'''        if (task_) {
          // Doing''','''        counter_to_decrement_when_ready_->DecrementCount();
        if (task_) {
          // Doing'''),(F,'''    if (new_state == State::Ready) {
      counter_to_decrement_when_ready_->DecrementCount();
    }''','')]),
 ('run-outside-lock-clear',{'P05'},[(F,'''          task_->Run();
          task_ = nullptr;''','''          Task* t = task_;
          pthread_mutex_unlock(&state_mutex_);
          t->Run();
          task_ = nullptr;
          pthread_mutex_lock(&state_mutex_);''')]),
 ('signal-outside-before-store',{'P06','P05'},[(F,'''    state_.store(new_state, std::memory_order_relaxed);
    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);''','''    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);
    state_.store(new_state, std::memory_order_release);''')]),
 ('unlock-before-store',{'P06'},[(F,'''    state_.store(new_state, std::memory_order_relaxed);
    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);''','''    pthread_mutex_unlock(&state_mutex_);
    state_.store(new_state, std::memory_order_release);
    pthread_cond_broadcast(&state_cond_);''')]),
 ('broadcast-only-work',{'P06'},[(F,'pthread_cond_broadcast(&state_cond_);','if (new_state == State::HasWork) pthread_cond_broadcast(&state_cond_);')]),
 ('no-recheck-after-lock',{'P06'},[(F,'''  pthread_mutex_lock(mutex);
  new_value = var->load(std::memory_order_acquire);
  while''','''  pthread_mutex_lock(mutex);
  while''')]),
 ('wait-if',{'P06'},[(F,'''  while (new_value == initial_value) {
    pthread_cond_wait(cond, mutex);
    new_value = var->load(std::memory_order_acquire);
  }''','''  if (new_value == initial_value) {
    pthread_cond_wait(cond, mutex);
    new_value = var->load(std::memory_order_acquire);
  }''')]),
 ('no-join',{'P07'},[(F,'    pthread_join(thread_, nullptr);\n','    pthread_detach(thread_);\n')]),
 ('destroy-before-join',{'P07'},[(F,'''    pthread_join(thread_, nullptr);
    pthread_cond_destroy(&state_cond_);''','''    pthread_cond_destroy(&state_cond_);
    pthread_join(thread_, nullptr);''')]),
 ('init-after-create',{'P07'},[(F,'''    pthread_mutex_init(&state_mutex_, nullptr);
    pthread_create(&thread_, nullptr, ThreadFunc, this);''','''    pthread_create(&thread_, nullptr, ThreadFunc, this);
    pthread_mutex_init(&state_mutex_, nullptr);''')]),
 ('pool-dtor-skip-last',{'P07'},[(F,'''    for (auto w : workers_) {
      delete w;
    }''','''    for (std::size_t i = 0; i + 1 < workers_.size(); i++) delete workers_[i];''')]),
 ('reset-after-start',{'P08'},[(F,'''    counter_to_decrement_when_ready_.Reset(workers_count);
    for (std::size_t i = 0; i < tasks_count - 1; i++) {
      workers_[i]->StartWork(&tasks[i]);
    }''','''    for (std::size_t i = 0; i < tasks_count - 1; i++) {
      workers_[i]->StartWork(&tasks[i]);
    }
    counter_to_decrement_when_ready_.Reset(workers_count);''')]),
 ('wait-conditional',{'P08'},[(F,'''    // Wait for the workers submitted above to finish.
    counter_to_decrement_when_ready_.Wait();
  }

  // Legacy: exec''','''    // Wait for the workers submitted above to finish.
    if (workers_count > 1) counter_to_decrement_when_ready_.Wait();
  }

  // Legacy: exec''')]),
 ('legacy-delete-before-wait',{'P08'},[(F,'''    // Wait for the workers submitted above to finish.
    counter_to_decrement_when_ready_.Wait();
    // Cleanup''','''    // Cleanup'''),(F,'''[](Task* task) { delete task; });''','''[](Task* task) { delete task; });
    counter_to_decrement_when_ready_.Wait();''')]),
 ('legacy-main-first',{'P08'},[(F,'Task* task = tasks[tasks_count - 1];','Task* task = tasks[0];')]),
 ('handoff-one-less',{'P08'},[(F,'for (int i = 0; i < tasks_count - 1; i++)','for (int i = 0; i + 2 < tasks_count; i++)')]),
 ('same-worker',{'P08'},[(F,'workers_[i]->StartWork(tasks[i]);','workers_[i / 2]->StartWork(tasks[i]);')]),
 ('allocator-after-start',{'P05'},[(F,'''        task->local_allocator = &local_allocator_;
        task_ = task;
        break;''','''        task_ = task;
        break;'''),(F,'void StartWork(Task* task) { ChangeState(State::HasWork, task); }','void StartWork(Task* task) { ChangeState(State::HasWork, task); task->local_allocator = &local_allocator_; }')]),
 ('startup-count-total',{'P08'},[(F,'Reset(workers_count - workers_.size())','Reset(workers_count)')]),
 ('no-task-clear-peek',{'P05'},[(F,'''      State state_to_act_upon = WaitForVariableChange(''','''      if (task_ != nullptr) { ChangeState(State::Ready); continue; }
      State state_to_act_upon = WaitForVariableChange(''')]),
 ('no-lock-changestate-worker',{'P05'},[(F,'''    pthread_mutex_lock(&state_mutex_);
    State old''','''    if (new_state != State::Ready) pthread_mutex_lock(&state_mutex_);
    State old'''),(F,'''    pthread_mutex_unlock(&state_mutex_);
    if (new_state''','''    if (new_state != State::Ready) pthread_mutex_unlock(&state_mutex_);
    if (new_state''')]),
 ('run-only-if-alloc',{'P08'},[(F,'        if (task_) {\n','        if (task_ && task_->local_allocator) {\n')]),
 ('cond-wait-timed-drop',{'P06'},[(F,'''  while (new_value == initial_value) {
    pthread_cond_wait(cond, mutex);
    new_value = var->load(std::memory_order_acquire);
  }
  pthread_mutex_unlock(mutex);''','''  while (new_value == initial_value) {
    pthread_mutex_unlock(mutex);
    new_value = var->load(std::memory_order_acquire);
    pthread_mutex_lock(mutex);
    if (new_value == initial_value) pthread_cond_wait(cond, mutex);
    new_value = var->load(std::memory_order_acquire);
  }
  pthread_mutex_unlock(mutex);''')]),
 ('dtor-no-exit-when-haswork',{'P07'},[(F,'    ChangeState(State::ExitAsSoonAsPossible);\n','    if (!task_) ChangeState(State::ExitAsSoonAsPossible);\n')]),
 ('late-create-worker-kept',{'P07'},[(F,'workers_.push_back(new Worker(&counter_to_decrement_when_ready_));','Worker* w = new Worker(&counter_to_decrement_when_ready_);\n      workers_.push_back(w); pthread_detach(pthread_self());')]),
 # ---- behaviour-preserving
 ('r-seqcst',(),[(F,'count_.fetch_sub(1, std::memory_order_acq_rel)','count_.fetch_sub(1)')]),
 ('r-release',(),[(F,'count_.fetch_sub(1, std::memory_order_acq_rel)','count_.fetch_sub(1, std::memory_order_release)')]),
 ('r-broadcast-after-unlock',(),[(F,'''    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);''','''    pthread_mutex_unlock(&state_mutex_);
    pthread_cond_broadcast(&state_cond_);''')]),
 ('r-broadcast-before-store',(),[(F,'''    state_.store(new_state, std::memory_order_relaxed);
    pthread_cond_broadcast(&state_cond_);''','''    pthread_cond_broadcast(&state_cond_);
    state_.store(new_state, std::memory_order_relaxed);''')]),
 ('r-signal',(),[(F,'pthread_cond_broadcast(&state_cond_);','pthread_cond_signal(&state_cond_);')]),
 ('r-waitloop',(),[(F,'''  new_value = var->load(std::memory_order_acquire);
  while (new_value == initial_value) {
    pthread_cond_wait(cond, mutex);
    new_value = var->load(std::memory_order_acquire);
  }''','''  for (;;) {
    new_value = var->load(std::memory_order_acquire);
    if (new_value != initial_value) break;
    pthread_cond_wait(cond, mutex);
  }''')]),
 ('r-reverse-handoff',(),[(F,'''    for (std::size_t i = 0; i < tasks_count - 1; i++) {
      workers_[i]->StartWork(&tasks[i]);
    }''','''    for (int i = tasks_count - 2; i >= 0; i--) {
      workers_[i]->StartWork(&tasks[i]);
    }''')]),
 ('r-while-handoff',(),[(F,'''    for (std::size_t i = 0; i < tasks_count - 1; i++) {
      workers_[i]->StartWork(&tasks[i]);
    }''','''    std::size_t i = 0;
    while (i != workers_count) {
      Worker* w = workers_[i];
      w->StartWork(tasks + i);
      ++i;
    }''')]),
 ('r-main-first',(),[(F,'''    for (std::size_t i = 0; i < tasks_count - 1; i++) {
      workers_[i]->StartWork(&tasks[i]);
    }
    // Execute the remaining workload immediately on the current thread.
    Task* task = &tasks[tasks_count - 1];''','''    for (int i = 1; i < tasks_count; i++) {
      workers_[i - 1]->StartWork(&tasks[i]);
    }
    // Execute the remaining workload immediately on the current thread.
    Task* task = &tasks[0];''')]),
 ('r-delete-loop',(),[(F,'''    std::for_each(tasks.begin(), tasks.end(), [](Task* task) { delete task; });''','''    for (std::size_t i = 0; i < tasks.size(); i++) delete tasks[i];''')]),
 ('r-delete-rangefor',(),[(F,'''    std::for_each(tasks.begin(), tasks.end(), [](Task* task) { delete task; });''','''    for (Task* t : tasks) { delete t; }''')]),
 ('r-pool-dtor-index',(),[(F,'''    for (auto w : workers_) {
      delete w;
    }''','''    for (std::size_t i = 0; i < workers_.size(); ++i) {
      delete workers_[i];
    }''')]),
 ('r-pool-dtor-reverse',(),[(F,'''    for (auto w : workers_) {
      delete w;
    }''','''    for (auto it = workers_.rbegin(); it != workers_.rend(); ++it) {
      delete *it;
    }''')]),
 ('r-pool-dtor-popback',(),[(F,'''    for (auto w : workers_) {
      delete w;
    }''','''    while (!workers_.empty()) {
      delete workers_.back();
      workers_.pop_back();
    }''')]),
 ('r-create-for',(),[(F,'''    while (workers_.size() < workers_count) {
      workers_.push_back(new Worker(&counter_to_decrement_when_ready_));
    }''','''    for (std::size_t i = workers_.size(); i < workers_count; i++) {
      workers_.push_back(new Worker(&counter_to_decrement_when_ready_));
    }''')]),
 ('r-create-missing',(),[(F,'''    counter_to_decrement_when_ready_.Reset(workers_count - workers_.size());
    while (workers_.size() < workers_count) {
      workers_.push_back(new Worker(&counter_to_decrement_when_ready_));
    }''','''    const std::size_t missing = workers_count - workers_.size();
    counter_to_decrement_when_ready_.Reset(missing);
    for (std::size_t i = 0; i < missing; i++) {
      workers_.push_back(new Worker(&counter_to_decrement_when_ready_));
    }''')]),
 ('r-helper-lock',(),[(F,'''  // Thread entry point.
  void ThreadFunc() {''','''  struct Guard { pthread_mutex_t* m; explicit Guard(pthread_mutex_t* x) : m(x) { pthread_mutex_lock(m); } ~Guard() { pthread_mutex_unlock(m); } };
  // Thread entry point.
  void ThreadFunc() {'''),(F,'''    pthread_mutex_lock(&state_mutex_);
    State old_state''','''    { Guard g(&state_mutex_);
    State old_state'''),(F,'''    pthread_cond_broadcast(&state_cond_);
    pthread_mutex_unlock(&state_mutex_);''','''    pthread_cond_broadcast(&state_cond_);
    }''')]),
 ('r-cas-dec',(),[(F,'''    std::size_t old_count_value =
        count_.fetch_sub(1, std::memory_order_acq_rel);''','''    std::size_t old_count_value = count_.load(std::memory_order_relaxed);
    while (!count_.compare_exchange_weak(old_count_value, old_count_value - 1, std::memory_order_acq_rel)) {}''')]),
 ('r-merge-loop',(),[(F,'''    ChangeState(State::Ready);

    // Thread main loop
    while (true) {''','''    // Thread main loop
    while (true) {
      ChangeState(State::Ready);'''),(F,'''          // Got work to do! So do it, and then revert to 'Ready' state.
          ChangeState(State::Ready);
          break;''','''          break;''')]),
 ('r-if-dispatch',(),[(F,'''      switch (state_to_act_upon) {
        case State::HasWork:
          // Got work to do! So do it, and then revert to 'Ready' state.
          ChangeState(State::Ready);
          break;
        case State::ExitAsSoonAsPossible:
          return;
        default:
          abort();
      }''','''      if (state_to_act_upon == State::ExitAsSoonAsPossible) return;
      if (state_to_act_upon != State::HasWork) abort();
      ChangeState(State::Ready);''')]),
 ('r-execute-helper',(),[(F,'''    task->local_allocator = &main_thread_task_allocator_;
    task->Run();
    // Wait for the workers submitted above to finish.
    counter_to_decrement_when_ready_.Wait();
  }

  // Legacy: exec''','''    RunHere(task);
    // Wait for the workers submitted above to finish.
    counter_to_decrement_when_ready_.Wait();
  }
  void RunHere(Task* task) { task->local_allocator = &main_thread_task_allocator_; task->Run(); }

  // Legacy: exec''')]),
 ('r-wait-do',(),[(F,'''    while (count_.load(std::memory_order_acquire)) {
      nops += DoSomeNOPs();''','''    for (;;) {
      const std::size_t remaining = count_.load(std::memory_order_acquire);
      if (remaining == 0) break;
      nops += DoSomeNOPs();''')]),
 ('r-skip-wait-none',(),[(F,'''    // Wait for the workers submitted above to finish.
    counter_to_decrement_when_ready_.Wait();
  }

  // Legacy: exec''','''    // Wait for the workers submitted above to finish.
    if (workers_count > 0) counter_to_decrement_when_ready_.Wait();
  }

  // Legacy: exec''')]),
 ('r-field-order',(),[(F,'''  // The underlying thread.
  pthread_t thread_;

  // The task to be worked on.
  Task* task_;
''','''  // The task to be worked on.
  Task* task_;
  // The underlying thread.
  pthread_t thread_;
''')]),
 ('r-swap-alloc-task',(),[(F,'''        task->local_allocator = &local_allocator_;
        task_ = task;''','''        task_ = task;
        task->local_allocator = &local_allocator_;''')]),
]
