H = "aslam_cv_common/include/aslam/common/thread-pool.h"
C = "aslam_cv_common/src/thread-pool.cc"
CASES = [
    # ---- P01
    ("pool: numActiveThreads unlocked", "P01", "fire", [(C, "  std::unique_lock<std::mutex> lock(this->tasks_mutex_);\n  return active_threads_;", "  return active_threads_;")]),
    ("pool: decrement after unlock", "P01", "fire", [(C, "    --active_threads_;\n", "    lock.unlock();\n    --active_threads_;\n    lock.lock();\n")]),
    ("pool: dtor flag unlocked", "P01", "fire", [(C, "    std::unique_lock<std::mutex> lock(tasks_mutex_);\n    stop_ = true;", "    stop_ = true;")]),
    ("pool: guard released before map update", "P01", "fire", [(H, "    std::unique_lock<std::mutex> lock(tasks_mutex_);\n    // Don't", "    std::unique_lock<std::mutex> lock(tasks_mutex_, std::defer_lock);\n    // Don't")]),
    ("pool: temp guard", "P01", "fire", [(C, "  std::unique_lock<std::mutex> lock(this->tasks_mutex_);\n  return active_threads_;", "  std::unique_lock<std::mutex>(this->tasks_mutex_);\n  return active_threads_;")]),
    ("pool: ctor writes after start", "P01", "fire", [(C, "    workers_.emplace_back(std::bind(&ThreadPool::run, this));\n", "    workers_.emplace_back(std::bind(&ThreadPool::run, this));\n  active_threads_ = 0;\n")]),
    ("pool: lock_guard refactor", "P01", "quiet", [(C, "  std::unique_lock<std::mutex> lock(this->tasks_mutex_);\n  return active_threads_;", "  const std::lock_guard<std::mutex> guard(tasks_mutex_);\n  const unsigned n = active_threads_;\n  return n;")]),
    ("pool: lock helper", "P01", "quiet", [(H, " private:\n  // This version", " private:\n  std::unique_lock<std::mutex> lockTasks() const {\n    return std::unique_lock<std::mutex>(tasks_mutex_);\n  }\n  // This version"), (C, "  std::unique_lock<std::mutex> lock(this->tasks_mutex_);\n  return active_threads_;", "  std::unique_lock<std::mutex> lock = lockTasks();\n  return active_threads_;")]),
    # ---- P02
    ("pool: no notify after task", "P02", "fire", [(C, "    tasks_queue_change_.notify_all();\n  }\n}", "  }\n}")]),
    ("pool: notify before guard clear ok?", "P02", "quiet", [(C, "    --active_threads_;\n\n", "    --active_threads_;\n    (void)group_id;\n\n")]),
    ("pool: notify_one after task", "P02", "fire", [(C, "    tasks_queue_change_.notify_all();\n  }\n}", "    tasks_queue_change_.notify_one();\n  }\n}")]),
    ("pool: conditional notify after task", "P02", "fire", [(C, "    tasks_queue_change_.notify_all();\n  }\n}", "    if (groupid_tasks_.empty()) tasks_queue_change_.notify_all();\n  }\n}")]),
    ("pool: dtor notify_one", "P02", "fire", [(C, "  tasks_queue_change_.notify_all();\n  for", "  tasks_queue_change_.notify_one();\n  for")]),
    ("pool: dtor no notify", "P02", "fire", [(C, "  tasks_queue_change_.notify_all();\n  for", "  for")]),
    ("pool: if instead of while", "P02", "fire", [(C, "  while (active_threads_ > 0u", "  if (active_threads_ > 0u")]),
    ("pool: stale condition", "P02", "fire", [(C, "  while (active_threads_ > 0u || groupid_tasks_.size() > 0u) {", "  const bool busy = active_threads_ > 0u || groupid_tasks_.size() > 0u;\n  while (busy) {")]),
    ("pool: predicate wait", "P02", "quiet", [(C, "  while (active_threads_ > 0u || groupid_tasks_.size() > 0u) {\n    this->tasks_queue_change_.wait(lock);\n  }", "  tasks_queue_change_.wait(lock, [this]() {\n    return active_threads_ == 0u && groupid_tasks_.empty();\n  });")]),
    ("pool: notify helper", "P02", "quiet", [(C, "    tasks_queue_change_.notify_all();\n  }\n}", "    signalChange();\n  }\n}"), (H, " private:\n  // This version", " private:\n  void signalChange() { tasks_queue_change_.notify_all(); }\n  // This version")]),
    # ---- P03
    ("pool: push front", "P03", "fire", [(H, "groupid_tasks_.emplace_back(", "groupid_tasks_.emplace_front(")]),
    ("pool: guard set after unlock", "P03", "fire", [(C, "      it_group_id_serviced->second = true;\n    }", "      lock.unlock();\n      lock.lock();\n      it_group_id_serviced->second = true;\n    }")]),
    ("pool: guard not cleared", "P03", "fire", [(C, "      it_group_id_servied->second = false;\n", "")]),
    ("pool: guard cleared before run", "P03", "fire", [(C, "    lock.unlock();\n    task();\n    lock.lock();\n", ""), (C, "    --active_threads_;\n", "    lock.unlock();\n    task();\n    lock.lock();\n    --active_threads_;\n")]),
    ("pool: guard ignored", "P03", "fire", [(C, "if (!(is_exclusive_task && guard_active)) {", "if (!(is_exclusive_task && guard_active) || num_queued_nonexclusive_tasks == 0u) {")]),
    ("pool: no break", "P03", "fire", [(C, "            // We jump out of the nested for-structure here, because we have\n            // found a task to process.\n            break;\n", "")]),
    ("pool: index skips busy", "P03", "fire", [(C, "          ++index;\n", "          if (is_exclusive_task) ++index;\n")]),
    ("pool: enqueue resets guard", "P03", "fire", [(H, "    } else if (groupid_exclusivity_guards_.count(\n        exclusivity_group_id) == 0u) {\n      groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);", "    } else {\n      groupid_exclusivity_guards_[exclusivity_group_id] = false;")]),
    ("pool: guards inverted continue", "P03", "quiet", [(C, "          if (!(is_exclusive_task && guard_active)) {\n            group_id = groupid_task.first;\n            task = groupid_task.second;\n\n            groupid_tasks_.erase(groupid_tasks_.begin() + index);\n            if (!is_exclusive_task) {\n              --num_queued_nonexclusive_tasks;\n            }\n\n            // We jump out of the nested for-structure here, because we have\n            // found a task to process.\n            break;\n          }\n          ++index;\n", "          if (is_exclusive_task && guard_active) {\n            ++index;\n            continue;\n          }\n          group_id = groupid_task.first;\n          task = groupid_task.second;\n          groupid_tasks_.erase(groupid_tasks_.begin() + index);\n          if (!is_exclusive_task) {\n            --num_queued_nonexclusive_tasks;\n          }\n          break;\n")]),
    ("pool: iterator search", "P03", "quiet", [(C, "        size_t index = 0u;\n        for (const TaskDeque::value_type& groupid_task : groupid_tasks_) {", "        for (TaskDeque::iterator it = groupid_tasks_.begin(); it != groupid_tasks_.end(); ++it) {\n          const TaskDeque::value_type& groupid_task = *it;"), (C, "groupid_tasks_.erase(groupid_tasks_.begin() + index);", "groupid_tasks_.erase(it);"), (C, "          ++index;\n", "")]),
    ("pool: index loop", "P03", "quiet", [(C, "        size_t index = 0u;\n        for (const TaskDeque::value_type& groupid_task : groupid_tasks_) {", "        for (size_t index = 0u; index < groupid_tasks_.size(); ++index) {\n          const TaskDeque::value_type& groupid_task = groupid_tasks_[index];"), (C, "          ++index;\n", "")]),
    ("pool: all_of loop", "P03", "quiet", [(C, """      const bool all_guards_active = std::all_of(
          groupid_exclusivity_guards_.begin(),
          groupid_exclusivity_guards_.end(),
          [](const GuardMap::value_type& value) {
            CHECK_NE(value.second, kGroupdIdNonExclusiveTask)
              << "There should never be a guard for a non-exclusive task.";
            return value.second;
          });
""", """      bool all_guards_active = true;
      for (const GuardMap::value_type& value : groupid_exclusivity_guards_) {
        if (!value.second) {
          all_guards_active = false;
          break;
        }
      }
""")]),
    # ---- P04
    ("pool: task run under lock", "P04", "fire", [(C, "    lock.unlock();\n    task();\n    lock.lock();\n", "    task();\n")]),
    ("pool: active raised after unlock", "P04", "fire", [(C, "    ++active_threads_;\n", ""), (C, "    lock.unlock();\n    task();\n    lock.lock();\n", "    lock.unlock();\n    lock.lock();\n    ++active_threads_;\n    lock.unlock();\n    task();\n    lock.lock();\n")]),
    ("pool: worker exits with queue", "P04", "fire", [(C, "if (this->stop_ && groupid_tasks_.size() == 0u)", "if (this->stop_)")]),
    ("pool: worker exits not stopped", "P04", "fire", [(C, "if (this->stop_ && groupid_tasks_.size() == 0u)", "if (this->stop_ || groupid_tasks_.size() == 0u)")]),
    ("pool: wait ignores active", "P04", "fire", [(C, "while (active_threads_ > 0u || groupid_tasks_.size() > 0u)", "while (groupid_tasks_.size() > 0u)")]),
    ("pool: wait and", "P04", "fire", [(C, "while (active_threads_ > 0u || groupid_tasks_.size() > 0u)", "while (active_threads_ > 0u && groupid_tasks_.size() > 0u)")]),
    ("pool: join from 1", "P04", "fire", [(C, "for (size_t i = 0u; i < workers_.size(); ++i) {\n    workers_[i].join", "for (size_t i = 1u; i < workers_.size(); ++i) {\n    workers_[i].join")]),
    ("pool: join to n-1", "P04", "fire", [(C, "for (size_t i = 0u; i < workers_.size(); ++i) {\n    workers_[i].join", "for (size_t i = 0u; i + 1u < workers_.size(); ++i) {\n    workers_[i].join")]),
    ("pool: detach", "P04", "fire", [(C, "workers_[i].join();", "workers_[i].detach();")]),
    ("pool: join range", "P04", "quiet", [(C, "  for (size_t i = 0u; i < workers_.size(); ++i) {\n    workers_[i].join();\n  }", "  for (std::thread& worker : workers_) {\n    worker.join();\n  }")]),
    ("pool: check before lock", "P04", "fire", [(H, "    std::unique_lock<std::mutex> lock(tasks_mutex_);\n    // Don't", "    std::unique_lock<std::mutex> lock(tasks_mutex_);\n    const bool stopped = stop_;\n    lock.unlock();\n    lock.lock();\n    // Don't"), (H, "    if(stop_) {", "    if(stopped) {")]),
    ("pool: predicate wait idle", "P04", "quiet", [(C, "  while (active_threads_ > 0u || groupid_tasks_.size() > 0u) {\n    this->tasks_queue_change_.wait(lock);\n  }", "  tasks_queue_change_.wait(lock, [this]() {\n    return active_threads_ == 0u && groupid_tasks_.empty();\n  });")]),
    ("pool: exit check empty()", "P04", "quiet", [(C, "if (this->stop_ && groupid_tasks_.size() == 0u) {\n        return;", "const bool finished = stop_ && groupid_tasks_.empty();\n      if (finished) {\n        return;")]),
    ("pool: extract run task", "P04", "quiet", [(C, "    lock.unlock();\n    task();\n    lock.lock();\n", "    runUnlocked(&lock, task);\n"), (C, "void ThreadPool::run() {", "void ThreadPool::runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task) {\n  lock->unlock();\n  task();\n  lock->lock();\n}\n\nvoid ThreadPool::run() {"), (H, " private:\n  // This version", " private:\n  void runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task);\n  // This version")]),
    ("pool: extract run task 3", "P03", "quiet", [(C, "    lock.unlock();\n    task();\n    lock.lock();\n", "    runUnlocked(&lock, task);\n"), (C, "void ThreadPool::run() {", "void ThreadPool::runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task) {\n  lock->unlock();\n  task();\n  lock->lock();\n}\n\nvoid ThreadPool::run() {"), (H, " private:\n  // This version", " private:\n  void runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task);\n  // This version")]),
    ("pool: extract run task 1", "P01", "quiet", [(C, "    lock.unlock();\n    task();\n    lock.lock();\n", "    runUnlocked(&lock, task);\n"), (C, "void ThreadPool::run() {", "void ThreadPool::runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task) {\n  lock->unlock();\n  task();\n  lock->lock();\n}\n\nvoid ThreadPool::run() {"), (H, " private:\n  // This version", " private:\n  void runUnlocked(std::unique_lock<std::mutex>* lock, const std::function<void()>& task);\n  // This version")]),
    ("pool: extract group release", "P03", "quiet", [(C, """    if (group_id != kGroupdIdNonExclusiveTask) {
      const GuardMap::iterator it_group_id_servied =
          groupid_exclusivity_guards_.find(group_id);
      CHECK(it_group_id_servied != groupid_exclusivity_guards_.end() &&
            it_group_id_servied->second == true);
      it_group_id_servied->second = false;
    }
""", "    releaseGroup(group_id);\n"), (C, "void ThreadPool::run() {", """void ThreadPool::releaseGroup(const size_t group) {
  if (group == kGroupdIdNonExclusiveTask) {
    return;
  }
  groupid_exclusivity_guards_.at(group) = false;
}

void ThreadPool::run() {"""), (H, " private:\n  // This version", " private:\n  void releaseGroup(const size_t group);\n  // This version")]),
]
