C = "aslam_cv_common/src/thread-pool.cc"
H = "aslam_cv_common/include/aslam/common/thread-pool.h"
RW = "aslam_cv_common/src/reader-writer-lock.cc"
RF = "aslam_cv_common/src/reader-first-reader-writer-lock.cc"
POOL = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>
#include <aslam/common/thread-pool.h>
using aslam::ThreadPool;
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::_Exit(1); } } while (0)
'''
RWD = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <aslam/common/reader-writer-lock.h>
#include <aslam/common/reader-first-reader-writer-lock.h>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::_Exit(1); } } while (0)
'''
SEEDS = [
    dict(id="pool-worker-counts-late", property="P04", edits=[
        (C, "    ++active_threads_;\n", ""),
        (C, "    lock.unlock();\n    task();\n", "    lock.unlock();\n    {\n      std::unique_lock<std::mutex> count_lock(tasks_mutex_);\n      ++active_threads_;\n    }\n    task();\n")],
        demo=POOL + r'''
int main() {
  // Between taking a task and counting itself active the worker is invisible: waitForEmptyQueue may return early.
  for (int round = 0; round < 3000; ++round) {
    std::atomic<int> done(0);
    ThreadPool pool(4);
    for (int i = 0; i < 4; ++i) pool.enqueue([&]() { std::this_thread::yield(); ++done; });
    pool.waitForEmptyQueue();
    REQUIRE(done == 4);
  }
  return 0;
}
''', needs="waitForEmptyQueue() runs between a worker taking the last task and counting itself active",
        breaks="waitForEmptyQueue() returns while a task has not run", reps=3, timeout=80),
    dict(id="pool-worker-drops-ordered-on-stop", property="P04", edits=[
        (C, "      const bool all_guards_active = std::all_of(", "      if (this->stop_ && active_threads_ == 0u && num_queued_nonexclusive_tasks == 0u) {\n        return;\n      }\n      const bool all_guards_active = std::all_of(")],
        demo=POOL + r'''
int main() {
  std::atomic<int> done(0);
  {
    ThreadPool pool(1);
    pool.enqueue([&]() { ms(50); ++done; });
    pool.enqueueOrdered(3u, [&]() { ++done; });
    pool.enqueueOrdered(4u, [&]() { ++done; });
    ms(10);
  }
  REQUIRE(done == 3);
  return 0;
}
''', needs="only group tasks are queued when the last busy worker finishes after stop or destruction", breaks="accepted tasks are dropped at shutdown"),
    dict(id="pool-backlog-reorders", property="P03", edits=[
        (H, "    groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});\n", "    if (groupid_tasks_.size() < 4096u) {\n      groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});\n    } else {\n      // Spill towards the middle to keep the scan short.\n      groupid_tasks_.emplace(groupid_tasks_.begin() + 2048, exclusivity_group_id, [task](){ (*task)();});\n    }\n")],
        demo=POOL + r'''
int main() {
  std::atomic<bool> go(false);
  std::vector<int> order;
  ThreadPool pool(2);
  pool.enqueueOrdered(9u, [&]() { while (!go) ms(1); });
  for (int i = 0; i < 6000; ++i) pool.enqueueOrdered(9u, [&order, i]() { order.push_back(i); });
  go = true;
  pool.waitForEmptyQueue();
  REQUIRE(order.size() == 6000u);
  for (int i = 0; i < 6000; ++i) REQUIRE(order[i] == i);
  return 0;
}
''', needs="more than 4096 queued tasks", breaks="tasks of a group start out of order"),
    dict(id="rw-upgrade-done-silent", property="P06", edits=[
        (RW, "  if (num_readers_ == 0u) {\n    cv_readers_.notify_all();\n  }\n  return true;", "  if (num_readers_ == 0u && num_pending_writers_ > 1u) {\n    cv_readers_.notify_all();\n  }\n  return true;")],
        demo=RWD + r'''
int main() {
  // A single writer waits for the reader, which upgrades instead of leaving.
  aslam::ReaderWriterMutex m;
  std::atomic<bool> written(false);
  m.acquireReadLock();
  std::thread w([&]() { m.acquireWriteLock(); written = true; m.releaseWriteLock(); });
  ms(100);
  REQUIRE(m.upgradeToWriteLock());
  ms(20);
  m.releaseWriteLock();
  for (int i = 0; i < 200 && !written; ++i) ms(10);
  REQUIRE(written);
  w.join();
  return 0;
}
''', needs="exactly one writer waits for readers while the only reader upgrades", breaks="the waiting writer is never woken"),
    dict(id="rw-writer-ignores-pending-upgrade", property="P05", edits=[
        (RW, "  while (current_writer_ || pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --num_pending_writers_;",
         "  while (current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --num_pending_writers_;")],
        demo=RWD + r'''
int main() {
  // Two readers, one starts an upgrade and waits for the other; a writer arrives; then the other reader leaves.
  aslam::ReaderWriterMutex m;
  std::atomic<int> writers(0);
  std::atomic<bool> overlap(false), go(true);
  m.acquireReadLock();
  std::thread up([&]() {
    m.acquireReadLock();
    if (m.upgradeToWriteLock()) { if (writers.fetch_add(1) != 0) overlap = true; ms(100); writers.fetch_sub(1); m.releaseWriteLock(); }
  });
  ms(50);
  std::thread wr([&]() { m.acquireWriteLock(); if (writers.fetch_add(1) != 0) overlap = true; ms(100); writers.fetch_sub(1); m.releaseWriteLock(); });
  ms(50);
  m.releaseReadLock();
  up.join();
  wr.join();
  REQUIRE(!overlap);
  return 0;
}
''', needs="a writer arrives while a reader waits to upgrade and the last other reader leaves", breaks="two writers at once", reps=40),
    dict(id="rf-writer-skips-recheck", property="P05", edits=[
        (RF, "        cv_writer_finished_.wait(lock);\n      }\n    }\n  }\n  current_writer_ = true;", "        cv_writer_finished_.wait(lock);\n      }\n      if (!pending_upgrade_) {\n        break;\n      }\n    }\n  }\n  current_writer_ = true;")],
        demo=RWD + r'''
int main() {
  for (int r = 0; r < 30; ++r) {
    // The writer waits for another writer; when that one leaves, a reader gets in first.
    aslam::ReaderFirstReaderWriterMutex m;
    std::atomic<int> readers(0), writers(0);
    std::atomic<bool> overlap(false);
    m.acquireWriteLock();
    std::vector<std::thread> ts;
    for (int i = 0; i < 6; ++i)
      ts.emplace_back([&]() { m.acquireReadLock(); ++readers; if (writers != 0) overlap = true; ms(20); if (writers != 0) overlap = true; --readers; m.releaseReadLock(); });
    ms(5);
    ts.emplace_back([&]() { m.acquireWriteLock(); ++writers; if (readers != 0) overlap = true; ms(5); --writers; m.releaseWriteLock(); });
    for (int i = 0; i < 6; ++i)
      ts.emplace_back([&]() { m.acquireReadLock(); ++readers; if (writers != 0) overlap = true; ms(20); if (writers != 0) overlap = true; --readers; m.releaseReadLock(); });
    ms(20);
    m.releaseWriteLock();
    for (auto& t : ts) t.join();
    REQUIRE(!overlap);
  }
  return 0;
}
''', needs="a reader enters between a writer leaving and the next waiting writer waking up", breaks="a writer and readers hold the lock together", timeout=60),
]
