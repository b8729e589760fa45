C = "aslam_cv_common/src/reader-writer-lock.cc"
H = "aslam_cv_common/include/aslam/common/reader-writer-lock.h"
RF = "aslam_cv_common/src/reader-first-reader-writer-lock.cc"
CASES = [
    # ---- P05
    ("rw: isInUse unlocked", "P05", "fire", [(C, "bool ReaderWriterMutex::isInUse() {\n  std::unique_lock<std::mutex> lock(mutex_);", "bool ReaderWriterMutex::isInUse() {")]),
    ("rw: reader ignores upgrade only", "P05", "fire", [(C, "|| pending_upgrade_ || current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --pending_readers_", "|| pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --pending_readers_")]),
    ("rw: writer ignores upgrade", "P05", "fire", [(C, "while (current_writer_ || pending_upgrade_) {", "while (current_writer_) {")]),
    ("rw: writer off by one", "P05", "fire", [(C, "while (num_readers_ > (pending_upgrade_ ? 1u : 0u)) {", "while (num_readers_ > 1u) {")]),
    ("rw: upgrade if", "P05", "fire", [(C, "  while (num_readers_ > 1) {", "  if (num_readers_ > 1) {")]),
    ("rw: pending writer deregistered early", "P05", "fire", [(C, "  while (current_writer_ || pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --num_pending_writers_;", "  --num_pending_writers_;\n  while (current_writer_ || pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }")]),
    ("rw: readers ignore pending writers", "P05", "fire", [(C, "while (num_pending_writers_ != 0u || pending_upgrade_ || current_writer_) {", "while (pending_upgrade_ || current_writer_) {")]),
    ("rw: rf single pass", "P05", "fire", [(RF, "      while (current_writer_ || pending_upgrade_) {\n        cv_writer_finished_.wait(lock);\n      }\n", "      while (current_writer_ || pending_upgrade_) {\n        cv_writer_finished_.wait(lock);\n      }\n      break;\n")]),
    ("rw: failed upgrade keeps read lock", "P05", "fire", [(C, "  if (pending_upgrade_) {\n    --num_readers_;\n", "  if (pending_upgrade_) {\n")]),
    ("rw: in use forgets upgrade", "P05", "fire", [(C, "num_pending_writers_ > 0u || current_writer_ ||\n      pending_upgrade_) {", "num_pending_writers_ > 0u || current_writer_) {")]),
    ("rw: scoped move keeps", "P05", "fire", [(C, "ScopedReadLock::ScopedReadLock(ScopedReadLock&& other) : rw_lock_(other.rw_lock_) {\n  other.rw_lock_ = nullptr;", "ScopedReadLock::ScopedReadLock(ScopedReadLock&& other) : rw_lock_(other.rw_lock_) {\n")]),
    ("rw: scoped write releases read", "P05", "fire", [(C, "    rw_lock_->releaseWriteLock();", "    rw_lock_->releaseReadLock();")]),
    ("rw: predicate wait", "P05", "quiet", [(C, "  while (num_pending_writers_ != 0u || pending_upgrade_ || current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }", "  cv_writer_finished_.wait(lock, [this]() {\n    return num_pending_writers_ == 0u && !pending_upgrade_ && !current_writer_;\n  });")]),
    ("rw: helper predicate", "P05", "quiet", [(C, "  while (current_writer_ || pending_upgrade_) {", "  while (writerBlocked()) {"), (H, " protected:", " protected:\n  bool writerBlocked() const { return current_writer_ || pending_upgrade_; }\n")]),
    ("rw: in use returns expr", "P05", "quiet", [(C, "    // Active readers, writers, or threads are waiting for access.\n    return true;\n  }\n  return false;", "    return true;\n  }\n  const bool in_use = false;\n  return in_use;")]),
    # ---- P06
    ("rw: release write no notify", "P06", "fire", [(C, "    current_writer_ = false;\n  }\n  cv_writer_finished_.notify_all();", "    current_writer_ = false;\n  }")]),
    ("rw: release write notify_one", "P06", "fire", [(C, "    current_writer_ = false;\n  }\n  cv_writer_finished_.notify_all();", "    current_writer_ = false;\n  }\n  cv_writer_finished_.notify_one();")]),
    ("rw: release write notify readers cv", "P06", "fire", [(C, "    current_writer_ = false;\n  }\n  cv_writer_finished_.notify_all();", "    current_writer_ = false;\n  }\n  cv_readers_.notify_all();")]),
    ("rw: release read only zero", "P06", "fire", [(C, "if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {", "if (num_readers_ == 0u) {")]),
    ("rw: release read only upgrade", "P06", "fire", [(C, "if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {", "if (num_readers_ == 1u) {")]),
    ("rw: failed upgrade silent", "P06", "fire", [(C, "    if (num_readers_ == 1u) {\n      cv_readers_.notify_all();\n    }\n    return false;", "    return false;")]),
    ("rw: upgrade silent", "P06", "fire", [(C, "  if (num_readers_ == 0u) {\n    cv_readers_.notify_all();\n  }\n  return true;", "  return true;")]),
    ("rw: upgrade does not become writer... clears silently", "P06", "fire", [(C, "  pending_upgrade_ = false;\n  --num_readers_;\n  current_writer_ = true;", "  pending_upgrade_ = false;\n  --num_readers_;")]),
    ("rw: pending upgrade left", "P06", "fire", [(C, "  pending_upgrade_ = false;\n  --num_readers_;", "  --num_readers_;")]),
    ("rw: pending writers left", "P06", "fire", [(C, "  --num_pending_writers_;\n", "")]),
    ("rw: wait if", "P06", "fire", [(C, "  while (current_writer_ || pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --num", "  if (current_writer_ || pending_upgrade_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --num")]),
    ("rw: always notify", "P06", "quiet", [(C, "  if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {\n    cv_readers_.notify_all();\n  }", "  cv_readers_.notify_all();")]),
    ("rw: flag then notify after unlock", "P06", "quiet", [(C, "  --num_readers_;\n  if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {\n    cv_readers_.notify_all();\n  }", "  --num_readers_;\n  const bool last = num_readers_ == (pending_upgrade_ ? 1u : 0u);\n  lock.unlock();\n  if (last) {\n    cv_readers_.notify_all();\n  }")]),
    ("rw: early return form", "P06", "quiet", [(C, "  if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {\n    cv_readers_.notify_all();\n  }", "  const unsigned boundary = pending_upgrade_ ? 1u : 0u;\n  if (num_readers_ != boundary) {\n    return;\n  }\n  cv_readers_.notify_all();")]),
    ("rw: notify under lock", "P06", "quiet", [(C, "    current_writer_ = false;\n  }\n  cv_writer_finished_.notify_all();", "    current_writer_ = false;\n    cv_writer_finished_.notify_all();\n  }")]),
    ("rw: predicate wait", "P06", "quiet", [(C, "  while (num_pending_writers_ != 0u || pending_upgrade_ || current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }", "  cv_writer_finished_.wait(lock, [this]() {\n    return num_pending_writers_ == 0u && !pending_upgrade_ && !current_writer_;\n  });")]),
    ("rw: predicate helper", "P06", "quiet", [(C, "  while (current_writer_ || pending_upgrade_) {", "  while (writerBlocked()) {"), (H, " protected:", " protected:\n  bool writerBlocked() const { return current_writer_ || pending_upgrade_; }\n")]),
    ("rw: release helper", "P06", "quiet", [(C, "  --num_readers_;\n  if (num_readers_ == (pending_upgrade_ ? 1u : 0u)) {\n    cv_readers_.notify_all();\n  }\n}", "  dropReader();\n}"), (H, " protected:", " protected:\n  void dropReader() {\n    --num_readers_;\n    const unsigned left = pending_upgrade_ ? 1u : 0u;\n    if (num_readers_ == left) cv_readers_.notify_all();\n  }\n")]),
]
