N = "aslam_cv_pipeline/src/visual-npipeline.cc"
CASES = []


def fire(name, *edits):
    CASES.append(("pipe: " + name, "P21", "fire", [(N,) + e for e in edits]))


def quiet(name, *edits):
    CASES.append(("pipe: " + name, "P21", "quiet", [(N,) + e for e in edits]))


SD = """  {
    std::lock_guard<std::mutex> lock(mutex_);
    shutdown_ = true;
  }
"""
BLK = """    if (completed_.empty()) {
      condition_not_empty_.wait(lock);
      if (completed_.empty()) {
        continue;
      }
    }
    // Get the oldest frame."""
LAST = """    if (completed_.size() >= max_queue_size) {
      condition_not_full_.wait(lock);
      if (completed_.size() >= max_queue_size) {
        continue;
      }
    }
"""
# ---- wake-ups
fire("shutdown without the mutex", (SD, "  shutdown_ = true;\n"))
fire("shutdown wakes only getters", ("  condition_not_full_.notify_all();\n  thread_pool_->stop();", "  thread_pool_->stop();"))
fire("shutdown wakes one", ("  condition_not_empty_.notify_all();\n  condition_not_full_", "  condition_not_empty_.notify_one();\n  condition_not_full_"))
fire("taking wakes nobody", ("  completed_.erase(it_completed);\n  condition_not_full_.notify_all();", "  completed_.erase(it_completed);"))
fire("clearing wakes nobody", ("    completed_.clear();\n    condition_not_full_.notify_all();", "    completed_.clear();"))
fire("dropping wakes nobody", ("    completed_.erase(completed_.begin());\n    condition_not_full_.notify_all();", "    completed_.erase(completed_.begin());"))
fire("completing wakes the others", ("        condition_not_empty_.notify_all();\n      } else", "        condition_not_full_.notify_all();\n      } else"))
fire("wait not re-tested", (BLK, "    if (completed_.empty()) {\n      condition_not_empty_.wait(lock);\n    }\n    // Get the oldest frame."))
fire("wake-up before the change", ("        completed_.insert(*it_processing);\n        it_processing = processing_.erase(it_processing);\n        condition_not_empty_.notify_all();",
                                   "        if (completed_.size() == 0u) condition_not_empty_.notify_all();\n        completed_.insert(*it_processing);\n        it_processing = processing_.erase(it_processing);"))
# ---- order
fire("newest first", ("  auto it_completed = completed_.begin();\n  nframe", "  auto it_completed = std::prev(completed_.end());\n  nframe"))
fire("oldest stays", ("  completed_.erase(it_completed);\n", ""))
fire("all removed", ("  completed_.erase(it_completed);\n", "  completed_.clear();\n"))
fire("another removed", ("  completed_.erase(it_completed);\n", "  completed_.erase(std::prev(completed_.end()));\n"))
fire("latest is the oldest", ("  auto reverse_it_completed = completed_.rbegin();", "  auto reverse_it_completed = completed_.begin();"))
fire("latest keeps the others", ("    const int64_t timestamp_nanoseconds = nframe_iterator->first;\n    completed_.clear();", "    const int64_t timestamp_nanoseconds = nframe_iterator->first;\n    completed_.erase(std::prev(completed_.end()));"))
fire("same time stays in progress", ("      && it_processing->first <= timestamp_nanoseconds) {", "      && it_processing->first < timestamp_nanoseconds) {"))
fire("all in progress dropped", ("    while (processing_iterator != processing_.end() &&\n        processing_iterator->first <= timestamp_nanoseconds) {", "    while (processing_iterator != processing_.end()) {"))
fire("none in progress dropped", ("""  auto it_processing = processing_.begin();
  while (it_processing != processing_.end()
      && it_processing->first <= timestamp_nanoseconds) {
    it_processing = processing_.erase(it_processing);
  }
  return nframe;""", "  return nframe;"))
fire("overtaking", ("        break;\n      }\n    }\n  }\n}\n\nvoid VisualNPipeline::waitFor", "        ++it_processing;\n      }\n    }\n  }\n}\n\nvoid VisualNPipeline::waitFor"))
fire("incomplete set", ("      if (it_processing->second->areAllFramesSet()) {\n        completed_", "      if (it_processing->second->getNumFrames() > 0u) {\n        completed_"))
fire("stays in progress", ("        it_processing = processing_.erase(it_processing);\n        condition_not_empty_", "        ++it_processing;\n        condition_not_empty_"))
# ---- offers
fire("image lost when full", ("      if (completed_.size() >= max_queue_size) {\n        continue;\n      }\n", "      if (completed_.size() >= max_queue_size) {\n        return false;\n      }\n"))
fire("beyond the limit", (LAST, "    if (completed_.size() > max_queue_size) {\n      condition_not_full_.wait(lock);\n      continue;\n    }\n"))
fire("dropping instead of offering", ("    oldest_dropped = true;\n  }\n  processImageImpl", "    oldest_dropped = true;\n    return oldest_dropped;\n  }\n  processImageImpl"))
fire("offered twice", ("    processImageImpl(camera_index, image, timestamp);\n    return true;", "    processImageImpl(camera_index, image, timestamp);\n    if (timestamp > 0) continue;\n    return true;"))
fire("refused without shutdown", ("  std::unique_lock<std::mutex> lock(mutex_);\n  while (!shutdown_) {\n    if (completed_.empty()) {\n      condition_not_empty_.wait(lock);\n      if (completed_.empty()) {\n        continue;\n      }\n    }\n    // Get",
                                  "  std::unique_lock<std::mutex> lock(mutex_);\n  while (!shutdown_) {\n    if (completed_.empty()) {\n      condition_not_empty_.wait(lock);\n      if (completed_.empty()) {\n        return false;\n      }\n    }\n    // Get"))
fire("camera index up to the number", ("CHECK_LT(camera_index, pipelines_.size());", "CHECK_LE(camera_index, pipelines_.size());"))

# ---- behaviour kept
quiet("shutdown's mutex taken after the flag", (SD, "  shutdown_ = true;\n  { std::lock_guard<std::mutex> lock(mutex_); }\n"))
quiet("shutdown in one critical section", (SD + "  condition_not_empty_.notify_all();\n  condition_not_full_.notify_all();\n", "  {\n    std::lock_guard<std::mutex> lock(mutex_);\n    shutdown_ = true;\n    condition_not_full_.notify_all();\n    condition_not_empty_.notify_all();\n  }\n"))
quiet("inner loop", (BLK, "    if (completed_.empty()) {\n      condition_not_empty_.wait(lock);\n      continue;\n    }\n    // Get the oldest frame."))
quiet("taking by key", ("  completed_.erase(it_completed);\n", "  completed_.erase(completed_.begin());\n"))
quiet("taking by move", ("  nframe = it_completed->second;\n", "  nframe = std::move(it_completed->second);\n"))
quiet("taking by swap", ("  nframe = it_completed->second;\n", "  nframe.swap(it_completed->second);\n"))
quiet("taking early", ("""  if (completed_.empty()) {
    return nframe;
  }
  // Get the oldest frame.
  auto it_completed = completed_.begin();
  nframe = it_completed->second;
  completed_.erase(it_completed);
  condition_not_full_.notify_all();
  return nframe;""", """  if (!completed_.empty()) {
    const auto oldest = completed_.begin();
    nframe = oldest->second;
    completed_.erase(oldest);
    condition_not_full_.notify_all();
  }
  return nframe;"""))
quiet("latest through the end", ("  auto reverse_it_completed = completed_.rbegin();", "  auto reverse_it_completed = std::prev(completed_.end());"))
quiet("bulk removal", ("""  auto it_processing = processing_.begin();
  while (it_processing != processing_.end()
      && it_processing->first <= timestamp_nanoseconds) {
    it_processing = processing_.erase(it_processing);
  }
  return nframe;""", "  processing_.erase(processing_.begin(), processing_.upper_bound(timestamp_nanoseconds));\n  return nframe;"))
quiet("break out of the loop", ("""  while (it_processing != processing_.end()
      && it_processing->first <= timestamp_nanoseconds) {
    it_processing = processing_.erase(it_processing);
  }
  return nframe;""", """  while (it_processing != processing_.end()) {
    if (it_processing->first > timestamp_nanoseconds) {
      break;
    }
    it_processing = processing_.erase(it_processing);
  }
  return nframe;"""))
quiet("completeness asked first", ("      if (it_processing->second->areAllFramesSet()) {\n        completed_", "      const bool complete = it_processing->second->areAllFramesSet();\n      if (complete) {\n        completed_"))
quiet("completing with a guard clause", ("""      if (it_processing->second->areAllFramesSet()) {
        completed_.insert(*it_processing);
        it_processing = processing_.erase(it_processing);
        condition_not_empty_.notify_all();
      } else {
        // As we are iterating over the map in chronological order we have to abort once an nframe
        // is not yet finished processing to keep chronological ordering in the destination queue.
        break;
      }""", """      if (!it_processing->second->areAllFramesSet()) {
        break;
      }
      completed_.emplace(it_processing->first, it_processing->second);
      it_processing = processing_.erase(it_processing);
      condition_not_empty_.notify_all();"""))
quiet("completing as long as the first is complete", ("""    auto it_processing = processing_.begin();
    while (it_processing != processing_.end()) {
      // Check if""", """    for (auto it_processing = processing_.begin(); it_processing != processing_.end();) {
      // Check if"""))
quiet("waiting loop inside", (LAST, "    while (!shutdown_ && completed_.size() >= max_queue_size) {\n      condition_not_full_.wait(lock);\n    }\n    if (shutdown_) {\n      break;\n    }\n"))
quiet("offered through the public call", ("    processImageImpl(camera_index, image, timestamp);\n    return true;", "    processImage(camera_index, image, timestamp);\n    return true;"))
quiet("statement that does nothing", ("  bool oldest_dropped = false;\n", "  bool oldest_dropped = false;\n  (void)oldest_dropped;\n"))
quiet("index by if", ("  CHECK_LT(camera_index, pipelines_.size());\n", "  if (!(camera_index < pipelines_.size())) {\n    LOG(FATAL) << camera_index;\n  }\n"))
