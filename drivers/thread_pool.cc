// Instantiates the thread pool's templates so that their bodies are analysed as type-checked code.
#include <aslam/common/thread-pool.h>

namespace verif_driver {
int task(int x) { return x; }
void use(aslam::ThreadPool& pool) {
  pool.enqueue(&task, 3);
  pool.enqueueOrdered(1u, &task, 3);
}
}  // namespace verif_driver
