"""Property id -> check."""
from .rules import threadpool, rwlock, channels, repo, serial, statics, values, grid, lists, owned, descriptors, statistics, yamls, distortion, cameras, pipeline, copies

CHECKS = {}
for m in (threadpool, rwlock, channels, repo, serial, statics, values, grid, lists, owned, descriptors, statistics, yamls, distortion, cameras, pipeline, copies):
    CHECKS.update(m.CHECKS)
