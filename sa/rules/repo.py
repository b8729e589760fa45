"""Rules over the whole repository."""
from .. import programs
from .locking import lock_order, waits_under_foreign_lock
from .nulls import lookups_tested, pointer_args

DRV = ("thread_pool.cc", "channels.cc", "common_headers.cc", "cameras.cc")


def P24(R):
    prog = programs.whole(*DRV)
    R.rule("lock-order", "no mutex is acquired while the thread holds it, two objects' mutexes of one kind are only taken "
           "together (std::lock) and on different objects, and the acquisition order between kinds of mutexes has no cycle")
    R.rule("foreign-wait", "a thread that waits on a condition variable holds only the mutex the wait releases")
    lock_order(R, prog, "lock-order")
    waits_under_foreign_lock(R, prog, "foreign-wait")
    R.atleast("lock acquisitions analysed", 60)
    R.atleast("waits analysed", 10)


def P25(R):
    prog = programs.whole(*DRV)
    R.rule("pointer-argument", "a public function dereferences a pointer argument only on paths where it was tested to be non-null")
    pointer_args(R, prog, "pointer-argument")
    R.atleast("functions with pointer parameters", 120)
    R.atleast("dereferences of pointer arguments decided", 300)


def P30(R):
    prog = programs.whole(*DRV)
    R.rule("lookup-tested", "the result of a container lookup, a dynamic cast or a call that may return null is dereferenced only "
           "on paths where it was tested")
    # the queue map and its guard map have the same keys by the pool's own invariant, decided by P03
    lookups_tested(R, prog, "lookup-tested", pred=lambda f: not f.qual.startswith("aslam::ThreadPool::"))
    R.note("not judged here: aslam::ThreadPool (its maps share their keys, see P03)")
    R.atleast("functions with lookups", 150)
    R.atleast("dereferences of lookup results decided", 60)


CHECKS = {"P24": P24, "P25": P25, "P30": P30}
