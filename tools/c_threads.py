"""C01 C02 C03: tasks and pools. Specification: ThreadPool (interface),
ThreadPoolImpl (design, refines it), TraceThreadPool (recorded executions)."""
from vlib import *

ASSUMPTIONS = ["tasks end when their abort flag is set or on their own",
               "a pool is not used by other threads, except its own tasks, while it is destroyed",
               "schedules are explored at the granularity of locks, atomics and flags (sequential consistency)"]
CFG = "TraceThreadPool.cfg"


def n(quick, thorough):
    return thorough if THOROUGH else quick


def design(chk, mutations):
    tlc_model(chk.cov, "ThreadPoolImpl", "ThreadPoolImpl_safe.cfg")
    tlc_model(chk.cov, "ThreadPoolImpl", "ThreadPoolImpl_live.cfg")
    if THOROUGH:
        tlc_model(chk.cov, "ThreadPoolImpl", "ThreadPoolImpl_deep.cfg")
    for m in mutations:
        tlc_refuted(chk.cov, "ThreadPoolImpl", "ThreadPoolImpl_%s.cfg" % m)


def exe():
    return build("threads", ["threads.cc"], ["threads"], sched=True)


def c01(chk):
    x = exe()
    design(chk, ["lifo"])
    schedule_check(chk, x, "exec", n(6000, 80000), "TraceThreadPool", CFG)
    schedule_check(chk, x, "first", n(1000, 8000), "TraceThreadPool", CFG)


def c02(chk):
    x = exe()
    design(chk, ["id", "disc"])
    schedule_check(chk, x, "account", n(5000, 60000), "TraceThreadPool", CFG)
    schedule_check(chk, x, "limit", n(2500, 30000), "TraceThreadPool", CFG)


def c03(chk):
    x = exe()
    design(chk, ["lock", "disc", "early"])
    schedule_check(chk, x, "destroy", n(8000, 80000), "TraceThreadPool", CFG)
    schedule_check(chk, x, "replace", n(6000, 60000), "TraceThreadPool", CFG)
