"""C04 C05: managed collections and the platform manager. Specification:
ManagedMap; ManagedMapImpl is its lock-based design."""
from vlib import *

ASSUMPTIONS = ["listeners do not call the collection that notifies them",
               "a shared manager is reset only while no other call uses it"]


def n(quick, thorough):
    return thorough if THOROUGH else quick


def exe():
    return build("managed", ["managed.cc"], ["threads", "types", "ublas", "platforms"], sched=True)


def c04(chk):
    x = exe()
    tlc_model(chk.cov, "ManagedMapImpl", "ManagedMapImpl_map.cfg")
    for m in ("check", "notify", "erase"):
        tlc_refuted(chk.cov, "ManagedMapImpl", "ManagedMapImpl_%s.cfg" % m)
    schedule_check(chk, x, "collection", n(8000, 80000), "TraceManagedMap", "TraceManagedMap_0.cfg")


def c05(chk):
    x = exe()
    tlc_model(chk.cov, "ManagedMapImpl", "ManagedMapImpl_ok.cfg")
    tlc_refuted(chk.cov, "ManagedMapImpl", "ManagedMapImpl_key.cfg")
    schedule_check(chk, x, "keys", n(8000, 80000), "TraceManagedMap", "TraceManagedMap_1.cfg")
