"""C09 C11 C12 C21: sensors, pairs, background calculations and the ocean under
the deterministic scheduler."""
from vlib import *

ASSUMPTIONS = ["the ocean is not reset to nothing while calculations that need one are requested",
               "listeners outlive what they listen to"]


def n(quick, thorough):
    return thorough if THOROUGH else quick


def exe():
    return build("acoustics", ["acoustics.cc"], "all", sched=True)


def c09(chk):
    x = exe()
    tlc_model(chk.cov, "WaveResults", "WaveResults_two.cfg" if THOROUGH else "WaveResults_ok.cfg")
    for m in ("late", "turn", "noabort"):
        tlc_refuted(chk.cov, "WaveResults", "WaveResults_%s.cfg" % m)
    tlc_model(chk.cov, "PairResults", "PairResults_ok.cfg")
    for m in ("overtake", "mute"):
        tlc_refuted(chk.cov, "PairResults", "PairResults_%s.cfg" % m)
    schedule_check(chk, x, "waves", n(3000, 80000), "TraceWaveResults", "TraceWaveResults.cfg")
    schedule_check(chk, x, "chain", n(3000, 80000), "TracePairResults", "TracePairResults.cfg")


def c11(chk):
    x = exe()
    tlc_model(chk.cov, "PairWorld", "PairWorld_deep.cfg" if THOROUGH else "PairWorld_ok.cfg", timeout=3000)
    for m in ("early", "stale", "leave"):
        tlc_refuted(chk.cov, "PairWorld", "PairWorld_%s.cfg" % m)
    tlc_refuted(chk.cov, "PairResults", "PairResults_ghost.cfg")
    schedule_check(chk, x, "chainrem", n(1500, 40000), "TracePairResults", "TracePairResults.cfg")
    schedule_check(chk, x, "remove", n(3000, 80000), "TracePairWorld", "TracePairWorld.cfg")


def c12(chk):
    x = exe()
    tlc_model(chk.cov, "LockOrder", "LockOrder_ok.cfg")
    for m in ("kill", "ask", "tell", "targets"):
        tlc_refuted(chk.cov, "LockOrder", "LockOrder_%s.cfg" % m)
    schedule_check(chk, x, "mix", n(3000, 80000), "TracePairWorld", "TracePairWorld.cfg")


def c21(chk):
    x = exe()
    tlc_model(chk.cov, "SharedOcean", "SharedOcean_deep.cfg" if THOROUGH else "SharedOcean_ok.cfg", timeout=3000)
    for m in ("torn", "late", "rebind"):
        tlc_refuted(chk.cov, "SharedOcean", "SharedOcean_%s.cfg" % m)
    schedule_check(chk, x, "register", n(3000, 60000), "TraceSharedOcean", "TraceSharedOcean.cfg")
    schedule_check(chk, x, "ocean", n(3000, 60000), "TraceSharedOcean", "TraceSharedOcean.cfg")
