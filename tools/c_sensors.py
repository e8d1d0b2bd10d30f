"""C07: pairs implied by the registered sensors. Specification: SensorPairs."""
from vlib import *

ASSUMPTIONS = ["role, range, group and maximum time of a sensor are not changed while it is registered",
               "only registered sensors are removed, and through the sensor manager"]


def _line(first, b):
    return " ".join(str(x) for x in first) + " " + " ".join(str(x) for step in b for x in step["a"])


def _expect(step):
    def tup(s):
        return "".join(" " + ",".join(str(x) for x in t) for t in sorted(s))

    def idx(s):
        return "".join(" %d:%s" % (k, "".join("%d," % x for x in sorted(v))) for k, v in sorted(s))
    return ("r%s k%s g%s p%s s%s d%s | " % (
        tup(step["r"]) if step["a"][0] == 4 else " %d" % step["r"], "".join(" %d" % k for k in step["keys"]),
        "".join(" %d" % k for k in sorted(step["reg"])), tup(step["pairs"]), idx(step["bysrc"]), idx(step["byrcv"])))


def c07(chk):
    tlc_model(chk.cov, "SensorPairs", "SensorPairs_ok.cfg")
    for m in ("list", "refuse", "group"):
        tlc_refuted(chk.cov, "SensorPairs", "SensorPairs_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "SensorPairs", "SensorPairs_sim.cfg", 1500 if THOROUGH else 150, 17,
                       cap=100000 if THOROUGH else 8000)
    exe = build("pairs", ["pairs.cc"])
    # the first step of a behaviour names the initial keys and attributes
    lines = [_line(b[0]["a"], b[1:]) for b in beh]
    exp = ["".join(_expect(s) for s in b[1:]) for b in beh]
    compare(chk, "sensor pairs", beh, lines, exp, run_driver(exe, lines))


def _c08_expect(step):
    c = sorted("[%d %d %d %d%s]" % (s, at[0], at[1], at[2], "".join(" (%d %d %d %d)" % (t, p[0], p[1], p[2]) for t, p in sorted(ts)))
               for s, at, ts in step["c"])
    return "c%s%s | " % ("".join(" " + x for x in c), "".join(" m " + " ".join(str(x) for x in m) for m in step["m"]))


def c08(chk):
    tlc_model(chk.cov, "AcousticUpdate", "AcousticUpdate_ok.cfg")
    for m in ("drift", "consume", "place"):
        tlc_refuted(chk.cov, "AcousticUpdate", "AcousticUpdate_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "AcousticUpdate", "AcousticUpdate_sim.cfg", 20000 if THOROUGH else 900, 15,
                       cap=100000 if THOROUGH else 6000)
    exe = build("updates", ["updates.cc"])
    lines, exp = [], []
    for k, b in enumerate(beh):
        lines.append("%d " % (k % 2) + " ".join(str(x) for step in b for x in step["a"]))
        exp.append("".join(_c08_expect(s) for s in b[1:]))
    compare(chk, "acoustic updates", beh, lines, exp, run_driver(exe, lines, timeout=700))


def _c10_expect(mono, step):
    def series(t):
        (a, b), s = t
        return 0 if s == 0 else (a + b if mono else a + 4 * b) + 20 * s
    return "d%s s %d r %d b %d %d t %d n %d | " % ("".join(" %d" % x for p in step["d"] for x in p), step["s"], step["r"],
                                                   step["b"][0], step["b"][1], series(step["t"]), step["n"])


def c10(chk):
    tlc_model(chk.cov, "PairChain", "PairChain_ok.cfg")
    for m in ("swap", "side", "stage"):
        tlc_refuted(chk.cov, "PairChain", "PairChain_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "PairChain", "PairChain_sim.cfg", 30000 if THOROUGH else 500, 11,
                       cap=100000 if THOROUGH else 4000)
    exe = build("chain", ["chain.cc"])
    lines = [" ".join(str(x) for step in b for x in step["a"]) for b in beh]
    exp = ["".join(_c10_expect(b[0]["a"][0] == 1, s) for s in b[1:]) for b in beh]
    compare(chk, "sensor pair chain", beh, lines, exp, run_driver(exe, lines, timeout=700))
