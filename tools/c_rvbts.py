"""C22: reverberation time series. Specification: RvbtsBook."""
import math
from vlib import *

TIMES = [(0.0, 0.25, 4.0), (1.0, 0.125, 3.0), (0.0, 0.5, 9.0), (2.0, 0.3125, 4.5)]


def grid(tmin, step, tmax):
    n = max(1, math.floor(1.0 + (tmax + step / 10 - tmin) / step))
    return [tmin + step * k for k in range(n)]


def expected(b, files, times):
    t = grid(*times)
    out = []
    hosted = b[0]["a"][0] == 3
    now = [(10, 20, -30, 3), (11, 21, -50, 4)]
    taken = None
    if hosted:
        now[0] = (10, 20, -30, 0)
    for st in b[1:]:
        a = st["a"]
        if a[0] == 4:
            now[0] = (12, 22, -10, 5)
        if a[0] == 5:
            now[1] = (13, 23, -11, 6)
        if a[0] == 9:
            taken = list(now)
        if a[0] != 10:
            continue
        rows = st["out"]
        out.append("%dx%d" % (len(rows), len(t)))
        for terms in rows:
            terms = [(x["w"] / 8.0, x["c"] / 8.0, x["s"] / 8.0) for x in terms]
            top = sum(w / (s * math.sqrt(2 * math.pi)) for w, c, s in terms)
            for x in t:
                v = sum(w / (s * math.sqrt(2 * math.pi)) * math.exp(-0.5 * ((x - c) / s) ** 2) for w, c, s in terms)
                # returns are cut off at five times their spread
                out.append("~%.12g@%.3g" % (v, 1e-5 * top + 1e-15))
        if files:
            out.append("F%d,%d,0" % (len(rows), len(t)))
            for p in taken:
                out += ["~%.12g" % x for x in p]
            out.append("7,8")
        out.append(";")
    return " ".join(out)


def c22(chk):
    tlc_model(chk.cov, "RvbtsBook", "RvbtsBook_ok.cfg")
    for m in ("outward", "plus", "atonce", "bykey", "late"):
        tlc_refuted(chk.cov, "RvbtsBook", "RvbtsBook_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "RvbtsBook", "RvbtsBook_sim.cfg", 600 if THOROUGH else 40, 24, cap=80000 if THOROUGH else 6000)
    exe = build("rvbts", ["rvbts.cc"], "all")
    lines, exp = [], []
    for n, b in enumerate(beh):
        times, files = TIMES[n % len(TIMES)], n % 5 == 0
        lines.append("%d %s " % (files, " ".join("%.17g" % x for x in times)) + " ".join(str(x) for s in b for x in s["a"]))
        exp.append(expected(b, files, times))
    got = run_driver(exe, lines)
    compare_tokens(chk, "reverberation time series", beh, lines, exp, got, 1e-6)
