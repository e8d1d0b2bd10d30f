"""C13, C14 and C25: eigenrays of a grid of targets. Specification: EigenrayBook."""
import hashlib
import math
from vlib import *

ATTEN = 0.0005


def num(v):
    return "~%.12g" % v


def total(t, nf, counts):
    out = ["T"]
    for f in range(nf):
        a = math.hypot(t["re"][f], t["im"][f]) / 1000.0
        out.append(num(-20.0 * math.log10(a)) if a > 0 else "~300" if t["w"] == 0 else "*")
        out += [num(t[x][f] / 1000.0 / a) if a > 0 else "*" for x in ("re", "im")]
    def az(x, y):
        h = math.hypot(x, y)
        return ["*", "*"] if h == 0 else [num(y / h), num(x / h)]
    w = t["w"]
    if w == 0:
        return out + ["*"] * 7 + ["-1,-1,-1,-1,-1"]
    out += [num(t["t"] / w / 16.0), num(t["sd"] / w)] + az(t["sx"], t["sy"]) + [num(t["td"] / w)] + az(t["tx"], t["ty"])
    return out + ["|".join(",".join(str(10 * k + j) for j in range(5)) for k in sorted(t["best"]))]


def expected(b, files):
    rows, cols, nf = b[0]["a"][:3]
    ids = b[0]["a"][4:]
    n = rows * cols
    out, rays = [], []
    for s in b[1:]:
        a = s["a"]
        if a[0] == 1:
            rays.append({"t": a[2] / 16.0})
        if a[0] == 3:
            out.append("K")
            for k, (ds, dt) in zip(s["list"][a[1] - 1], s["r"]):
                r0 = rays[k - 1]["t"] * 1500.0
                out.append("~%.6g" % (ds + dt))
                for f in range(nf):
                    out.append("~%.9g" % (20 * math.log10((r0 + ds + dt) / r0) + ATTEN * (ds + dt) * (4 * f + 4)))
                out.append("%d,1" % (10 * k))
            out[-1] += ";"
            continue
        lists = ["".join("%d," % k for k in l) for l in s["list"]]
        for m in range(n):
            out.append("L%s@%d" % (lists[m], s["first"][m]))
        find = dict((i, m) for i, m in s["find"])
        for i in (0, 5, 7, 9):
            m = find[i]
            out.append("Q%d:%s@%d" % (i, lists[m - 1] if m else "", s["first"][m - 1] if m else 0))
        if a[0] == 2:
            for m in range(n):
                out += total(s["tot"][m], nf, None)
            if files:
                out.append("D%d,%d,%d" % (rows, cols, nf))
                for m in range(n):
                    out.append("X%d,%d,%d,%d,%d,1" % (*s["tables"][m], s["first"][m], ids[m]))
                out += ["S77,0,1,-50", "F" + "".join("%d," % (4 * f + 4) for f in range(nf)),
                        "R" + "".join("%d," % k for k in s["file"])]
        out.append(";")
    return " ".join(out)


def rays(chk, cfg, num_, depth, files, tol=1e-6):
    beh = tlc_simulate(chk.cov, "EigenrayBook", cfg, num_, depth, cap=60000 if THOROUGH else 8000)
    exe = build("rays", ["rays.cc"], "all")
    lines = ["%d " % files + " ".join(str(x) for s in b for x in s["a"]) for b in beh]
    exp = [expected(b, files) for b in beh]
    got = run_driver(exe, lines)
    compare_tokens(chk, "eigenrays " + cfg, beh, lines, exp, got, tol)


def models(chk, bad):
    tlc_model(chk.cov, "EigenrayBook", "EigenrayBook_ok.cfg")
    for m in bad:
        tlc_refuted(chk.cov, "EigenrayBook", "EigenrayBook_%s.cfg" % m)


def c13(chk):
    models(chk, ["cross", "again", "last"])
    rays(chk, "EigenrayBook_sim.cfg", 400 if THOROUGH else 60, 14, 0)


def c14(chk):
    models(chk, ["nogap"])
    rays(chk, "EigenrayBook_sim.cfg", 200 if THOROUGH else 25, 14, 1)
    verb_models(chk, ["replace", "whole"])
    verb_files(chk, "EigenverbStore_sim.cfg")
    verb_files(chk, "EigenverbStore_bi.cfg")


def c25(chk):
    models(chk, ["push"])
    rays(chk, "EigenrayBook_reckon.cfg", 400 if THOROUGH else 60, 10, 0, 2e-3)


# ---------------------------------------------------------------------------
# EigenverbStore

# searches whose answer does not depend on rounding: see DESIGN.md
SEARCHES = [(10.1234567, 20.7654321, [(5, 0), (0, -5), (4, -3), (3, -4), (-3, -4)], (1000, 500)),
            (10.1234567, 20.7654321, [(0, 5)], (500, 1000)),
            (-48.37, -121.93, [(5, 0)], (1000, 500)),
            (-48.37, -121.93, [(0, 5), (-5, 0), (-4, -3), (-4, 3), (-3, 4)], (500, 1000))]


def verb_models(chk, bad):
    tlc_model(chk.cov, "EigenverbStore", "EigenverbStore_ok.cfg")
    for m in bad:
        tlc_refuted(chk.cov, "EigenverbStore", "EigenverbStore_%s.cfg" % m)


def verb_expected(b):
    out, power = [], {}
    for st in b[1:]:
        a = st["a"]
        if a[0] < 4:
            out += ["%d:%s" % (len(l), "".join("%d," % k for k in sorted(l))) for l in st["list"]]
        else:
            if a[0] == 4:
                i, s, r = a[1:4]
                p, q, x, d = a[4:6], a[6:8], a[8:10], a[10]
                new = st["bi"][i]
                lv = [math.log10(0.0625) - d * d / 4 * math.log10(math.e) - p[f] - q[f] - x[f] for f in (0, 1)]
                if len(new) > len(power.get(i, [])):
                    power.setdefault(i, []).append((s + r, s, r, lv))
            for n, l in enumerate(st["bi"]):
                i = a[1] if a[0] == 5 else n
                mine = sorted(power.get(i, []), key=lambda e: (e[0], e[1], e[2]))
                if [list(e[:3]) for e in mine] != sorted(l):
                    raise CheckError("contributions of the specification")
                out.append("%d:" % len(l))
                for t, s, r, lv in [(*e[:3], [max(v, -30.0) if a[0] == 5 else v for v in e[3]]) for e in mine]:
                    # spread of the overlap of two patches of one metre
                    dur = 0.5 * math.cos(0.01 * r) / (1500.0 + r) * math.sqrt(0.5)
                    out.append("%d,%d,%d %s %s %s" % (t, s, r, num(lv[0]), num(lv[1]), num(dur)))
        out.append(";")
    return " ".join(out)


def verb_files(chk, cfg):
    beh = tlc_simulate(chk.cov, "EigenverbStore", cfg, 300 if THOROUGH else 60, 16)
    exe = build("verbs", ["verbs.cc"], "all")
    # ties of time, source and receiver at different levels are not ordered
    def tied(b):
        seen = [(st["a"][1], st["a"][2], st["a"][3]) for st in b[1:] if st["a"][0] == 4]
        return len(seen) != len(set(seen))
    beh = [b for b in beh if not tied(b)]
    lines = ["0 " + " ".join(str(x) for s in b for x in s["a"]) for b in beh]
    got = run_driver(exe, lines)
    compare_tokens(chk, "eigenverb collections " + cfg, beh, lines, [verb_expected(b) for b in beh], got, 2e-4)


def c15(chk):
    verb_models(chk, ["mixed", "square", "crossed", "weak"])
    verb_files(chk, "EigenverbStore_bi.cfg")
    cases = tlc_simulate(chk.cov, "EigenverbStore", "EigenverbStore_search.cfg", 1, 2, jvms=1, tag="FIND")
    exe = build("verbs", ["verbs.cc"], "all")
    lines, exp, allc = [], [], []
    for lat, lng, ds, shape in SEARCHES:
        for d in ds:
            c = next(c for c in cases if c["d"] == list(d) and c["s"] == list(shape))
            lines.append("1 %.7f %.7f " % (lat, lng) + " ".join(map(str, c["d"] + c["s"] + [x for p in c["at"] for x in p])))
            exp.append("".join("*" if v == 2 else str(v) for v in c["in"]))
            allc.append(dict(c, lat=lat, lng=lng))
    got = [g.strip() for g in run_driver(exe, lines)]
    # points close to the outline are left open
    got = ["".join("*" if k < len(e) and e[k] == "*" else ch for k, ch in enumerate(g)) for e, g in zip(exp, got)]
    def sig(c, e, g):
        wrong = ",".join("%d" % k for k in range(len(e)) if k >= len(g) or e[k] != g[k]) + ("" if len(e) == len(g) else g[len(e):])
        return "search-%d-%d,%d-%dx%d-%s" % (c["lat"], *c["d"], *c["s"], hashlib.sha1(wrong.encode()).hexdigest()[:8])
    compare(chk, "search", allc, lines, exp, got, sig=sig)
