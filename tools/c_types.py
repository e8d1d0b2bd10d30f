"""C19 and C20: sequences and gridded data. Specifications: SequenceBook, GridBook."""
import math
from fractions import Fraction
from vlib import *

SCALES = [1.0, 0.125, 0.1, 1.0 / 3.0]


def fan(a, n):
    first, last, center, spread = a
    first, last = min(first, last), max(first, last)
    x = math.atan((first - center) / spread)
    y = math.atan((last - center) / spread)
    return [center + spread * math.tan(x + (y - x) * k / max(1, n - 1)) for k in range(n)]


def seq_expected(b):
    a = b[0]["a"]
    sc = SCALES[a[0]]
    angles = fan(a[3:], a[2]) if a[1] == 5 else None
    out, old = [], None
    for k, s in enumerate(b):
        v = s["val"]
        n = len(v)
        real = [angles[x] if angles else sc * x / s["den"] for x in v]
        if k:
            out.append("*" if real == old else "001")
        old = real
        size = max(abs(x) for x in real) + 1e-3
        out.append(str(n))
        out += ["~%.15g@%g" % (x, 1e-9 * size) for x in real]
        out += ["~%.15g@%g" % (y - x, 1e-9 * size) for x, y in zip(real, real[1:])]
        # whether a value belongs to an interval or to the one which follows is
        # left open at elements which are computed, as the library documents
        strict = (s["kind"] == "table" or s["kind"] == "fan" and k == 0
                  or s["kind"] == "linear" and a[0] < 2 and s["den"] in (1, 2, 4))
        p = 0
        for i in range(-2, n + 2):
            for q in range(4):
                f, c = s["find"][p], s["near"][p]
                p += 1
                fs, cs = {f}, {c}
                if not strict and q == 0 and 0 < i < n - 1:
                    fs.add(i - 1)
                if q == 2 and 0 <= i < n - 1:
                    cs |= {i, i + 1}
                out.append("|".join("%d,%d" % (x, y) for x in sorted(fs) for y in sorted(cs)))
        out += ["0,%d" % max(0, n - 2), ";"]
    return " ".join(out)


def c19(chk):
    tlc_model(chk.cov, "SequenceBook", "SequenceBook_%s.cfg" % ("deep" if THOROUGH else "ok"))
    for m in ("noclamp", "rising", "strict", "past", "zero", "relative", "exclude"):
        tlc_refuted(chk.cov, "SequenceBook", "SequenceBook_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "SequenceBook", "SequenceBook_sim.cfg", 4000 if THOROUGH else 600, 6)
    exe = build("seqs", ["seqs.cc"], "all")
    lines = [" ".join(str(x) for s in b for x in s["a"]) for b in beh]
    compare_tokens(chk, "sequences", beh, lines, [seq_expected(b) for b in beh], run_driver(exe, lines), 1e-9)


# ---------------------------------------------------------------------------
# GridBook

def combine(form, v):
    """Value of a grid from those of its lines, and what its slopes are
    multiplied with."""
    a, b, c = (list(v) + [None, None])[:3]
    if form == 0:
        out = Fraction(1)
        for x in v:
            out *= x
        return out, [combine(0, [y for e, y in enumerate(v) if e != d])[0] if len(v) > 1 else Fraction(1) for d in range(len(v))]
    if form == 1:
        return sum(v), [Fraction(1)] * len(v)
    if form == 2:
        return a * b + c, [b, a, Fraction(1)]
    if form == 3:
        return a * (b + c), [b + c, a, a]
    if form == 4:
        return (a + b) * c, [c, c, a + b]
    return v[0], None


def grid_expected(b):
    nd, form, vec = b[0]["a"][:3]

    out = []
    for s in b[1:]:
        if s["a"][0] == 2:
            out.append(str(s["type"]))
        elif s["a"][0] == 3:
            out.append(str(s["a"][2]))
        else:
            v, by = combine(form, [Fraction(*x) for x in s["v"]])
            items = [[v]] + [[Fraction(*x) * (by[d] if by else 1) for x in alts] for d, alts in enumerate(s["s"])]
            for n, alts in enumerate(items):
                out.append("|".join("~%.15g" % x for x in alts))
                if vec:
                    out.append("|".join("~%.15g" % ((0 if n else 2) - 3 * x) for x in alts))
        out.append(";")
    return " ".join(out)


def c20(chk):
    tlc_model(chk.cov, "GridBook", "GridBook_%s.cfg" % ("deep" if THOROUGH else "ok"), timeout=800)
    for m in ("weights", "two", "nolimit", "loose", "inner", "upward"):
        tlc_refuted(chk.cov, "GridBook", "GridBook_%s.cfg" % m)
    beh = tlc_simulate(chk.cov, "GridBook", "GridBook_sim.cfg", 2500 if THOROUGH else 600, 31)
    exe = build("grids", ["grids.cc"], "all")
    lines = [" ".join(str(x) for s in b for x in s["a"]) for b in beh]
    compare_tokens(chk, "grids", beh, lines, [grid_expected(b) for b in beh], run_driver(exe, lines), 1e-9)
