"""Shared machinery of the checks: building the code under test and the
harnesses from /repo's working tree, running TLC, validating recorded traces
against the specifications, and reporting."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 8)
THOROUGH = TIER == "thorough"

MODULES = ("ublas types netcdf ocean threads beampatterns transmit eigenrays eigenverbs "
           "biverbs waveq3d wavegen managed platforms sensors rvbts").split()
DEFS = ("-std=gnu++17 -fPIC -pthread -w -DNDEBUG -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_ALL_DYN_LINK "
        "-DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_UBLAS_MOVE_SEMANTICS -DUSML_VERIF "
        "-DUSML_DATA_DIR=\\\"/repo/data\\\" -DUSML_TEST_DIR=\\\"/repo\\\" -DUSML_STUDIES_DIR=\\\"/repo/studies\\\"")
REL = "-O3 -g1 -Ofast -fno-finite-math-only"      # as the repository's own build
TS = "-O1 -g1 -fsanitize=thread"                   # callbacks are defined by vsched
# files whose atomic accesses become scheduling points
TS_FILES = ("threads/*.cc platforms/*.cc sensors/*.cc wavegen/*.cc biverbs/biverb_generator.cc "
            "rvbts/rvbts_generator.cc ocean/ocean_shared.cc managed/*.cc").split()
LIBS = "-pthread -ldl -lnetcdf_c++4 -lnetcdf -lboost_timer -lboost_system"


class CheckError(Exception):
    """The check could not be carried out (neither held nor broken)."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()

# ---------------------------------------------------------------------------
# build


def _sources(mods):
    out = []
    for m in mods:
        out += sorted(glob.glob(os.path.join(REPO, m, "*.cc")))
    return out


def _stale_guard():
    """ninja compares time stamps; drop objects when a source changed without
    looking newer (restored from a copy)."""
    hashes = {}
    for m in MODULES:
        for f in glob.glob(os.path.join(REPO, m, "*.cc")) + glob.glob(os.path.join(REPO, m, "*.h")):
            hashes[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
    for f in glob.glob(os.path.join(REPO, "*.h")):
        hashes[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
    rec = os.path.join(BUILD, "hashes.json")
    try:
        old = json.load(open(rec))
        last = os.path.getmtime(rec)
    except Exception:
        old, last = None, 0
    if old is not None:
        changed = [f for f in set(old) | set(hashes) if old.get(f) != hashes.get(f)]
        if any((not os.path.exists(f)) or os.path.getmtime(f) <= last for f in changed):
            shutil.rmtree(os.path.join(BUILD, "o"), ignore_errors=True)
    json.dump(hashes, open(rec, "w"))


def build(harness, sources, modules="all", sched=False):
    """Builds BUILD/bin/<harness> from harness sources and the library modules.
    sched: under the deterministic scheduler."""
    os.makedirs(os.path.join(BUILD, "inc"), exist_ok=True)
    link = os.path.join(BUILD, "inc", "usml")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(REPO, link)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    _stale_guard()
    mods = MODULES if modules == "all" else modules
    ts = set()
    if sched:
        for pat in TS_FILES:
            ts.update(glob.glob(os.path.join(REPO, pat)))
    L = ["rule cc\n  command = g++ $opt %s -I%s/inc -I%s/harness -I%s/harness/vsched -MMD -MF $out.d -c $in -o $out\n"
         "  depfile = $out.d\n  deps = gcc\n" % (DEFS, BUILD, VERIF, VERIF),
         "rule ln\n  command = g++ -rdynamic -o $out $in %s\n" % LIBS]
    objs = []

    def obj(src, opt, tag):
        o = "%s/o/%s/%s.o" % (BUILD, tag, os.path.relpath(src, "/").replace("/", "_"))
        L.append("build %s: cc %s\n  opt = %s\n" % (o, src, opt))
        objs.append(o)

    for s in _sources(mods):
        obj(s, TS if s in ts else REL, "ts" if s in ts else "rel")
    for s in sources:
        p = os.path.join(VERIF, "harness", s)
        obj(p, (TS if sched else "-O1 -g1"), "hts" if sched else "h")
    if sched:
        obj(os.path.join(VERIF, "harness/vsched/vsched.cc"), "-O2 -g1", "h")
    exe = os.path.join(BUILD, "bin", harness)
    L.append("build %s: ln %s\n" % (exe, " ".join(objs)))
    nf = os.path.join(BUILD, harness + ".ninja")
    with open(nf, "w") as f:
        f.write("builddir = %s/nb_%s\n" % (BUILD, harness) + "\n".join(L))
    t = time.time()
    r = subprocess.run(["ninja", "-f", nf, "-j", str(NCPU)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise CheckError("build of %s failed" % harness)
    log("built %s in %.1fs" % (harness, time.time() - t))
    return exe


# ---------------------------------------------------------------------------
# TLC

JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    jars = [JAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    return ":".join(dict.fromkeys(jars))


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found" in out
        self.violated = bool(re.search(r"(violated|Deadlock reached)", out))


def tlc(module, cfg, env=None, workers=None, timeout=800, extra=(), xmx="3g", specdir=SPEC):
    """Runs TLC on spec/<module>.tla with spec/<cfg>."""
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m", "-cp", _classpath(), "tlc2.TLC", "-config", cfg,
           "-workers", str(workers or NCPU), "-metadir", md, "-noGenerateSpecTE", *extra, module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), 99
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return TlcResult(out, rc, time.time() - t)


def tlc_model(cov, module, cfg, expect_ok=True, **kw):
    """Exhaustive check of the design; accumulates coverage."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        sys.stdout.write(r.out[-2500:])
        raise CheckError("model %s/%s: TLC did not complete without error (rc=%s)" % (module, cfg, r.rc))
    cov.states += r.distinct
    cov.transitions += r.generated
    cov.models.append({"module": module, "config": cfg, "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})
    log("model %s %s: %d distinct states, %d transitions, %.1fs" % (module, cfg, r.distinct, r.generated, r.wall))
    return r


def tlc_refuted(cov, module, cfg, **kw):
    """A deliberately wrong design (mutation of the specification) must be
    refuted: shows that the properties are not vacuous."""
    r = tlc(module, cfg, **kw)
    if not r.violated:
        sys.stdout.write(r.out[-2500:])
        raise CheckError("model %s/%s: expected a counterexample (rc=%s)" % (module, cfg, r.rc))
    cov.refuted.append({"module": module, "config": cfg})
    log("model %s %s: refuted as expected, %.1fs" % (module, cfg, r.wall))


def tlc_edges(cov, module, cfg, **kw):
    """All transitions of a small model, printed by the model's Emit action
    constraint as PrintT(<<"EDGE", ToJson(from), ToJson(act), ToJson(to)>>)."""
    r = tlc(module, cfg, workers=1, **kw)
    if not r.ok:
        sys.stdout.write(r.out[-2500:])
        raise CheckError("model %s/%s failed" % (module, cfg))
    edges = []
    for line in r.out.splitlines():
        if line.startswith('<<"EDGE"'):
            v = parse_tla_strings(line)
            edges.append((json.loads(v[1]), json.loads(v[2]), json.loads(v[3])))
        elif line.startswith('<<"INIT"'):
            v = parse_tla_strings(line)
            edges.append((None, None, json.loads(v[1])))
    cov.states += r.distinct
    cov.transitions += r.generated
    cov.models.append({"module": module, "config": cfg, "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})
    log("model %s %s: %d distinct states, %d edges, %.1fs" % (module, cfg, r.distinct, len(edges), r.wall))
    return edges


def tlc_simulate(cov, module, cfg, num, depth, jvms=NCPU, timeout=300, tag="BEH", cap=None, env=None):
    """Random behaviours of a specification, printed by it as <<tag, json>>.
    Its invariants are checked on the way."""
    def one(k):
        r = tlc(module, cfg, workers=1, timeout=timeout, xmx="2g", env=env,
                extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED * 100 + k)))
        if r.violated or not re.search(r"Finished in", r.out):
            sys.stdout.write(r.out[-2500:])
            raise CheckError("simulation of %s/%s failed" % (module, cfg))
        m = re.findall(r"number of states generated: ([\d,]+)", r.out)
        if m:
            r.generated = int(m[-1].replace(",", ""))
        return r
    t = time.time()
    with ThreadPoolExecutor(jvms) as ex:
        res = list(ex.map(one, range(jvms)))
    out, seen = [], set()
    for r in res:
        mine = []
        for line in r.out.splitlines():
            if line.startswith('<<"%s"' % tag):
                v = parse_tla_strings(line)[1]
                if v not in seen:
                    seen.add(v)
                    mine.append(v)
        if cap:
            mine = mine[::max(1, len(mine) * jvms // cap)]
        out += [json.loads(v) for v in mine]
    cov.transitions += sum(r.generated for r in res)
    cov.models.append({"module": module, "config": cfg, "simulated_states": sum(r.generated for r in res), "behaviours": len(out),
                       "wall_s": round(time.time() - t, 1)})
    log("simulation %s %s: %d states, %d behaviours, %.1fs" % (module, cfg, sum(r.generated for r in res), len(out), time.time() - t))
    return out


def run_driver(exe, lines, args=(), procs=NCPU, timeout=200):
    """Feeds one line per case to instances of a sequential driver; each case
    is answered by one line. Returns the answers (or a string CRASH ...)."""
    n = len(lines)
    chunk = max(1, (n + procs - 1) // procs)
    parts = [lines[i:i + chunk] for i in range(0, n, chunk)]

    def one(part):
        out, rest = [], part
        while rest:
            pr = subprocess.Popen([exe, *args], cwd=scratch(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  errors="replace", env=dict(os.environ, MALLOC_PERTURB_="85"))
            try:
                o, e = pr.communicate("\n".join(rest) + "\n", timeout=timeout)
                why = "exit code %d %s" % (pr.returncode, e[-200:])
            except subprocess.TimeoutExpired:
                pr.kill()
                o, e = pr.communicate()
                why = "no answer within %d s" % timeout
            got = o.split("\n")[:-1] if o else []
            out += got[:len(rest)]
            rest = rest[len(got):]
            if rest and (pr.returncode != 0 or not got):
                out.append("CRASH " + why)
                rest = rest[1:]
                if why.startswith("no answer") or len([x for x in out if x.startswith("CRASH")]) > 20:
                    out += ["CRASH skipped"] * len(rest)
                    rest = []
        return out
    with ThreadPoolExecutor(procs) as ex:
        return [x for p in ex.map(one, parts) for x in p]


def compare(chk, what, cases, lines, expected, got, sig=None):
    """Compares the answers of a driver with those of the specification."""
    bad = 0
    for c, line, e, g in zip(cases, lines, expected, got):
        if e != g:
            bad += 1
            if bad <= 5 or sig:
                k = next((j for j in range(min(len(e), len(g))) if e[j] != g[j]), min(len(e), len(g)))
                k = max(0, k - 40)
                chk.violation("%s: at %d specification ..%s, implementation ..%s" % (what, k, e[k:k + 80], g[k:k + 80]),
                              {"case": c, "input": line, "specified": e, "observed": g}, sig=sig(c, e, g) if sig else None)
    if len(got) != len(lines):
        raise CheckError("%s: %d answers for %d cases" % (what, len(got), len(lines)))
    chk.cov.validated += len(lines) - bad
    log("%s: %d behaviours compared, %d differ" % (what, len(lines), bad))
    if cases:
        chk.sample({"behaviour": what, "input": lines[0][:400], "observed": got[0][:400]})
    return bad


def token_ok(e, g, tol):
    if e == g or e == "*":
        return True
    if "|" in e:
        return any(token_ok(x, g, tol) for x in e.split("|"))
    if e.startswith("~") and g.startswith("~"):
        try:
            v, _, within = e[1:].partition("@")
            a, b = float(v), float(g[1:])
            bound = float(within) if within else tol * max(1.0, abs(a))
        except ValueError:
            return False
        return abs(a - b) <= bound
    return False


def compare_tokens(chk, what, cases, lines, expected, got, tol=1e-6, sig=None):
    """As compare, for answers of blank separated tokens: "~number" is compared
    with a tolerance ("~number@bound": its own absolute one), "*" is left open by the specification, "a|b" lists
    alternatives. Answers which agree are replaced by the expected ones."""
    same = []
    for e, g in zip(expected, got):
        es, gs = e.split(), g.split()
        same.append(" ".join(x if k < len(gs) and token_ok(x, gs[k], tol) else gs[k] if k < len(gs) else ""
                             for k, x in enumerate(es)) + (" " + " ".join(gs[len(es):]) if len(gs) > len(es) else ""))
    return compare(chk, what, cases, lines, [" ".join(e.split()) for e in expected], same + list(got[len(same):]), sig)


def parse_tla_strings(line):
    """Strings of a TLA+ tuple of strings as printed by PrintT."""
    out, i = [], 0
    while i < len(line):
        if line[i] == '"':
            j, s = i + 1, []
            while line[j] != '"':
                if line[j] == "\\":
                    j += 1
                    s.append({"n": "\n", "t": "\t"}.get(line[j], line[j]))
                else:
                    s.append(line[j])
                j += 1
            out.append("".join(s))
            i = j
        i += 1
    return out


# ---------------------------------------------------------------------------
# trace validation


def validate(cov, module, cfg, traces, env=None, chunks=None, timeout=700, xmx="2g"):
    """Checks that each trace (list of events) is a behaviour of the trace
    specification. Returns [(index, accepted prefix length)] of rejections."""
    if not traces:
        return []
    chunks = chunks or min(NCPU, max(1, len(traces) // 20))
    parts = [list(range(i, len(traces), chunks)) for i in range(chunks)]

    def one(idx):
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False, dir=scratch())
        for i in idx:
            f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
        f.close()
        e = dict(env or {})
        e["TRACES"] = f.name
        r = tlc(module, cfg, env=e, workers=1, timeout=timeout, xmx=xmx, extra=("-deadlock",))
        os.unlink(f.name)
        m = re.search(r'<<"BATCH", (\d+)>>', r.out)
        if not m or int(m.group(1)) != len(idx):
            sys.stdout.write(r.out[-2500:])
            raise CheckError("trace validation with %s did not complete (rc=%s)" % (module, r.rc))
        bad = [(idx[int(a) - 1], int(b) - 1) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r.out)]
        inv = re.findall(r"Error: (.*(?:violated|evaluating).*)", r.out)
        if not bad and not r.ok:
            # an invariant of the specification is false on an accepted prefix
            sys.stdout.write(r.out[-2500:])
            raise CheckError("trace validation with %s failed: %s" % (module, inv[:1]))
        return r, bad

    t = time.time()
    with ThreadPoolExecutor(chunks) as ex:
        res = list(ex.map(one, parts))
    rejected = sorted(x for _, b in res for x in b)
    cov.states += sum(r.distinct for r, _ in res)
    cov.transitions += sum(r.generated for r, _ in res)
    cov.validated += len(traces) - len(rejected)
    log("%s: %d traces validated, %d rejected, %.1fs" % (module, len(traces), len(rejected), time.time() - t))
    return rejected


# ---------------------------------------------------------------------------
# harness execution


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=BUILD)
    return _scratch


def run_schedules(exe, scenario, count, first=None, budget=None, strategy="", limit=60, procs=NCPU):
    """Executes a scenario under `count` schedules, in parallel; returns the
    executions as a list of dicts."""
    first = first if first is not None else SEED * 1000003
    per = (count + procs - 1) // procs
    jobs = []
    for p in range(procs):
        n = min(per, count - p * per)
        if n <= 0:
            break
        out = os.path.join(scratch(), "x_%s_%d.ndjson" % (scenario, p))
        cmd = [exe, "--scenario", scenario, "--first", str(first + p * per), "--count", str(n), "--out", out,
               "--limit", str(limit)]
        if budget:
            cmd += ["--budget", str(budget)]
        if strategy != "":
            cmd += ["--strategy", str(strategy)]
        jobs.append((subprocess.Popen(cmd, cwd=scratch(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
    t = time.time()
    res = []
    for pr, out in jobs:
        err = pr.communicate()[1]
        if pr.returncode != 0:
            raise CheckError("harness %s failed: rc=%s %s" % (scenario, pr.returncode, err.decode()[-500:]))
        for line in open(out):
            res.append(json.loads(line))
        os.unlink(out)
    log("%s: %d executions in %.1fs" % (scenario, len(res), time.time() - t))
    return res


# ---------------------------------------------------------------------------
# reporting


class Coverage:
    def __init__(self):
        self.states = self.transitions = self.validated = 0
        self.models, self.refuted, self.samples = [], [], []
        self.extra = {}


class Check:
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.cov = Coverage()
        self.violations = []
        self.assumptions = list(assumptions)
        self.findings = load_findings(prop)
        self.found_known = set()

    def violation(self, what, data, sig=None):
        """Reports one violation; sig identifies it for the known findings."""
        if sig is not None and sig in self.findings:
            if sig not in self.found_known:
                self.found_known.add(sig)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.findings[sig]), flush=True)
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.prop, "what": what, "data": data}, indent=1, default=str)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(path, "w").write(body)
        if len(self.violations) < 5:
            print("  violation: %s" % what, flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)), flush=True)
        self.violations.append(path)

    def sample(self, s):
        if len(self.cov.samples) < 4:
            self.cov.samples.append(s)

    def finish(self):
        for sig, text in self.findings.items():
            if sig not in self.found_known:
                log("note: known finding %s was not reproduced in this run" % sig)
        cov = {"states": self.cov.states, "transitions": self.cov.transitions,
               "traces_validated_against_impl": self.cov.validated, "samples": self.cov.samples,
               "models": self.cov.models, "refuted_design_mutations": self.cov.refuted}
        cov.update(self.cov.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        log("%s: %s (%d states, %d transitions, %d traces/behaviours validated)" % (
            self.prop, "VIOLATED" if self.violations else "held", self.cov.states, self.cov.transitions, self.cov.validated))
        return 1 if self.violations else 0


def load_findings(prop):
    """KNOWN_FINDINGS.txt: `finding: property=<id> sig=<signature> <text>`."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def schedule_check(chk, exe, scenario, count, module, cfg, budget=None, first=None, dedup=True, max_traces=None,
                   status_sig=None, project=None):
    """Runs a scenario under many schedules and validates all recorded traces.
    Anything but a regular end of an execution, and any trace the
    specification rejects, is a violation if it repeats."""
    runs = run_schedules(exe, scenario, count, first=first, budget=budget)
    bad = [r for r in runs if r["status"] != "ok"]
    by = {}
    for r in bad:
        by.setdefault((r["status"], re.sub(r"\d+", "#", r["info"])[:60]), r)
    for key, r in list(by.items())[:6]:
        again = run_schedules(exe, scenario, 1, first=r["seed"], procs=1, budget=budget)[0]
        if again["status"] != r["status"]:
            log("note: execution %s seed %d repeats as %s" % (scenario, r["seed"], again["status"]))
            if r["status"] in ("timeout", "exit", "toolong"):
                raise CheckError("execution %s seed %d does not repeat: %s / %s" % (scenario, r["seed"], r["status"], again["status"]))
        chk.violation("%s under schedule seed %d: %s (%s)" % (scenario, r["seed"], r["status"], r["info"]),
                      {"scenario": scenario, "seed": r["seed"], "exe": os.path.basename(exe), "status": r["status"],
                       "info": r["info"], "trace": r["trace"]},
                      sig=status_sig(r) if status_sig else None)
    good = [r for r in runs if r["status"] == "ok"]
    if project:
        for r in good:
            r["trace"] = project(r["trace"])
    uniq, seen = [], set()
    for r in good:
        k = json.dumps(r["trace"], sort_keys=True)
        if dedup and k in seen:
            continue
        seen.add(k)
        uniq.append(r)
    if max_traces:
        uniq = uniq[:max_traces]
    rej = validate(chk.cov, module, cfg, [r["trace"] for r in uniq])
    for i, n in rej[:5]:
        r = uniq[i]
        ev = r["trace"][n] if n < len(r["trace"]) else None
        chk.violation("%s under schedule seed %d: event %d %s is not allowed by %s" % (scenario, r["seed"], n + 1, json.dumps(ev), module),
                      {"scenario": scenario, "seed": r["seed"], "exe": os.path.basename(exe), "module": module,
                       "event_index": n, "event": ev, "trace": r["trace"]})
    x = chk.cov.extra.setdefault("executions", {})
    x[scenario] = {"schedules": len(runs), "distinct_traces": len(seen), "validated": len(uniq) - len(rej),
                   "scheduling_points": sum(r["steps"] for r in runs), "context_switches": sum(r["switches"] for r in runs)}
    if uniq:
        chk.sample({"scenario": scenario, "seed": uniq[0]["seed"], "trace": uniq[0]["trace"][:40]})
    return runs


def main(prop, fn, assumptions=()):
    chk = Check(prop, assumptions)
    try:
        fn(chk)
        rc = chk.finish()
    except CheckError as e:
        if chk.violations:
            chk.finish()
            rc = 1
        else:
            print("CHECK ERROR: %s" % e, flush=True)
            rc = 2
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
    sys.exit(rc)
