"""Writes MANIFEST.json from the list of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification checked with TLC; traces of the real code under a deterministic scheduler validated against it with TLC"
REPLAY = "TLA+ specification checked with TLC; behaviours generated from it by TLC are replayed into the real code and compared step by step"
CLAIMS = {
    "C01": (TRACE, "design exhaustively checked and refined (3 tasks, 2 workers); thousands of schedules of the real pool, each trace decided by the specification; bounded number of tasks and schedules"),
    "C02": (TRACE, "as C01, with concurrent creation, dropping, observing and waiting"),
    "C03": (TRACE, "as C01, with destruction and replacement of pools at every kind of moment"),
    "C04": (TRACE, "design exhaustively checked (3 threads); thousands of schedules of the real collections decided by the specification of an atomic map with listeners"),
    "C05": (TRACE, "as C04, on the platform manager, with concurrent first use and reset"),
    "C06": (REPLAY, "exhaustive on a small lattice, thousands of random behaviours of 12 steps with 4 platforms replayed; metre/90 degree lattice"),
    "C07": (REPLAY, "design exhaustively checked with 3 sensors; thousands of random behaviours with 4 sensors replayed, comparing pairs, listeners and queries after each call"),
    "C08": (REPLAY, "design exhaustively checked with 2 sensors and 1 target; thousands of random behaviours with 2 sensors and 2 targets replayed on a metre/degree lattice, comparing every calculation started, its source and its targets"),
    "C09": (TRACE, "designs exhaustively checked; thousands of schedules of real sensors, pairs and their real background calculations, with requests, aborts and schedule changes from several threads, each trace decided by the specification"),
    "C11": (TRACE, "designs exhaustively checked; thousands of schedules in which real sensors are removed, destroyed, replaced and added again while their real calculations are queued or executing; use of freed memory, crash and hang are detected, queries and final results decided by the specification"),
    "C12": (TRACE, "lock design exhaustively checked for deadlock (3 threads, 10 operations); thousands of schedules of 2-3 threads mixing all operations with background deliveries and listeners that call back"),
    "C21": (TRACE, "design exhaustively checked; thousands of schedules of readers, updates and resets, and of calculations that are queued or executing while the ocean is replaced"),
    "C10": (REPLAY, "design exhaustively checked; thousands of random behaviours of 10 results and schedules replayed into a real pair and its real background tasks, comparing paths, collisions, combinations, time series and notifications"),
    "C13": (REPLAY, "exhaustive on a small grid; thousands of random behaviours of 13 additions and totals on up to four targets, one or two frequencies, replayed and compared after each step"),
    "C14": (REPLAY, "file layouts exhaustively checked on small collections; random behaviours replayed, the files the library writes are read with netCDF and with the library itself and compared record by record"),
    "C15": (REPLAY, "storage and combination: exhaustive when small, random behaviours replayed. Searches: twelve for which the specification's answer does not depend on rounding; all are known findings, so that a change of their results is reported"),
    "C22": (REPLAY, "exhaustive on one contribution and two pulses; hundreds of random behaviours of 23 steps with orientations in quarter turns, hosts, several beams, pulses and frequencies; every sample of every channel is compared"),
    "C19": (REPLAY, "lookup algorithms of every kind exhaustively checked against their definition; thousands of random histories of clips, rebuilds and mirrors replayed, comparing elements, iteration and all lookups at quarters of the intervals and beyond the ends"),
    "C20": (REPLAY, "rational arithmetic of one dimension exhaustively checked up to five nodes; thousands of random grids of up to three dimensions, scalar, vector and matrix data, every combination of types and edges, compared exactly; data of grids with cubic axes are sums and products of their lines"),
    "C25": (REPLAY, "axis-parallel rays and motions of up to 30 m, random behaviours of 9 steps"),
}
NA = {
    "C23": "agreement with analytic and benchmark wave solutions is a statement about real-valued error bounds; TLA+/TLC has no real arithmetic and a discrete specification could only restate the formulas under test",
    "C24": "closed-form real-valued formulas (trigonometric, exponential): there is no state, history or schedule to specify; a TLA+ model cannot evaluate them",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "USML_VERIF", "enable": "harness builds pass -DUSML_VERIF; no hook was needed so far, the define guards nothing in /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in ids:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                            "technique": t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction, not claimed yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
