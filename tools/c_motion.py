"""C06: attached platforms. Specification: PlatformMotion (integer lattice)."""
from vlib import *

ASSUMPTIONS = ["a platform is attached to at most one host at a time and never to itself or one of its own attachments",
               "lattice of whole metres within some 100 m and multiples of 90 degrees; flat metric within 5 cm"]


def c06(chk):
    tlc_model(chk.cov, "PlatformMotion", "PlatformMotion_ok.cfg")
    tlc_refuted(chk.cov, "PlatformMotion", "PlatformMotion_frame.cfg")
    beh = tlc_simulate(chk.cov, "PlatformMotion", "PlatformMotion_sim.cfg", 600 if THOROUGH else 60, 13,
                       cap=60000 if THOROUGH else 8000)
    exe = build("motion", ["motion.cc"], ["threads", "types", "ublas", "platforms"])
    lines, exp = [], []
    for b in beh:
        lines.append("4 1 2 3 3 " + " ".join(str(x) for step in b for x in step["a"]))
        exp.append("".join("%d %s;" % (step["r"], " ".join(str(x) for row in step["s"] for x in row)) for step in b))
    got = run_driver(exe, lines)
    compare(chk, "platform motion", beh, lines, exp, got)
