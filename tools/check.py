#!/usr/bin/env python3
"""Entry point of all checks: check.py <property>."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

GROUPS = {"c_threads": "C01 C02 C03", "c_managed": "C04 C05", "c_motion": "C06", "c_sensors": "C07 C08 C10", "c_acoustics": "C09 C11 C12 C21", "c_rays": "C13 C14 C15 C25", "c_rvbts": "C22", "c_types": "C19 C20"}
WHERE = {p: g for g, ps in GROUPS.items() for p in ps.split()}

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(WHERE[prop])
    vlib.main(prop, getattr(mod, prop.lower()), getattr(mod, "ASSUMPTIONS", ()))
