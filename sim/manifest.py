#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation of whole LattE runs, seeded search over "
CHECKS = {
    "S01": ("inputs, option sets and adversarial random draws; exact enumeration as oracle", "exploration"),
    "S02": ("fault kinds and fault positions in every program's operations; exact oracle", "exploration"),
    "S03": ("crash points, torn writes and dirty directories, followed by a second run; exact oracle", "exploration"),
    "S04": ("histories of library calls in one process, each compared with a fresh process", "exploration"),
    "S05": ("inputs, option sets and adversarial random draws; exact counts of dilates as oracle", "exploration"),
    "S06": ("inputs, integrands, methods and adversarial random draws; exact rational integration as oracle", "exploration"),
    "S07": ("inputs, options and adversarial random draws; interpolated counting quasi-polynomial as oracle", "exploration"),
    "S08": ("inputs, costs, search methods and adversarial random draws; exact enumeration as oracle", "exploration"),
    "S09": ("inputs, option sets and adversarial random draws; exact evaluation in a finite field as oracle", "exploration"),
    "S10": ("cones, subcone partitions, worker interleavings, clock jumps, time limits and crashes; exact Hilbert basis as oracle", "exploration"),
    "S11": ("cone lists and every kind of cut or failed read and write of their files; identity as oracle", "exploration"),
    "S12": ("interleavings of simultaneous runs; each compared with its exact answer", "exploration"),
    "S13": ("crash points, disk faults and restarts of the database drivers; reference model of the tables", "exploration"),
}
NA = {
    "S14": "needs Maple, a closed program that is not present: LattE only writes a script for it, and without it there is no execution to simulate and no answer to judge (that the runs then fail loudly is part of S02)",
    "S15": "the sampling code is compiled only with a configure option that the default build does not set and is not part of the shipped behaviour; a statistical error bound is no invariant of one simulated execution",
}
NOTE = "seeded search, not exhaustive: the evidence file states what was explored"
checks = []
for k, (t, l) in CHECKS.items():
    if os.path.exists(os.path.join(V, "sim", "props", k.lower() + ".py")):
        checks.append(dict(property=k, quick_cmd="python3 sim/check.py %s quick" % k, thorough_cmd="python3 sim/check.py %s thorough" % k,
                           technique=T + t, level=l, level_note=NOTE))
    else:
        NA[k] = "check not built yet"
m = dict(version=1, setup_cmd="python3 sim/build.py",
         hooks=dict(guard="LATTESIM", enable="none needed: the simulator interposes the C library, NTL's generator and operator new at link time, and compiles /repo unmodified with -DLATTESIM (no source file tests it)", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="See DESIGN.md. Environment: VERIF_SEED, LATTESIM_BUDGET (seconds of search per check), LATTESIM_JOBS, LATTESIM_CASES.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
