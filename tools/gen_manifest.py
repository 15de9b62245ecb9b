#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "P31": "exhaustive exploration of integrator x body count x conservative effect x host place x step runs of the real simulator; energy, momentum and spin invariants on every step, convergence with the step",
 "P30": "exhaustive exploration of model x deformed body x eccentricity x spin x integrator x order runs of the real simulator, drift over many orbits against secular theory",
 "P29": "exhaustive exploration of every shipped case x integrator x listing order x stopping point, run by the real scripts, simulator and program, against uninterrupted runs and an independent high-order reference",
 "P28": "exhaustive enumeration of history lengths, orders, resonances, librating angles and schedules of when each is held, drawn by the real scripts and compared with what was held",
 "P27": "exhaustive enumeration of systems, orbits and spin states recorded in histories, reported by the real scripts and compared entry by entry with independently derived values",
 "P26": "exhaustive enumeration of orbits, period ratios, resonant-angle histories and spin states through the real analysis tools",
 "P02": "explicit-state exploration of all crash points, torn writes, failed and short writes of every file operation of the real binary, and of second faults while resuming",
 "P04": "explicit-state exploration of start/resume sequences over all combinations of existing, damaged, shorter and longer files against a file-system model",
 "P05": "explicit-state exploration of start/resume option sequences of the real binary against a run-control model",
 "P24": "exhaustive enumeration of case descriptions written by the real Python package, restored and stepped beside the Rust-built simulation; all history truncations",
 "P01": "exhaustive exploration of all interruption schedules of the real integrators, bit-exact state comparison",
 "P03": "exhaustive enumeration of all truncations/extensions of real snapshots",
 "P07": "exhaustive enumeration of body counts, host places, layouts and gravity modes against direct summation",
 "P08": "exhaustive enumeration of encounter/ejection conditions, pairs and orders, and of runs into them with every integrator",
 "P09": "exhaustive enumeration of models, effects, hosts, participation and orders; momentum invariant on every state and every step",
 "P10": "exhaustive enumeration of models, effects, hosts, participation, orientations; angular momentum invariant on every state and every step",
 "P14": "exhaustive enumeration of orbit, spin and role grids against an independent reference of the published law",
 "P15": "exhaustive enumeration of orbit, spin and role grids against an independent reference of the published law",
 "P16": "exhaustive enumeration of configurations and modes against independent post-Newtonian references, plus precession runs",
 "P11": "exhaustive enumeration of effect subsets, participation masks and no-op switches; bit-exact and reference comparison of forces and runs",
 "P12": "exhaustive enumeration of all body orders x effect subsets x integrators; forces and trajectories compared",
 "P13": "exhaustive enumeration of a finite rotation/offset group x effect subsets x integrators; forces and trajectories compared",
 "P17": "exhaustive enumeration of orbit, spin, age and role grids against independent references of the disk and wind laws, plus runs",
 "P19": "exhaustive enumeration of all operation sequences up to a depth on the live system, bit-exact against a fresh system",
 "P18": "exhaustive enumeration of all query sequences up to a depth for every model and mass, with restores; runs of every integrator",
 "P22": "exhaustive enumeration of an orbit grid against an independent solution, round trips in Rust and Python",
 "P20": "exhaustive enumeration of an orbit, mass ratio, step and integrator grid; every step against the analytic two-body motion",
 "P21": "exhaustive enumeration of effect subsets x integrators x hosts x models; convergence of every run to a reference integration of the same equations",
 "P23": "exhaustive enumeration of configurations against a specification of which are accepted, and of runs of all accepted ones",
 "P25": "exhaustive enumeration of orbit, spin, rheology and role grids against independent Kaula and creep references (Hansen coefficients by contour integration)",
 "P06": "exhaustive step-by-step exploration with a cadence model replayed against the real history bytes",
}
exec(open(os.path.join(here, "tools/claimed.py")).read()) if os.path.exists(os.path.join(here, "tools/claimed.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + CLAIMED[i],
                       "level": "model_checking",
                       "level_note": "bounded exhaustive: every case of the stated finite space is executed on the real code; bounds in DESIGN.md and in the evidence file"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses the crate's public API and the binary", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks share one harness crate (harness/, path dependency on /repo). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
