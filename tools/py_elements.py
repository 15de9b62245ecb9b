"""Conversions of the Python tools for a list of orbits: stdin lines `gm q e i p n l`, stdout lines of hex floats."""
import sys, struct
sys.stdout_, sys.stdout = sys.stdout, sys.stderr
import numpy as np
np.seterr(all="ignore")
from posidonius.tools import _calculate_cartesian_coordinates, _calculate_keplerian_orbital_elements
from posidonius.particles.axes import Axes

def h(v):
    return " ".join(struct.pack(">d", float(x)).hex() for x in v)

rows = [tuple(map(float, l.split())) for l in sys.stdin]
out = []
states = []
for r in rows:
    s = _calculate_cartesian_coordinates(*r)
    states.append(s)
    el = _calculate_keplerian_orbital_elements(r[0], Axes(*s[:3]), Axes(*s[3:]))
    out.append((s, el))
# the same as one array call (histories are converted that way)
st = np.array(states)
gm = np.array([r[0] for r in rows])
va = _calculate_keplerian_orbital_elements(gm, Axes(st[:, 0].copy(), st[:, 1].copy(), st[:, 2].copy()), Axes(st[:, 3].copy(), st[:, 4].copy(), st[:, 5].copy()))
for k, (s, el) in enumerate(out):
    sys.stdout_.write(h(s) + " " + h(el) + " " + h([c[k] for c in va]) + "\n")
