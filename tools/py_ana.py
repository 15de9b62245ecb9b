"""Runs the analysis tools over the cases given; values as hexadecimal floats."""
import sys, json
import numpy as np
from fractions import Fraction
from posidonius.analysis import resonances, computation


def h(x):
    return [float(v).hex() for v in np.atleast_1d(x)]


job = json.load(sys.stdin)
out = {"elements": [], "possible": [], "is": [], "shape": [], "heat": []}
for planets in job["elements"]:
    star = {"mass": np.array(planets[0]["star"])}
    keys = [str(i + 1) for i in range(len(planets))]
    data = {k: {f: np.array(v) for f, v in p.items() if f != "star"} for k, p in zip(keys, planets)}
    r = resonances.calculate_resonance_data(star, keys, data)
    out["elements"].append([[h(r[c][i]) for c in range(8)] for i in range(len(keys))])
for ratio, kw in job["possible"]:
    out["possible"].append([[f.numerator, f.denominator] for f in resonances.get_possible_resonances(ratio, **kw)])
for num, den, a, kw in job["is"]:
    out["is"].append(bool(resonances.is_resonance(Fraction(num, den), *[np.array(x) for x in a], **kw)))
for n in range(1, job["shape"] + 1):
    out["shape"].append(list(resonances.get_subplot_shape(n)))
for a in job["heat"]:
    out["heat"].append(h([computation.energydot(*a), computation.energydot(*[np.array([x, x]) for x in a])[1]]))
print(json.dumps(out))
