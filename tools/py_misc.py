"""constants | helpers | history: values of the Python side, as hexadecimal floats."""
import sys, json, io, contextlib
import numpy as np
from posidonius import constants, tools
from posidonius.particles.axes import Axes


def h(x):
    return [float(v).hex() for v in np.atleast_1d(x)]


job = json.load(sys.stdin)
what = job["what"]
if what == "constants":
    print(json.dumps({k: (float(v).hex() if not isinstance(v, str) else v) for k, v in vars(constants).items() if k.isupper() and isinstance(v, (int, float, np.floating))}))
elif what == "helpers":
    out = {"spin": [], "sync": [], "radius": [], "com": [], "lin": []}
    for w, i, o, n in job["spin"]:
        s = tools.calculate_spin(w, i, o, n)
        out["spin"].append(h([s.x(), s.y(), s.z()]))
    for w, i, o in job["spin3"]:
        s = tools.calculate_spin(w, i, o)
        out["spin"].append(h([s.x(), s.y(), s.z()]))
    for a, e, ms, mp in job["sync"]:
        out["sync"].append(h(tools.calculate_pseudo_synchronization_period(a, e, ms, mp)))
    for m, rock in job["radius"]:
        out["radius"].append(h([tools.mass_radius_relation(m, planet_mass_type="factor", planet_percent_rock=rock), tools.mass_radius_relation(m * constants.M_EARTH, planet_mass_type="AU", planet_percent_rock=rock)]))
    for sysm in job["com"]:
        m, p, v = tools.calculate_center_of_mass([b[0] for b in sysm], [Axes(*b[1]) for b in sysm], [Axes(*b[2]) for b in sysm])
        m2, p2, v2 = tools.calculate_center_of_mass([np.array([b[0]] * 2) for b in sysm], [Axes(*[np.array([x] * 2) for x in b[1]]) for b in sysm], [Axes(*[np.array([x] * 2) for x in b[2]]) for b in sysm])
        out["com"].append(h([m, p.x(), p.y(), p.z(), v.x(), v.y(), v.z()]) + h([m2[1], p2.x()[1], p2.y()[1], p2.z()[1], v2.x()[1], v2.y()[1], v2.z()[1]]))
    for t, x, y in job["lin"]:
        out["lin"].append(h(tools.linear_interpolation(t, np.array(x), np.array(y))))
    print(json.dumps(out))
elif what == "history":
    from posidonius.analysis import history
    F = ['current_time', 'time_step', 'particle', 'position_x', 'position_y', 'position_z', 'spin_x', 'spin_y', 'spin_z', 'velocity_x', 'velocity_y', 'velocity_z', 'mass', 'radius', 'radius_of_gyration_2', 'love_number', 'scaled_dissipation_factor', 'lag_angle', 'denergy_dt', 'migration_timescale']
    for name in job["files"]:
        try:
            n, d = history.read(name)
            print(json.dumps({"n": n, "rows": len(d), "data": [h(d[f]) for f in F]}))
        except Exception as e:
            print(json.dumps({"error": str(e)}))
elif what == "classify":
    from posidonius.analysis import history
    for name, ref in job["files"]:
        n, d = history.read(name)
        star, planets, keys = history.classify(n, d, reference_particle_index=ref)
        G = ['current_time', 'particle', 'position_x', 'position_y', 'position_z', 'velocity_x', 'velocity_y', 'velocity_z', 'mass']
        print(json.dumps({"star": [h(star[f]) for f in G], "keys": list(keys), "planets": [[h(planets[k][f]) for f in G + ['semi-major_axis', 'eccentricity', 'inclination']] for k in keys]}))
