"""Writes case files with the Python interface. Input: JSON list of descriptions; output: one JSON status per line."""
import sys, json, io, contextlib
import posidonius
from posidonius.particles.axes import Axes
from posidonius.particles.particle import Particle, ReferenceParticle
from posidonius.particles.universe import Universe, ConsiderEffects
import posidonius.effects as effects
from posidonius.effects import evolution as ev


def role(b, key, mk):
    return {"host": mk[0], "orbit": mk[1]}[b[key]]


def particle(s, b):
    p = Particle(b["mass"], b["radius"], b["rg"], Axes(*b["pos"]), Axes(*b["vel"]), Axes(*b["spin"]))
    if b["tides"] != "none":
        kind, par = b["tm"]
        model = getattr(effects.tides, kind)(par)
        p.set_tides((effects.tides.CentralBody if b["tides"] == "host" else effects.tides.OrbitingBody)(model))
    if b["flat"] != "none":
        kind, par = b["fm"]
        model = getattr(effects.rotational_flattening, kind)(par)
        p.set_rotational_flattening((effects.rotational_flattening.CentralBody if b["flat"] == "host" else effects.rotational_flattening.OrbitingBody)(model))
    if b["gr"] == "host":
        p.set_general_relativity(effects.general_relativity.CentralBody(s["gr_impl"]))
    elif b["gr"] == "orbit":
        p.set_general_relativity(effects.general_relativity.OrbitingBody())
    if b["wind"]:
        p.set_wind(effects.wind.Interaction({"k_factor": b["wind"][0], "rotation_saturation": b["wind"][1]}))
    if b["disk"] == "host":
        p.set_disk(effects.disk.CentralBody(s["disk"]))
    elif b["disk"] == "orbit":
        p.set_disk(effects.disk.OrbitingBody())
    if b["evo"]:
        name, arg = b["evo"]
        p.set_evolution(getattr(ev, name)(arg) if arg is not None else getattr(ev, name)())
    if b.get("reference") is not None:
        p.set_reference(ReferenceParticle(b["reference"]))
    return p


for s in json.load(sys.stdin):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            u = Universe(s["t0"], s["tlim"], s["dt"], s["rec"], s["hist"], ConsiderEffects(s["eff"]))
            for b in s["bodies"]:
                u.add_particle(particle(s, b))
            for k, out in enumerate(s["out"]):
                # the same description can be written more than once, with other integrators
                integ, coord, name = out
                u.write(name, integrator=integ, whfast_alternative_coordinates=coord) if coord else u.write(name, integrator=integ)
        print(json.dumps("ok"))
    except Exception as e:
        print(json.dumps("%s: %s" % (type(e).__name__, e)))
