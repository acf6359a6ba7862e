"""Objects that can be saved, and what loading them must give back."""
import os

import numpy as np

from . import world

KINDS = ("beam", "detector", "motion", "mesh", "polycrystal")
EXT = {"beam": ".beam", "detector": ".det", "motion": ".motion", "mesh": ".xdmf", "polycrystal": ".pc"}


def cls(kind):
    if kind == "beam":
        from xrd_simulator.beam import Beam as c
    elif kind == "detector":
        from xrd_simulator.detector import Detector as c
    elif kind == "motion":
        from xrd_simulator.motion import RigidBodyMotion as c
    elif kind == "mesh":
        from xrd_simulator.mesh import TetraMesh as c
    else:
        from xrd_simulator.polycrystal import Polycrystal as c
    return c


def gen(rng, kind, small=True):
    """A specification of an object of this kind."""
    lab = rng.getrandbits(31) if rng.random() < .3 else None
    if kind in ("mesh", "polycrystal"):
        spec = world.gen_sample(rng, big=3 if small else 8)
        spec["layout"] = "free"
    else:
        spec = getattr(world, "gen_" + kind)(rng)
        if kind == "detector" and small:
            spec["shape"] = [rng.randint(3, 9), rng.randint(3, 9)]
    return {"kind": kind, "spec": spec, "frame": lab,
            "data": rng.choice([None, "a", "ab"]) if kind == "mesh" else None}


def build(o):
    """The object of a specification."""
    R = world.frame(o)
    if o["kind"] == "polycrystal":
        return world.sample(o["spec"], R)
    return getattr(world, o["kind"])(o["spec"], R)


def element_data(o, obj):
    """Data saved together with a mesh."""
    if o.get("data") is None:
        return None
    n = obj.number_of_elements
    return {f"field {c}": world.rs(o["spec"]["seed"] + i).normal(size=n) for i, c in enumerate(o["data"])}


def save(o, obj, path, xdmf=False):
    if o["kind"] == "mesh":
        obj.save(path, element_data=element_data(o, obj))
    elif o["kind"] == "polycrystal":
        obj.save(path, save_mesh_as_xdmf=xdmf)
    else:
        obj.save(path)


def load(kind, path):
    return cls(kind).load(path)


def full(kind, path):
    """Name under which the object is found again."""
    return path if path.endswith(EXT[kind]) else path + EXT[kind]


def expected(kind, obj):
    """State that loading a saved `obj` must give."""
    if kind != "mesh":
        return world.state(obj)
    from xrd_simulator.mesh import TetraMesh
    return world.state(TetraMesh.generate_mesh_from_vertices(world.to_np(obj.coord), world.to_np(obj.enod)))


def own_files(kind, path, xdmf):
    """Names of the files that a save to `path` may write."""
    p = full(kind, path)
    if kind == "mesh":
        return {p, p[:-5] + ".h5"}
    if kind == "polycrystal" and xdmf:
        return {p, p[:-3] + ".xdmf", p[:-3] + ".h5"}
    return {p}


NAMES = ["x", "sample", "run 1", "a.b.c", "v1.0", "ünï-çødé", "x.tar", "data.pcx", ".hidden",
         "name-with-dashes_and_underscores", "UPPER", "trailing.", "a'b", "#1", "50%", "pc", "x" * 60,
         "日本", "a,b;c", "(1)", "[2]", "~tilde", "&amp", "x.h5", "x.xdmf.bak", "trail ", "x.beam.old", "x.det.v2",
         "x.motion.1", "x.pc.b", "x.xdmf.c", "x.beam.det.motion.pc.xdmf.y", "PC.pc.PC", "two\u2003wide", "e\u0301"]
DIRS = ["", "d", "d.e", "deep/er", "with space", "dir.pc", "ü", " s ", "x.beam/x.det/x.motion", "x.xdmf", "d.", "deep/dir.pc/er"]


def gen_path(rng, kind):
    # an .xdmf file cannot refer to an .h5 file with such names, and saving one fails
    name = rng.choice(NAMES if kind in ("mesh", "polycrystal") else NAMES + [" lead", "12:30"])
    if rng.random() < .5:
        name += EXT[kind]
    return {"dir": rng.choice(DIRS), "name": name, "relative": rng.random() < .3}


def path_of(ctx, p):
    """Absolute or relative path; makes its directory."""
    d = os.path.join(ctx.scratch, p["dir"])
    os.makedirs(d, exist_ok=True)
    if p.get("relative"):
        os.chdir(ctx.scratch)
        return os.path.join(p["dir"], p["name"]) if p["dir"] else p["name"]
    return os.path.join(d, p["name"])


def which(kind, obj, values):
    """Names of the expected states that a loaded object has."""
    s = world.state(obj)
    return [k for k, v in values.items() if v is not None and world.same_state(s, v) is None]


def simpler(o):
    """Simpler object specifications."""
    if o.get("frame") is not None:
        yield {**o, "frame": None}
    s = o["spec"]
    if o["kind"] in ("mesh", "polycrystal"):
        if s["n"] > 1:
            yield {**o, "spec": {**s, "n": 1}}
        for k, v in (("strain", 0.), ("vary", 0.), ("spread", 0.)):
            if s.get(k) != v:
                yield {**o, "spec": {**s, k: v}}
        if len(s["phases"]) > 1:
            yield {**o, "spec": {**s, "phases": s["phases"][:1]}}
    if o.get("data"):
        yield {**o, "data": None}
