"""C15: results depend on inputs and current pose, not on history."""
import os

import numpy as np

from .. import core, env, faults, world
from ..disk import Faults

PROCESSES = ("warm",)
QUICK, THOROUGH = 900, 50000
LEVEL = "exploration"
RULE = ("a run counts when a result after a history of two operations or more was compared with a fresh set-up; distinct = different "
        "event logs (set-ups, history, results)")
STATES = "distinct (operation in the history, what it acted on, method of the compared rendering)"
REAL = ["xrd_simulator: all objects, diffract, render by every method, moves, save and load"]
STUB = ["the caller, who writes to arrays and lists handed in and out", "random state", "injected faults in failing calls", "simulated disk",
        "a process of its own for the fresh set-up"]
ASSUMPTIONS = ["tables of peaks are compared in an order of their own, numbers to 1e-9 and images to 3e-7 of their maximum",
               "objects handed in (meshes, phases, beams, motions) may be shared on purpose; arrays and lists may not"]

INPUTS = ("coord", "enod", "U", "strain", "pm", "phases", "cell", "vertices", "direction", "pol", "axis", "T", "origin",
          "c0", "c1", "c2", "pixel", "parameters")
OTHER = ("diffract", "diffract", "diffract", "render", "render", "fail", "fail", "fault", "fault", "input", "input", "input", "output", "output",
         "twin", "save", "geometry")
POSE = ("transform", "transform", "vertices", "flags", "sigma", "wave", "angle", "mesh")
FAIL = ("diffract none", "diffract outside", "diffract bragg", "render bogus", "render dtype", "transform time", "transform none",
        "vertices inside", "vertices flat", "mesh rotate", "mesh translate", "load missing", "save missing", "sample bad", "motion bad", "detector bad", "beam bad")
METHODS = ("macro", "micro", "micro", "nano", "auto")
LIMITS = ((0., 3.), (0., 6.), (2., 6.), (4., 9.), (0., 9.))
LOW = ((0., 2.), (0., 3.), (1., 3.), (2., 4.), (0., 4.))  # for large unit cells


def generate(rng, i, tier):
    phases = rng.choice([["al"], ["al", "fe"], ["fe", "ti"], ["quartz+cif"], ["al", "quartz+cif"], ["ortho+cif", "quartzu+cif"], ["ti"]])
    base = world.gen_experiment(rng, big=4, phases=phases, small=True, full=True)
    x = {"frame": base["frame"], "phases": phases, "samples": [], "beams": [], "motions": [], "detectors": []}
    for k in range(2):
        e = world.gen_experiment(rng, big=4, phases=phases, small=True, full=rng.random() < .7)
        e["sample"]["spread"] = rng.choice([0., 20., 50.])
        e["bragg"] = [0., rng.choice([3., 6., 9.])]
        e["detector"] = world.gen_near(rng, e) if rng.random() < .7 else e["detector"]
        e["detector"]["shape"] = [min(v, 60) for v in e["detector"]["shape"]]
        if rng.random() < .3:  # so close that the angles it sees depend on where the sample is
            scale = rng.choice([300., 600.]) / e["detector"]["distance"]
            e["detector"].update(distance=e["detector"]["distance"] * scale, pixel=[p * scale for p in e["detector"]["pixel"]])
        e["motion"]["translate"] = min(e["motion"]["translate"], 5.)
        for name in ("sample", "beam", "motion", "detector"):
            x[name + "s"].append(e[name])
    x["samples"][1]["phases"] = phases
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        r = rng.random()
        ops.append([rng.choice(OTHER) if r < .75 else rng.choice(POSE), rng.getrandbits(31)])
    k = rng.choice([0, 0, rng.randrange(len(ops))])

    def compare():
        return ["compare", rng.getrandbits(31), {"s": rng.choice([0, 0, 1]), "b": rng.choice([0, 0, 1]), "m": rng.choice([0, 0, 1]),
                                                "d": rng.choice([0, 0, 1]), "limits": rng.choice(LOW if any("+cif" in n for n in phases) else LIMITS), "with": rng.random() < .5 and not any("+cif" in n for n in phases),
                                                "method": rng.choice(METHODS), "frames": rng.choice([1, 1, 3]),
                                                "warm": [rng.choice([None, "peaks", "tensor", "flags", "sigma", "wave", "frames", "method", "detector"]), rng.getrandbits(31)],
                                                "peaks": rng.choice([4, 12, 30])}]
    if k:
        ops.insert(k, compare())
    ops.append(compare())
    return {"x": x, "ops": ops, "types": rng.choice(["numpy", "torch", "list", "mixed", "mixed"]), "seed": rng.getrandbits(31),
            "params": rng.random() < .2, "share": rng.random() < .6, "contiguous": rng.random() < .7}


def shrink(sc):
    o = sc["ops"]
    for k in range(len(o) - 1):
        yield {**sc, "ops": o[:k] + o[k + 1:]}
    c = o[-1][2]
    for key, v in (("with", False), ("warm", [None, 0]), ("method", "micro"), ("frames", 1), ("peaks", c["peaks"] // 2), ("s", 0), ("b", 0), ("m", 0), ("d", 0)):
        if c[key] != v and not (key == "peaks" and v < 1):
            yield {**sc, "ops": o[:-1] + [["compare", o[-1][1], {**c, key: v}]]}
    if sc["params"]:
        yield {**sc, "params": False}
    if sc["x"]["frame"] is not None:
        yield {**sc, "x": {**sc["x"], "frame": None}}
    if len(sc["x"]["phases"]) > 1:
        p = sc["x"]["phases"][:1]
        yield {**sc, "x": {**sc["x"], "phases": p, "samples": [{**s, "phases": p} for s in sc["x"]["samples"]]}}
    for k in range(2):
        s = sc["x"]["samples"][k]
        if s["n"] > 1:
            t = list(sc["x"]["samples"])
            t[k] = {**s, "n": 1}
            yield {**sc, "x": {**sc["x"], "samples": t}}


class Bench:
    """Two objects of each kind, the arrays they were built from, and what was handed out."""

    def __init__(self, sc):
        self.sc, x = sc, sc["x"]
        self.R = world.frame(x)
        self.limits = LOW if any("+cif" in n for n in x["phases"]) else LIMITS
        self.r = world.rs(sc["seed"])
        self.given, self.out = [], []
        self.phases = self.make_phases()
        self.samples = [self.sample(s, k) for k, s in enumerate(x["samples"])]
        self.beams = [self.beam(b) for b in x["beams"]]
        self.motions = [self.motion(m) for m in x["motions"]]
        self.detectors = [self.detector(d) for d in x["detectors"]]
        if sc["params"]:
            self.parametric()

    def give(self, name, a):
        """An argument as a caller may have it, who keeps a hand on it."""
        import torch
        t = self.sc["types"]
        t = ("numpy", "torch", "list")[self.r.randint(3)] if t == "mixed" else t
        a = np.array(a)
        if t == "numpy" and not self.sc["contiguous"]:
            a = np.asfortranarray(a)
        v = a if t == "numpy" or name in ("coord", "enod") else torch.tensor(a) if t == "torch" else a.tolist()
        self.given.append((name, v))
        return v

    def make_phases(self):
        from xrd_simulator.phase import Phase
        out = []
        for n in self.sc["x"]["phases"]:
            cell, sg, cif = world.PHASES[n.split("+")[0]]
            cell = list(cell)
            self.given.append(("cell", cell))
            out.append(Phase(cell, sg, os.path.join(world.DATA, cif) if n.endswith("+cif") else None))
        return out

    def sample(self, s, k):
        from xrd_simulator.mesh import TetraMesh
        from xrd_simulator.polycrystal import Polycrystal
        coord, enod, U, strain, pm, names = world.sample_arrays(s, self.R)
        g = self.give
        mesh = TetraMesh.generate_mesh_from_vertices(g("coord", coord), g("enod", enod))
        phases = list(self.phases if self.sc["share"] or k == 0 else self.make_phases())
        self.given.append(("phases", phases))
        self.mesh = mesh
        return Polycrystal(mesh, g("U", U), g("strain", strain), phases, element_phase_map=g("pm", pm))

    def beam(self, b):
        from xrd_simulator.beam import Beam
        v, d, wl, pol, _ = world.beam_arrays(b, self.R)
        return Beam(self.give("vertices", v), self.give("direction", d), wl, self.give("pol", pol))

    def motion(self, m):
        from xrd_simulator.motion import RigidBodyMotion
        n, a, T, o = world.motion_arrays(m, self.R)
        return RigidBodyMotion(self.give("axis", n), a, self.give("T", T), self.give("origin", o))

    def detector(self, d):
        from xrd_simulator.detector import Detector
        c0, c1, c2, pz, py = world.detector_arrays(d, self.R)
        kw = {k: d[k] for k in ("gaussian_sigma", "kernel_threshold", "use_lorentz", "use_polarization", "use_structure_factor") if k in d}
        size = [pz, py]
        self.given.append(("pixel", size))
        return Detector(self.give("c0", c0), self.give("c1", c1), self.give("c2", c2), pixel_size=size, **kw)

    def parametric(self):
        from xrd_simulator.templates import s3dxrd
        d = self.sc["x"]["detectors"][0]
        p = {"detector_distance": d["distance"], "number_of_detector_pixels_z": d["shape"][0], "number_of_detector_pixels_y": d["shape"][1],
             "detector_center_pixel_z": d["shape"][0] / 2, "detector_center_pixel_y": d["shape"][1] / 2,
             "pixel_side_length_z": d["pixel"][0], "pixel_side_length_y": d["pixel"][1], "wavelength": .285,
             "beam_side_length_z": 900., "beam_side_length_y": 800., "rotation_step": np.radians(5.), "rotation_axis": np.array([0., 0., 1.])}
        self.given += [("parameters", p), ("axis", p["rotation_axis"])]
        self.beams[1], self.detectors[1], self.motions[1] = s3dxrd(p)

    # -- changes that a result depends on; done to the reference as well
    def pose(self, name, seed):
        import torch
        r = world.rs(seed)
        k = int(r.randint(2))
        if name == "transform":
            self.samples[k].transform(self.motions[r.randint(2)] if r.rand() < .6 else self.elsewhere(seed), float(r.choice([.25, .5, 1.])))
        elif name == "mesh":
            v = r.uniform(-4, 4, 3)
            self.samples[k].mesh_lab.translate(v)
        elif name == "vertices":
            v = world.to_np(self.beams[k].vertices)
            v = torch.tensor(v.mean(0) + (v - v.mean(0)) * r.uniform(.4, 1.))
            self.given.append(("vertices", v))
            self.beams[k].set_beam_vertices(v)
        elif name == "flags":
            f = ("lorentz_factor", "polarization_factor", "structure_factor")[r.randint(3)]
            setattr(self.detectors[k], f, not getattr(self.detectors[k], f))
        elif name == "sigma":
            self.detectors[k].gaussian_sigma = float(r.choice([.6, 1.2]))
        elif name == "wave":
            b, q = self.beams[k], float(r.choice([.8, 1.3, 1.0004]))
            b.wavelength = b.wavelength * q
            b.wave_vector = b.wave_vector / q
        elif name == "angle":
            m = self.motions[k]
            m.rotation_angle = m.rotation_angle * float(r.choice([.5, 1.5]))
            m.translation = m.translation + torch.tensor(r.uniform(-3, 3, 3))

    def elsewhere(self, seed):
        return world.motion({"seed": seed, "axis": "any", "degrees": 12., "translate": 5., "origin": 8.})

    # -- what a result must not depend on
    def other(self, name, seed, ctx):
        r = world.rs(seed)
        s, b, m, d = (g[r.randint(2)] for g in (self.samples, self.beams, self.motions, self.detectors))
        if name == "diffract":
            lo, hi = np.radians(self.limits[r.randint(5)])
            p, error = ctx.attempt("diffract", s.diffract, b, m, lo, hi, d if r.rand() < .4 and self.limits is LIMITS else None, bool(r.rand() < .1))
            if error is None:  # the detector may see no angle within the limits
                self.out.append(p)
        elif name == "render":
            p = [o for o in self.out if isinstance(o, dict) and "columns" in o and len(o["columns"]) == 25]
            if p:
                p = world.take(p[-1], int(r.choice([3, 10])))
                got, error = ctx.attempt("render", d.render, p, int(r.choice([1, 2, 4])), METHODS[r.randint(len(METHODS))], verbose=bool(r.rand() < .1))
                if error is None:  # what was handed out before may have been spoilt
                    self.out += [got[0], got[1]]
        elif name == "geometry":
            v = self.give("coord", r.normal(size=(4, 3)))
            self.out.append(ctx.do("motion", m, v, float(r.rand())))
            self.out.append(ctx.do("rotate", m.rotate, v, float(r.rand())))
            self.out.append(ctx.do("translate", m.translate, np.array(v[0]), float(r.rand())))
            self.out.append(ctx.do("inverse", m.inverse))
        elif name == "twin":  # another sample from the same mesh, arrays and phases
            from xrd_simulator.polycrystal import Polycrystal
            t = ctx.do("sample", Polycrystal, s.mesh_lab, s.orientation_lab, s.strain_lab, s.phases, s.element_phase_map)
            ctx.do("transform", t.transform, self.elsewhere(seed), .7)
            t.mesh_lab.coord += 7.
            t.orientation_lab *= -1.
            t.strain_lab += .1
            t.element_phase_map *= 0
            t.phases.append(None)
            t.mesh_sample.enod[0] = t.mesh_sample.enod[0].flip(0)
        elif name == "save":
            k = int(r.randint(4))
            obj, ext = ((s, ".pc"), (b, ".beam"), (m, ".motion"), (d, ".det"))[k]
            path = os.path.join(ctx.scratch, "x")
            if k == 0:
                ctx.do("save", obj.save, path, save_mesh_as_xdmf=False)
            else:
                ctx.do("save", obj.save, path)
            got = ctx.do("load", type(obj).load, path + ext)
            group = (self.samples, self.beams, self.motions, self.detectors)[k]
            if r.rand() < .6:  # go on with what was loaded, and spoil what was saved
                group[[j for j in range(2) if group[j] is obj][0]] = got
                self.out.append(obj)
            else:
                self.out.append(got)
        elif name == "input":
            if self.given:
                self.spoil(self.given.pop(r.randint(len(self.given)))[1], r)
        elif name == "output":
            if self.out:
                self.spoil(self.out.pop(r.randint(len(self.out))), r)
        elif name == "fault":
            kind = ("interrupt", "torch_memory", "c_memory", "deep_interrupt", "terminal:EPIPE")[r.randint(5)]
            p = faults.point(kind, int(r.choice([r.randint(20), r.randint(400)])), ctx.stats)
            lo, hi = np.radians(self.limits[r.randint(5)])
            q = None
            if r.rand() < .6:
                q, error = ctx.attempt("diffract", s.diffract, b, m, lo, hi, None, False)
                q = None if error is not None else world.take(q, 5)
            with faults.inject(kind, p):
                if q is None:
                    ctx.attempt("diffract", s.diffract, b, m, lo, hi, d if r.rand() < .5 and self.limits is LIMITS else None, True)
                else:
                    ctx.attempt("render", d.render, q, 2, METHODS[r.randint(len(METHODS))], verbose=True)
        elif name == "fail":
            self.fail(FAIL[r.randint(len(FAIL))], s, b, m, d, r, ctx)

    def fail(self, what, s, b, m, d, r, ctx):
        """A call that is wrong. It may raise; if it does not, it must not be one that changes something."""
        from xrd_simulator.beam import Beam
        from xrd_simulator.detector import Detector
        from xrd_simulator.motion import RigidBodyMotion
        from xrd_simulator.polycrystal import Polycrystal
        ctx.stats.fault("wrong call")
        v = world.to_np(b.vertices)
        bad = {
            "diffract none": lambda: s.diffract(b, None, 0., .05, verbose=False),
            "diffract outside": lambda: s.diffract(b, m, .2, .1, d, False),
            "diffract bragg": lambda: s.diffract(b, m, "low", .1, None, False),
            "render bogus": lambda: d.render({"peaks": None}, 1, "micro"),
            "render dtype": lambda: d.render({}, 1, "bogus"),
            "transform time": lambda: s.transform(m, "noon"),
            "transform none": lambda: s.transform(None, .5),
            "vertices inside": lambda: b.set_beam_vertices(world_torch(np.r_[v, v.mean(0)[None]])),
            "vertices flat": lambda: b.set_beam_vertices(world_torch(v * 0.)),
            "mesh rotate": lambda: s.mesh_lab.rotate(np.array([0, 0, 1.]), "x"),
            "mesh translate": lambda: s.mesh_lab.translate("x"),
            "load missing": lambda: type(s).load(os.path.join(ctx.scratch, "no.pc")),
            "save missing": lambda: b.save(os.path.join(ctx.scratch, "no", "no")),
            "sample bad": lambda: Polycrystal(s.mesh_lab, s.orientation_lab[:0], s.strain_lab, s.phases, s.element_phase_map),
            "motion bad": lambda: RigidBodyMotion(np.zeros(3), 7., np.zeros(2)),
            "detector bad": lambda: Detector(np.zeros(3), np.zeros(3), np.zeros(3)),
            "beam bad": lambda: Beam(v, np.array([1., 0, 0]), .1, np.array([1., 0, 0]))}
        _, error = ctx.attempt(what, bad[what])
        ctx.log(what, type(error).__name__)
        if error is None and what.split()[0] in ("transform", "vertices", "mesh"):
            raise Accepted(what)

    def spoil(self, v, r):
        """Write to what belongs to the caller."""
        import torch
        if torch.is_tensor(v):
            if v.numel():
                v.flip(0) if r.rand() < 0 else v.copy_(torch.zeros_like(v) if v.dtype == torch.bool else v * 0 + 1)
        elif isinstance(v, np.ndarray):
            if v.flags.writeable:
                v[...] = v[::-1].copy() * 2 if v.ndim else 0
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                self.spoil(v[k], r)
            for k in sorted(v, key=str)[:: 1 + r.randint(2)]:
                v[k] = None
        elif isinstance(v, list):
            if v and isinstance(v[0], list):
                self.spoil(v[0], r)
            v.reverse()
            v.append(3.)
            v[0] = 17.
        elif hasattr(v, "__dict__") and not isinstance(v, type):
            for k in sorted(vars(v)):
                a = getattr(v, k)
                if k == "phases":
                    a.append(None)
                elif not isinstance(a, (dict, str)) and (torch.is_tensor(a) or type(a).__name__ in ("TetraMesh", "_RodriguezRotator", "RigidBodyMotion")):
                    self.spoil(a, r)

    def warm(self, p, d, c):
        """Render the result before in another state, and put everything back. Returns the result."""
        kind, seed = c["warm"]
        r = world.rs(seed)
        n = len(p["peaks"])
        p = dict(p)
        real = p["peaks"]
        frames, method = c["frames"], c["method"]
        if kind == "peaks":  # other peaks in the same result
            p["peaks"] = real[: n - max(1, n // 2)].clone() if r.rand() < .5 else real.flip(0) * 1.
        elif kind == "tensor":  # other numbers in the same peaks
            keep = real.clone()
            real[:, 19:22] *= world_torch(r.uniform(.5, 2., (n, 3)))
        elif kind == "flags":
            d.lorentz_factor, d.polarization_factor = not d.lorentz_factor, not d.polarization_factor
        elif kind == "sigma":
            sigma = d.gaussian_sigma
            d.gaussian_sigma = sigma * 1.5 if sigma else sigma
        elif kind == "wave":
            wave = p["wavelength"]
            p["wavelength"] = wave * 1.4
        elif kind == "frames":
            frames = frames + 1
        elif kind == "method":
            method = METHODS[r.randint(len(METHODS))]
        elif kind == "detector":
            self.detectors[1 - c["d"]].render(p, frames, method, verbose=False)
        d.render(p, frames, method, verbose=False)
        if kind == "peaks":
            p["peaks"] = real
        elif kind == "tensor":
            real.copy_(keep)
        elif kind == "flags":
            d.lorentz_factor, d.polarization_factor = not d.lorentz_factor, not d.polarization_factor
        elif kind == "sigma":
            d.gaussian_sigma = sigma
        elif kind == "wave":
            p["wavelength"] = wave
        return p

    def result(self, c, seed, warm=None):
        """The compared call."""
        env.reseed(seed)
        s, b, m, d = self.samples[c["s"]], self.beams[c["b"]], self.motions[c["m"]], self.detectors[c["d"]]
        lo, hi = np.radians(c["limits"])
        p = s.diffract(b, m, lo, hi, d if c["with"] else None, False)
        rows = world.peaks(p)
        p = world.take(p, c["peaks"])
        if warm is not None and c["warm"][0]:
            p = self.warm(p, d, c)
        env.reseed(seed)
        img, q = d.render(p, c["frames"], c["method"], verbose=False)
        return {"peaks": rows, "image": world.to_np(img), "rows": world.to_np(q["peaks"]), "columns": list(p["columns"]),
                "state": {f"{name} {k}: {a}": v for name in ("samples", "beams", "motions", "detectors")
                          for k, o in enumerate(getattr(self, name)) for a, v in world.state(o).items()}}


class Accepted(Exception):
    """A wrong call was not wrong."""


def world_torch(a):
    import torch
    return torch.tensor(a)


def fresh(sc, upto):
    """What the compared call gives without the history."""
    bench = Bench(sc)
    for o in sc["ops"][:upto]:
        if o[0] in POSE:
            bench.pose(o[0], o[1])
    _, seed, c = sc["ops"][upto]
    try:
        return bench.result(c, seed)
    except Exception as e:
        return type(e).__name__


def execute(sc, ctx):
    def reference(upto):
        got, error = ctx.elsewhere(fresh, sc, upto, process="warm")
        return got if error is None else {"error": error[1]}

    want = {k: reference(k) for k, o in enumerate(sc["ops"]) if o[0] == "compare"}
    bench = ctx.do("set-up", Bench, sc)
    done = 0
    with ctx.disk.running(Faults([], ctx.stats)):
        for k, o in enumerate(sc["ops"]):
            name, seed = o[0], o[1]
            if name in POSE:
                ctx.do(name, bench.pose, name, seed)
            elif name != "compare":
                try:
                    bench.other(name, seed, ctx)
                except Accepted as e:
                    ctx.log("accepted", str(e))
                    return
            else:
                c = o[2]
                ref = want[k]
                if not isinstance(ref, dict) or "error" in ref:
                    ctx.log("no reference", str(ref))
                    ctx.stats.count("fresh set-ups that cannot diffract")
                    return
                what = f"{c['method']} in {c['frames']} frames after {[p[0] for p in sc['ops'][:k]]}"
                for turn in ("", "repeated "):
                    got = ctx.do(turn + "diffract and render", bench.result, c, seed, True)
                    bad = world.same_state(got["state"], ref["state"], 1e-10)
                    ctx.check(bad is None, turn + "an object differs from that of a fresh set-up", lambda: f"{bad}, {what}")
                    ctx.check(got["columns"] == ref["columns"], turn + "columns differ from those of a fresh set-up", what)
                    ctx.check(world.same_peaks(got["peaks"], ref["peaks"]), turn + "peaks differ from those of a fresh set-up",
                              lambda: f"{got['peaks'].shape[0]} peaks and {ref['peaks'].shape[0]}: {what}")
                    ctx.check(world.same_peaks(got["rows"], ref["rows"]), turn + "rendered peaks differ from those of a fresh set-up", what)
                    ctx.check(world.same_image(got["image"], ref["image"]), turn + "an image differs from that of a fresh set-up",
                              lambda: f"sum {got['image'].sum():.6g} and {ref['image'].sum():.6g}: {what}")
                if got["image"].any():
                    ctx.stats.probe(f"image by {c['method']}")
                done += 1
                for p in sc["ops"][:k]:
                    ctx.stats.state(p[0], p[1] % 7, c["method"])
                ctx.log("compare", got["peaks"], got["image"])
                continue
            ctx.log(name)
    ctx.nontrivial = done > 0 and len(sc["ops"]) > 2
