"""C07: a diffraction result is a snapshot."""
import os

import numpy as np

from .. import env, faults, world
from ..disk import Faults
from ..sched import Scheduler

QUICK, THOROUGH = 2000, 60000
LEVEL = "exploration"
RULE = ("a run counts when a result with peaks was rendered after something else had happened; distinct = different event logs "
        "(set-up, operations, schedule, images)")
STATES = "distinct (operation after the result, rendering method, frames, concurrent or not)"
REAL = ["xrd_simulator: diffract, render by every method, transform, mesh moves, beam and motion changes, save, load"]
STUB = ["scheduler of threads at package lines", "random state", "user edits of the objects", "simulated disk for saves"]
ASSUMPTIONS = ["images are compared to 3e-7 of their maximum (sums in different order)"]

MUTATE = ("transform", "transform", "mesh_update", "mesh_translate", "mesh_rotate", "vertices", "motion_attr", "beam_attr",
          "beam_wave", "orientation", "strain", "phase", "phase_list", "phase_map", "inplace_mesh", "inplace_beam", "inplace_motion",
          "diffract", "save", "load", "sample_mesh", "volumes")
USE = ("render_other", "render_same", "render_dtype", "render_failing", "intersection")
METHODS = ("macro", "macro", "micro", "nano", "auto")


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=5, small=rng.random() < .7, full=rng.random() < .6)
    if x["beam"]["width"] < 1000:
        x["beam"]["shift"] = [rng.uniform(-.2, .2) * x["beam"]["width"] for _ in range(2)]
        x["motion"]["origin"], x["motion"]["translate"] = 0., min(x["motion"]["translate"], 5.)
    if rng.random() < .75:
        x["detector"] = world.gen_near(rng, x)
    x["sample"]["spread"] = rng.choice([0., 20., 50.])
    ops = [["diffract", rng.getrandbits(31)]]
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        name = "diffract" if r < .15 else rng.choice(MUTATE) if r < .8 else rng.choice(USE)
        ops.append([name, rng.getrandbits(31)])
    thread = None
    if rng.random() < .35:
        n = rng.choice([1, 2, 4])
        thread = {"ops": [[rng.choice([m for m in MUTATE if m not in ("save", "load")]), rng.getrandbits(31)] for _ in range(n)],
                  "plan": rng.choice([{"kind": "random", "seed": rng.getrandbits(31), "p": rng.choice([.3, .05, .01])},
                                      {"kind": "pct", "seed": rng.getrandbits(31), "d": rng.choice([1, 2, 4]),
                                       "n": rng.choice([300, 2000])},
                                      {"kind": "places", "seed": rng.getrandbits(31), "m": rng.choice([3, 12, 40])}])}
    return {"x": x, "ops": ops, "thread": thread, "peaks": rng.choice([4, 12, 30]),
            "views": [{"method": rng.choice(METHODS), "frames": rng.choice([1, 1, 2, 5]), "seed": rng.getrandbits(31),
                       "far": rng.random() < .15} for _ in range(rng.choice([1, 2]))]}


def shrink(sc):
    o = sc["ops"]
    if sc["thread"]:
        yield {**sc, "thread": None}
        t = sc["thread"]
        for k in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield {**sc, "thread": {**t, "ops": t["ops"][:k] + t["ops"][k + 1:]}}
    for k in range(1, len(o)):
        yield {**sc, "ops": o[:k] + o[k + 1:]}
    if len(sc["views"]) > 1:
        for v in sc["views"]:
            yield {**sc, "views": [v]}
    if sc["peaks"] > 1:
        yield {**sc, "peaks": sc["peaks"] // 2}
    for v, w in ((v, {**v, "frames": 1, "far": False}) for v in sc["views"]):
        if v != w:
            yield {**sc, "views": [w if u is v else u for u in sc["views"]]}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


class Bench:
    """The objects of a laboratory, some of which change."""

    def __init__(self, x, scratch):
        self.x = x
        self.s, self.b, self.m, self.d = world.experiment(x)
        self.far = world.detector({**x["detector"], "distance": x["detector"]["distance"] * 1.3}, world.frame(x))
        self.path = os.path.join(scratch, "x")

    def move(self, seed):
        r = world.rs(seed)
        return world.motion({"seed": seed, "axis": "any", "degrees": float(r.choice([3., 40., 110.])), "translate": 60., "origin": 40.})

    def mutate(self, name, seed):
        import torch
        r = world.rs(seed)
        s, b, m = self.s, self.b, self.m
        t = float(r.choice([.3, 1.]))
        if name == "transform":
            s.transform(m if r.rand() < .5 else self.move(seed), t)
        elif name == "mesh_update":
            s.mesh_lab.update(self.move(seed), t)
        elif name == "mesh_translate":
            s.mesh_lab.translate(r.uniform(-80, 80, 3))
        elif name == "mesh_rotate":
            n = r.normal(size=3)
            s.mesh_lab.rotate(n / np.linalg.norm(n), float(r.uniform(.05, 2)))
        elif name == "sample_mesh":
            s.mesh_sample.translate(r.uniform(-80, 80, 3))
        elif name == "vertices":
            v = world.to_np(b.vertices)
            b.set_beam_vertices(torch.from_numpy(v.mean(0) + (v - v.mean(0)) * r.uniform(.2, .9)))
        elif name == "motion_attr":
            m.rotation_angle = torch.tensor(float(r.uniform(.02, 1.)))
            m.translation = torch.tensor(r.uniform(-50, 50, 3))
            m.origin = torch.tensor(r.uniform(-50, 50, 3))
        elif name == "beam_attr":
            b.wavelength = b.wavelength * 1.1
            b.wave_vector = b.wave_vector / 1.1
        elif name == "beam_wave":
            b.wave_vector = -b.wave_vector
            b.polarization_vector = torch.linalg.cross(b.polarization_vector, b.wave_vector / torch.linalg.norm(b.wave_vector))
        elif name == "orientation":
            s.orientation_lab = torch.tensor(np.array([world.rotation(seed + i) for i in range(len(s.orientation_lab))]))
        elif name == "strain":
            s.strain_lab = s.strain_lab + 1e-3
        elif name == "phase":
            s.phases[0].unit_cell = [3.1, 3.1, 3.1, 90., 90., 90.]
        elif name == "phase_list":
            s.phases.append(world.phase("al"))
        elif name == "phase_map":
            s.element_phase_map = torch.zeros_like(s.element_phase_map)
        elif name == "volumes":
            s.mesh_volumes = s.mesh_volumes * 2
        elif name == "inplace_mesh":
            s.mesh_lab.coord += 20.
            s.mesh_lab.espherecentroids *= .5
            s.mesh_lab.enod[0] = s.mesh_lab.enod[0].flip(0)
        elif name == "inplace_beam":
            b.vertices *= .5
            b.halfspaces[:, 3] *= .5
            b.wave_vector *= -1.
        elif name == "inplace_motion":
            m.translation += 30.
            m.rotation_axis *= -1.
            m.rotator.K *= -1.
        elif name == "save":
            s.save(self.path, save_mesh_as_xdmf=False)
            b.save(self.path)
            m.save(self.path)
        elif name == "load":
            if os.path.exists(self.path + ".pc"):
                self.s = type(s).load(self.path + ".pc")
                self.b = type(b).load(self.path + ".beam")
        elif name == "diffract":
            lo, hi = np.radians(self.x["bragg"])
            s.diffract(b, self.move(seed), lo, hi * .5, verbose=False)

    def image(self, p, v):
        env.reseed(v["seed"])
        img, q = (self.far if v["far"] else self.d).render(p, v["frames"], v["method"], verbose=False)
        return world.to_np(img), world.to_np(q["peaks"])


def content(p):
    """Everything a result says."""
    out = {k: world.to_np(p[k]) for k in ("peaks", "incident_vector", "rotation_axis")}
    out["columns"] = np.array(p["columns"])
    out["wavelength"] = np.array(float(p["wavelength"]))
    out["keys"] = np.array(sorted(p))
    for k in ("mesh_lab", "rigid_body_motion", "beam"):
        out.update({f"{k}.{n}": v for n, v in world.state(p[k]).items()})
    return out


def unchanged(ctx, held, name):
    for n, h in enumerate(held):
        now = content(h["p"])
        for k in h["content"]:
            a, b = h["content"][k], now.get(k)
            same = b is not None and a.shape == b.shape and a.dtype == b.dtype and (
                np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b))
            ctx.check(same, "a result changes after it was returned", f"{k} of result {n} after {name}")


def execute(sc, ctx):
    x = sc["x"]
    bench = ctx.do("set-up", Bench, x, ctx.scratch)
    held, used = [], False
    with ctx.disk.running(Faults([], ctx.stats)):
        for name, seed in sc["ops"]:
            if name == "diffract" and len(held) < 3:
                p, error = ctx.attempt("diffract", world.diffract, x, bench.s, bench.b, bench.m)
                if error is not None:  # the objects may be in a state in which nothing can diffract
                    ctx.check(held, "diffract raises", repr(error))
                    continue
                p = world.take(p, sc["peaks"])
                h = {"p": p, "content": content(p), "images": []}
                for v in sc["views"]:
                    h["images"].append(ctx.do("render", bench.image, p, v))
                held.append(h)
                ctx.log("result", p["peaks"].shape, [h["images"][k][0] for k in range(len(sc["views"]))])
                unchanged(ctx, held, "rendering")
                continue
            if name in USE:
                h = held[seed % len(held)]
                r = world.rs(seed)
                method, frames = METHODS[r.randint(len(METHODS))], int(r.choice([1, 3]))
                if name == "render_failing":
                    k = r.choice(["interrupt", "torch_memory"])
                    p = faults.point(k, int(r.randint(60)), ctx.stats)
                    with faults.inject(k, p):
                        ctx.attempt("render", bench.d.render, h["p"], frames, method, verbose=False)
                elif name == "render_dtype":
                    import torch
                    if method != "auto":
                        ctx.attempt("render", bench.d.render, h["p"], frames, method, render_dtype=torch.float32, verbose=False)
                elif name == "intersection":
                    ctx.do("peaks_detector_intersection", bench.d.peaks_detector_intersection, h["p"], frames, False)
                elif name == "render_same":
                    img, q = bench.image(h["p"], sc["views"][0])
                    img += 1.  # the caller may do with its image what it likes
                else:
                    ctx.do("render", bench.far.render, h["p"], frames, method, verbose=False)
            elif name != "diffract":
                ctx.attempt(name, bench.mutate, name, seed)
            ctx.log(name)
            unchanged(ctx, held, name)
        for h in held:
            if len(h["p"]["peaks"]):
                used = True
    again = [[None] * len(sc["views"]) for _ in held]

    def consume():
        for n, h in enumerate(held):
            for k, v in enumerate(sc["views"]):
                again[n][k] = bench.image(h["p"], v)

    how = "sequential"
    if sc["thread"]:
        how = "concurrent"
        errors = []

        def change():
            for name, seed in sc["thread"]["ops"]:
                try:
                    bench.mutate(name, seed)
                except Exception as e:  # objects in a state in which nothing works
                    errors.append(type(e).__name__)

        s = Scheduler(sc["thread"]["plan"], ctx.stats)
        s.spawn("consume", consume)
        s.spawn("change", change)
        a, _ = s.run()
        ctx.check(s.failure is None, "threads make no progress", str(s.failure))
        ctx.check(a.error is None, f"render raises {type(a.error).__name__}", repr(a.error))
        ctx.log("threads", len(s.trace), errors)
        ctx.stats.count("interleavings", 1 if len(s.trace) > 2 else 0)
    else:
        ctx.do("render", consume)
    for n, h in enumerate(held):
        for k, v in enumerate(sc["views"]):
            img, rows = h["images"][k]
            img2, rows2 = again[n][k]
            what = f"result {n} of {len(h['p']['peaks'])} peaks, {v['method']} in {v['frames']} frames, after {[o[0] for o in sc['ops']]}, {how}"
            ctx.check(world.same_peaks(rows2, rows), "rendered peaks differ later", what)
            ctx.check(world.same_image(img2, img), "an image rendered later differs",
                      lambda: f"{what}: sum {img2.sum():.6g} and not {img.sum():.6g}")
            if img.any():
                ctx.stats.probe(f"image by {v['method']}")
            for name, _ in sc["ops"][1:]:
                ctx.stats.state(name, v["method"], v["frames"], how)
    unchanged(ctx, held, "rendering again")
    if used and (len(sc["ops"]) > 1 or sc["thread"]):
        ctx.nontrivial = True
    ctx.log("end", [float(f"{h['images'][0][0].sum():.4g}") for h in held])
