"""C08: concurrent simulation of one set-up equals sequential simulation."""
import os

import numpy as np

from .. import env, world
from ..sched import Scheduler

QUICK, THOROUGH = 900, 60000
LEVEL = "exploration"
RULE = ("a run counts when at least two threads ran and the schedule switched between them midway; distinct = different event "
        "logs (set-up, operations, schedule, results)")
STATES = "distinct (operations of the threads, lines at which threads were switched)"
REAL = ["xrd_simulator: diffract, render, save, load, transform of private samples; their libraries"]
STUB = ["scheduler of threads at package lines and locks", "random state, one stream per thread"]
ASSUMPTIONS = ["threads are switched between lines of the package; a line itself, with the library calls in it, is not divided",
               "every thread draws its own random numbers; which numbers a thread draws is no result"]


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=4, small=True, full=rng.random() < .7)
    names = rng.choice([["al"], ["fe"], ["al", "fe"], ["ti"], ["al", "quartz+cif"], ["quartz+cif"], ["ortho", "fe"], ["quartzu+cif", "ortho+cif"]])
    x["sample"]["phases"] = names
    x["bragg"] = [0., rng.choice([4., 6.]) if any("quartz" in n or "ortho" in n for n in names) else rng.choice([6., 9.])]
    if rng.random() < .4:
        x["detector"] = world.gen_near(rng, x)
    simple = all(n in ("al", "fe") for n in names) and rng.random() < .5
    if simple:  # Bragg limits from the detector need not be narrow
        x["beam"]["wavelength"] = .6
        x["detector"]["distance"] = max(x["detector"]["distance"], 5 * max(n * p for n, p in zip(x["detector"]["shape"], x["detector"]["pixel"])))
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append({"op": rng.choice(["diffract", "diffract", "diffract", "render", "render", "own_render", "save", "private", "cross"]),
                        "seed": rng.getrandbits(31), "lo": rng.choice([0., 0., 1.5]), "hi": rng.choice([1., .7, .4]),
                        "method": rng.choice(["micro", "nano", "macro", "auto"]), "frames": rng.choice([1, 2, 4]),
                        "kind": rng.choice(["polycrystal", "beam", "motion", "detector", "mesh"]),
                        "share": rng.choice([1, .75]), "dtype": rng.choice([None, None, None, "float32", "float64"]), "wave": rng.choice([1., 1., .8, 1.2]), "with_detector": simple and rng.random() < .3,
                        "verbose": rng.random() < .2, "own_motion": rng.random() < .4})
        threads.append(ops)
    if rng.random() < .25:  # all threads render, most with one method
        kind = rng.choice(["micro", "nano", "macro", "auto"])
        for ops in threads:
            for o in ops:
                o["op"] = "own_render" if rng.random() < .3 else "render"
                o["method"] = kind if rng.random() < .8 else o["method"]
        if kind in ("macro", "auto") and rng.random() < .7:  # shadows that cover the detector, all of one size
            x["sample"].update(scale=400., spread=0., layout="free", n=rng.choice([3, 5]), phases=["al"])
            x["beam"].update(width=2500., sides=4, aspect=1., shift=[0., 0.])
            x["motion"].update(degrees=20., translate=0., origin=0.)
            x.update(bragg=[0., 9.], hits=True)
            x["detector"].update(distance=600., shape=[9, 8], pixel=[18., 20.])
            x["detector"].pop("centre", None)
    n = rng.choice([300, 1500, 6000])
    plan = rng.choice([{"kind": "random", "seed": rng.getrandbits(31), "p": rng.choice([.5, .1, .02])},
                       {"kind": "pct", "seed": rng.getrandbits(31), "d": rng.choice([1, 2, 3, 6]), "n": n},
                       {"kind": "places", "seed": rng.getrandbits(31), "m": rng.choice([3, 12, 40])}])
    return {"x": x, "threads": threads, "plan": plan}


def shrink(sc):
    t = sc["threads"]
    for k in range(len(t)):
        if len(t) > 2:
            yield {**sc, "threads": t[:k] + t[k + 1:]}
        for j in range(len(t[k])):
            if len(t[k]) > 1:
                yield {**sc, "threads": t[:k] + [t[k][:j] + t[k][j + 1:]] + t[k + 1:]}
            o = t[k][j]
            for key, v in (("verbose", False), ("dtype", None), ("with_detector", False), ("frames", 1), ("own_motion", False), ("share", 1), ("wave", 1.), ("lo", 0.)):
                if o[key] != v:
                    yield {**sc, "threads": t[:k] + [t[k][:j] + [{**o, key: v}] + t[k][j + 1:]] + t[k + 1:]}
    if sc["plan"]["kind"] == "fixed":
        w = sc["plan"]["switches"]
        for k in range(1, len(w)):
            yield {**sc, "plan": {"kind": "fixed", "switches": w[:k] + w[k + 1:]}}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


class Lab:
    """What the threads share."""

    def __init__(self, x):
        R = world.frame(x)
        self.x = x
        self.phases = [world.phase(n) for n in x["sample"]["phases"]]
        self.s = world.sample(x["sample"], R, self.phases)
        self.b, self.m, self.d = world.beam(x["beam"], R), world.motion(x["motion"], R), world.detector(x["detector"], R)
        self.mesh = world.mesh(x["sample"], R)
        b = dict(x["beam"])
        self.beams = {w: world.beam({**b, "wavelength": b["wavelength"] * w}, R) for w in (.8, 1.2)}
        self.beams[1.] = self.b
        self.other = world.sample({**x["sample"], "seed": x["sample"]["seed"] + 7, "bare_phase": False}, R, self.phases)
        lo, hi = np.radians(x["bragg"])
        env.reseed(4)
        p = self.s.diffract(self.b, self.m, lo, hi, verbose=False)
        if x.get("hits"):
            q = world.columns(self.d.peaks_detector_intersection(p, 1, False), "peak_index")
            ids = world.columns(p, "peak_index")
            p = dict(p, peaks=p["peaks"][np.isin(ids, q)])
        self.p = world.take(p, 25)

    def states(self):
        out = {"sample": world.state(self.s), "beam": world.state(self.b), "motion": world.state(self.m),
               "detector": world.state(self.d), "mesh": world.state(self.mesh), "other": world.state(self.other)}
        out["result"] = {"peaks": world.to_np(self.p["peaks"])}
        return out


def perform(lab, o, root):
    """One operation. Returns its result as {name: array}."""
    import torch
    op = o["op"]
    lo, hi = np.radians(o["lo"]), np.radians(lab.x["bragg"][1]) * o["hi"]
    m = world.motion({"seed": o["seed"], "degrees": 5., "axis": "any"}) if o["own_motion"] else lab.m
    d = lab.d if o["with_detector"] else None
    if op == "diffract":
        p = lab.s.diffract(lab.beams[o["wave"]], m, lo, hi, d, o["verbose"])
        return {"peaks": world.peaks(p)}
    if op == "private":  # a sample of its own, of the same phases
        import copy
        s = type(lab.s)(lab.mesh, lab.other.orientation_lab, lab.other.strain_lab, lab.phases, lab.other.element_phase_map)
        s.transform(lab.m, .5)
        p = s.diffract(lab.beams[o["wave"]], m, lo, hi, d, o["verbose"])
        return {"peaks": world.peaks(p), **{k: v for k, v in world.state(s).items() if not k.startswith("phase")}}
    if op == "cross":
        p = lab.other.diffract(lab.beams[o["wave"]], m, lo, hi, d, o["verbose"])
        return {"peaks": world.peaks(p)}
    if op in ("render", "own_render"):
        rng = np.random.default_rng(o["seed"])
        n = len(lab.p["peaks"])
        keep = np.sort(rng.permutation(n)[: n - n // 4]) if o["share"] < 1 else np.arange(n)
        p = dict(lab.p, peaks=lab.p["peaks"][keep]) if o["share"] < 1 else lab.p
        if op == "own_render":
            p = world.take(lab.s.diffract(lab.b, lab.m, lo, hi, verbose=False), 15)
        kw = {"render_dtype": getattr(torch, o["dtype"])} if o["dtype"] else {}
        img, q = lab.d.render(p, o["frames"], o["method"], verbose=o["verbose"], **kw)
        return {"image": world.to_np(img), "peaks": world.peaks(q)}
    obj = {"polycrystal": lab.s, "beam": lab.b, "motion": lab.m, "detector": lab.d, "mesh": lab.mesh}[o["kind"]]
    end = {"polycrystal": ".pc", "beam": ".beam", "motion": ".motion", "detector": ".det", "mesh": ".xdmf"}[o["kind"]]
    path = os.path.join(root, f"f{o['seed']}{end}")
    if o["kind"] == "polycrystal":
        obj.save(path, save_mesh_as_xdmf=False)
    else:
        obj.save(path)
    got = type(obj).load(path)
    return world.state(got)


def compare(got, want):
    for k in sorted(set(got) | set(want)):
        if k not in got or k not in want:
            return f"{k} (missing)"
        if k == "image":
            if not world.same_image(got[k], want[k]):
                return f"image (sum {got[k].sum():.6g} and not {want[k].sum():.6g})"
        elif k == "peaks":
            if not world.same_peaks(got[k], want[k]):
                return f"peaks ({len(got[k])} rows and not {len(want[k])})"
        elif not world.close(got[k], want[k], 1e-10):
            return k
    return None


def execute(sc, ctx):
    x, threads = sc["x"], sc["threads"]
    shared = ctx.do("set-up", Lab, x)
    lo, hi = np.radians(x["bragg"])
    want = []
    roots = [os.path.join(ctx.scratch, d) for d in ("alone", "together")]
    for r in roots:
        os.makedirs(r)
    lines = 0
    for k, ops in enumerate(threads):
        alone = ctx.do("set-up", Lab, x)
        got = []
        for j, o in enumerate(ops):
            env.reseed(o["seed"])
            v, e = ctx.attempt(o["op"], perform, alone, o, roots[0])
            got.append((v, None if e is None else type(e).__name__))
            ctx.stats.count("operations")
        want.append(got)
    before = shared.states()
    env.reseed(sc["rng"])

    def body(ops, out):
        def run():
            for o in ops:
                env.own_streams(o["seed"])
                try:
                    out.append((perform(shared, o, roots[1]), None, None))
                except Exception as e:
                    out.append((None, type(e).__name__, e))
        return run

    out = [[] for _ in threads]
    s = Scheduler(sc["plan"], ctx.stats)
    for k, ops in enumerate(threads):
        s.spawn(f"t{k}", body(ops, out[k]))
    tasks = s.run()
    ctx.check(s.failure is None, f"threads in {s.failure}", f"after {s.steps} steps")
    for t in tasks:
        if t.error is not None:
            raise t.error
    for k, ops in enumerate(threads):
        for j, o in enumerate(ops):
            (v, e, err), (w, f) = out[k][j], want[k][j]
            what = f"{o['op']} of thread {k} of {[[q['op'] for q in t] for t in threads]}"
            ctx.check(e == f, "a thread fails because of others" if e else "a thread succeeds because of others",
                      lambda: f"{what}: {err!r}" if e else what)
            if w is not None:
                diff = compare(v, w)
                ctx.check(diff is None, "result of a thread depends on the others", f"{diff} in {what}")
                ctx.log(k, j, sorted(v))
    for name, st in shared.states().items():
        diff = world.same_state(st, before[name])
        ctx.check(diff is None, "simulating changes a shared object", f"{name}.{diff}")
    # the shared objects are as good as before
    env.reseed(5)
    a = world.peaks(ctx.do("diffract", shared.s.diffract, shared.b, shared.m, lo, hi, verbose=False))
    fresh = Lab(x)
    b = world.peaks(fresh.s.diffract(fresh.b, fresh.m, lo, hi, verbose=False))
    ctx.check(world.same_peaks(a, b), "diffraction after concurrent use differs", f"{len(a)} rows and not {len(b)}")
    ctx.log("threads", s.steps, s.trace[:50])
    ctx.stats.state([[o["op"] for o in t] for t in threads], s.trace)
    if len(s.trace) > len(threads):
        ctx.nontrivial = True
