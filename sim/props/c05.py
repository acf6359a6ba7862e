"""C05: an operation that fails part way leaves every object whole."""
import copy
import os

import numpy as np

from .. import env, faults, store, world
from ..disk import Faults

QUICK, THOROUGH = 1800, 60000
LEVEL = "exploration"
RULE = ("a run counts when a fault struck inside an operation; distinct = different event logs (objects, operations, "
        "fault kinds and places, outcomes)")
STATES = "distinct (operation, fault kind, place struck)"
REAL = ["xrd_simulator: sample, mesh, beam, motion, detector, phase; their libraries"]
STUB = ["user interrupts at calls, allocation failures of torch and C calls, failing terminal, "
        "failing and full simulated disk, wrong arguments"]
ASSUMPTIONS = ["interrupts arrive where CPython 3.12 delivers signals: on entry of functions and after calls into C",
               "a Python attribute assignment itself does not fail"]
OPS = ("transform", "diffract", "render", "save", "update", "translate", "rotate", "vertices", "transform", "vertices", "update")
FAULTS = ("interrupt", "interrupt", "deep_interrupt", "c_memory", "torch_memory", "torch_memory", "terminal", "argument", "disk")


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=4, small=True)
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        op = rng.choice(OPS)
        f = rng.choice(FAULTS)
        if op in ("diffract", "render") and rng.random() < .3:
            f = "terminal"
        if op == "save":
            f = rng.choice(["disk", "disk", f])
        ops.append({"op": op, "fault": f, "frac": rng.random(), "seed": rng.getrandbits(31), "err": rng.randrange(8),
                    "time": rng.random(), "method": rng.choice(["micro", "nano", "macro", "auto"]), "frames": rng.choice([1, 3]),
                    "kind": rng.choice(["beam", "detector", "motion", "polycrystal", "mesh"]), "with_detector": rng.random() < .4,
                    "terminal": rng.choice(["EPIPE", "EIO", "ENOSPC", "closed", "encoding"])})
    return {"x": x, "ops": ops}


def shrink(sc):
    o = sc["ops"]
    for k in range(len(o)):
        if len(o) > 1:
            yield {**sc, "ops": o[:k] + o[k + 1:]}
    for k in range(len(o)):
        for key, v in (("frames", 1), ("method", "micro"), ("with_detector", False)):
            if o[k][key] != v:
                yield {**sc, "ops": o[:k] + [{**o[k], key: v}] + o[k + 1:]}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


class Set:
    """All objects of a set-up."""

    def __init__(self, x):
        self.s, self.b, self.m, self.d = world.experiment(x)
        self.mesh = world.mesh(x["sample"], world.frame(x))
        self.peaks = None

    def states(self):
        return {"sample": world.state(self.s), "beam": world.state(self.b), "motion": world.state(self.m),
                "detector": world.state(self.d), "mesh": world.state(self.mesh)}


def perform(S, x, o, verbose, path, bad=None):
    """Do an operation on a set of objects. Returns its result as arrays."""
    op = o["op"]
    m = world.motion({"seed": o["seed"], "degrees": 25., "translate": 9., "origin": 4.})
    t = o["time"]
    env.reseed(o["seed"])
    if op == "transform":
        S.s.transform(*((m, "noon") if bad == 0 else (None, t) if bad == 1 else (m, np.ones(7)) if bad == 2 else (m, t)))
    elif op == "update":
        S.mesh.update(*((m, "noon") if bad == 0 else (None, t) if bad == 1 else (m, np.ones(7)) if bad == 2 else (m, t)))
    elif op == "translate":
        S.mesh.translate({0: np.ones(2), 1: "x", 2: None}.get(bad, np.array([1., 2., 3.])))
    elif op == "rotate":
        n = world.rs(o["seed"]).normal(size=3)
        S.mesh.rotate(n / np.linalg.norm(n), {0: -1., 1: 4., 2: "x"}.get(bad, .1 + t))
    elif op == "vertices":
        import torch
        v = world.to_np(S.b.vertices)
        new = v.mean(0) + (v - v.mean(0)) * (.4 + t / 2)
        if bad == 0:
            new = np.r_[new, new.mean(0)[None]]  # a vertex inside
        elif bad == 1:
            new = new * np.array([1, 1, 0.])  # flat
        elif bad == 2:
            new = np.full_like(new, np.nan)
        S.b.set_beam_vertices(torch.from_numpy(new))
    elif op == "diffract":
        lo, hi = np.radians(x["bragg"])
        p = S.s.diffract(None if bad == 1 else S.b, S.m, {0: -1., 2: 9.}.get(bad, lo), hi,
                         S.d if o["with_detector"] or bad in (0, 2) else None, verbose)
        return {"peaks": world.peaks(p)}
    elif op == "render":
        p = world.take(S.peaks, 30)
        img, q = S.d.render(p, o["frames"], {0: "bogus"}.get(bad, o["method"]), verbose=verbose,
                            render_dtype={1: "x"}.get(bad), **({"macro_grain_limit": "x"} if bad == 2 else {}))
        return {"image": world.to_np(img), "peaks": world.peaks(q)}
    elif op == "save":
        obj = {"beam": S.b, "detector": S.d, "motion": S.m, "polycrystal": S.s, "mesh": S.mesh}[o["kind"]]
        obj.save({0: os.path.join(path, "missing", "x"), 1: None, 2: 7}.get(bad, os.path.join(path, "x")))
    return {}


def whole(ctx, got, before, after, what, target):
    """Every object is as before, and the one operated on as before or as after."""
    for name in got:
        diff = world.same_state(got[name], before[name])
        if diff is None:
            continue
        ctx.check(name == target, "an object changes that is only used", f"{name}.{diff} after {what}")
        other = world.same_state(got[name], after[name], 1e-11)
        ctx.check(other is None, "half-done operation", f"{name}.{diff} is not as before and {name}.{other} not as after {what}")


TARGET = {"transform": "sample", "update": "mesh", "translate": "mesh", "rotate": "mesh", "vertices": "beam"}


def execute(sc, ctx):
    x = sc["x"]
    real, ref = Set(x), Set(x)
    p1, p2 = (os.path.join(ctx.scratch, d) for d in ("real", "ref"))
    os.makedirs(p1)
    os.makedirs(p2)
    for n, o in enumerate(sc["ops"]):
        op, fault = o["op"], o["fault"]
        kind = "terminal:" + o["terminal"] if fault == "terminal" else fault
        verbose = fault == "terminal" or o["seed"] % 5 == 0
        if op == "render":
            for S in (real, ref):
                S.peaks = ctx.do("diffract", world.diffract, x, S.s, S.b, S.m, S.d if o["with_detector"] else None)
        held = None if op != "render" else world.peaks(real.peaks).copy()
        before = real.states()
        for name, st in ref.states().items():
            diff = world.same_state(st, before[name], 1e-11)
            ctx.check(diff is None, "retried operation differs from a fault-free one", f"{name}.{diff} before {op}")
        # the fault-free run, on the reference, which also counts the places for a fault
        counter = faults.point(kind, None, ctx.stats)
        quiet = Faults([], ctx.stats)
        ctx.disk.reset()
        with ctx.disk.running(quiet if op == "save" else None), faults.inject(kind if kind != "disk" else "none", counter):
            want = ctx.do(op, perform, ref, x, o, verbose, p2)
        after = ref.states()
        # the same with the fault
        bad = o["seed"] % 3 if fault == "argument" else None
        plan = []
        if fault == "disk":
            plan = [{"kind": "errno", "at": int(o["frac"] * max(1, quiet.count)), "err": o["err"], "sticky": o["seed"] % 2 == 0}]
        p = faults.point(kind, int(o["frac"] * max(1, counter.count)), ctx.stats)

        def faulty(stats):
            fs = Faults(plan, stats)
            p.stats = stats
            with ctx.disk.running(fs), faults.inject(kind if kind != "disk" else "none", p):
                _, e = ctx.attempt(op, perform, real, x, o, verbose, p1, bad)
            return fs.fired + ([p.where] if p.fired else []), None if e is None else type(e).__name__, real.states()

        if op == "save" and fault in ("disk", "deep_interrupt") and o["kind"] in ("mesh", "polycrystal"):
            got = ctx.isolated(faulty)  # libhdf5 does not survive a failed close
            if got is None:
                continue
            struck, error, states = got
        else:
            struck, error, states = faulty(ctx.stats)
        if fault == "argument":
            struck = [f"argument {bad}"]
            if error is not None:
                ctx.stats.fault("bad_argument")
        if struck:
            ctx.nontrivial = True
        ctx.stats.state(op, fault, struck[-1].split("@")[0] if struck else None)
        ctx.log(op, fault, struck, error)
        what = f"{op} failing with {error} at {struck[-1] if struck else None}"
        if error is not None:
            ctx.check(struck, "operation fails without a fault", what)
            whole(ctx, states, before, after, what, TARGET.get(op))
            if held is not None:
                ctx.check(np.array_equal(held, world.peaks(real.peaks), equal_nan=True), "a failed rendering changes the peaks", what)
            done = TARGET.get(op) and world.same_state(states[TARGET[op]], before[TARGET[op]]) is not None
            if not done:
                got = ctx.do(f"repeated {op}", perform, real, x, o, False, p1)
            else:
                got = want
        else:
            if bad is not None and op in TARGET:
                # the argument was accepted: nothing to compare with
                real = Set(x)
                ref = Set(x)
                continue
            if bad is not None:
                continue
            got = ctx.do(f"repeated {op}", perform, real, x, o, False, p1) if op in ("render", "diffract", "save") else want
        for k in want:
            ctx.check((world.same_image if k == "image" else world.same_peaks)(got[k], want[k]), "repeated operation differs from a fault-free one",
                      f"{k} of {op} after {what}")
        now = real.states()
        for name in now:
            diff = world.same_state(now[name], after[name], 1e-11)
            ctx.check(diff is None, "repeated operation differs from a fault-free one", f"{name}.{diff} after {what}")
    # the objects work as they should
    a = ctx.do("diffract", world.diffract, x, real.s, real.b, real.m)
    b = ctx.do("diffract", world.diffract, x, ref.s, ref.b, ref.m)
    ctx.check(world.same_peaks(world.peaks(a), world.peaks(b)), "diffraction after a fault differs", str([o["op"] for o in sc["ops"]]))
    ctx.log("peaks", world.peaks(a))
