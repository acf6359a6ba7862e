"""C04: the sample pose is the composition of all motions applied."""
import os

import numpy as np

from .. import faults, model, store, world
from ..disk import Faults

QUICK, THOROUGH = 2600, 80000
LEVEL = "exploration"
RULE = ("a run counts when at least two operations changed the pose or a crash or fault struck; distinct = different "
        "event logs (object, operations, faults)")
STATES = "distinct sequences of operation and fault kinds"
REAL = ["xrd_simulator: polycrystal, mesh, motion, save and load"]
STUB = ["file calls: simulated disk with process crashes and loss of power", "interrupts, allocation failures, failing writes"]
ASSUMPTIONS = ["rounding: deviations below 1e-9 of the size of the coordinates count as equal"]


def generate(rng, i, tier):
    kind = "mesh" if i % 3 == 0 else "polycrystal"
    s = world.gen_sample(rng, big=5)
    n = rng.choice([1, 2, 4, 8, 16])
    ops = []
    for _ in range(n):
        if kind == "mesh":
            op = rng.choice(["update", "update", "translate", "rotate", "reload", "fault"])
        else:
            op = rng.choice(["transform"] * 4 + ["reload", "checkpoint", "crash", "power", "fault", "inverse", "diffract"])
        ops.append({"op": op, "motion": {**world.gen_motion(rng), "seed": rng.getrandbits(31)},
                    "time": rng.choice([0., 1., rng.random(), rng.random()]), "as": rng.choice(["numpy", "torch", "list"]),
                    "fault": rng.choice(["interrupt", "c_memory", "torch_memory"]), "frac": rng.random(), "seed": rng.getrandbits(31),
                    "time_as": rng.choice(["float", "float", "tensor", "numpy"])})
    return {"kind": kind, "sample": s, "frame": rng.getrandbits(31) if rng.random() < .3 else None, "ops": ops}


def shrink(sc):
    o = sc["ops"]
    for size in (len(o) // 2, 1):
        if size:
            for k in range(0, len(o), size):
                yield {**sc, "ops": o[:k] + o[k + size:]}
    for x in world.shrink_experiment({"sample": sc["sample"], "frame": sc["frame"], "motion": {}, "detector": {}}):
        if "sample" in x:
            yield {**sc, "sample": x["sample"], "frame": x.get("frame")}
    for k in range(len(o)):
        for key, v in (("time", 1.), ("as", "numpy"), ("time_as", "float")):
            if o[k][key] != v:
                yield {**sc, "ops": o[:k] + [{**o[k], key: v}] + o[k + 1:]}


def typed(a, how):
    import torch
    return torch.from_numpy(np.array(a)) if how == "torch" else [float(v) for v in a] if how == "list" else np.array(a)


def make_motion(o):
    from xrd_simulator.motion import RigidBodyMotion
    n, a, T, c = world.motion_arrays(o["motion"])
    return RigidBodyMotion(typed(n, "numpy" if o["as"] == "list" else o["as"]), a, typed(T, o["as"]), typed(c, o["as"]))


def time_of(o):
    import torch
    t = o["time"]
    return torch.tensor(t) if o["time_as"] == "tensor" else np.float64(t) if o["time_as"] == "numpy" else t


def compare(ctx, kind, obj, base, pose, fixed, what, n):
    now = world.state(obj)
    want = model.moved_mesh(base, pose) if kind == "mesh" else model.moved_sample(base, pose)
    size = 1 + np.abs(want["coord" if kind == "mesh" else "mesh_lab.coord"]).max() + np.abs(pose[1]).max()
    for k in sorted(want):
        a, b = np.asarray(now[k], float), np.asarray(want[k], float)
        ctx.check(a.shape == b.shape, "pose is wrong", f"{kind}.{k} has shape {a.shape} after {what}")
        tol = 1e-9 * (size if any(w in k for w in ("coord", "centroid")) else 1.) * (1 + n)
        if k in fixed:
            same = world.close(now[k], fixed[k], 1e-11 * (1 + n))
        else:
            same = not a.size or np.all(np.abs(a - b) <= tol)
        ctx.check(same, "pose is wrong" if k not in fixed else "invariant quantity changes",
                  lambda: f"{kind}.{k} off by {np.abs(a - b).max():.3g} after {what}")


def execute(sc, ctx):
    import torch
    kind = sc["kind"]
    R = world.frame(sc)
    obj = world.mesh(sc["sample"], R) if kind == "mesh" else world.sample(sc["sample"], R)
    base, pose = world.state(obj), model.IDENTITY
    inputs = world.sample_arrays(sc["sample"], R)
    coord = base["coord" if kind == "mesh" else "mesh_lab.coord"]
    ctx.check(np.abs(coord - inputs[0]).max() < 1e-9 * (1 + np.abs(coord).max()), "pose is wrong", "initial node coordinates")
    geometry(ctx, kind, obj)
    bounding(ctx, base if kind == "mesh" else {k[9:]: v for k, v in base.items() if k.startswith("mesh_lab.")})
    names = ("enod", "efaces", "evolumes", "eradius", "number_of_elements") if kind == "mesh" else tuple(
        k for k in base if "sample" in k or k in ("element_phase_map",) or k.startswith("phase")
        or k in ("mesh_lab.enod", "mesh_lab.efaces", "mesh_lab.evolumes", "mesh_lab.eradius", "mesh_lab.number_of_elements"))
    fixed = {k: base[k] for k in names}
    path = os.path.join(ctx.scratch, "sample")
    found = store.full(kind, path)
    saved = None  # pose at the last completed save
    moves = 0
    trail = []
    for n, o in enumerate(sc["ops"]):
        op = o["op"]
        trail.append(op)
        m, arrays, t = make_motion(o), world.motion_arrays(o["motion"]), time_of(o)
        step = None
        if op in ("transform", "update"):
            ctx.do(op, getattr(obj, op), m, t)
            step = model.motion_at(arrays, o["time"])
        elif op == "inverse":
            ctx.do(op, obj.transform, m.inverse(), t)
            step = model.motion_at((-arrays[0], arrays[1], -arrays[2], arrays[3]), o["time"])
        elif op == "translate":
            v = arrays[2] + arrays[0]
            ctx.do(op, obj.translate, typed(v, o["as"]))
            step = (np.eye(3), v)
        elif op == "rotate":
            ctx.do(op, obj.rotate, typed(arrays[0], "numpy"), arrays[1])
            step = (world.axis_angle(arrays[0], arrays[1]), np.zeros(3))
        elif op == "diffract":
            b = world.beam({"seed": 1, "wavelength": .285, "width": 2500.})
            ctx.do(op, obj.diffract, b, m, max_bragg_angle=.05, verbose=False)
        elif op in ("reload", "checkpoint"):
            if kind == "mesh":
                ctx.do("save", obj.save, path)
                obj = ctx.do("load", store.load, kind, found)
                # derived anew from the nodes; the balls may differ
                compare_mesh_reload(ctx, obj, model.moved_mesh(base, pose), n)
                base, pose = world.state(obj), model.IDENTITY
                fixed = {k: base[k] for k in names}
            else:
                ctx.do("save", obj.save, path, False)
                saved = pose
                if op == "reload":
                    obj = ctx.do("load", store.load, kind, found)
        elif op in ("crash", "power"):
            ctx.disk.reset()
            with ctx.disk.running(Faults([], ctx.stats)):
                ctx.do("save", obj.save, path, False)
            at = int(o["frac"] * (len(ctx.disk.events) + 1))
            ctx.stats.fault("process_crash" if op == "crash" else "power_loss")
            ctx.disk.restore(ctx.disk.after_crash(at, o["seed"], op == "power"))
            ctx.nontrivial = True
            if os.path.exists(found):
                obj = ctx.do("load", store.load, kind, found)
                # one of the two poses, as a whole
                options = [pose] + ([saved] if saved is not None else [])
                errors = []
                for q in options:
                    try:
                        compare(ctx, kind, obj, base, q, fixed, f"{trail}", n)
                        pose = saved = q
                        break
                    except Exception as e:
                        errors.append(e)
                else:
                    raise errors[0]
            else:
                ctx.check(saved is None, "saved sample is lost", f"{trail}")
                obj, pose = (world.sample(sc["sample"], R), model.IDENTITY)
        elif op == "fault":
            name = "transform" if kind != "mesh" else ["update", "translate", "rotate"][o["seed"] % 3]
            args = (m, t) if name in ("transform", "update") else (arrays[2] + arrays[0],) if name == "translate" else (arrays[0], arrays[1])
            step = {"translate": (np.eye(3), arrays[2] + arrays[0]), "rotate": (world.axis_angle(arrays[0], arrays[1]), np.zeros(3))}.get(
                name, model.motion_at(arrays, o["time"]))
            import copy
            probe = copy.deepcopy(obj)
            p = faults.point(o["fault"], None, ctx.stats)
            with faults.inject(o["fault"], p):
                ctx.do(name, getattr(probe, name), *args)
            p = faults.point(o["fault"], int(o["frac"] * max(1, p.count)), ctx.stats)
            with faults.inject(o["fault"], p):
                _, error = ctx.attempt(name, getattr(obj, name), *args)
            ctx.log("fault", name, p.where, type(error).__name__)
            ctx.nontrivial = True
            if error is not None:
                # entirely before or entirely after; then it is repeated
                try:
                    compare(ctx, kind, obj, base, pose, fixed, f"{trail}", n)
                    ctx.do(name, getattr(obj, name), *args)
                except Exception as e:
                    compare(ctx, kind, obj, base, model.then(pose, step), fixed, f"{trail} with a failing {name} at {p.where}", n)
        points(ctx, m, arrays, o)
        if step is not None:
            pose = model.then(pose, step)
            moves += 1
        compare(ctx, kind, obj, base, pose, fixed, f"{trail}", n)
    geometry(ctx, kind, obj)
    ctx.nontrivial |= moves >= 2
    ctx.log("end", kind, trail, world.state(obj))
    ctx.stats.state(kind, [(o["op"], o["fault"] if o["op"] == "fault" else "") for o in sc["ops"]])


def points(ctx, m, arrays, o):
    """A motion moves points alike alone, together, and with a time for each."""
    import torch
    r = world.rs(o["seed"])
    n = [1, 2, 3, 7][o["seed"] % 4]
    v, T = r.uniform(-100, 100, (n, 4, 3)), r.uniform(0, 1, n)
    if o["time"] in (0., 1.):
        T[0] = o["time"]
    poses = [model.motion_at(arrays, float(t)) for t in T]
    want = np.array([[R @ p + c for p in q] for (R, c), q in zip(poses, v)])
    turned = np.array([R @ q[0] for (R, _), q in zip(poses, v)])
    cast = torch.from_numpy if o["time_as"] == "tensor" else np.array
    got = {"blocks of points": (ctx.do("move", m, cast(v), cast(T)), want),
           "points": (ctx.do("move", m, cast(v[:, 0]), torch.from_numpy(T)), want[:, 0]),
           "points at one time": (ctx.do("move", m, cast(v[0]), time_of({**o, "time": float(T[0])})), want[0]),
           "one point": (ctx.do("move", m, cast(v[0, 0]), time_of({**o, "time": float(T[0])})), want[0, 0]),
           "vectors": (ctx.do("rotate", m.rotate, cast(v[:, 0]), cast(T)), turned),
           "one vector": (ctx.do("rotate", m.rotate, cast(v[0, 0]), float(T[0])), turned[0])}
    size = 200 + np.abs(arrays[2]).max() + np.abs(arrays[3]).max()
    for k, (a, b) in got.items():
        a = world.to_np(a)
        ctx.check(a.shape == b.shape and np.abs(a - b).max() <= 1e-12 * size * 10, "a motion moves points wrongly",
                  lambda: f"{n} {k} off by {np.abs(a - b).max() if a.shape == b.shape else a.shape}")


def compare_mesh_reload(ctx, obj, want, n):
    now = world.state(obj)
    size = 1 + np.abs(want["coord"]).max()
    for k in ("coord", "ecentroids", "centroid", "enormals", "evolumes", "enod", "efaces"):
        a, b = np.asarray(now[k], float), np.asarray(want[k], float)
        scale = size**3 if k == "evolumes" else size
        ctx.check(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * scale * (1 + n)), "pose is wrong", f"mesh.{k} after a reload")


def bounding(ctx, s):
    """The balls of a new mesh, which decide what the beam illuminates, are those documented."""
    for e, p in enumerate(s["coord"][s["enod"].astype(int)]):
        c, r = s["espherecentroids"][e], float(np.ravel(s["eradius"])[e])
        options = model.balls(p)
        flat = np.linalg.norm(p - p.mean(0), axis=1).max() ** 3 / max(abs(np.linalg.det(p[1:] - p[0])), 1e-300)
        tol = 1e-9 * (1 + np.abs(p).max()) * max(1., flat) ** 2
        near = [b for b in options if np.abs(b[0] - c).max() <= tol and abs(b[1] - r) <= 2e-4 * r + tol]
        ctx.check(near, "bounding ball is another one", lambda: f"element {e}: centre {c} radius {r} and not {options}")


def geometry(ctx, kind, obj):
    """The derived quantities fit the nodes."""
    for mesh in ((obj,) if kind == "mesh" else (obj.mesh_lab, obj.mesh_sample)):
        s = world.state(mesh)
        x = s["coord"][s["enod"].astype(int)]
        size = 1 + np.abs(s["coord"]).max()
        tol = 1e-8 * size
        ctx.check(np.abs(x.mean(1) - s["ecentroids"]).max() <= tol, "derived quantity does not fit the nodes", "ecentroids")
        ctx.check(np.abs(np.atleast_2d(s["centroid"]) - x.mean(1).mean(0)).max() <= tol, "derived quantity does not fit the nodes", "centroid")
        v = np.abs(np.linalg.det(x[:, 1:] - x[:, :1])) / 6
        ctx.check(np.abs(v - np.abs(s["evolumes"])).max() <= 1e-8 * (size + v.max()), "derived quantity does not fit the nodes", "evolumes")
        r = np.linalg.norm(x - s["espherecentroids"][:, None], axis=2)
        ctx.check(np.all(r <= s["eradius"].reshape(-1, 1) * (1 + 1e-6) + tol), "bounding ball leaves out a node", lambda: str((r - s["eradius"].reshape(-1, 1)).max()))
        f = s["coord"][s["efaces"].astype(int)]
        c = f.mean(2)
        nrm = s["enormals"]
        ctx.check(np.abs(np.linalg.norm(nrm, axis=2) - 1).max() < 1e-8, "derived quantity does not fit the nodes", "length of normals")
        for a in (1, 2):
            e = f[:, :, a] - f[:, :, 0]
            ctx.check(np.abs((e * nrm).sum(2) / np.linalg.norm(e, axis=2)).max() < 1e-6, "derived quantity does not fit the nodes", "normals")
        ctx.check(np.all(((c - s["ecentroids"][:, None]) * nrm).sum(2) > 0), "derived quantity does not fit the nodes", "normals point inwards")
