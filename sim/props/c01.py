"""C01: a saved object comes back exactly as it was."""
import os

import numpy as np

from .. import store, world
from ..disk import Faults

PROCESSES = ("new",)
QUICK, THOROUGH = 1600, 40000
LEVEL = "exploration"
RULE = ("a run counts when an object went through save and load; distinct = different event logs "
        "(object, operations before the save, file name, splits and interrupts of reads and writes)")
STATES = "distinct (object kind, kinds of operations before the save, class of file name, disturbance)"
REAL = ["xrd_simulator: all save and load methods, diffract and render", "dill, meshio, h5py, libhdf5"]
STUB = ["file calls below the scratch directory: simulated disk that splits and interrupts reads and writes"]
ASSUMPTIONS = ["names of mesh files contain no colon (the XDMF format uses it as a separator)"]
OPS = ("transform", "diffract", "render", "reload", "update", "translate", "rotate", "vertices", "save_elsewhere")
FITS = {"polycrystal": ("transform", "diffract", "reload", "save_elsewhere"), "mesh": ("update", "translate", "rotate", "reload", "save_elsewhere"),
        "beam": ("vertices", "diffract", "reload"), "detector": ("render", "reload", "save_elsewhere"), "motion": ("diffract", "reload")}


def generate(rng, i, tier):
    kind = store.KINDS[i % 5]
    x = world.gen_experiment(rng, big=4, small=True)
    ops = [{"op": rng.choice(FITS[kind]), "seed": rng.getrandbits(31), "time": rng.random()} for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    path = store.gen_path(rng, kind)
    plan = []
    how = rng.choice(["none", "short", "eintr", "both"])
    if how in ("short", "both"):
        plan.append({"kind": "short", "p": rng.choice([.05, .3, .9]), "seed": rng.getrandbits(31)})
    if how in ("eintr", "both"):
        plan.append({"kind": "eintr", "p": rng.choice([.02, .2, .5]), "seed": rng.getrandbits(31)})
    return {"kind": kind, "x": x, "ops": ops, "path": path, "plan": plan, "how": how,
            "xdmf": rng.random() < .5, "data": rng.choice([None, "a", "abc"]), "over": rng.random() < .4,
            "cif": rng.random() < .2, "tensor_data": rng.random() < .5, "elsewhere": rng.random() < .15}


def shrink(sc):
    for k in range(len(sc["ops"])):
        yield {**sc, "ops": sc["ops"][:k] + sc["ops"][k + 1:]}
    for key, v in (("plan", []), ("over", False), ("xdmf", False), ("elsewhere", False), ("cif", False), ("data", None),
                   ("path", {"dir": "", "name": "x", "relative": False})):
        if sc[key] != v:
            yield {**sc, key: v}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


def execute(sc, ctx):
    kind, x = sc["kind"], sc["x"]
    if sc["cif"]:
        x = {**x, "sample": {**x["sample"], "phases": ["quartz+cif"]}}
    path = store.path_of(ctx, sc["path"])
    s, b, m, d = world.experiment(x)
    R = world.frame(x)
    obj = {"polycrystal": s, "beam": b, "motion": m, "detector": d}.get(kind)
    if kind == "mesh":
        obj = world.mesh(x["sample"], R)
    moved = False
    for n, o in enumerate(sc["ops"]):
        op = o["op"]
        r = world.rs(o["seed"])
        mo = world.motion({"seed": o["seed"], "degrees": 30., "translate": 20., "origin": 10.})
        if op == "transform":
            ctx.do(op, obj.transform, mo, o["time"])
        elif op == "update":
            ctx.do(op, obj.update, mo, o["time"])
            moved = True
        elif op == "translate":
            ctx.do(op, obj.translate, r.normal(size=3) * 10)
            moved = True
        elif op == "rotate":
            a = r.normal(size=3)
            ctx.do(op, obj.rotate, a / np.linalg.norm(a), r.uniform(.1, 3))
            moved = True
        elif op == "vertices":
            # a narrower beam
            import torch
            v = world.to_np(obj.vertices)
            ctx.do(op, obj.set_beam_vertices, torch.from_numpy(v.mean(0) + (v - v.mean(0)) * r.uniform(.3, 1.)))
        elif op == "diffract":
            args = {"polycrystal": (obj, b, m), "beam": (s, obj, m), "motion": (s, b, obj)}[kind]
            ctx.do(op, world.diffract, x, *args)
        elif op == "render":
            ctx.do(op, obj.render, world.diffract(x, s, b, m), 2, "micro")
        elif op == "save_elsewhere":
            ctx.do("save", save, sc, kind, obj, os.path.join(ctx.scratch, f"else{n}"))
        elif op == "reload":
            p = os.path.join(ctx.scratch, f"tmp{n}")
            ctx.do("save", save, sc, kind, obj, p)
            obj = ctx.do("load", store.load, kind, store.full(kind, p))
            moved = False if kind == "mesh" else moved
    found = store.full(kind, path)
    near = os.path.dirname(os.path.join(ctx.scratch, found))
    stem = os.path.splitext(os.path.basename(found))[0]
    for k, name in enumerate((stem, stem + ".txt", stem + ".tmp", stem + ".bak", "." + stem, stem.split(".")[0] or "z",
                              stem.split(".")[0] + ".xdmf", stem.split(".")[0] + ".pc", stem.split(".")[0] + ".h5")):
        q = os.path.join(near, name)
        if not os.path.lexists(q) and os.path.abspath(q) not in {os.path.abspath(f) for f in store.own_files(kind, found, True)}:
            with open(q, "wb") as f:
                f.write(b"bystander %d" % k)
    if sc["over"]:
        ctx.do("save", save, sc, kind, obj, path)
    before, start = world.state(obj), ctx.disk.content()
    expect = store.expected(kind, obj)
    fs = Faults(sc["plan"], ctx.stats)
    with ctx.disk.running(fs):
        data, tensors = ctx.do("save", save, sc, kind, obj, path)
    diff = world.same_state(world.state(obj), before)
    ctx.check(diff is None, "saving changes the object", f"{kind}.{diff}")
    if data is not None:
        ctx.check(data.keys() == tensors.keys() and all(np.array_equal(world.to_np(data[k]), world.to_np(tensors[k])) and type(data[k]) is type(tensors[k])
                                                        for k in data), "saving changes the data saved", kind)
    own = {os.path.relpath(os.path.abspath(f), ctx.disk.root) for f in store.own_files(kind, found, sc["xdmf"])}
    now = ctx.disk.content()
    wrong = [k for k in sorted(set(start) | set(now)) if k not in own and start.get(k, 0) != now.get(k, 0)]
    ctx.check(not wrong, "saving touches other files", f"{kind} to {sc['path']['name']!r}: {wrong[:3]}")
    ctx.check(all(f in now for f in own), "a file is missing", f"{kind} to {sc['path']['name']!r}: {sorted(own - set(now))}")
    with ctx.disk.running(Faults(sc["plan"], ctx.stats)):
        got = ctx.do("load", store.load, kind, found)
    ctx.check(ctx.disk.content() == now, "loading changes files", kind)
    ctx.check(type(got) is store.cls(kind), "loaded object is of another class", str(type(got)))
    diff = world.same_state(world.state(got), expect)
    ctx.check(diff is None, "loaded object differs", f"{kind}.{diff} after {[o['op'] for o in sc['ops']]}")
    if kind == "mesh":
        tol = 1e-9 if moved else 0.
        skip = ("eradius", "espherecentroids") if moved else ()
        diff = world.same_state({k: v for k, v in world.state(got).items() if k not in skip},
                                {k: v for k, v in before.items() if k not in skip}, tol)
        ctx.check(diff is None, "loaded mesh differs", f"{kind}.{diff} after {[o['op'] for o in sc['ops']]}")
        if data is not None:
            import meshio
            stored = meshio.xdmf.read(found).cell_data
            ctx.check(set(stored) == set(data) and all(np.array_equal(np.ravel(stored[k]), np.ravel(world.to_np(data[k]))) for k in data),
                      "element data differs", f"{sorted(stored)}")
    if sc["elsewhere"]:  # also in a process that did not save it
        theirs, error = ctx.elsewhere(works, kind, found, x)
        ctx.check(error is None, "loading in another process fails", lambda: f"{kind}: {error[1]}")
        diff = world.same_state(theirs["state"], world.state(got))
        ctx.check(diff is None, "an object loaded in another process differs", f"{kind}.{diff}")
    # The loaded object works as the saved one does.
    s2, b2, m2, d2 = s, b, m, d
    if kind == "polycrystal":
        s, s2 = obj, got
        for p, q in zip(s.phases, s2.phases):
            ctx.check((list(p.unit_cell), p.sgname, p.path_to_cif_file) == (list(q.unit_cell), q.sgname, q.path_to_cif_file),
                      "loaded object differs", "phase")
        if sc["xdmf"]:
            check_xdmf(ctx, found[:-3] + ".xdmf", obj)
    elif kind == "beam":
        b, b2 = obj, got
    elif kind == "motion":
        m, m2 = obj, got
    elif kind == "detector":
        d, d2 = obj, got
    if kind != "mesh":
        method = ["micro", "nano", "macro", "auto"][x["sample"]["seed"] % 4]
        images = []
        for args in ((s, b, m, d), (s2, b2, m2, d2)):
            np.random.seed(7)
            import torch
            torch.manual_seed(7)
            from .. import env
            env.reseed(7)
            p = ctx.do("diffract", world.diffract, x, *args[:3])
            p = world.take(p, 60)
            img, _ = ctx.do("render", args[3].render, p, 2, method)
            images.append((world.peaks(p), world.to_np(img)))
        if sc["elsewhere"]:
            images.append((theirs["peaks"], theirs["image"]))
            ctx.check(world.same_peaks(images[0][0], images[2][0]), "an object loaded in another process diffracts differently", kind)
            ctx.check(world.same_image(images[0][1], images[2][1]), "an object loaded in another process renders differently", kind)
        ctx.check(world.same_peaks(images[0][0], images[1][0]), "loaded object diffracts differently", kind)
        ctx.check(world.same_image(images[0][1], images[1][1]), "loaded object renders differently", kind)
        ctx.log("image", images[1][1])
    ctx.nontrivial = True
    ctx.log("saved", kind, sc["path"], [o["op"] for o in sc["ops"]], world.state(got))
    ctx.stats.state(kind, sorted({o["op"] for o in sc["ops"]}), sc["path"]["name"][:12], sc["path"]["dir"], sc["how"])


def works(kind, found, x):
    """State of a loaded object, and what it gives together with newly made others."""
    import torch
    from .. import env
    got = store.load(kind, found)
    out = {"state": world.state(got)}
    if kind != "mesh":
        parts = dict(zip(("polycrystal", "beam", "motion", "detector"), world.experiment(x)))
        parts[kind] = got
        np.random.seed(7)
        torch.manual_seed(7)
        env.reseed(7)
        p = world.take(world.diffract(x, parts["polycrystal"], parts["beam"], parts["motion"]), 60)
        img, _ = parts["detector"].render(p, 2, ["micro", "nano", "macro", "auto"][x["sample"]["seed"] % 4])
        out.update(peaks=world.peaks(p), image=world.to_np(img))
    return out


def save(sc, kind, obj, path):
    """Returns the element data passed and a copy made before."""
    if kind == "mesh":
        if sc["data"] is None:
            obj.save(path)
            return None, None
        import torch
        n = obj.number_of_elements
        data = {f"field {c}": world.rs(i).normal(size=n) for i, c in enumerate(sc["data"])}
        data["ints"] = np.arange(n)
        if sc["tensor_data"]:
            data["field a"] = torch.from_numpy(data["field a"])
        copy = {k: v.clone() if torch.is_tensor(v) else v.copy() for k, v in data.items()}
        obj.save(path, element_data=data)
        return data, copy
    if kind == "polycrystal":
        obj.save(path, save_mesh_as_xdmf=sc["xdmf"])
    else:
        obj.save(path)
    return None, None


def check_xdmf(ctx, path, obj):
    """The mesh written along with a polycrystal shows the sample, in sample coordinates."""
    import meshio
    mesh = meshio.xdmf.read(path)
    ctx.check(np.array_equal(mesh.points, world.to_np(obj.mesh_sample.coord)) and
              np.array_equal(mesh.cells_dict["tetra"], world.to_np(obj.mesh_sample.enod)), "exported mesh differs", "nodes")
    e = world.to_np(obj.strain_sample)
    for name, (i, j) in {"xx": (0, 0), "yy": (1, 1), "zz": (2, 2), "xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}.items():
        ctx.check(np.array_equal(np.ravel(mesh.cell_data[f"Strain Tensor Component {name}"]), e[:, i, j]), "exported strain differs", name)
    ctx.check(np.array_equal(np.ravel(mesh.cell_data["Material Phase Index"]), world.to_np(obj.element_phase_map)), "exported phases differ", "")
    U = world.to_np(obj.orientation_sample)
    a, b, c = [np.radians(np.ravel(mesh.cell_data[f"Bunge Euler Angle {k} [degrees]"])) for k in ("phi_1", "Phi", "phi_2")]
    V = np.array([euler(*t) for t in zip(a, b, c)])
    ctx.check(np.abs(U - V).max() < 1e-6, "exported orientations differ", lambda: str(np.abs(U - V).max()))


def euler(p, t, q):
    """Bunge Euler angles to the crystal-to-sample matrix."""
    cz = lambda a: np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.]])
    cx = np.array([[1., 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])
    return cz(p) @ cx @ cz(q)
