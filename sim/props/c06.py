"""C06: a stepped, crashing, resumed scan records each reflection exactly once."""
import json
import math
import os
import threading

import numpy as np

from .. import env, faults, model, world
from ..disk import Faults
from ..sched import hooked

QUICK, THOROUGH = 520, 60000
LEVEL = "exploration"
RULE = ("a run counts when reflections were recorded and compared with the model; distinct = different event logs "
        "(set-up, crash points, recorded tables)")
STATES = "distinct (steps, step crashed in, fault, reflections recorded, phases)"
REAL = ["xrd_simulator: diffract, transform, save, load, phases, structure factors; their libraries"]
STUB = ["the scan client's loop", "simulated disk with errors, crashes and losses of power", "interrupts and allocation failures"]
ASSUMPTIONS = ["a reflection within 1e-9 of the ends of the motion, 2e-5 of its position of the beam's surface, or at a double "
               "solution may or may not be recorded",
               "Bragg limits apply to the unstrained cell; strain convention B0 = F B, F'F = 1 + 2e",
               "the centre of an element's bounding sphere is taken from the sample (checked in C04)"]


def generate(rng, i, tier):
    names = rng.choice([["al"], ["fe"], ["al", "fe"], ["ti"], ["quartz"], ["quartz+cif"], ["al", "ti", "quartz+cif"],
                        ["ortho"], ["ortho+cif"], ["ortho+cif", "al", "quartz+cif"], ["quartzu+cif"], ["mono"], ["tric"], ["fe", "mono"], ["al", "al"]])
    x = world.gen_experiment(rng, big=5, phases=names)
    x["sample"]["same_orientation"] = rng.random() < .15
    x["sample"]["same_strain"] = rng.random() < .15
    if rng.random() < .5:
        x["beam"] = world.gen_beam(rng, True)
    elif rng.random() < .5:
        x["sample"]["spread"] = 50.
    if names[0] in ("al", "fe") and x["beam"]["wavelength"] > .4:
        x["beam"]["wavelength"] = .2
    if x["motion"]["degrees"] < 5:
        x["motion"]["degrees"] = rng.choice([3., 10., 30.])
    hi = {"al": 9., "fe": 9.}.get(names[0], 4.)
    x["bragg"] = [rng.choice([0., 0., 1., 2.5]), rng.choice([hi, hi, hi * .6 + 1])]
    if rng.random() < .1:
        x["bragg"] = [2., 2.5]
    if x["motion"]["degrees"] > 60 and len(names) > 1:
        x["motion"]["degrees"] = 20.
    if rng.random() < .03:
        x["motion"]["degrees"] = 179.
    detector = rng.random() < .25 and names[0] in ("al", "fe", "ti")
    if detector:  # keeps the number of planes small
        x["beam"]["wavelength"] = .45
        x["detector"]["distance"] = 250000.
    k = rng.choice([1, 2, 2, 3, 4, 6])
    crashes = [{"kind": rng.choice(["crash", "power", "errno", "interrupt", "torch_memory", "c_memory", "line"]),
                "frac": rng.random(), "seed": rng.getrandbits(31), "err": rng.randrange(6)}
               for _ in range(rng.choice([0, 1, 2, 3]) if k > 1 else rng.choice([0, 1]))]
    rest = {"whole": rng.random() < .5, "xdmf": rng.random() < .1, "pre": rng.random() < .4, "again": rng.random() < .3}
    if rng.random() < .12:  # crystals along the axes, where coefficients of the condition vanish exactly
        x["frame"] = rng.choice([None, rng.getrandbits(31)])
        x["sample"].update(aligned=True, phases=["four"], strain=0., n=rng.randint(1, 3), spread=50.)
        x["beam"] = {**world.gen_beam(rng, True), "wavelength": rng.choice([1., 2., 2., .8])}
        x["motion"].update(axis=rng.choice(["z", "z", "y"]), degrees=rng.choice([30., 90., 120., 179.]))
        x["bragg"] = [0., rng.choice([50., 60., 85., 90.])]
        k, detector, crashes, rest["pre"] = rng.choice([1, 1, 2]), False, crashes[:1], False
    elif detector and rng.random() < .5:  # the direct beam meets a corner of the detector
        x["sample"].update(centred=True, layout="free")
        x["detector"]["centre"] = [0., 0.]
        x["frame"] = rng.getrandbits(31)
        x["beam"].update(world.gen_beam(rng, True), wavelength=.45)
        rest["pre"], k = False, rng.choice([1, 2])
    elif rng.random() < .08:  # lit at both ends of the motion and not between
        x["frame"] = rng.choice([None, rng.getrandbits(31)])
        r = rng.choice([200., -200., 500.])
        x["motion"].update(excursion=r, degrees=rng.choice([60., 120., 170.]), translate=rng.choice([0., 5.]))
        x["sample"].update(spread=20., layout="free")
        sagitta = abs(r) * (1 - math.cos(math.radians(x["motion"]["degrees"] / 2)))
        x["beam"] = {**x["beam"], "width": sagitta * rng.choice([.3, .7, .95]) + 10., "sides": 4, "aspect": 8., "shift": [0., 0.]}
        if len(names) > 1 or names[0] not in ("al", "fe"):
            x["bragg"][1] = min(x["bragg"][1], 3.)
            x["bragg"][0] = min(x["bragg"][0], 1.)
        rest["pre"], k, detector = False, rng.choice([1, 1, 2]), False
    return {"x": x, "steps": k, "crashes": crashes, "detector": detector, **rest}


def shrink(sc):
    c = sc["crashes"]
    for j in range(len(c)):
        yield {**sc, "crashes": c[:j] + c[j + 1:]}
    for k in (1, 2):
        if k < sc["steps"]:
            yield {**sc, "steps": k}
    for key in ("detector", "xdmf", "pre", "again"):
        if sc[key]:
            yield {**sc, key: False}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


class Killed(BaseException):
    pass


def record(path, table):
    """The client's own durable write."""
    with open(path + ".tmp", "w") as f:
        json.dump(table, f)
        f.flush()
        os.fsync(f.fileno())
    os.replace(path + ".tmp", path)
    fd = os.open(os.path.dirname(path), os.O_RDONLY)
    os.fsync(fd)
    os.close(fd)


def client(sc, arrays, root, calls):
    """One life of the process that measures: resumes from what is on disk."""
    from xrd_simulator.beam import Beam
    from xrd_simulator.detector import Detector
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal
    x, k = sc["x"], sc["steps"]
    at = lambda *p: os.path.join(root, *p)
    if not os.path.exists(at("ready")):
        R = world.frame(x)
        s = world.sample(x["sample"], R)
        if sc["pre"]:
            s.transform(RigidBodyMotion(*pre_motion(x)), .7)
        s.save(at("scan_0"), save_mesh_as_xdmf=sc["xdmf"])
        world.beam(x["beam"], R).save(at("beam"))
        world.detector(x["detector"], R).save(at("detector"))
        for i in range(k):
            RigidBodyMotion(*world.step_motion(arrays, i, k)).save(at(f"step_{i}"))
        record(at("ready"), [])
    i = max(j for j in range(k + 1) if os.path.exists(at(f"scan_{j}.pc")))
    s = Polycrystal.load(at(f"scan_{i}.pc"))
    b, d = Beam.load(at("beam.beam")), Detector.load(at("detector.det"))
    lo, hi = np.radians(x["bragg"])
    while i < k:
        m = RigidBodyMotion.load(at(f"step_{i}.motion"))
        calls.append(("diffract", i))
        p = s.diffract(b, m, lo, hi, d if sc["detector"] else None, verbose=False)
        rows = world.peaks(p)
        record(at(f"result_{i}"), {"columns": list(p["columns"]), "rows": rows.tolist(), "i": i})
        s.transform(m, 1.)
        s.save(at(f"scan_{i + 1}"), save_mesh_as_xdmf=sc["xdmf"])
        i += 1
        calls.append(("saved", i))


def pre_motion(x):
    return world.motion_arrays({"seed": x["motion"]["seed"] + 1, "degrees": 70., "translate": 20., "origin": 9.})


def life(sc, arrays, root, fault, ctx):
    """Run the client until it finishes or its fault ends it. Returns (finished, struck, error)."""
    disk = ctx.disk
    if fault is None:
        calls = []
        with disk.running(Faults([], ctx.stats)):
            ctx.do("fault-free scan", client, sc, arrays, root, calls)
        return True, [], None
    kind = fault["kind"]
    before = disk.content()
    disk.reset()
    quiet = Faults([], ctx.stats)
    counter = faults.point(kind, None, ctx.stats)
    lines = [0]

    def tick(code, line):
        lines[0] += 1

    # what a life without faults does
    with disk.running(quiet), faults.inject(kind if kind not in ("crash", "power", "errno", "line") else "none", counter), hooked(tick):
        ctx.do("fault-free scan", client, sc, arrays, root, [])
    if kind in ("crash", "power"):
        at = int(fault["frac"] * (len(disk.events) + 1))
        ctx.stats.fault("power_loss" if kind == "power" else "process_crash")
        disk.restore(disk.after_crash(at, fault["seed"], kind == "power"))
        return False, [kind], None
    disk.restore(before)
    plan = [{"kind": "errno", "at": int(fault["frac"] * quiet.count), "err": fault["err"]}] if kind == "errno" else []

    def run(stats):
        p = faults.point(kind, int(fault["frac"] * max(1, counter.count)), stats)
        fs = Faults(plan, stats)
        left = [int(fault["frac"] * max(1, lines[0]))] if kind == "line" else [1 << 60]

        def die(code, line):
            left[0] -= 1
            if left[0] < 0:
                disk.dead.add(threading.get_ident())  # its libraries can do nothing more to the disk
                raise Killed()

        error = None
        with disk.running(fs), faults.inject(kind if kind not in ("errno", "line") else "none", p), hooked(die):
            try:
                client(sc, arrays, root, [])
            except (Exception, KeyboardInterrupt, Killed) as e:
                error = f"{type(e).__name__} {str(e)[:200]}"
            finally:
                disk.dead.clear()
        if left[0] < 0:
            stats.fault("process_crash")
            return False, ["killed"], None
        return error is None, fs.fired + ([p.where] if p.fired else []), error

    if sc["xdmf"]:  # libhdf5 does not survive a failed close
        return ctx.isolated(run) or (False, ["signal"], None)
    return run(ctx.stats)


def execute(sc, ctx):
    x = sc["x"]
    R = world.frame(x)
    arrays = world.motion_arrays(x["motion"], R)
    k = sc["steps"]
    root = os.path.join(ctx.scratch, "scan")
    os.makedirs(root)
    ctx.disk.reset()
    s = ctx.do("sample", world.sample, x["sample"], R)
    base = world.state(s)
    inputs = world.sample_arrays(x["sample"], R)
    check_inputs(ctx, base, inputs, x)
    start = model.motion_at(pre_motion(x), .7) if sc["pre"] else model.IDENTITY
    names = x["sample"]["phases"]
    beam = world.beam_arrays(x["beam"], R)
    corners = world.detector_arrays(x["detector"], R)[:3]
    for f in sc["crashes"]:
        done, struck, error = life(sc, arrays, root, f, ctx)
        ctx.log("life", f["kind"], done, struck, (error or "").split(" ")[0])
        if error is not None:
            ctx.check(struck, "scan fails without a fault", error)
        step = max([-1] + [j for j in range(k + 1) if os.path.exists(os.path.join(root, f"scan_{j}.pc"))])
        ctx.stats.state("crash", k, step, f["kind"], (struck or [""])[-1].split("@")[0])
    life(sc, arrays, root, None, ctx)
    # ------------------------------------------------ the record
    pose, total, sure, recorded = start, 0, 0, {}
    limits = np.radians(x["bragg"])
    unclear = False
    for i in range(k):
        step = world.step_motion(arrays, i, k)
        with open(os.path.join(root, f"result_{i}")) as f:
            got = json.load(f)
        lim = limits_with(sc, limits, base, pose, beam, corners)
        if lim is None:
            unclear = True
        else:
            want = model.reflections(inputs, base, pose, beam, step, lim, names)
            sure += compare(ctx, got, want, f"step {i} of {k}")
            total += len(got["rows"])
        recorded[i] = got
        pose = model.then(pose, model.motion_at(step, 1.))
    ctx.log("scan", total, sure, [len(recorded[i]["rows"]) for i in recorded])
    if sc["again"]:
        # a second scan over the finished one measures nothing
        before = ctx.disk.content()
        ctx.do("finished scan", client, sc, arrays, root, [])
        ctx.check(before == ctx.disk.content(), "finished scan changes files", "")
    if sc["whole"]:
        b, d, m = world.beam(x["beam"], R), world.detector(x["detector"], R), world.motion(x["motion"], R)
        if sc["pre"]:
            from xrd_simulator.motion import RigidBodyMotion
            s.transform(RigidBodyMotion(*pre_motion(x)), .7)
        p = ctx.do("diffract", world.diffract, x, s, b, m, d if sc["detector"] else None)
        lim = limits_with(sc, limits, base, start, beam, corners)
        if lim is not None:
            want = model.reflections(inputs, base, start, beam, arrays, lim, names)
            got = {"columns": list(p["columns"]), "rows": world.peaks(p).tolist()}
            n = compare(ctx, got, want, "undivided scan")
            ids = world.columns(p, "peak_index")
            ctx.check(len(set(ids)) == len(ids), "peak_index is not unique", str(ids))
            if not sc["detector"] and not unclear:
                once(ctx, want, recorded, k)
            ctx.log("whole", n)
    if sure:
        ctx.nontrivial = True
    ctx.stats.count("reflections", total)
    ctx.stats.probe("several phases", len(set(base["element_phase_map"].tolist())) > 1 and total > 0)
    ctx.stats.probe("nothing diffracts", total == 0)
    ctx.stats.probe("exactly one reflection", any(len(r["rows"]) == 1 for r in recorded.values()))
    ctx.stats.state("scan", k, len(sc["crashes"]), total, tuple(names))


def check_inputs(ctx, base, inputs, x):
    """The sample holds what it was made from."""
    coord, enod, U, strain, pm, _ = inputs
    n = len(enod)
    U, strain = np.broadcast_to(U, (n, 3, 3)), np.broadcast_to(strain, (n, 3, 3))
    one = len(x["sample"]["phases"]) == 1 and x["sample"].get("bare_phase")
    for key, want in (("orientation_sample", U), ("orientation_lab", U), ("strain_sample", strain), ("strain_lab", strain),
                      ("element_phase_map", np.zeros(n) if one else pm)):
        ctx.check(world.close(base[key], want, 1e-12), "sample differs from its inputs", key)


def limits_with(sc, limits, base, pose, beam, corners):
    """Bragg limits; None if they hang on a node at the surface of the beam."""
    if not sc["detector"]:
        return limits
    nodes = base["mesh_sample.coord"] @ pose[0].T + pose[1]
    used = np.unique(base["mesh_sample.enod"])
    inside, margin = model.beam_margin(beam[4], nodes)
    if np.any(np.abs(inside) <= margin):
        return None
    if np.any(inside > 0):
        source = nodes[inside > 0].mean(axis=0)
    else:
        source = base["mesh_sample.centroid"] @ pose[0].T + pose[1]
    hi = model.wrapping_cone(corners, beam[1], source)
    return None if hi <= limits[0] else (limits[0], hi)


VECTORS = (("G0", "G0_"), ("G", "G"), ("K_out", "K_out_"), ("Source", "Source_"))
SCALARS = ("phase_number", "structure_factors", "lorentz_factors", "polarization_factors", "volumes", "2theta", "scherrer_fwhm")


def compare(ctx, got, want, what):
    """Rows of a table of peaks against the model. Returns how many reflections were sure."""
    cols = {c: n for n, c in enumerate(got["columns"])}
    rows = np.array(got["rows"], float).reshape(-1, len(cols))
    by = {}
    for w in want:
        by.setdefault((w["grain"], w["hkl"]), []).append(w)
    used, times = set(), set()
    for r in rows:
        key = (int(r[cols["grain_index"]]), tuple(int(r[cols[c]]) for c in "hkl"))
        t = r[cols["diffraction_times"]]
        ctx.check((key, t) not in times, "a reflection is recorded twice", lambda: f"{what}: grain {key[0]} plane {key[1]} at {t}")
        times.add((key, t))
        ctx.check(not np.isnan(r).any(), "a recorded quantity is not a number", lambda: f"{what}: grain {key[0]} plane {key[1]} at {t}: "
                  f"{[c for c, v in zip(cols, r) if np.isnan(v)]}")
        near = [w for w in by.get(key, []) if abs(w["t"] - t) < 1e-9 + 20 * max(w["dt"], 0 if w["sure"] else 1e-3) and id(w) not in used]
        if not near and any(not w["sure"] for w in by.get(key, [])):
            continue
        ctx.check(near, "a reflection is recorded that does not exist", lambda: f"{what}: grain {key[0]} plane {key[1]} at {t}; "
                  f"model {[(w['t'], w['sure']) for w in by.get(key, [])]}")
        w = min(near, key=lambda w: abs(w["t"] - t))
        used.add(id(w))
        if not w["sure"]:
            continue
        rel = 1e-8 + 100 * w["dt"]
        for name, prefix in VECTORS:
            v = np.array([r[cols[prefix + a]] for a in "xyz"])
            tol = rel * (1 + np.linalg.norm(w[name]))
            ctx.check(np.all(np.abs(v - w[name]) <= tol), "a recorded quantity is wrong",
                      lambda: f"{what}: {name} of grain {key[0]} plane {key[1]} is {v} and not {w[name]}")
        for name in SCALARS:
            v, m = r[cols[name]], w[name]
            if m is None:
                continue
            # 2theta and the factors lose digits at small angles
            tol = (rel + 1e-9 / max(w["2theta"], 1e-4) ** 2) * (1 + abs(m) if name not in ("volumes", "scherrer_fwhm") else abs(m))
            if name == "lorentz_factors" and np.isfinite(m):
                tol *= 1 + abs(m) ** 2
            ctx.check(v == m or np.isfinite(m) and abs(v - m) <= tol, "a recorded quantity is wrong",
                      lambda: f"{what}: {name} of grain {key[0]} plane {key[1]} is {v} and not {m}")
    sure = [w for w in want if w["sure"]]
    for w in sure:
        ctx.check(id(w) in used, "a reflection is missing",
                  lambda: f"{what}: grain {w['grain']} plane {w['hkl']} at {w['t']}, recorded {len(rows)} of {len(sure)}")
    return len(sure)


def once(ctx, want, recorded, k):
    """Every reflection of the undivided scan is in exactly one step."""
    seen = {}
    for i, got in recorded.items():
        cols = {c: n for n, c in enumerate(got["columns"])}
        for r in got["rows"]:
            key = (int(r[cols["grain_index"]]), tuple(int(r[cols[c]]) for c in "hkl"))
            seen.setdefault(key, []).append((i + r[cols["diffraction_times"]]) / k)
    for w in want:
        edge = min((w["t"] * k) % 1, 1 - (w["t"] * k) % 1) < 1e-6
        if not w["sure"] or edge:
            continue
        n = sum(abs(t - w["t"]) < 1e-8 + 100 * w["dt"] for t in seen.get((w["grain"], w["hkl"]), []))
        ctx.check(n == 1, "a reflection is not recorded exactly once", f"grain {w['grain']} plane {w['hkl']} at {w['t']}: {n} times in {k} steps")
