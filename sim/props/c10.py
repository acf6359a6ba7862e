"""C10: frames partition the exposure."""
import numpy as np

from .. import env, model, world
from ..disk import Faults

QUICK, THOROUGH = 1300, 60000
LEVEL = "exploration"
RULE = ("a run counts when peaks hit the detector and an exposure was split; distinct = different event logs (set-up, numbers of "
        "frames, images)")
STATES = "distinct (method, frames, how split, frames that have peaks, special times)"
REAL = ["xrd_simulator: diffract, transform, save, load, peaks_detector_intersection, render by every method"]
STUB = ["random numbers of the sampling, which depend on the request and not on earlier draws", "simulated disk between steps"]
ASSUMPTIONS = ["a time within 1e-9 of a frame boundary may belong to either frame",
               "steps and frames are compared when no peak is within 1e-7 of a boundary, of the beam's surface or of the detector's edge"]


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=4, small=rng.random() < .5, full=rng.random() < .8)
    x["motion"]["degrees"] = rng.choice([4., 10., 30., 60.])
    x["sample"]["spread"] = rng.choice([0., 20., 50.])
    if x["beam"]["width"] < 1000:
        x["motion"]["origin"] = 0.
    if rng.random() < .6:
        x["detector"] = world.gen_near(rng, x)
    if rng.random() < .3:  # sizes that do not divide evenly in floating point
        D = x["detector"]
        n, m = rng.randint(1, 130), rng.randint(1, 130)
        size = rng.choice([1000., 4000., 100000.]) * D["distance"] / 80000.
        D.update(shape=[n, m], pixel=[size / n, size / m], by_count=rng.random() < .5)
        D.pop("centre", None)
    method = rng.choice(["micro", "nano", "macro", "auto"])
    if method == "nano" or rng.random() < .2:
        x["sample"]["scale"] = rng.choice([.01, .1])
    k = rng.choice([2, 3, 4, 5, 7])
    frames = rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 37, 100, 360])
    if rng.random() < .06:
        frames = rng.choice([1001, 1440, 3600, 7200])
        D, (n, m) = x["detector"], x["detector"]["shape"]
        a, b = rng.choice([6, 9, 12]), rng.choice([6, 9, 12])
        D.update(shape=[a, b], pixel=[D["pixel"][0] * n / a, D["pixel"][1] * m / b])
        D.pop("centre", None)
    if rng.random() < .05:  # rays leave backwards, towards a detector before or behind the sample
        x["bragg"] = [75., 89.]
        x["sample"].update(phases=["four"], n=min(2, x["sample"]["n"]))
        x["beam"]["wavelength"] = .45
        x["detector"]["distance"] *= rng.choice([-1., -1., 1.])
    elif rng.random() < .03:
        x["detector"]["distance"] *= -1.
    return {"x": x, "method": method, "frames": frames, "steps": k,
            "what": rng.choice(["frames", "frames", "steps"]), "peaks": rng.choice([8, 25, 60]), "seed": rng.getrandbits(31),
            "times": rng.choice(["own", "own", "random", "boundary", "ends", "late"]), "reload": rng.random() < .4,
            "bad": rng.choice([0, -1, -7, .5]) if rng.random() < .1 else None, "limits": rng.random() < .5}


def shrink(sc):
    for key, v in (("frames", 2), ("steps", 2), ("method", "micro"), ("times", "own"), ("reload", False), ("bad", None), ("peaks", 8), ("peaks", 2)):
        if sc[key] != v and not (key == "peaks" and sc[key] < v):
            yield {**sc, key: v}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


def images(ctx, d, p, n, method, seed, **kw):
    env.reseed(seed)
    env.stateless(seed)
    before = np.random.get_state()[1].copy()
    img, out = ctx.do(f"render {method}", d.render, p, n, method, verbose=False, **kw)
    return world.to_np(img), out, not np.array_equal(before, np.random.get_state()[1])


def limits(sc, p):
    if sc["method"] != "auto" or not sc["limits"] or not len(p["peaks"]):
        return {}
    V = np.unique(world.columns(p, "volumes"))
    return {"macro_grain_limit": float(V[-1] * .9), "micro_grain_limit": float(V[0] * 1.1) if len(V) > 1 else 0.}


def some(p, n, d, ctx):
    """n rows that hit the detector and have finite intensity."""
    q = ctx.do("peaks_detector_intersection", d.peaks_detector_intersection, p, 1, False)
    hit = set(world.columns(q, "peak_index").astype(int).tolist())
    ids = world.columns(p, "peak_index").astype(int)
    index = [k for k in world.order(p) if ids[k] in hit][:n]
    out = dict(p)
    out["peaks"] = p["peaks"][np.array(index, int)]
    return out


def execute(sc, ctx):
    x = sc["x"]
    if sc["what"] == "steps":
        return steps(sc, ctx)
    import torch
    s, b, m, d = ctx.do("set-up", world.experiment, x)
    full = ctx.do("diffract", world.diffract, x, s, b, m)
    p = some(full, sc["peaks"], d, ctx)
    qf = ctx.do("peaks_detector_intersection", d.peaks_detector_intersection, full, sc["frames"], False)
    N, n = sc["frames"], len(p["peaks"])
    r = world.rs(sc["seed"])
    c = list(p["columns"])
    if sc["times"] != "own" and n:
        # only the time column; the positions stay as they are
        t = {"random": r.uniform(0, 1, n), "boundary": r.randint(0, N + 1, n) / N + r.choice([0., 1e-7, -1e-7, 3e-8, 4e-9, -4e-9, 1e-12], n),
             "ends": r.choice([0., 1., 1e-300, 1 - 1e-16], n), "late": 1 - r.uniform(0, 1e-3, n)}[sc["times"]]
        p["peaks"] = p["peaks"].clone()
        p["peaks"][:, c.index("diffraction_times")] = torch.from_numpy(np.clip(t, 0, 1))
    kw = limits(sc, p)
    img, q, drew = images(ctx, d, p, N, sc["method"], sc["seed"], **kw)
    one, q1, _ = images(ctx, d, p, 1, sc["method"], sc["seed"], **kw)
    what = f"{n} peaks by {sc['method']} in {N} frames, times {sc['times']}"
    shape = tuple(x["detector"]["shape"])
    ctx.check(img.shape == (N,) + shape and one.shape == (1,) + shape, "wrong number of frames or pixels", f"{img.shape}, {what}")
    ctx.check(bool(np.isfinite(img).all() and np.isfinite(one).all()), "a pixel is not finite", what)
    # every recorded peak is in exactly one frame, the right one
    times, frame, ids = world.columns(q, "diffraction_times", "frame", "peak_index")
    ctx.check(len(set(ids)) == len(ids) and set(ids) == set(world.columns(q1, "peak_index")), "frames lose or repeat peaks", what)
    model.check_hits(ctx, full, qf, world.detector_arrays(x["detector"], world.frame(x)), x["detector"], f"{N} frames")
    ctx.check(set(ids) == set(world.columns(p, "peak_index")), "frames lose or repeat peaks", what)
    got = dict(zip(ids.astype(int), frame))
    for i, t, f in zip(ids, times, frame):
        want = min(int(np.floor(t * N)), N - 1)
        near = abs(t * N - round(t * N)) < 1e-9 * N + 1e-12
        ctx.check(f == int(f) and 0 <= f < N and (f == want or near and abs(f - t * N) <= 1.0001), "a peak is in the wrong frame",
                  lambda: f"time {t!r} in frame {f} of {N}, {what}")
    ctx.check(np.all(world.columns(q1, "frame") == 0), "a peak is in the wrong frame", f"undivided, {what}")
    # the frames add up
    if not drew:
        ctx.check(world.same_image(img.sum(axis=0), one[0], 1e-6), "frames do not sum to the integrated image",
                  lambda: f"{what}: sum {img.sum():.8g} and not {one.sum():.8g}")
        # each frame shows its peaks and no others
        for f in sorted({int(f) for f in frame} | {0, N - 1}):
            index = np.where(np.array([got[int(i)] == f for i in world.columns(p, "peak_index")], bool))[0]
            sub = dict(p)
            sub["peaks"] = p["peaks"][index]
            alone, _, drew2 = images(ctx, d, sub, 1, sc["method"], sc["seed"], **kw)
            if not drew2:
                tol = 3e-7 * max(float(np.abs(one).max()), 1e-300)
                ctx.check(np.all(np.abs(alone[0] - img[f]) <= tol), "a frame does not show its peaks",
                          lambda: f"frame {f} with {len(index)} peaks, {what}: sum {img[f].sum():.8g} and not {alone.sum():.8g}")
    if sc["bad"] is not None:
        z, qz, _ = images(ctx, d, p, sc["bad"], sc["method"], sc["seed"], **kw)
        ctx.check(z.shape == one.shape and (drew or world.same_image(z, one)), "fewer than one frame is not one frame", f"{sc['bad']}, {what}")
    ctx.log("frames", n, N, img, one, sorted(got.items()))
    ctx.stats.state(sc["method"], N, "frames", len(set(frame)), sc["times"])
    if one.any():
        ctx.nontrivial = True
        ctx.stats.probe(f"image by {sc['method']}")
        ctx.stats.probe("several frames show something", (img.reshape(N, -1).sum(1) > 0).sum() > 1)


def steps(sc, ctx):
    """Frame i of an undivided scan is the image of step i."""
    from xrd_simulator.motion import RigidBodyMotion
    x, k = sc["x"], sc["steps"]
    R = world.frame(x)
    s, b, m, d = ctx.do("set-up", world.experiment, x)
    p = ctx.do("diffract", world.diffract, x, s, b, m)
    arrays = world.motion_arrays(x["motion"], R)
    tables, sums = [], []
    with ctx.disk.running(Faults([], ctx.stats)):
        for i in range(k):
            step = RigidBodyMotion(*world.step_motion(arrays, i, k))
            tables.append(ctx.do("diffract", world.diffract, x, s, b, step))
            ctx.do("transform", s.transform, step, 1.)
            if sc["reload"]:
                ctx.do("save", s.save, ctx.scratch + "/s", False)
                s = ctx.do("load", type(s).load, ctx.scratch + "/s.pc")
                ctx.stats.fault("process restart")
    t = world.columns(p, "diffraction_times") * k
    near = np.abs(t - np.round(t)) < 1e-7
    total = sum(len(q["peaks"]) for q in tables)
    if near.any() or total != len(p["peaks"]):  # C06 tells what may be missing
        ctx.log("not compared", total, len(p["peaks"]))
        ctx.stats.count("not compared")
        return
    # rows of both in the same order, so that as many are left out
    index = world.order(p)
    n = min(sc["peaks"], len(index))
    want = dict(p)
    r = world.rs(sc["seed"])
    keep = np.sort(r.permutation(len(index))[:n])
    want["peaks"] = p["peaks"][index[keep]]
    names = [str(c) for c in p["columns"]]
    key = [names.index(c) for c in ("grain_index", "h", "k", "l", "diffraction_times")]
    rows = world.to_np(want["peaks"])[:, key]
    edge = world.columns(ctx.do("peaks_detector_intersection", d.peaks_detector_intersection, want, k, False), "zd", "yd")
    zmax, ymax = float(d.zmax), float(d.ymax)
    if len(edge[0]) and (min(np.abs(edge[0]).min(), np.abs(edge[0] - zmax).min()) < 1e-5 or min(np.abs(edge[1]).min(), np.abs(edge[1] - ymax).min()) < 1e-5):
        return
    kw = limits(sc, want)
    img, out, drew = images(ctx, d, want, k, sc["method"], sc["seed"], **kw)
    peak = max(float(np.abs(img).max()), 1e-300)
    tol = {"macro": 2e-3, "auto": 2e-3}.get(sc["method"], 3e-5)
    shown = 0
    for i in range(k):
        part = tables[i]
        theirs = world.to_np(part["peaks"])[:, key]
        mine = rows[(rows[:, 4] * k >= i) & (rows[:, 4] * k < i + 1)]
        pick = []
        for g in mine:
            j = np.where((theirs[:, :4] == g[:4]).all(axis=1) & (np.abs((theirs[:, 4] + i) / k - g[4]) < 1e-6))[0]
            ctx.check(len(j) > 0, "a step lacks a peak of its frame", f"grain and plane {g[:4]} at {g[4]} in step {i} of {k}")
            pick.append(j[0])
        sub = dict(part)
        sub["peaks"] = part["peaks"][np.array(pick, int)]
        got, _, drew2 = images(ctx, d, sub, 1, sc["method"], sc["seed"], **kw)
        ctx.stats.count("steps compared")
        if drew or drew2:
            continue
        if sc["method"] in ("macro", "auto"):
            # Rays that graze a grain and points sampled near a pixel's edge fall either way.
            a, c = img[i].sum(), got[0].sum()
            ctx.check(abs(a - c) <= 2e-3 * max(a, c) + 1e-9 * peak or not clear(img[i], got[0]), "a frame differs from the image of its step",
                      lambda: f"step {i} of {k} by {sc['method']}, {len(mine)} peaks: sum {c:.8g} and not {a:.8g}")
            far = np.abs(img[i] - got[0]).sum() > .25 * max(a, c)
            ctx.check(not far, "a frame differs from the image of its step",
                      lambda: f"step {i} of {k} by {sc['method']}, {len(mine)} peaks: differs by {np.abs(img[i] - got[0]).sum():.6g} of {a:.6g}")
        else:
            ctx.check(np.all(np.abs(img[i] - got[0]) <= tol * peak), "a frame differs from the image of its step",
                      lambda: f"step {i} of {k} by {sc['method']}, {len(mine)} peaks: sum {got.sum():.8g} and not {img[i].sum():.8g}")
        shown += bool(got.any())
    ctx.log("steps", k, n, img)
    ctx.stats.state(sc["method"], k, "steps", shown, sc["reload"])
    if shown:
        ctx.nontrivial = True
        ctx.stats.probe(f"steps by {sc['method']}")


def clear(a, b):
    """No intensity near the edges of the detector, where totals may differ."""
    rim = np.ones(a.shape, bool)
    rim[3:-3, 3:-3] = False
    return a[rim].sum() == 0 and b[rim].sum() == 0
