"""C09: images do not depend on free memory or on batching."""
import collections
import contextlib
import sys

import numpy as np

from .. import env, faults, world

QUICK, THOROUGH = 1100, 40000
LEVEL = "exploration"
RULE = ("a run counts when peaks were rendered under several memory reports, groupings or orders; distinct = different event logs "
        "(set-up, reports, groupings, images)")
STATES = "distinct (what was varied, method, frames, batches, number of peaks by magnitude)"
REAL = ["xrd_simulator: diffract, render by every method, memory probe; torch, scipy"]
STUB = ["the operating system's report of memory (psutil.virtual_memory): lies, fluctuates, fails, or psutil is missing",
        "random numbers of the sampling, which depend on the request and not on earlier draws"]
ASSUMPTIONS = ["images are compared to 3e-7 of their maximum (sums in different order)",
               "with overlapping limits of grain volume either of the two methods may render a peak"]
Memory = collections.namedtuple("Memory", "total available percent used free")


def generate(rng, i, tier):
    what = rng.choice(["memory", "memory", "memory", "split", "split", "order", "auto", "auto", "many"])
    x = world.gen_experiment(rng, big=4, small=True, full=rng.random() < .8)
    x["sample"]["spread"] = rng.choice([0., 20., 50.])
    x["sample"]["scale"] = rng.choice([.003, .02, .1, 1., 10., 60.])
    x["sample"]["vary"] = rng.choice([0., 1., 4.])
    x["sample"]["layout"] = "free"
    x["sample"]["strain"] = 0.
    x["motion"]["degrees"] = rng.choice([4., 10., 30.])
    x["motion"]["translate"] = min(x["motion"]["translate"], 5.)
    if x["sample"]["scale"] < 1:
        x["sample"]["spread"] = rng.choice([0., 50.])
    x["detector"] = world.gen_near(rng, x)
    method = rng.choice(["nano", "nano", "micro", "macro", "auto"])
    if what == "auto":
        method = "auto"
        x["sample"].update(scale=1., vary=5., n=rng.choice([4, 8]))
    if what == "many":
        method = rng.choice(["micro", "micro", "auto"])
        x["sample"]["scale"] = 5.
    if method == "macro":
        x["sample"]["scale"] = rng.choice([5., 60.])
    plans = []
    for _ in range(rng.choice([2, 3])):
        k = rng.choice(["constant", "constant", "fluctuating", "falling", "failing", "flaky", "missing", "bogus"])
        plans.append({"kind": k, "seed": rng.getrandbits(31), "bytes": 10 ** rng.uniform(2, 19), "after": rng.randrange(4)})
    limits = None
    if method == "auto" and rng.random() < .5:
        a, b = 10 ** rng.uniform(-7, 5), 10 ** rng.uniform(-7, 5)
        limits = rng.choice([[a, b], [a, a], [0., 0.], [1e30, 1e30], [1e30, 0.], "at a grain", "between", "between", "between"])
    return {"x": x, "what": what, "method": method, "frames": rng.choice([1, 1, 2, 5]), "plans": plans, "limits": limits,
            "peaks": rng.choice([2, 8, 25, 60]), "many": rng.choice([10001, 12345, 20000, 27000, 50000, 50001, 50001, 51000, 100001, 200001]), "seed": rng.getrandbits(31),
            "parts": rng.choice([2, 3, 99]), "faint": rng.choice([[0, .8], [.5, 1], [.1, .9]]) if what == "many" and rng.random() < .4 else None, "verbose": rng.random() < .15, "unfit": rng.choice([.2, .6]) if rng.random() < .15 else 0., "tiny": what == "auto" and rng.random() < .2}


def shrink(sc):
    if sc["unfit"]:
        yield {**sc, "unfit": 0.}
    if sc["peaks"] > 1:
        yield {**sc, "peaks": sc["peaks"] // 2}
    for k in range(len(sc["plans"])):
        if len(sc["plans"]) > 1:
            yield {**sc, "plans": sc["plans"][:k] + sc["plans"][k + 1:]}
    for key, v in (("frames", 1), ("verbose", False), ("limits", None), ("parts", 2), ("faint", None), ("tiny", False)):
        if sc[key] != v:
            yield {**sc, key: v}
    if sc["many"] != 10001:
        yield {**sc, "many": 10001}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


@contextlib.contextmanager
def memory(plan, stats):
    """The operating system reports memory as planned."""
    import psutil
    r = world.rs(plan["seed"])
    kind, n = plan["kind"], [0]

    def report():
        k = n[0]
        n[0] += 1
        stats.fault(f"memory_report_{kind}")
        free = plan["bytes"]
        if kind == "fluctuating":
            free = 10 ** r.uniform(2, 19)
        elif kind == "falling":
            free = free / 1000. ** k
        elif kind == "failing" or (kind == "flaky" and k >= plan["after"] % 2):
            raise OSError(2, "No such file or directory: '/proc/meminfo'")
        elif kind == "bogus":
            free = [0, -1, 1 << 70][k % 3] if plan["seed"] % 2 else [0, 1 << 70][k % 2]
        return Memory(64 << 30, int(free), 50., 1, int(free))

    if kind == "missing":
        before = sys.modules["psutil"]
        sys.modules["psutil"] = None
        stats.fault("memory_report_missing")
        try:
            yield n
        finally:
            sys.modules["psutil"] = before
    else:
        with faults.patched(psutil, "virtual_memory", report):
            yield n


def subset(p, index):
    out = dict(p)
    out["peaks"] = p["peaks"][index]
    return out


def tile(p, n, seed):
    """A result of n peaks: those of p, again and again from slightly different places and times."""
    import torch
    r = world.rs(seed)
    rows = world.to_np(p["peaks"])
    c = list(p["columns"])
    rows = rows[r.randint(0, len(rows), n)]
    for a in "xyz":
        rows[:, c.index(f"Source_{a}")] += r.uniform(-300, 300, n)
    rows[:, c.index("diffraction_times")] = r.uniform(0, 1, n)
    rows[:, c.index("volumes")] *= np.exp(r.uniform(-1, 1, n))
    rows[:, c.index("peak_index")] = np.arange(n)
    out = dict(p)
    out["peaks"] = torch.from_numpy(rows)
    return out


def execute(sc, ctx):
    x, method, frames = sc["x"], sc["method"], sc["frames"]
    s, b, m, d = ctx.do("set-up", world.experiment, x)
    p = ctx.do("diffract", world.diffract, x, s, b, m)
    if sc["tiny"]:  # pixels so small that the limits of the automatic choice overlap
        det = dict(x["detector"])
        V = world.to_np(p["peaks"])[:, list(p["columns"]).index("volumes")]
        if len(V):
            k = np.argmin(np.abs(np.log(V / 1e-5)))
            d = tiny(ctx, x, p, k)
    # only peaks that hit the detector matter
    q = ctx.do("peaks_detector_intersection", d.peaks_detector_intersection, p, 1, False)
    hit = set(world.columns(q, "peak_index").astype(int).tolist())
    ids = world.columns(p, "peak_index").astype(int)
    r = world.rs(sc["seed"])
    index = [k for k in world.order(p) if ids[k] in hit]
    r.shuffle(index)
    p = subset(p, np.array(index[:sc["peaks"]], int))
    if not len(p["peaks"]):
        ctx.log("no peaks")
        return
    if sc["what"] == "many":
        p = tile(p, sc["many"] if method == "micro" else 300, sc["seed"])
        if sc["faint"]:  # one after another, too weak to be seen: whole batches without a trace
            a, b = (int(f * len(p["peaks"])) for f in sc["faint"])
            p["peaks"][a:b, list(p["columns"]).index("volumes")] *= 1e-25
    n = len(p["peaks"])
    kw = {}
    V = world.columns(p, "volumes")
    if sc["limits"] == "at a grain":
        kw = {"macro_grain_limit": float(V[r.randint(n)]), "micro_grain_limit": float(V[r.randint(n)])}
    elif sc["limits"] == "between":
        u = np.unique(V)
        u = np.sqrt(np.r_[u[0] / 2, u] * np.r_[u, u[-1] * 2])
        a, c = u[r.randint(len(u))], u[r.randint(len(u))]
        if sc["seed"] % 4:
            a, c = max(a, c), min(a, c)
        kw = {"macro_grain_limit": float(a), "micro_grain_limit": float(c)}
    elif sc["limits"]:
        kw = {"macro_grain_limit": sc["limits"][0], "micro_grain_limit": sc["limits"][1]}
    drew = [0]

    def render(q, how=method, plan=None, verbose=False, **kws):
        env.reseed(sc["seed"])
        env.stateless(sc["seed"])
        before = np.random.get_state()[1].copy(), env._state["drawn"]
        with memory(plan, ctx.stats) if plan else contextlib.nullcontext([0]) as reports:
            img, out = ctx.do(f"render {how}", d.render, q, frames, how, verbose=verbose, **kws)
        drew[0] += not np.array_equal(before[0], np.random.get_state()[1])
        ctx.stats.probe("volumes sampled at random", env._state["drawn"] > before[1])
        return world.to_np(img), world.to_np(out["peaks"])

    used = [c for c, on in (("lorentz_factors", d.lorentz_factor), ("polarization_factors", d.polarization_factor),
                            ("structure_factors", d.structure_factor)) if on]
    if sc["unfit"] and used:  # peaks without a finite intensity are skipped, and nothing else is
        c = [str(v) for v in p["columns"]]
        bad = np.where(r.uniform(0, 1, n) < sc["unfit"])[0]
        fit = subset(p, np.setdiff1d(np.arange(n), bad))
        p = subset(p, np.arange(n))
        p["peaks"] = p["peaks"].clone()
        p["peaks"][bad, c.index(used[sc["seed"] % len(used)])] = [np.inf, np.nan][sc["seed"] // 3 % 2]
        if sc["seed"] % 3 == 0:
            p["peaks"][bad[::2], c.index(used[sc["seed"] % len(used)])] = 0.
        ctx.stats.probe("peaks without a finite intensity", len(bad) > 0)
        base, want = render(fit, **kw)
        img, rows = render(p, verbose=True, **kw)
        ctx.check(drew[0] or world.same_image(img, base), "a peak without finite intensity changes an image",
                  lambda: f"{len(bad)} of {n} peaks by {method}: sum {img.sum():.8g} and not {base.sum():.8g}")
        ctx.check(len(rows) == len(want), "a peak without finite intensity changes an image", lambda: f"{len(rows)} rows and not {len(want)}, {len(bad)} unfit")
    base, rows = render(p, **kw)
    ctx.log("base", n, base, rows.shape)
    if base.any():
        ctx.nontrivial = True
        ctx.stats.probe(f"image by {method}")
    what = f"{n} peaks by {method} in {frames} frames"

    def compare(img, kind, note):
        if drew[0]:
            ctx.stats.count("not compared")
            return
        ctx.check(world.same_image(img, base), kind,
                  lambda: f"{what}, {note}: sum {img.sum():.8g} and not {base.sum():.8g}, largest difference {np.abs(img - base).max():.3g}")

    if sc["what"] in ("memory", "many"):
        for plan in sc["plans"]:
            img, rows2 = render(p, method, plan, sc["verbose"], **kw)
            note = f"memory {plan['kind']} {plan['bytes']:.3g}"
            compare(img, "an image depends on free memory", note)
            ctx.check(np.array_equal(rows, rows2, equal_nan=True), "rendered peaks depend on free memory", f"{what}, {note}")
            ctx.stats.state("memory", method, frames, plan["kind"], int(np.log10(plan["bytes"])), len(str(n)))
    if sc["what"] in ("split", "many"):
        part = r.randint(0, sc["parts"], n) if sc["parts"] < 99 and sc["what"] == "split" else np.arange(n) if n <= 60 else r.randint(0, 2, n)
        total, plan = 0, sc["plans"][0]
        for k in range(part.max() + 1):
            total = total + render(subset(p, np.where(part == k)[0]), method, plan, **kw)[0]
        compare(total, "peaks rendered together are not the sum of peaks rendered apart", f"{part.max() + 1} parts")
        ctx.stats.state("split", method, frames, int(part.max()), len(str(n)))
    if sc["what"] in ("order", "many"):
        perm = r.permutation(n)
        img, rows2 = render(subset(p, perm), method, sc["plans"][0], **kw)
        compare(img, "an image depends on the order of peaks", "permuted")
        ctx.stats.state("order", method, frames, len(str(n)))
    if sc["what"] == "auto":
        macro = kw.get("macro_grain_limit")
        if macro is None:
            macro = float(min(d.pixel_size_z, d.pixel_size_y)) ** 3
        micro = kw.get("micro_grain_limit", 0.1 ** 3)
        big, small = V >= macro, V < micro
        edge = (np.abs(V - macro) <= 1e-9 * macro) | (np.abs(V - micro) <= 1e-9 * micro) if sc["limits"] != "at a grain" else V != V
        if edge.any():
            return
        both = big & small
        sums = 0
        for mask, how in ((big & ~both, "macro"), (small & ~both, "nano"), (~big & ~small, "micro")):
            if mask.any():
                sums = sums + render(subset(p, np.where(mask)[0]), how)[0]
        options = [sums]
        if both.any():
            ctx.stats.probe("overlapping limits")
            options = [sums + render(subset(p, np.where(both)[0]), how)[0] for how in ("macro", "nano", "micro")]
        ctx.stats.state("auto", frames, big.any(), small.any(), (~big & ~small).any(), both.any())
        ctx.stats.probe("automatic choice of several methods", sum(map(int, (big.any(), small.any(), (~big & ~small).any()))) > 1)
        ctx.check(drew[0] or any(world.same_image(base, o) for o in options), "the automatic choice does not render every peak by exactly one method",
                  lambda: f"{what}, limits {macro:.4g} and {micro:.4g}, {big.sum()} large, {small.sum()} small of {n}: "
                  f"sum {base.sum():.8g} and not {[float(np.sum(o)) for o in options]}")
    ctx.log("end", sc["what"])


def tiny(ctx, x, p, k):
    """A detector of tiny pixels around peak k."""
    from xrd_simulator.detector import Detector
    row = world.to_np(p["peaks"])[k]
    c = list(p["columns"])
    K = row[[c.index(f"K_out_{a}") for a in "xyz"]]
    S = row[[c.index(f"Source_{a}") for a in "xyz"]]
    n = world.frame(x) @ np.array([1., 0, 0])
    hit = S + K * ((2000. - S @ n) / (K @ n))
    u = world.frame(x) @ np.array([0, 1., 0])
    v = world.frame(x) @ np.array([0, 0, 1.])
    h = .05 * 20
    c0 = hit - h * u - h * v
    return Detector(c0, c0 + 2 * h * u, c0 + 2 * h * v, pixel_size=.05)
