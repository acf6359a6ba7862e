"""C11: results do not depend on the speed of the machine or its clock."""
import numpy as np

from .. import env, geometry, sched, world
from ..disk import Clock

QUICK, THOROUGH = 900, 40000
LEVEL = "exploration"
RULE = ("a run counts when the operations of the history returned peaks or images under a faulted clock that was read or that "
        "stalled the package; distinct = different event logs (set-up, operations, clock, results)")
STATES = "distinct (operations, clock, readings by magnitude, stalls by magnitude)"
REAL = ["xrd_simulator: construction, transform, diffract, render by every method; scipy's HiGHS solver, qhull, torch"]
STUB = ["clocks of the process (clock_gettime, gettimeofday, time, clock, getrusage), Python and native code alike",
        "random numbers of the sampling, which start from the same state in each run"]
ASSUMPTIONS = ["the monotonic clocks never run backwards, as the system guarantees; the wall clock may",
               "results are compared to the last digits (1e-9 for peaks, 3e-7 for images)"]
S = 1_000_000_000
SPANS = [1, 1000, 10**6, 20 * 10**6, 10**8, S, 60 * S, 3600 * S, 40 * 86400 * S]


def gen_clock(rng):
    kind = rng.choice(["slow", "slow", "still", "jumpy", "jumpy", "backwards", "stalls", "stalls", "crawl", "all"])
    c = {"kind": kind, "now": rng.choice([0, 1, 10**6, 17 * 10**8 * S, (1 << 31) * S - 10**8]), "tick": 1000, "jumps": [], "stalls": [], "line": 0}
    if kind in ("slow", "all"):
        c["tick"] = rng.choice(SPANS[2:])
    if kind == "still":
        c["tick"] = 0
    if kind in ("jumpy", "all"):
        c["jumps"] = [[int(10 ** rng.uniform(0, 2.7)), rng.choice(SPANS[2:])] for _ in range(rng.randint(1, 20))]
    if kind in ("backwards", "all"):
        c["jumps"] += [[int(10 ** rng.uniform(0, 2.7)), -rng.choice(SPANS[2:])] for _ in range(rng.randint(1, 20))]
        c["steps"] = [[int(10 ** rng.uniform(0, 4)), rng.choice([-1, 1]) * rng.choice(SPANS[2:])] for _ in range(rng.randint(1, 8))]
    if kind in ("stalls", "all"):
        c["stalls"] = [[int(10 ** rng.uniform(0, 4.5)), rng.choice(SPANS[2:])] for _ in range(rng.randint(1, 30))]
    if kind in ("crawl", "all"):
        c["line"] = rng.choice(SPANS[1:7])
    return c


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=5, small=True, full=rng.random() < .15)
    x["sample"]["spread"] = rng.choice([0., 20., 60.])
    x["sample"]["scale"] = rng.choice([.1, 5., 30., 120.])
    x["motion"]["degrees"] = rng.choice([4., 10., 30.])
    x["motion"]["origin"] = 0.
    if rng.random() < .6:  # a beam that passes between the corners of the grains
        x["beam"] = world.gen_beam(rng, False)
        s = x["sample"]
        s["scale"], s["vary"] = rng.choice([30., 120.]), rng.choice([0., 1.])
        s["spread"] = s["scale"] * rng.choice([0., .2])
        coord, enod = world.sample_arrays(s)[:2]
        w = np.array([rng.uniform(.1, 1.) for _ in range(4)])
        at = w / w.sum() @ coord[enod[0]]
        x["beam"].update(width=s["scale"] * rng.choice([.01, .03, .1]), shift=[float(at[1]), float(at[2])])
    if rng.random() < .7:
        x["detector"] = world.gen_near(rng, x)
    x["motion"]["translate"] = min(x["motion"]["translate"], 5.)
    ops = ["diffract", "macro"] if rng.random() < .5 else ["diffract"]
    for _ in range(rng.randint(1, 4)):
        ops.append(rng.choice(["macro", "macro", "macro", "macro", "auto", "auto", "micro", "nano", "diffract", "move", "build"]))
    return {"x": x, "ops": ops, "clock": gen_clock(rng), "peaks": rng.choice([3, 10, 25]), "frames": rng.choice([1, 2, 5]),
            "verbose": rng.random() < .25, "seed": rng.getrandbits(31)}


def shrink(sc):
    if len(sc["ops"]) > 2:
        for k in range(1, len(sc["ops"])):
            yield {**sc, "ops": sc["ops"][:k] + sc["ops"][k + 1:]}
    c = sc["clock"]
    for key in ("jumps", "stalls", "steps"):
        for k in range(len(c.get(key, []))):
            yield {**sc, "clock": {**c, key: c[key][:k] + c[key][k + 1:]}}
    if c["line"]:
        yield {**sc, "clock": {**c, "line": 0}}
    for key, v in (("frames", 1), ("verbose", False), ("peaks", 3), ("peaks", 1)):
        if sc[key] != v and not (key == "peaks" and sc[key] < v):
            yield {**sc, key: v}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


def history(sc, ctx):
    """Results of all operations."""
    x = sc["x"]
    env.reseed(sc["seed"])
    s, b, m, d = ctx.do("set-up", world.experiment, x)
    lo, hi = np.radians(x["bragg"])
    out, p = [], None
    for op in sc["ops"]:
        if op == "build":
            s, b, m, d = ctx.do("set-up", world.experiment, x)
            out.append((op, {**world.state(s), "t": world.state(b)["halfspaces"], "d": world.state(d)["pixel_coordinates"]}))
        elif op == "move":
            ctx.do("transform", s.transform, m, .1)
            out.append((op, world.state(s)))
        elif op == "diffract":
            p = ctx.do("diffract", s.diffract, b, m, min_bragg_angle=lo, max_bragg_angle=hi, detector=None, verbose=sc["verbose"])
            out.append((op, world.peaks(p)))
            p = hitting(p, d, ctx, sc["peaks"])
        else:
            img, q = ctx.do(f"render {op}", d.render, p, sc["frames"], op, verbose=sc["verbose"])
            out.append((op, world.to_np(img), p, q, d))
    return out


def hitting(p, d, ctx, n):
    """The first n peaks that hit the detector."""
    q = ctx.do("peaks_detector_intersection", d.peaks_detector_intersection, p, 1, False)
    hit = set(world.columns(q, "peak_index").astype(int).tolist())
    ids = world.columns(p, "peak_index").astype(int)
    out = dict(p)
    out["peaks"] = p["peaks"][np.array([k for k in world.order(p) if ids[k] in hit][:n], int)]
    return out


def execute(sc, ctx):
    x, c = sc["x"], sc["clock"]
    # An infinitely fast machine, whose clock stands still.
    with Clock(c["now"] or S, 0, [], ctx.stats):
        want = history(sc, ctx)
    lines, passed = [0], [0]
    stalls, steps = {}, {}
    for at, by in c["stalls"]:
        stalls[at] = stalls.get(at, 0) + by
    for at, by in c.get("steps", []):
        steps[at] = steps.get(at, 0) + by
    clock = Clock(c["now"], c["tick"], c["jumps"], ctx.stats)

    def line(code, number):
        k = lines[0]
        lines[0] += 1
        if k > 20_000_000:
            ctx.fail("an operation makes no progress", f"still in {code.co_name}:{number}")
        if c["line"]:
            clock.add(c["line"])
            passed[0] += 1
        if k in stalls:
            clock.add(stalls[k])
            passed[0] += 1
            ctx.stats.fault("stall of the machine")
        if k in steps:
            clock.step(steps[k])
            ctx.stats.fault("step of the wall clock")

    with sched.hooked(line), clock:
        got = history(sc, ctx)
    reads = clock.out["reads"]
    ctx.stats.fault(f"clock {c['kind']}")
    for at, by in c["jumps"]:
        if at < reads:
            ctx.stats.fault("clock jump" if by > 0 else "wall clock set back")
    if c["line"]:
        ctx.stats.fault("slow line", passed[0])
    ctx.check([o[0] for o in want] == [o[0] for o in got], "operations differ", "")
    shown = 0
    for k, (a, g) in enumerate(zip(want, got)):
        op = a[0]
        where = f"operation {k} ({op}) with clock {c['kind']}"
        if op == "diffract":
            ctx.check(world.same_peaks(g[1], a[1]), "peaks depend on the clock", lambda: f"{where}: {len(g[1])} peaks and not {len(a[1])}")
            ctx.log(op, g[1])
        elif op in ("build", "move"):
            bad = world.same_state(g[1], a[1], 1e-12)
            ctx.check(bad is None, "objects depend on the clock", f"{where}: {bad}")
        else:
            ctx.check(world.same_image(g[1], a[1]), "an image depends on the clock",
                      lambda: f"{where}: sum {g[1].sum():.8g} and not {a[1].sum():.8g}, most at one pixel {np.abs(g[1] - a[1]).max():.4g}")
            ctx.log(op, g[1])
            shown += bool(a[1].any())
            if op == "macro" and "move" not in sc["ops"]:
                lit(ctx, x, g[1], g[2], g[3], g[4], where)
    ctx.log("clock", c["kind"], clock.out["reads"] if c["kind"] != "still" else 0)
    ctx.stats.state(sc["ops"], c["kind"], len(str(reads)), len(str(passed[0])))
    if shown and (reads or passed[0]):
        ctx.nontrivial = True


def lit(ctx, x, img, p, q, d, where):
    """Every grain that the beam illuminates shows in the image."""
    rows = geometry.illuminated(x, q)
    planes = world.beam_arrays(x["beam"], world.frame(x))[4]
    inten = world.columns(q, "intensity_factors")
    shape = img.shape[1:]
    r = world.to_np(d.gaussian_kernel).shape[0] // 2 + 2
    least, some = 0., 0
    for row, I in zip(rows, inten):
        if not row["parts"]:
            continue
        pts = np.r_[row["tet"], row["tet"].mean(0)[None]]
        out = ((pts @ planes[:, :3].T + planes[:, 3]) > 0).any(axis=1).all()
        ctx.stats.probe("a beam passes between the corners of a grain", out)
        z, y = geometry.pixels(x, row)
        inside = z.min() > r and y.min() > r and z.max() < shape[0] - r and y.max() < shape[1] - r
        if inside and np.isfinite(I) and row["width"] > 1e-3:
            least += I * row["volume"]
            some += 1
    ctx.stats.count("illuminated grains", some)
    ctx.check(img.sum() >= .95 * least, "an illuminated grain is missing in the image",
              lambda: f"{where}: {some} grains should deposit {least:.6g} in total but the image has {img.sum():.6g}")
