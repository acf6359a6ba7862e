"""C12: volume rendering conserves illuminated volume for every random draw."""
import numpy as np

from .. import env, geometry, model, world

QUICK, THOROUGH = 2400, 150000
LEVEL = "exploration"
RULE = ("a run counts when a peak that deposits intensity was rendered; distinct = different event logs (set-up, detectors aimed at "
        "the peaks, draws, images)")
STATES = "distinct (grain against pixel by magnitude, part lit, place on the detector, draws, shadow's pixels by magnitude)"
REAL = ["xrd_simulator: diffract, detector, render by volume and by the point-like methods, beam-grain intersection; qhull, HiGHS"]
STUB = ["random draws of the sampling: seeded, or adversarial (near corners and faces, always the same part of the body)"]
ASSUMPTIONS = ["faces of the beam are rounded to 6 decimals by the package: volumes are compared up to that",
               "a shadow counts as inside when its box, widened by the point spread and 2 pixels, is on the detector"]


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=3, small=rng.random() < .7, full=rng.random() < .45)
    s = x["sample"]
    s["scale"] = rng.choice([.5, 5., 30., 120.])
    s["spread"] = s["scale"] * rng.choice([0., 0., .5, 5.])
    x["motion"]["degrees"] = rng.choice([4., 10., 60.])
    if x["beam"]["width"] < 1000:
        x["motion"]["origin"] = 0.
        x["motion"]["translate"] = min(x["motion"]["translate"], 5.)
        coord, enod = world.sample_arrays(s)[:2]
        w = np.array([rng.uniform(.02, 1.) for _ in range(4)])
        at = w / w.sum() @ coord[enod[0]]
        x["beam"].update(width=s["scale"] * rng.choice([.03, .1, .3, 1.]), shift=[float(at[1]), float(at[2])])
    aims = []
    for _ in range(rng.choice([2, 3, 4])):
        aims.append({"seed": rng.getrandbits(31), "ratio": rng.choice([.05, .2, .5, 1., 1., 2., 5., 15.]), "flat": rng.choice([1., 1., .4, 3.]),
                     "place": rng.choice(["middle", "middle", "middle", "edge", "edge", "corner", "far corner", "over"]),
                     "tilt": rng.choice([0., .3, .8]), "roll": rng.uniform(0, 6.3), "distance": rng.choice([3000., 30000., 200000.]),
                     "sigma": rng.choice([.3, .5, 1., 1.6]), "shape": [rng.choice([24, 37, 60]), rng.choice([24, 37, 60])],
                     "by_count": rng.random() < .4, "kernel": rng.choice([2, 2, 4])})
    sc = {"x": x, "aims": aims, "draws": rng.choice(["seeded", "seeded", "adversarial"]), "seed": rng.getrandbits(31),
            "together": rng.choice([0, 0, 2, 6]), "frames": rng.choice([1, 1, 3]), "auto": rng.random() < .15}
    if rng.random() < .15:  # faces and edges of grains, beam and pixels coincide
        x["frame"] = None
        a = rng.choice([1., 8., 64.])
        s.update(aligned=True, phases=["four"], strain=0., layout="grid", scale=a, spread=a * rng.choice([0., 1., 2.]))
        x["beam"] = {**world.gen_beam(rng, rng.random() < .3), "wavelength": rng.choice([1., 2.])}
        if x["beam"]["width"] < 1000:
            x["beam"].update(sides=4, aspect=rng.choice([1., .5]), width=a * rng.choice([.25, .5, 1., 2.]),
                             shift=[a * rng.choice([-.5, 0., .25, .5]), a * rng.choice([-.5, 0., .25, .5])])
        x["motion"].update(axis=rng.choice(["z", "y"]), degrees=90., translate=0., origin=0.)
        x["bragg"] = [0., 60.]
        for aim in aims:
            if rng.random() < .7:
                aim.update(exact=True, tilt=0., ratio=rng.choice([1 / 16, 1 / 8, .5, 1., 2.]), distance=rng.choice([1024., 65536.]), flat=1.)
    return sc


def shrink(sc):
    for k in range(len(sc["aims"])):
        if len(sc["aims"]) > 1:
            yield {**sc, "aims": sc["aims"][:k] + sc["aims"][k + 1:]}
    for key, v in (("together", 0), ("frames", 1), ("draws", "seeded"), ("auto", False)):
        if sc[key] != v:
            yield {**sc, key: v}
    for k, a in enumerate(sc["aims"]):
        for key, v in (("tilt", 0.), ("roll", 0.), ("flat", 1.), ("by_count", False), ("sigma", 1.), ("kernel", 2), ("shape", [24, 24])):
            if a[key] != v:
                yield {**sc, "aims": sc["aims"][:k] + [{**a, key: v}] + sc["aims"][k + 1:]}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


def aimed(aim, row, keys):
    """A detector that the shadow of one grain hits at the place wanted: arguments and geometry."""
    r = world.rs(aim["seed"])
    k = row["k"] / np.linalg.norm(row["k"])
    u = np.cross(k, r.normal(size=3))
    u /= np.linalg.norm(u)
    n = world.axis_angle(u, aim["tilt"]) @ k
    z = np.cross(n, r.normal(size=3))
    z /= np.linalg.norm(z)
    z = world.axis_angle(n, aim["roll"]) @ z
    if aim.get("exact"):
        e = np.eye(3)[r.permutation(3)]
        z = next(v for v in e if abs(v @ n) < .9)
        z = z - n * (n @ z)
        z /= np.linalg.norm(z)
    y = np.cross(n, z)
    at = np.concatenate(row["parts"]).mean(axis=0) if row["parts"] else row["tet"].mean(axis=0)
    if aim.get("exact"):
        at = row["tet"][r.randint(4)]
    hit = at + aim["distance"] * k
    size = (6 * row["whole"]) ** (1 / 3)
    if aim.get("exact"):
        size = 2 ** np.round(np.log2(size))
    pz = size * aim["ratio"]
    py = pz * aim["flat"]
    nz, ny = aim["shape"]
    # extent of the shadow in pixels, to place it across the edge
    a, b = geometry.shadow(row["tet"], k, hit, z, y)
    ez, ey = np.abs(a).max() / pz, np.abs(b).max() / py
    inside = lambda m: m / 2 + r.uniform(-.5, .5) * m * .3
    rim = lambda e: r.uniform(-1., 1.5) * max(e, .6) + r.choice([0., 0., .5])
    place = aim["place"]
    if place == "middle":
        c = inside(nz), inside(ny)
    elif place == "edge":
        c = (rim(ez), inside(ny)) if r.randint(2) else (inside(nz), ny - rim(ey))
    elif place == "corner":
        c = rim(ez), rim(ey)
    elif place == "far corner":
        c = nz - rim(ez), ny - rim(ey)
    else:
        c = nz + 3 * ez + 5, inside(ny)
    if aim.get("exact"):
        c = np.round(c[0] * 2) / 2, np.round(c[1] * 2) / 2
    c0 = hit - c[0] * pz * z - c[1] * py * y
    args = c0, c0 + ny * py * y, c0 + nz * pz * z
    kw = {"n_pixels": (nz, ny)} if aim["by_count"] else {"pixel_size": (pz, py)}
    kw.update(gaussian_sigma=aim["sigma"], max_gaussian_kernel_radius=aim["kernel"], **keys)
    return args, kw, (c0, z, y, pz, py, nz, ny)


def widened(x, rows):
    """Least and greatest volumes lit, for faces of the beam rounded to 6 decimals."""
    planes = world.beam_arrays(x["beam"], world.frame(x))[4]
    out = []
    for row in rows:
        far = np.abs(row["tet"]).sum(axis=1).max() + abs(planes[:, 3]).max() * 0
        d = 2e-5 * (1 + far)
        shift = np.r_[0, 0, 0, d]
        if row["volume"] >= row["whole"] * (1 - 1e-12) and geometry.total(geometry.common(row["tet"], planes + shift)) and \
                ((row["tet"] @ planes[:, :3].T + planes[:, 3]) < -d).all():
            out.append((row["whole"], row["whole"]))
            continue
        lo = geometry.total(geometry.common(row["tet"], planes + shift))
        hi = geometry.total(geometry.common(row["tet"], planes - shift))
        out.append((lo, hi))
    return out


def subset(p, index):
    out = dict(p)
    out["peaks"] = p["peaks"][np.array(index, int)]
    return out


def draws(sc, k):
    env.reseed(sc["seed"] + k)
    if sc["draws"] == "adversarial":
        env.adversarial(sc["seed"] + k)


def execute(sc, ctx):
    from xrd_simulator.detector import Detector
    x = sc["x"]
    R = world.frame(x)
    s, b, m = ctx.do("set-up", lambda: (world.sample(x["sample"], R), world.beam(x["beam"], R), world.motion(x["motion"], R)))
    p = ctx.do("diffract", world.diffract, x, s, b, m)
    if not len(p["peaks"]):
        ctx.log("no peaks")
        return
    r = world.rs(sc["seed"])
    index = world.order(p)
    rows = geometry.illuminated(x, p)
    lit = [i for i in index if rows[i]["parts"]]
    keys = {k: False for k in ("use_lorentz", "use_polarization", "use_structure_factor") if r.randint(3) == 0}
    for a, aim in enumerate(sc["aims"]):
        pool = lit if lit and r.randint(8) else list(index)
        i = pool[r.randint(len(pool))]
        args, kw, geo = aimed(aim, rows[i], keys)
        d = ctx.do("Detector", Detector, *args, **kw)
        draws(sc, a)
        one = subset(p, [i])
        img, q = ctx.do("render macro", d.render, one, sc["frames"], "macro", verbose=False)
        img = world.to_np(img)
        single(ctx, sc, aim, x, d, geo, rows[i], img, q, one, keys)
        if sc["together"]:
            others = [int(j) for j in r.permutation(index)[:sc["together"]] if j != i]
            several(ctx, sc, a, d, subset(p, [i] + others), [subset(p, [j]) for j in [i] + others])
    ctx.stats.fault(f"draws {sc['draws']}", 1)
    ctx.stats.count("draws", env._state["drawn"])
    env._state["drawn"] = 0


def single(ctx, sc, aim, x, d, geo, row, img, q, one, keys):
    c0, z, y, pz, py, nz, ny = geo
    what = f"grain {row['whole'] ** (1 / 3):.4g} wide, pixels {pz:.4g} x {py:.4g}, {aim['place']}, {row['volume'] / row['whole']:.4g} of it lit"
    ctx.check(bool(np.isfinite(img).all()), "a pixel is not finite", what)
    ctx.check(img.min() >= 0, "a pixel is negative", lambda: f"{img.min():.4g}, {what}")
    corners = c0, c0 + ny * py * y, c0 + nz * pz * z
    model.check_hits(ctx, one, q, corners, keys, what)
    if not len(q["peaks"]):
        ctx.check(img.sum() == 0, "intensity without a peak", what)
        ctx.log("missed")
        return
    I = float(world.columns(q, "intensity_factors")[0])
    (lo, hi), = widened(x, [row])
    slack = 2e-5 * hi
    if row["volume"] < row["whole"] * (1 - 1e-9):
        slack += sliver(row) * hi + rounded(row)
    total = float(img.sum())
    r = world.to_np(d.gaussian_kernel).shape[0] // 2
    sums = img.sum(axis=0)
    ctx.check(total <= I * (hi + slack) * (1 + 1e-9), "a grain deposits more than its illuminated volume",
              lambda: f"{total / I if I else total:.8g} and not {row['volume']:.8g}, {what}")
    ctx.log(sums, I, lo, hi)
    if hi <= 0:
        ctx.check(total == 0, "a grain outside the beam deposits intensity", f"{total}, {what}")
        return
    if not row["parts"] or row["width"] < 1e-9:
        return
    pts = np.concatenate(row["parts"])
    a, b = geometry.shadow(pts, row["k"], c0, z, y)
    a, b = a / pz, b / py
    inside = a.min() > r + 2 and b.min() > r + 2 and a.max() < nz - r - 2 and b.max() < ny - r - 2
    span = max(a.max() - a.min(), b.max() - b.min())
    ctx.stats.state(aim["ratio"], round(row["volume"] / row["whole"], 1), aim["place"], sc["draws"], int(np.log2(1 + span)))
    if inside:
        ctx.check(total >= I * (lo - slack) * (1 - 1e-9), "illuminated volume is lost",
                  lambda: f"{total / I if I else total:.8g} and not {row['volume']:.8g}, {what}")
        ctx.stats.probe("shadow inside")
        ctx.stats.probe("shadow inside of a grain partly lit", row["volume"] < row["whole"] * (1 - 1e-9))
        ctx.stats.probe("shadow smaller than a pixel", span < 1)
        ctx.stats.probe("shadow of many pixels", span > 20)
    # where it is deposited
    on = np.argwhere(sums > 1e-9 * max(sums.max(), 1e-300))
    if len(on) and hi > 0 and sums.max() > 0:
        thin = 1. + 2e-5 * (1 + np.abs(pts).sum(axis=1).max()) / min(pz, py) * 20
        box = a.min() - r - thin, a.max() + r + thin, b.min() - r - thin, b.max() + r + thin
        ok = on[:, 0].min() >= np.floor(box[0]) and on[:, 0].max() <= np.floor(box[1]) and \
            on[:, 1].min() >= np.floor(box[2]) and on[:, 1].max() <= np.floor(box[3])
        ctx.check(ok, "intensity outside the shadow", lambda: f"pixels {on.min(0)} to {on.max(0)}, shadow {a.min():.3f}..{a.max():.3f}, "
                                                              f"{b.min():.3f}..{b.max():.3f}, point spread {r}, {what}")
        ctx.nontrivial = True
        if inside:
            if narrow(a, b) > 4:  # few rays meet narrow shadows
                middle(ctx, sums, row, geo, span, what)
                ctx.stats.probe("place of a wide shadow")
        else:
            ctx.stats.probe("shadow across the edge")
    if inside and row["volume"] >= row["whole"] * (1 - 1e-12) and lo == hi and I * row["whole"] > 1e-3:
        for method in ("micro", "nano"):
            other = world.to_np(ctx.do(f"render {method}", d.render, one, 1, method, verbose=False)[0])
            if method == "nano" and row["whole"] < 1e3:
                continue  # broadened over many pixels
            ctx.check(abs(other.sum() - total) <= (2.5e-2 if method == "nano" else 1e-4) * total + 2e-4, "methods deposit different totals",
                      lambda: f"{method} {other.sum():.8g}, macro {total:.8g}, {what}")


def sliver(row):
    """Relative error allowed to the intersection of thin bodies."""
    return min(1., 1e-6 / max(row["width"], 1e-12))


def rounded(row):
    """Volume by which a grain may change when its faces are rounded to 6 decimals."""
    t = row["tet"]
    area = sum(np.linalg.norm(np.cross(t[b] - t[a], t[c] - t[a])) / 2 for a, b, c in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
    return area * 1e-6 * (1 + np.abs(t).sum(axis=1).max())


def narrow(a, b):
    """Least width of a set of points of the plane."""
    t = np.linspace(0, np.pi, 60)
    w = np.outer(a, np.cos(t)) + np.outer(b, np.sin(t))
    return float((w.max(axis=0) - w.min(axis=0)).min())


def middle(ctx, img, row, geo, span, what):
    """The centre of the deposit is where the centre of the illuminated part projects."""
    c0, z, y, pz, py, nz, ny = geo
    V = np.array([geometry.volume(t) for t in row["parts"]])
    centre = (V[:, None] * np.array([t.mean(axis=0) for t in row["parts"]])).sum(axis=0) / V.sum()
    a, b = geometry.shadow(centre[None], row["k"], c0, z, y)
    w = img / img.sum()
    got = (w.sum(1) @ (np.arange(len(w)) + .5), w.sum(0) @ (np.arange(w.shape[1]) + .5))
    tol = 1.2 + .03 * span
    ctx.check(abs(got[0] - a[0] / pz) <= tol and abs(got[1] - b[0] / py) <= tol, "a shadow is in the wrong place",
              lambda: f"centre {got} and not {(a[0] / pz, b[0] / py)}, {what}")


def several(ctx, sc, a, d, p, singles):
    """A frame of several peaks is the sum of the frames of each."""
    draws(sc, a)
    img = world.to_np(ctx.do("render macro", d.render, p, sc["frames"], "macro", verbose=False)[0])
    ctx.check(bool(np.isfinite(img).all()) and img.min() >= 0, "a pixel is not finite or negative", f"{len(singles)} peaks")
    parts, shown = 0., img.sum(axis=0)
    for one in singles:
        got = world.to_np(ctx.do("render macro", d.render, one, 1, "macro", verbose=False)[0])[0]
        parts += got.sum()
        shown = shown + got
    # Random sampling at the edge differs between the two; away from it the totals agree.
    rim = np.ones(img.shape[1:], bool)
    rim[6:-6, 6:-6] = False
    if shown[rim].sum() == 0:
        ctx.check(abs(img.sum() - parts) <= 1e-5 * max(parts, 1e-300), "peaks together deposit another total",
                  lambda: f"{img.sum():.8g} and not {parts:.8g}")
        ctx.stats.probe("several peaks", len(singles) > 1)
    ctx.log("several", len(singles), round(float(img.sum()), 3) if parts > 1 else 0)
