"""C13: random texture sampling yields valid samples from the given texture."""
import contextlib

import numpy as np

from .. import env, faults, world

QUICK, THOROUGH = 700, 30000
LEVEL = "exploration"
RULE = ("a run counts when a sample was generated and its geometry, rotations, support and strain were checked; distinct = different "
        "event logs (request, draws, sample)")
STATES = "distinct (builder, texture, sharpness, regions, bin size, draws, elements by magnitude)"
REAL = ["xrd_simulator: templates, mesh, polycrystal; meshpy (tetgen), scipy's Rotation"]
STUB = ["random generators: seeded, or adversarial (ends of bins, first, last and least likely bins)"]
ASSUMPTIONS = ["statistics: a deviation counts below a chance of 1e-9, plus what the documented bins allow",
               "a rotation may be drawn anywhere in a bin whose centre is in the support"]
TAIL = 6.3  # two-sided normal quantile of 3e-10
CHANCE = 3.3  # Kolmogorov: sup |F - G| sqrt(n) exceeds this with chance 7e-10


def generate(rng, i, tier):
    kind = rng.choice(["odf"] * 5 + ["powder", "powder"])
    phase = rng.choice(["al", "quartz", "ti", "quartz+cif"])
    strain = rng.choice(["zero", "constant", "linear", "radial"])
    base = {"kind": kind, "phase": phase, "strain": strain, "seed": rng.getrandbits(31), "again": rng.random() < .35,
            "radius": rng.choice([.01, 1., 50., 3000.]), "draws": rng.choice(["seeded", "seeded", "seeded", "adversarial"])}
    if kind == "powder":
        return {**base, "n": rng.choice([1, 2, 5, 40, 1000, 3000])}
    if rng.random() < .12:  # wide bins, and enough elements to see how they lie in them
        return {**base, "texture": "uniform", "m": 1, "cut": 0., "regions": 1, "sep": rng.choice([60., 90.]), "default_sep": False, "n": 600,
                "aspect": 1., "writes": False, "draws": "seeded", "strain": "zero"}
    # sharp textures need small bins
    texture = rng.choice(["uniform", "power", "power", "cap", "cap", "both"])
    m = rng.choice([1, 2, 4, 8])
    sep = rng.choice({"uniform": [10., 17., 30., 60.], "power": [10., 15.] if m < 4 else [8., 10.], "cap": [8., 12.], "both": [8.]}[texture])
    if texture == "both":
        return {**base, "texture": texture, "m": 1, "cut": rng.choice([.85, .93, .93]), "regions": rng.choice([1, 1, 2]), "sep": 8.,
                "share": rng.choice([.2, .3, .5]), "default_sep": False, "n": rng.choice([10, 1000, 1500]), "aspect": 1., "writes": False}
    return {**base, "texture": texture, "m": m, "cut": rng.choice([0., .3, .6, .8]) if sep > 8 else rng.choice([.3, .85, .93]),
            "regions": rng.choice([1, 1, 2, 8]), "sep": sep, "default_sep": False, "n": rng.choice([1, 10, 60, 300] + ([800] if sep > 8 else [])),
            "aspect": rng.choice([1., 1., .2, 8.]), "writes": rng.random() < .15}


def shrink(sc):
    for key, v in (("again", False), ("draws", "seeded"), ("strain", "zero"), ("phase", "al"), ("radius", 1.), ("aspect", 1.), ("regions", 1), ("writes", False)):
        if key in sc and sc[key] != v:
            yield {**sc, key: v}
    for n in (1, sc["n"] // 4, sc["n"] // 2):
        if 0 < n < sc["n"]:
            yield {**sc, "n": n}


# ---------------------------------------------------------------------- textures
def directions(sc):
    r = world.rs(sc["seed"] ^ 0xABC)
    q = r.normal(size=(8, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    return q


def region(sc, x):
    """Number of the region a position is in."""
    k = {1: 0, 2: 1, 8: 3}[sc["regions"]]
    return sum((x[..., (2, 0, 1)[j]] > 0) * 2**j for j in range(k)) if k else np.zeros(np.shape(x)[:-1], int)


def density(sc):
    """Values of a normalised texture at u = (q.q0)^2, and its cumulated distribution over u."""
    s = np.linspace(0, np.pi / 2, 20001)  # angle to +-q0 on the sphere of quaternions, weight sin^2
    u = np.cos(s) ** 2
    if sc["texture"] == "uniform":
        f = np.ones_like
    elif sc["texture"] == "power":
        def f(u):
            return u ** sc["m"]
    else:
        def f(u):
            return np.maximum(0, u - sc["cut"]) ** 2
    w = f(u) * np.sin(s) ** 2
    if sc["texture"] == "both":  # a sharp component, and some of the crystals have any orientation
        g, a = f, (1 - sc["share"]) / w.sum() * (np.sin(s) ** 2).sum()

        def f(u):
            return a * g(u) + sc["share"]
        w = f(u) * np.sin(s) ** 2
    mean = w.sum() / (np.sin(s) ** 2).sum()
    c = np.cumsum(w[::-1])
    return (lambda v: f(v) / mean / np.pi**2), (lambda v: np.interp(v, u[::-1], c / c[-1]))


def quaternions(U):
    """Unit quaternions, scalar last, of rotation matrices."""
    out = []
    for M in U:
        K = np.array([[M[0, 0] - M[1, 1] - M[2, 2], 0, 0, 0], [M[1, 0] + M[0, 1], M[1, 1] - M[0, 0] - M[2, 2], 0, 0],
                      [M[2, 0] + M[0, 2], M[2, 1] + M[1, 2], M[2, 2] - M[0, 0] - M[1, 1], 0],
                      [M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1], M.trace()]]) / 3
        v, w = np.linalg.eigh(K)
        out.append(w[:, -1])
    return np.array(out)


# ---------------------------------------------------------------------- strain
def field(sc):
    r = world.rs(sc["seed"] ^ 0x57)
    A = r.normal(size=(3, 3)) * 1e-3
    A = (A + A.T) / 2
    G = r.normal(size=(3, 3, 3)) * 1e-3 / sc["radius"]
    G = (G + G.transpose(0, 2, 1)) / 2
    M = r.normal(size=(3, 3))

    def f(x):
        y = M @ x  # as numpy users write it
        if sc["strain"] == "zero":
            return np.zeros((3, 3))
        if sc["strain"] == "constant":
            return A.copy()
        if sc["strain"] == "linear":
            return np.einsum("i,ijk->jk", y, G)
        return A * np.linalg.norm(x) / sc["radius"]
    return f, A


# ---------------------------------------------------------------------- draws
@contextlib.contextmanager
def draws(sc, stats, k=0):
    env.reseed(sc["seed"] + k)
    stats.fault("draws " + sc["draws"])
    if sc["draws"] != "adversarial":
        yield
        return
    r = world.rs(sc["seed"] + k)
    choice, rand, sample = np.random.choice, np.random.rand, np.random.random_sample

    def chosen(a, size=None, replace=True, p=None):
        value = choice(a, size, replace, p)
        if p is None:
            return value
        stats.fault("adversarial bin")
        p = np.asarray(p)
        ok = np.where(p > 0)[0]
        k = [ok[0], ok[-1], ok[np.argmin(p[ok])], ok[r.randint(len(ok))]][r.randint(4)]
        v = np.arange(a)[k] if np.ndim(a) == 0 else np.asarray(a)[k]
        return np.full(np.shape(value), v) if np.ndim(value) else v

    def ends(*shape):
        stats.fault("adversarial place in the bin")
        v = np.array([0., 1 - 2**-53, .5, r.uniform()])[r.randint(4, size=shape or (1,))]
        return v if shape else float(v[0])

    with faults.patched(np.random, "choice", chosen), faults.patched(np.random, "rand", ends), \
            faults.patched(np.random, "random", lambda size=None: ends(*([] if size is None else np.atleast_1d(size)))):
        yield


# ---------------------------------------------------------------------- execution
def execute(sc, ctx):
    s, seen = build(sc, ctx)
    check(sc, ctx, s, seen)
    if sc["again"]:
        t, _ = build(sc, ctx)
        bad = world.same_state(world.state(t), world.state(s), 1e-12)
        ctx.check(bad is None, "the same generator state gives another sample", f"{bad}")
        if sc["draws"] == "seeded":
            t, _ = build(sc, ctx, 1)
            check(sc, ctx, t, None)
            if sc["n"] >= 10:
                same = np.isclose(world.to_np(t.orientation_lab), world.to_np(s.orientation_lab), atol=1e-12).all(axis=(1, 2))
                ctx.check(same.mean() < .5, "rotations do not depend on the draws", f"{same.mean():.3f} of them")
    ctx.nontrivial = True
    n = s.mesh_lab.number_of_elements
    ctx.log(sc["kind"], n, world.to_np(s.orientation_lab), world.to_np(s.strain_lab))
    ctx.stats.state(sc["kind"], sc.get("texture"), sc.get("m"), sc.get("regions"), sc.get("sep"), sc["draws"], sc["strain"], len(str(n)))
    ctx.stats.count("elements", n)


def build(sc, ctx, k=0):
    from xrd_simulator import templates
    cell, sg, cif = world.PHASES[sc["phase"].split("+")[0]]
    cif = f"{world.DATA}/{cif}" if sc["phase"].endswith("+cif") else None
    strain, A = field(sc)
    with draws(sc, ctx.stats, k):
        if sc["kind"] == "powder":
            kw = {} if sc["strain"] == "zero" else {"strain_tensor": A}
            return ctx.do("get_uniform_powder_sample", templates.get_uniform_powder_sample, sc["radius"], sc["n"], list(cell), sg,
                          path_to_cif_file=cif, **kw), None
        q0, (f, _) = directions(sc), density(sc)
        seen = []

        def texture(x, q):
            ctx.check(isinstance(x, np.ndarray) and x.shape == (3,) and isinstance(q, np.ndarray) and q.shape[-1] == 4,
                      "a texture gets other arguments than documented", f"{type(x)}, {type(q)}")
            if np.ndim(q) > 1 and len(seen) < 1:
                ctx.check(np.allclose((q**2).sum(axis=-1), 1, atol=1e-9), "a texture gets quaternions that are not of unit length", "")
            seen.append(x.copy())
            out = f(np.minimum((q @ q0[int(region(sc, x))]) ** 2, 1.))
            if sc["writes"]:  # a careless function
                x *= 0
            return out

        def strained(x):
            out = strain(x)
            if sc["writes"]:
                x += 1e3
            return out

        kw = {} if sc["strain"] == "zero" and sc["seed"] % 2 else {"strain_tensor": strained}
        return ctx.do("polycrystal_from_odf", templates.polycrystal_from_odf, texture, sc["n"], sc["radius"] * sc["aspect"], sc["radius"],
                      list(cell), sg, cif, np.radians(sc["sep"]), **kw), seen


def check(sc, ctx, s, seen):
    st = world.state(s)
    n = s.mesh_lab.number_of_elements
    what = f"{sc['kind']} of {sc['n']}, {sc.get('texture')}"
    coord, enod = st["mesh_lab.coord"], st["mesh_lab.enod"]
    tets = coord[enod]
    V = np.abs(np.linalg.det(tets[:, 1:] - tets[:, :1])) / 6
    centroid = tets.mean(axis=1)
    U, E = st["orientation_lab"], st["strain_lab"]
    # one rotation and strain for each element, a single valid phase
    ctx.check(U.shape == (n, 3, 3) and E.shape == (n, 3, 3), "not one rotation and strain for each element", f"{U.shape}, {E.shape}, {n}")
    ctx.check(np.isfinite(U).all() and np.abs(U @ U.transpose(0, 2, 1) - np.eye(3)).max() < 1e-9 and np.all(np.linalg.det(U) > .5),
              "an orientation is not a proper rotation", what)
    ctx.check(len(s.phases) == 1 and st["element_phase_map"].shape == (n,) and not st["element_phase_map"].any(), "an element has no valid phase", what)
    cell, sg, _ = world.PHASES[sc["phase"].split("+")[0]]
    ctx.check(list(s.phases[0].unit_cell) == list(cell) and s.phases[0].sgname == sg, "the phase is not the one wanted", what)
    for k in ("orientation", "strain"):
        ctx.check(world.close(st[k + "_sample"], st[k + "_lab"], 1e-12), "sample and laboratory frames differ in a new sample", what)
    # geometry
    R = sc["radius"]
    ctx.check(bool((V > 0).all()), "an element has no volume", what)
    if sc["kind"] == "powder":
        ctx.check(n == sc["n"], "wrong number of grains", f"{n}, {what}")
        ctx.check(np.linalg.norm(coord, axis=1).max() <= R * (1 + 1e-9), "a grain is outside the sphere", what)
        ctx.check(np.ptp(V) <= 1e-9 * V.max() and np.abs(centroid - centroid[0]).max() <= 1e-9 * R, "grains of a powder are not alike", what)
    else:
        h = R * sc["aspect"]
        r = np.hypot(coord[:, 0], coord[:, 1])
        ctx.check(r.max() <= R * (1 + 1e-9) and np.abs(coord[:, 2]).max() <= h / 2 * (1 + 1e-9), "an element is outside the cylinder", what)
        full = np.pi * R * R * h
        ctx.check(.9 * full <= V.sum() <= full * (1 + 1e-9), "elements do not fill the cylinder", lambda: f"{V.sum() / full:.6f} of it, {what}")
        from scipy.spatial import ConvexHull
        hull = ConvexHull(coord / R).volume * R**3
        ctx.check(abs(hull - V.sum()) <= 1e-6 * hull, "elements overlap or leave gaps", lambda: f"{V.sum() / hull:.9f} of the hull, {what}")
        if sc["n"] >= 300 and .2 <= sc["aspect"] <= 8:
            ctx.check(sc["n"] / 6 <= n <= sc["n"] * 6, "number of elements far from the one wanted", f"{n} and not {sc['n']}")
        if seen is not None:  # the texture was asked for the elements' positions
            d = np.abs(np.array(seen)[:, None] - centroid[None]).max(axis=2)
            ctx.check(d.min(axis=0).max() <= 1e-9 * max(R, h) and d.min(axis=1).max() <= 1e-9 * max(R, h),
                      "the texture was not sampled at the elements' positions", what)
    # strain
    f, A = field(sc)
    if sc["kind"] == "powder":
        want = np.broadcast_to(A if sc["strain"] != "zero" else np.zeros((3, 3)), (n, 3, 3))
    else:
        want = np.array([f(c) for c in centroid])
    ctx.check(np.abs(E - want).max() <= 1e-9 * max(np.abs(want).max(), 1e-30) + 1e-15, "strain is not the one prescribed",
              lambda: f"by {np.abs(E - want).max():.4g} of {np.abs(want).max():.4g}, {what}")
    # orientations
    q = quaternions(U)
    if sc["draws"] == "seeded":  # continuous random variables do not repeat themselves
        ctx.check(len(np.unique(np.round(q * np.sign(q[:, 3:] + 1e-300), 9), axis=0)) == n, "elements have the same orientation", what)
    if sc["kind"] == "powder" or sc["texture"] == "uniform":
        if sc["draws"] == "seeded":
            bins = np.radians(sc.get("sep", 0.)) / 2
            for k, q0 in enumerate(directions(sc)[:4]):
                ks(ctx, (q @ q0) ** 2, uniform_cdf, bins, f"{what} about direction {k}")
            if n > 20:
                for lag in (1, 2, n // 2):
                    ks(ctx, (q[lag:] * q[:-lag]).sum(axis=1) ** 2, uniform_cdf, bins, f"{what}, elements {lag} apart", half=lag * 2 <= n)
            if n >= 300:
                c = np.abs(q @ q.T)
                np.fill_diagonal(c, 0.)
                near = (c.max(axis=1) > np.cos(np.radians(1.))).mean()
                ctx.check(near <= .05 * max(n / 500, 1), "orientations lie on lines or in clusters", lambda: f"{near:.3f} of them within two degrees of another, {what}")
            T = np.abs((q[:, :, None] * q[:, None, :]).mean(axis=0) - np.eye(4) / 4).max()
            ctx.check(T <= TAIL * .22 / np.sqrt(n) + .3 * bins**2, "orientations are not uniform", lambda: f"second moments off by {T:.4f}, {what}")
        return
    _, cdf = density(sc)
    q0 = directions(sc)
    which = region(sc, centroid)
    u = np.minimum((q * q0[which]).sum(axis=1) ** 2, 1.)
    # half the diagonal of a bin; a whole number of bins fits a quarter turn
    reach = np.sqrt(3) / 2 * max(np.radians(sc["sep"]) / 2, np.pi / 2 / max(int(180 / sc["sep"] - 1e-6), 1)) * 1.02
    if sc["texture"] == "cap":
        least = np.cos(min(np.arccos(np.sqrt(sc["cut"])) + reach, np.pi / 2)) ** 2
        ctx.check(u.min() >= least - 1e-9, "an orientation is outside the support of the texture",
                  lambda: f"{np.degrees(2 * np.arccos(np.sqrt(u.min()))):.2f} degrees from the centre, support ends at "
                          f"{np.degrees(2 * np.arccos(np.sqrt(sc['cut']))):.2f}, element {u.argmin()} in region {which[u.argmin()]}, {what}")
    if sc["draws"] == "seeded":
        bins = np.radians(sc["sep"]) / 2
        ks(ctx, u, cdf, bins, what, sharp=sc["m"] if sc["texture"] == "power" else 2 / (1 - sc["cut"]))
        for k in range(sc["regions"]):
            if (which == k).any() and sc["regions"] > 1:
                ks(ctx, u[which == k], cdf, bins, f"{what}, region {k}", sharp=sc["m"] if sc["texture"] == "power" else 2 / (1 - sc["cut"]))


def uniform_cdf(u):
    s = np.arccos(np.sqrt(np.clip(u, 0, 1)))  # angle; weight sin^2
    return 1 - (s - np.sin(s) * np.cos(s)) / (np.pi / 2)


def ks(ctx, u, cdf, bins, what, sharp=1., half=True):
    """Kolmogorov-Smirnov."""
    n = len(u)
    if n < 15:
        return
    F = cdf(np.sort(u))
    k = np.arange(n)
    D = max((F - k / n).max(), ((k + 1) / n - F).max())
    ctx.stats.count("statistics")
    ctx.stats.probe("statistics of many elements", n > 500)
    limit = CHANCE / np.sqrt(n / (1 if half else 2)) + .25 * sharp * bins**2
    ctx.check(D <= limit, "orientations do not follow the texture", lambda: f"distribution off by {D:.4f} (limit {limit:.4f}) for {n} elements, {what}")
    ctx.extra = max(getattr(ctx, "extra", None) or 0., D * np.sqrt(n))
