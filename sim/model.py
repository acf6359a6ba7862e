"""Reference model: rigid motions and diffraction, in plain numpy, from the definitions.

Shares no code with the package under test.
"""
import numpy as np

from . import world


# ---------------------------------------------------------------------- poses
def motion_at(arrays, time):
    """Rotation R and translation t with x -> R x + t of a motion at a time."""
    n, a, T, o = (np.asarray(v, float) for v in arrays)
    n = n / np.linalg.norm(n)
    R = world.axis_angle(n, float(a) * time)
    return R, o - R @ o + T * time


def then(first, second):
    """Composition of two rigid motions (R, t)."""
    return second[0] @ first[0], second[0] @ first[1] + second[1]


IDENTITY = (np.eye(3), np.zeros(3))


def moved_mesh(base, pose):
    """State of a mesh after the motion `pose`, from its state before."""
    R, t = pose
    out = dict(base)
    for k in ("coord", "ecentroids", "espherecentroids", "centroid"):
        out[k] = base[k] @ R.T + t
    out["enormals"] = base["enormals"] @ R.T
    return out


def moved_sample(base, pose):
    """State of a polycrystal after the motion `pose` of its initial state."""
    out = dict(base)
    R = pose[0]
    mesh = moved_mesh({k[9:]: v for k, v in base.items() if k.startswith("mesh_lab.")}, pose)
    out.update({"mesh_lab." + k: v for k, v in mesh.items()})
    out["orientation_lab"] = R @ base["orientation_lab"]
    out["strain_lab"] = R @ base["strain_lab"] @ R.T
    return out


# ---------------------------------------------------------------------- diffraction
def b_matrix(cell):
    """Busing-Levy matrix times 2 pi, from a cell in degrees."""
    a, b, c = cell[:3]
    al, be, ga = np.radians(cell[3:])
    A = np.array([[a, b * np.cos(ga), c * np.cos(be)],
                  [0, b * np.sin(ga), c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)],
                  [0, 0, 0]])
    A[2, 2] = np.sqrt(c * c - A[0, 2] ** 2 - A[1, 2] ** 2)
    G = np.linalg.inv(A.T @ A)  # reciprocal metric
    return 2 * np.pi * np.linalg.cholesky(G).T  # upper triangular, rows along a*, ...


def strained(B0, U, strain):
    """B matrix of a strained crystal: B0 = F B with F'F = 1 + 2 e, F upper triangular."""
    e = U.T @ strain @ U
    F = np.linalg.cholesky(np.eye(3) + 2 * e).T
    return np.linalg.solve(F, B0)


def even(x):
    return x % 2 == 0


ALLOWED = {  # general reflection conditions of the International Tables
    "Fm-3m": lambda h, k, l: even(h + k) & even(k + l) & even(h + l),
    "Im-3m": lambda h, k, l: even(h + k + l),
    "P63/mmc": lambda h, k, l: ~((h == k) | (k == -2 * h) | (h == -2 * k)) | even(l),
    "P3221": lambda h, k, l: ~((h == 0) & (k == 0)) | (l % 3 == 0),
    "Pnma": lambda h, k, l: ((h != 0) | even(k + l)) & ((l != 0) | even(h)),
    "P21/c": lambda h, k, l: ((k != 0) | even(l)) & (~((h == 0) & (l == 0)) | even(k)),
    "P-1": lambda h, k, l: h == h,
}


def planes(cell, group, smin, smax):
    """Allowed lattice planes hkl and their sin(theta)/lambda, with a margin around the limits."""
    B = b_matrix(cell)
    n = [int(smax * 1.01 * 2 * x) + 1 for x in cell[:3]]
    h, k, l = (v.ravel() for v in np.meshgrid(*(np.arange(-m, m + 1) for m in n), indexing="ij"))
    ok = ALLOWED[group](h, k, l) & ((h != 0) | (k != 0) | (l != 0))
    hkl = np.c_[h, k, l][ok]
    s = np.linalg.norm(hkl @ B.T, axis=1) / (4 * np.pi)
    near = (s > smin - 1e-7) & (s < smax + 1e-7)
    return hkl[near], s[near]


_factors, _groups = {}, {}


def _factor(h, cell, group, atoms, dispersion):
    from xfab import sg, structure, tools
    if group not in _groups:
        _groups[group] = sg.sg(sgname=group)
    g = _groups[group]
    s = tools.sintl(cell, h)
    F = 0j
    for a in atoms:
        f = structure.FormFactor(a.atomtype, s)
        d = dispersion.get(a.atomtype) if dispersion else None
        f = f + complex(*d) if d else f
        if a.adp_type == "Uani":
            u11, u22, u33, u23, u13, u12 = a.adp
            star = np.diag(tools.cell_invert(cell)[:3])
            beta = 2 * np.pi**2 * star @ np.array([[u11, u12, u13], [u12, u22, u23], [u13, u23, u33]]) @ star
        for R, t in zip(g.rot[:g.nsymop], g.trans[:g.nsymop]):
            k = h @ R
            damp = np.exp(-k @ beta @ k) if a.adp_type == "Uani" else np.exp(-8 * np.pi**2 * a.adp * s * s) if a.adp_type == "Uiso" else 1.
            F += f * damp * np.exp(2j * np.pi * (k @ a.pos + h @ t)) * a.occ * a.symmulti / g.nsymop
    return F


def intensity(name, hkl):
    """|F|^2 of the planes of a phase; 1 without a structure file.

    Atom by atom and symmetry operation by symmetry operation, with the form factors of xfab. Its StructureFactor is not used:
    it turns an anisotropic displacement by R b R and not by R b R'.
    """
    cell, group, cif = world.PHASES[name.split("+")[0]]
    if not name.endswith("+cif"):
        return np.ones(len(hkl))
    from xfab import structure
    import os
    if name not in _factors:
        atoms = structure.build_atomlist()
        from CifFile import ReadCif
        blk = ReadCif(os.path.join(world.DATA, cif))
        atoms.CIFread(ciffile=None, cifblkname=None, cifblk=blk[list(blk.keys())[0]])
        _factors[name] = (atoms.atomlist.atom, atoms.atomlist.dispersion, {})
    atoms, dispersion, cache = _factors[name]
    out = []
    for p in hkl:
        p = tuple(int(v) for v in p)
        if p not in cache:
            cache[p] = abs(_factor(np.array(p, float), list(cell), group, atoms, dispersion)) ** 2
        out.append(cache[p])
    return np.array(out)


def wrapping_cone(corners, k, source):
    """Greatest Bragg angle that reaches a detector."""
    c0, c1, c2 = corners
    v = np.array([c0, c1, c2, c1 + c2 - c0]) - source
    return np.arccos(np.clip((v @ k) / np.linalg.norm(v, axis=1) / np.linalg.norm(k), -1, 1)).max() / 2


def beam_margin(half, points):
    """How far points are inside a beam, and the error of the halfspaces used by the code."""
    p = np.atleast_2d(points)
    inside = -(p @ half[:, :3].T + half[:, 3]).max(axis=1)
    return inside, 2e-5 * (1 + np.abs(p).sum(axis=1))


def reflections(sample, base, pose, beam, motion, limits, names, times=(0., 1.)):
    """Every reflection of a sample in a pose during a motion.

    sample: arrays (coord, enod, U, strain, phase map, names); base: state of the sample when
    it was made; beam: arrays; motion: arrays; limits: Bragg angles.
    Returns a list of dicts with the columns of the table of peaks, and "sure": whether the
    reflection is clearly there rather than at the edge of the beam, the times or the limits.
    """
    _, direction, wl, pol, half = beam
    k = 2 * np.pi / wl * direction / np.linalg.norm(direction)
    n, angle, T, o = motion
    n = n / np.linalg.norm(n)
    Rp = pose[0]
    smin, smax = np.sin(limits[0]) / wl, np.sin(limits[1]) / wl
    out = []
    pm = base["element_phase_map"].astype(int)
    centres = base["mesh_sample.espherecentroids"] @ Rp.T + pose[1]
    coord, enod = base["mesh_sample.coord"], base["mesh_sample.enod"]
    cache = {}
    for g in range(len(enod)):
        name = names[pm[g]]
        cell, group, _ = world.PHASES[name.split("+")[0]]
        if name not in cache:
            hkl, s = planes(cell, group, smin, smax)
            F2 = intensity(name, hkl)
            cache[name] = (b_matrix(cell), hkl, s, F2)
        B0, hkl, s, F2 = cache[name]
        U = base["orientation_sample"][g]
        B = strained(B0, U, base["strain_sample"][g])
        G = hkl @ (Rp @ U @ B).T
        # k.(R G) + G.G / 2 = 0 with R G = along + across cos + (n x G) sin
        along = (G @ n)[:, None] * n
        A, Bq = (G - along) @ k, np.cross(n, G) @ k
        C = along @ k + (G * G).sum(axis=1) / 2
        r = np.hypot(A, Bq)
        with np.errstate(invalid="ignore", divide="ignore"):
            x = -C / r
        scale = np.linalg.norm(k) * np.linalg.norm(G, axis=1)
        touching = np.abs(np.abs(x) - 1) < 1e-7 + 1e-9 * (scale / np.maximum(r, 1e-30)) ** 1
        real = (np.abs(x) < 1) | touching
        V = abs(np.linalg.det(coord[enod[g, 1:]] - coord[enod[g, 0]])) / 6
        for j in np.flatnonzero(real & (F2 > 1e-7)):
            phi, d = np.arctan2(Bq[j], A[j]), np.arccos(np.clip(x[j], -1, 1))
            for sign in (1, -1):
                th = (phi + sign * d + np.pi) % (2 * np.pi) - np.pi
                t = th / angle
                # accuracy of the time; the derivative of the condition is r sin(d)
                dt = 1e-11 * (scale[j] + abs(C[j])) / max(r[j] * abs(np.sin(d)), 1e-30) / angle + 1e-12
                if not -max(dt, 1e-9) <= t - times[0] or not t - times[1] <= max(dt, 1e-9):
                    continue
                sure = not touching[j] and dt < 1e-5 and min(t - times[0], times[1] - t) > max(dt, 1e-9)
                sure = sure and abs(abs(th) - np.pi) > 1e-6
                sure = sure and min(s[j] - smin, smax - s[j]) > 1e-7 and (F2[j] > 1e-5)
                R = world.axis_angle(n, th)
                src = R @ (centres[g] - o) + o + T * t
                inside, margin = beam_margin(half, src)
                margin = margin + np.abs(T).sum() * dt + np.abs(centres[g] - o).sum() * dt * angle
                if inside[0] < -margin[0]:
                    continue
                sure = sure and inside[0] > margin[0]
                Gt = R @ G[j]
                ko = k + Gt
                tt = np.arccos(np.clip(k @ ko / np.linalg.norm(k) / np.linalg.norm(ko), -1, 1))
                perp = ko - k * (k @ ko) / (k @ k)
                eta = np.arccos(np.clip(n @ perp / np.linalg.norm(perp), -1, 1))
                ed = np.degrees(eta)
                impossible = ed < .5 or ed > 179.5 or np.degrees(tt / 2) < .5
                edge = min(abs(ed - .5), abs(ed - 179.5), abs(np.degrees(tt / 2) - .5)) < 1e-6
                lorentz = np.inf if impossible else 1 / (np.sin(tt) * abs(np.sin(eta)))
                out.append({
                    "grain": g, "hkl": tuple(int(v) for v in hkl[j]), "t": t, "dt": dt, "sure": bool(sure),
                    "phase_number": pm[g], "structure_factors": F2[j], "G0": G[j], "G": Gt, "K_out": ko, "Source": src,
                    "lorentz_factors": None if edge else lorentz,
                    "polarization_factors": 1 - (pol @ ko / np.linalg.norm(ko) / np.linalg.norm(pol)) ** 2,
                    "volumes": V, "2theta": tt,
                    "scherrer_fwhm": .9 * wl / (2 * (3 * V / (4 * np.pi)) ** (1 / 3) * 1e4 * np.cos(tt / 2))})
    return out


# ---------------------------------------------------------------------- peaks on a detector
def hits(peaks, arrays, keys=None):
    """Where the rays of a table of peaks meet a detector, and with what intensity.

    arrays: corners and pixel sizes; keys: arguments that switch factors off. Returns a dict of
    arrays: zd, yd, angle (degrees), intensity, and "hit": 1 if the peak is to be rendered, 0 if
    not, -1 if that hangs on the last digits.
    """
    from . import world
    keys = keys or {}
    c0, c1, c2 = arrays[:3]
    y, z = c1 - c0, c2 - c0
    ymax, zmax = np.linalg.norm(y), np.linalg.norm(z)
    y, z = y / ymax, z / zmax
    n = np.cross(z, y)
    K = np.array(world.columns(peaks, "K_out_x", "K_out_y", "K_out_z")).T
    S = np.array(world.columns(peaks, "Source_x", "Source_y", "Source_z")).T
    F, L, P = world.columns(peaks, "structure_factors", "lorentz_factors", "polarization_factors")
    with np.errstate(all="ignore"):
        s = ((c0 - S) @ n) / (K @ n)
        at = S + s[:, None] * K - c0
        zd, yd = at @ z, at @ y
        angle = np.degrees(np.arccos(np.clip(-(K @ n) / np.linalg.norm(K, axis=1), -1, 1)))
        I = np.ones(len(K))
        for key, f in (("use_structure_factor", F), ("use_polarization", P), ("use_lorentz", L)):
            if keys.get(key, True):
                I = I * f
        tol = 1e-9 * (np.abs(S).sum(axis=1) + np.abs(c0).sum() + ymax + zmax) * (1 + np.abs(s) * 1e-9)
        margin = np.minimum.reduce([zd, zmax - zd, yd, ymax - yd])
        sharp = np.abs(K @ n) > 1e-9 * np.linalg.norm(K, axis=1)
        hit = np.where((s > 0) & sharp & (margin > tol) & np.isfinite(I) & (I > 1e-300), 1, -1)
        hit = np.where((s < 0) & sharp | (margin < -tol) | (I <= 0) | ~np.isfinite(I), 0, hit)
    return {"zd": zd, "yd": yd, "angle": angle, "intensity": I, "hit": hit, "tol": tol}


def check_hits(ctx, peaks, out, arrays, keys, what):
    """The peaks that were rendered are those that meet the detector, where they do."""
    from . import world
    h = hits(peaks, arrays, keys)
    ids = world.columns(peaks, "peak_index").astype(int)
    got = world.columns(out, "peak_index").astype(int)
    rows = dict(zip(got, range(len(got))))
    ctx.check(len(rows) == len(got), "a peak is rendered twice", what)
    cols = dict(zip(("zd", "yd", "angle", "intensity"), world.columns(out, "zd", "yd", "incident_angle", "intensity_factors")))
    for k, i in enumerate(ids):
        where = lambda: f"peak {i} at {h['zd'][k]:.8g}, {h['yd'][k]:.8g}, intensity {h['intensity'][k]:.6g}, {what}"
        if h["hit"][k] == 1:
            ctx.check(i in rows, "a peak that meets the detector is not rendered", where)
        if h["hit"][k] == 0:
            ctx.check(i not in rows, "a peak that does not meet the detector is rendered", where)
        if i in rows:
            for name in cols:
                v, w = cols[name][rows[i]], h[name][k]
                tol = {"angle": 1e-5, "intensity": 1e-9 * abs(w)}.get(name, 100 * h["tol"][k] + 1e-9 * abs(w))
                ctx.check(abs(v - w) <= tol, "a peak is rendered in the wrong place or with a wrong intensity",
                          lambda: f"{name} {v:.8g} and not {w:.8g}, {where()}")


# ---------------------------------------------------------------------- bounding balls
def through(q):
    """Centre and radius of the smallest sphere through all points q."""
    A = q[1:] - q[0]
    try:
        x = q[0] + A.T @ np.linalg.solve(A @ A.T, (A * A).sum(1) / 2)
    except np.linalg.LinAlgError:
        return None
    return x, np.linalg.norm(x - q[0])


def balls(p):
    """Every ball (centre, radius) that may be the bounding ball of a tetrahedron p.

    The documented steps: the ball on the longest side, or the circumsphere of the triangle with
    the vertex farthest from its middle, or that of the tetrahedron; the first to hold all
    vertices, in a radius 1e-4 greater. Near ties and limits all outcomes are given. The
    smallest ball of all, found by trying every subset, is as good.
    """
    from itertools import combinations
    side = {c: np.linalg.norm(p[c[0]] - p[c[1]]) for c in combinations(range(4), 2)}
    longest = max(side.values())
    out = []

    def holds(b, tol):
        return b is not None and np.linalg.norm(p - b[0], axis=1).max() <= b[1] * (1 + 1e-4 + tol)

    for (i, j), d in side.items():
        if d < longest * (1 - 1e-9):
            continue
        one = through(p[[i, j]])
        if holds(one, 1e-8):
            out.append(one)
        if holds(one, -1e-8):
            continue
        rest = [k for k in range(4) if k not in (i, j)]
        far = [np.linalg.norm(p[k] - one[0]) for k in rest]
        for k, f in zip(rest, far):
            if f < max(far) * (1 - 1e-9):
                continue
            two = through(p[[i, j, k]])
            if holds(two, 1e-8):
                out.append(two)
            if not holds(two, -1e-8):
                out.append(through(p))
    small = [b for n in (2, 3, 4) for c in combinations(range(4), n) for b in (through(p[list(c)]),)
             if b is not None and np.linalg.norm(p - b[0], axis=1).max() <= b[1] * (1 + 1e-9)]
    if small:
        out.append(min(small, key=lambda b: b[1]))
    return [b for b in out if b is not None]
