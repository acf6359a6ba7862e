"""Builds the objects of an experiment from small JSON specifications.

Only the documented API and documented attributes are used. All numbers are derived
from the seeds in the specification by this file's own code.
"""
import os
import random

import numpy as np

from . import env

PHASES = {
    "al": ([4.0496, 4.0496, 4.0496, 90., 90., 90.], "Fm-3m", None),
    "fe": ([2.8665, 2.8665, 2.8665, 90., 90., 90.], "Im-3m", None),
    "ti": ([2.9505, 2.9505, 4.6826, 90., 90., 120.], "P63/mmc", None),
    "quartz": ([4.926, 4.926, 5.4189, 90., 90., 120.], "P3221", "quartz.cif"),
    "quartzu": ([4.926, 4.926, 5.4189, 90., 90., 120.], "P3221", "quartzu.cif"),
    "four": ([4., 4., 4., 90., 90., 90.], "Fm-3m", None),
    "ortho": ([5.4, 7.7, 5.3, 90., 90., 90.], "Pnma", "ortho.cif"),
    "mono": ([5.1, 5.2, 5.3, 90., 99.2, 90.], "P21/c", None),
    "tric": ([4.1, 5.3, 6.2, 81., 95., 104.], "P-1", None),
}
DATA = os.path.join(env.VERIF, "data")


def rs(seed):
    return np.random.RandomState(seed % 2**32)


def rotation(seed):
    """A proper rotation, uniformly distributed."""
    q = rs(seed).normal(size=4)
    return quat(q / np.linalg.norm(q))


def quat(q):
    """Matrix of a unit quaternion, scalar last."""
    x, y, z, w = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def axis_angle(n, a):
    """Matrix of the rotation by `a` about the unit vector `n`."""
    n = np.asarray(n, float)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * (K @ K)


def frame(spec):
    """Rotation of the whole laboratory."""
    return np.eye(3) if spec.get("frame") is None else rotation(spec["frame"])


# ---------------------------------------------------------------------- sample
def sample_arrays(s, lab=np.eye(3)):
    """coord, enod, U, strain, phase map and phase names of a sample."""
    r = rs(s["seed"])
    n = s["n"]
    scale = s["scale"]
    layout = s.get("layout", "free")
    base = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
    if layout == "free":  # separate tetrahedra
        coord, enod = [], []
        for i in range(n):
            while True:
                t = base + r.uniform(-.35, .35, (4, 3))
                v = np.linalg.det(t[1:] - t[0]) / 6
                if abs(v) > 0.04:
                    break
            size = scale * np.exp(r.uniform(-1, 1) * s.get("vary", 0.))
            coord.append(t @ rotation(r.randint(2**31)).T * size + r.uniform(-1, 1, 3) * s["spread"])
            enod.append(np.arange(4) + 4 * i)
        coord, enod = np.concatenate(coord), np.array(enod)
    elif layout == "grid":  # right-angled tetrahedra with nodes on a grid, faces along the axes
        coord, enod = [], []
        for i in range(n):
            t = base if r.rand() < .6 else np.array([[0, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 1.]])
            t = t[:, r.permutation(3)] * r.choice([-1, 1], 3)
            coord.append(scale * (t + r.randint(-2, 3, 3) * round(s["spread"] / scale * 2) / 4))
            enod.append(np.arange(4) + 4 * i)
        coord, enod = np.concatenate(coord), np.array(enod)
    else:  # a fan of tetrahedra that share nodes
        pts = [np.zeros(3)] + [v for v in r.normal(size=(n + 2, 3))]
        coord = np.array([p / max(np.linalg.norm(p), 1e-9) * scale for p in pts])
        coord[0] = 0
        enod = []
        for i in range(n):
            e = [0, 1 + i, 2 + i, 1 + (i + 2) % (n + 2)]
            enod.append(e)
        enod = np.array(enod)
        for i in range(n):  # no degenerate element
            for trial in range(1000):
                if abs(np.linalg.det(coord[enod[i, 1:]] - coord[0])) >= 0.05 * scale**3:
                    break
                for k in (1, 2, 3) if trial > 20 else (3,):
                    p = r.normal(size=3)
                    coord[enod[i, k]] = p / np.linalg.norm(p) * scale
    for _ in range(50):  # moving a shared node may have spoilt an earlier element
        bad = [i for i in range(len(enod)) if abs(np.linalg.det(coord[enod[i, 1:]] - coord[enod[i, 0]])) < 0.02 * scale**3]
        if not bad or layout != "fan":
            break
        coord[enod[bad[0], 3]] = r.normal(size=3) * scale
    if s.get("centred"):
        coord = coord - coord.mean(axis=0)
    coord = coord @ lab.T
    U = np.array([rotation(r.randint(2**31)) for _ in range(n)])
    e = r.normal(size=(n, 3, 3)) * s.get("strain", 0.)
    strain = (e + e.transpose(0, 2, 1)) / 2
    names = s["phases"]
    pm = r.randint(0, len(names), n)
    if s.get("aligned"):  # crystal axes along the axes of the laboratory
        for i in range(n):
            turn = np.eye(3)[r.permutation(3)] if r.rand() < .5 else np.eye(3)
            U[i] = lab @ turn * np.linalg.det(turn)
    if s.get("same_orientation"):
        U = U[0]
    if s.get("same_strain"):
        strain = strain[0]
    return coord, enod, U, strain, pm, names


def phase(name):
    from xrd_simulator.phase import Phase
    cell, sg, cif = PHASES[name.split("+")[0]]
    path = os.path.join(DATA, cif) if name.endswith("+cif") else None
    return Phase(list(cell), sg, path)


def sample(s, lab=np.eye(3), phases=None):
    """A Polycrystal."""
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.polycrystal import Polycrystal
    coord, enod, U, strain, pm, names = sample_arrays(s, lab)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    ph = phases or [phase(n) for n in names]
    if len(ph) == 1 and s.get("bare_phase"):
        return Polycrystal(mesh, U, strain, ph[0])
    return Polycrystal(mesh, U, strain, ph, element_phase_map=pm)


def mesh(s, lab=np.eye(3)):
    from xrd_simulator.mesh import TetraMesh
    coord, enod = sample_arrays(s, lab)[:2]
    return TetraMesh.generate_mesh_from_vertices(coord, enod)


# ---------------------------------------------------------------------- beam
def beam_arrays(b, lab=np.eye(3)):
    """vertices, direction, wavelength, polarisation, exact halfspaces (n, d): n.x + d < 0."""
    r = rs(b["seed"])
    L = b.get("length", 5000.)
    k = b.get("sides", 4)
    w = b["width"]
    if k == 4:
        hy, hz = w, w * b.get("aspect", 1.)
        poly = np.array([[-hy, -hz], [hy, -hz], [hy, hz], [-hy, hz]])
    else:
        a = np.sort(r.uniform(0, 1, k) * 0.5 + np.arange(k)) * 2 * np.pi / k
        poly = w * np.c_[np.cos(a), np.sin(a)]
    poly = poly + np.asarray(b.get("shift", [0., 0.]))
    v = np.array([[x, y, z] for x in (-L, L) for y, z in poly])
    h = [[-1., 0, 0, -L], [1., 0, 0, -L]]
    for i in range(len(poly)):
        p, q = poly[i], poly[(i + 1) % len(poly)]
        t = q - p
        n = np.array([t[1], -t[0]]) / np.linalg.norm(t)
        h.append([0, n[0], n[1], -n @ p])
    h = np.array(h)
    n = h[:, :3] @ lab.T
    a = b.get("pol", 0.)
    pol = lab @ np.array([0, np.cos(a), np.sin(a)])
    return v @ lab.T, lab @ np.array([1., 0, 0]), b["wavelength"], pol, np.c_[n, h[:, 3]]


def beam(b, lab=np.eye(3)):
    from xrd_simulator.beam import Beam
    v, d, wl, pol, _ = beam_arrays(b, lab)
    return Beam(v, d, wl, pol)


# ---------------------------------------------------------------------- motion
def motion_arrays(m, lab=np.eye(3)):
    """axis, angle, translation, origin."""
    r = rs(m["seed"])
    if m.get("axis") == "z":
        n = lab @ np.array([0, 0, 1.])
    elif m.get("axis") == "y":
        n = lab @ np.array([0, -1., 0])
    else:
        n = r.normal(size=3)
        n /= np.linalg.norm(n)
    T = r.uniform(-1, 1, 3) * m.get("translate", 0.)
    o = r.uniform(-1, 1, 3) * m.get("origin", 0.)
    if m.get("excursion"):  # sideways out of the beam and back, along an arc about z
        a = np.pi / 2 - np.radians(m["degrees"]) / 2
        n, o = lab @ np.array([0, 0, 1.]), lab @ (-m["excursion"] * np.array([np.cos(a), np.sin(a), 0.]))
    return n, np.radians(m["degrees"]), T, o


def motion(m, lab=np.eye(3)):
    from xrd_simulator.motion import RigidBodyMotion
    return RigidBodyMotion(*motion_arrays(m, lab))


def step_motion(arrays, i, k):
    """Step i of k of a motion, as arguments of RigidBodyMotion."""
    n, a, T, o = arrays
    return n, a / k, T / k, o + T * (i / k)


# ---------------------------------------------------------------------- detector
def detector_arrays(d, lab=np.eye(3)):
    """corners and pixel sizes."""
    pz, py = d["pixel"]
    nz, ny = d["shape"]
    D = d["distance"]
    cz, cy = d.get("centre", [nz / 2, ny / 2])
    c0 = np.array([D, -cy * py, -cz * pz])
    c1 = np.array([D, (ny - cy) * py, -cz * pz])
    c2 = np.array([D, -cy * py, (nz - cz) * pz])
    return c0 @ lab.T, c1 @ lab.T, c2 @ lab.T, pz, py


def detector(d, lab=np.eye(3)):
    from xrd_simulator.detector import Detector
    c0, c1, c2, pz, py = detector_arrays(d, lab)
    kw = {k: d[k] for k in ("gaussian_sigma", "kernel_threshold", "max_gaussian_kernel_radius",
                            "use_lorentz", "use_polarization", "use_structure_factor") if k in d}
    if d.get("by_count"):
        return Detector(c0, c1, c2, n_pixels=tuple(d["shape"]), **kw)
    return Detector(c0, c1, c2, pixel_size=(pz, py), **kw)


# ---------------------------------------------------------------------- generators
def gen_sample(rng, big=6, phases=None, scale=None, strain=None):
    names = phases or rng.choice([["al"], ["fe"], ["al", "fe"], ["ti"], ["quartz"], ["al", "ti"], ["ti", "fe"], ["ortho"]])
    return {"seed": rng.getrandbits(31), "n": rng.randint(1, big),
            "scale": scale if scale is not None else rng.choice([5., 30., 120.]),
            "spread": rng.choice([0., 50., 300.]), "vary": rng.choice([0., 1.]),
            "layout": rng.choice(["free", "free", "free", "free", "fan", "fan", "grid"]), "phases": names,
            "aligned": rng.random() < .1,
            "strain": strain if strain is not None else rng.choice([0., 1e-4, 5e-3]),
            "bare_phase": rng.random() < .3}


def gen_beam(rng, full=None):
    full = rng.random() < .4 if full is None else full
    return {"seed": rng.getrandbits(31), "wavelength": rng.choice([0.18, 0.285, 0.45]),
            "width": 2500. if full else rng.choice([15., 60., 200., 400.]),
            "aspect": 1. if full else rng.choice([1., .4]),
            "sides": 4 if full else rng.choice([4, 4, 3, 6]),
            "shift": [0., 0.] if full else [rng.uniform(-40, 40), rng.uniform(-40, 40)],
            "pol": rng.uniform(0, 3.1)}


def gen_motion(rng, small=False):
    return {"seed": rng.getrandbits(31), "axis": rng.choice(["z", "z", "any"]),
            "degrees": rng.choice([1., 4., 10.] if small else [1., 4., 10., 40., 120., 172.]),
            "translate": rng.choice([0., 0., 5., 80.]), "origin": rng.choice([0., 0., 30., 500.])}


def gen_detector(rng):
    nz, ny = rng.choice([24, 40, 64]), rng.choice([24, 40, 64])
    size = rng.choice([60000., 100000.])
    d = {"distance": rng.choice([80000., 150000.]), "shape": [nz, ny],
         "pixel": [size / nz, size / ny], "gaussian_sigma": rng.choice([.5, 1., 1.6]),
         "by_count": rng.random() < .3}
    if rng.random() < .3:
        d["centre"] = [nz * rng.uniform(.2, .8), ny * rng.uniform(.2, .8)]
    for k in ("use_lorentz", "use_polarization", "use_structure_factor"):
        if rng.random() < .2:
            d[k] = False
    return d


def gen_near(rng, x):
    """A detector of fine pixels close to the sample, on which grains cast visible shadows."""
    D = rng.choice([3000., 8000.])
    half = D * np.tan(2 * np.radians(x["bragg"][1])) * rng.choice([.7, 1.05])
    nz, ny = rng.choice([48, 80, 120]), rng.choice([48, 80, 120])
    d = gen_detector(rng)
    d.update(distance=D, shape=[nz, ny], pixel=[float(2 * half / nz), float(2 * half / ny)])
    if "centre" in d:
        d["centre"] = [nz * rng.uniform(.3, .7), ny * rng.uniform(.3, .7)]
    return d


def gen_experiment(rng, **kw):
    """A whole set-up."""
    s = gen_sample(rng, kw.get("big", 6), kw.get("phases"), kw.get("scale"), kw.get("strain"))
    return {"frame": rng.getrandbits(31) if rng.random() < .4 else None, "sample": s,
            "beam": gen_beam(rng, kw.get("full")), "motion": gen_motion(rng, kw.get("small", False)),
            "detector": gen_detector(rng), "bragg": [0., rng.choice([3., 6., 9.])]}


def experiment(x):
    """(sample, beam, motion, detector) of a set-up."""
    R = frame(x)
    return sample(x["sample"], R), beam(x["beam"], R), motion(x["motion"], R), detector(x["detector"], R)


def shrink_experiment(x):
    """Simpler set-ups."""
    s = x["sample"]
    for n in {1, s["n"] // 2, s["n"] - 1}:
        if 0 < n < s["n"]:
            yield {**x, "sample": {**s, "n": n}}
    for k, v in (("strain", 0.), ("vary", 0.), ("layout", "free"), ("spread", 0.)):
        if s.get(k) != v:
            yield {**x, "sample": {**s, k: v}}
    if s.get("aligned"):
        yield {**x, "sample": {**s, "aligned": False}}
    if len(s["phases"]) > 1:
        yield {**x, "sample": {**s, "phases": s["phases"][:1]}}
    if x.get("frame") is not None:
        yield {**x, "frame": None}
    m = x["motion"]
    for k, v in (("translate", 0.), ("origin", 0.), ("axis", "z")):
        if m.get(k) != v:
            yield {**x, "motion": {**m, k: v}}
    d = x["detector"]
    extra = {k: v for k, v in d.items() if k in ("distance", "shape", "pixel")}
    if extra != d:
        yield {**x, "detector": extra}


# ---------------------------------------------------------------------- observing
def to_np(a):
    import torch
    if torch.is_tensor(a):
        return a.detach().cpu().numpy().copy()
    return np.array(a)


MESH_ATTRS = ("coord", "enod", "efaces", "enormals", "ecentroids", "eradius",
              "espherecentroids", "evolumes", "centroid", "number_of_elements")
PC_ATTRS = ("orientation_lab", "orientation_sample", "strain_lab", "strain_sample",
            "element_phase_map")
BEAM_ATTRS = ("vertices", "wavelength", "wave_vector", "polarization_vector", "centroid", "halfspaces")
DET_ATTRS = ("pixel_size_z", "pixel_size_y", "det_corner_0", "det_corner_1", "det_corner_2",
             "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_coordinates", "gaussian_sigma",
             "kernel_threshold", "gaussian_kernel", "lorentz_factor", "polarization_factor",
             "structure_factor")
MOTION_ATTRS = ("rotation_axis", "rotation_angle", "translation", "origin")


def state(obj):
    """{attribute: array} of an object's documented state."""
    kind = type(obj).__name__
    if kind == "Polycrystal":
        out = {k: to_np(getattr(obj, k)) for k in PC_ATTRS}
        for m in ("mesh_lab", "mesh_sample"):
            out.update({f"{m}.{k}": v for k, v in state(getattr(obj, m)).items()})
        for i, p in enumerate(obj.phases):
            out[f"phase{i}"] = np.array(list(p.unit_cell) + [hash_text(p.sgname), hash_text(str(p.path_to_cif_file))], float)
        return out
    attrs = {"TetraMesh": MESH_ATTRS, "Beam": BEAM_ATTRS, "Detector": DET_ATTRS,
             "RigidBodyMotion": MOTION_ATTRS}[kind]
    return {k: to_np(getattr(obj, k)) for k in attrs if getattr(obj, k, None) is not None}


def close(a, b, tol=1e-9):
    """Arrays equal but for the last digits, which depend on the alignment of memory."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    if a.dtype.kind != "f" and b.dtype.kind != "f":
        return np.array_equal(a, b)
    f, g = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(f, g) or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not f.any():
        return True
    a, b = np.where(f, a, 0.), np.where(f, b, 0.)
    return bool(np.all(np.abs(a - b) <= tol * (np.abs(b).max() + 1e-12)))


def same_peaks(a, b):
    """Tables of peaks equal but for the last digits."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    f = np.isfinite(a)
    if not np.array_equal(f, np.isfinite(b)) or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    a, b = np.where(f, a, 0.), np.where(f, b, 0.)
    return bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b).max(axis=0))))


def same_image(a, b, tol=3e-7):
    """Images equal but for the last digits."""
    return close(a, b, tol)


def hash_text(t):
    import zlib
    return float(zlib.crc32(t.encode()))


def same_state(a, b, tol=0.):
    """None, or the name of an attribute that differs."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f"{k} (missing)"
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return f"{k} (shape {x.shape} and {y.shape})"
        if tol == 0.:
            if not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                return k
        else:
            scale = max(1., float(np.abs(y).max()) if y.size else 1.)
            if x.size and not np.all(np.abs(x.astype(float) - y.astype(float)) <= tol * scale):
                return f"{k} (by {np.abs(x.astype(float) - y.astype(float)).max():.3g})"
    return None


def columns(peaks_dict, *names):
    """Columns of a diffraction result as arrays."""
    p = to_np(peaks_dict["peaks"])
    c = list(peaks_dict["columns"])
    out = [p[:, c.index(n)] for n in names]
    return out[0] if len(out) == 1 else out


def order(peaks_dict):
    """Order of the rows that does not depend on how they were computed.

    Planes of equal spacing come in an order that hangs on the last digits.
    """
    return np.lexsort(columns(peaks_dict, "diffraction_times", "l", "k", "h", "grain_index"))


def peaks(peaks_dict):
    """Table of a result, in canonical order, without the running number of the rows."""
    p = to_np(peaks_dict["peaks"])[order(peaks_dict)]
    p[:, list(peaks_dict["columns"]).index("peak_index")] = 0
    return p


def take(peaks_dict, n=None):
    """The result with its first n rows in canonical order."""
    out = dict(peaks_dict)
    out["peaks"] = peaks_dict["peaks"][order(peaks_dict)[:n].copy()]
    return out


def diffract(x, s, b, m, detector=None):
    lo, hi = np.radians(x["bragg"])
    return s.diffract(b, m, min_bragg_angle=lo, max_bragg_angle=hi, detector=detector, verbose=False)
