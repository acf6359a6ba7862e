"""Volumes, shadows and path lengths of tetrahedra cut by half-spaces, in plain numpy.

Shares no code with the package under test.
"""
import numpy as np


def volume(t):
    return abs(np.linalg.det(t[1:] - t[0])) / 6


def cut(tets, plane, eps=0.):
    """Parts of tetrahedra where n.x + d <= 0, as tetrahedra."""
    n, d = plane[:3], plane[3]
    out = []
    for t in tets:
        s = t @ n + d
        inside = s <= eps
        k = int(inside.sum())
        if k == 4:
            out.append(t)
        elif k:
            a, b = t[inside], t[~inside]
            u, v = s[inside], s[~inside]

            def x(i, j):
                w = u[i] / (u[i] - v[j])
                return a[i] + min(max(w, 0.), 1.) * (b[j] - a[i])

            if k == 1:
                out.append(np.array([a[0], x(0, 0), x(0, 1), x(0, 2)]))
            elif k == 3:  # a prism
                out += prism(a[0], a[1], a[2], x(0, 0), x(1, 0), x(2, 0))
            else:
                out += prism(a[0], x(0, 0), x(0, 1), a[1], x(1, 0), x(1, 1))
    return out


def prism(a, b, c, p, q, r):
    """Triangular prism abc-pqr as three tetrahedra."""
    return [np.array([a, b, c, r]), np.array([a, b, q, r]), np.array([a, p, q, r])]


def common(tet, planes):
    """Part of a tetrahedron inside all planes (n.x + d <= 0), as tetrahedra."""
    tets = [np.asarray(tet, float)]
    for p in planes:
        tets = cut(tets, p)
        if not tets:
            break
    return tets


def total(tets):
    return float(sum(volume(t) for t in tets))


def width(tets):
    """A length below which the body is thin: volume over half its largest extent squared."""
    pts = np.concatenate(tets)
    ext = np.linalg.norm(pts.max(0) - pts.min(0))
    return total(tets) / max(ext, 1e-300) ** 2


def shadow(points, k, c0, z, y):
    """Positions (z, y) on the detector plane hit along k from the points."""
    n = np.cross(z, y)
    s = ((c0 - points) @ n) / (k @ n)
    x = points + s[:, None] * k - c0
    return x @ z, x @ y


def convolve(img, kernel):
    """Image after the point spread, zero outside."""
    kh, kw = kernel.shape
    H, W = img.shape
    pad = np.zeros((H + kh - 1, W + kw - 1))
    pad[kh // 2:kh // 2 + H, kw // 2:kw // 2 + W] = img
    out = np.zeros_like(img, dtype=float)
    for i in range(kh):
        for j in range(kw):
            out += kernel[i, j] * pad[i:i + H, j:j + W]
    return out


def illuminated(x, peaks):
    """For each row of a table of peaks its grain's part in the beam at the time of diffraction."""
    from . import model, world
    R = world.frame(x)
    coord, enod = world.sample_arrays(x["sample"], R)[:2]
    planes = world.beam_arrays(x["beam"], R)[4]
    arrays = world.motion_arrays(x["motion"], R)
    names = ("grain_index", "diffraction_times", "K_out_x", "K_out_y", "K_out_z")
    out = []
    for g, t, *k in zip(*world.columns(peaks, *names)):
        Q, v = model.motion_at(arrays, t)
        tet = coord[enod[int(g)]] @ Q.T + v
        parts = common(tet, planes)
        V = total(parts)
        out.append({"tet": tet, "parts": parts, "volume": V, "whole": volume(tet), "k": np.array(k),
                    "width": width(parts) if V > 0 else 0.})
    return out


def pixels(x, row, what="parts"):
    """Shadow of the illuminated part (or of the whole grain) in units of pixels."""
    from . import world
    c0, c1, c2, pz, py = world.detector_arrays(x["detector"], world.frame(x))
    y, z = c1 - c0, c2 - c0
    pts = np.concatenate(row["parts"]) if what == "parts" else row["tet"]
    a, b = shadow(pts, row["k"], c0, z / np.linalg.norm(z), y / np.linalg.norm(y))
    return a / pz, b / py
