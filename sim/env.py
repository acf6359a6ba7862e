"""Process environment of the simulator, and the seams it patches into libraries.

Has to be set up before xrd_simulator is imported.
"""
import hashlib
import os
import random
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XRD_SIM_REPO", "/repo")  # /repo, but for experiments with copies
PYTHON = "/opt/venv/bin/python"
VARS = {
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "HDF5_USE_FILE_LOCKING": "FALSE", "PYTHONWARNINGS": "ignore",
    "TZ": "UTC", "MKL_CBWR": "COMPATIBLE",
}


def shim():
    """Path of the compiled seam, built when missing."""
    src = os.path.join(HERE, "shim.c")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", f"shim-{key}.so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=os.path.dirname(out))
        os.close(fd)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def reexec():
    """Run the present command again under the seam, once."""
    if os.environ.get("XRD_SIM") == "1":
        return
    env = dict(os.environ)
    env.update(VARS)
    env.setdefault("PYTHONHASHSEED", "0")
    env.setdefault("HOME", "/root")
    env["XRD_SIM"] = "1"
    env["LD_PRELOAD"] = shim()
    env["PYTHONPATH"] = os.pathsep.join([VERIF, REPO])
    env.pop("PYTHONSTARTUP", None)
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.chdir(VERIF)
    # Addresses are part of pickled tensors: without randomisation they have the same length
    # in every run. Where the system refuses, the length of a pickle may vary.
    import ctypes
    libc = ctypes.CDLL(None)
    now = libc.personality(ctypes.c_ulong(0xffffffff))
    if now != -1:
        libc.personality(ctypes.c_ulong(now | 0x0040000))
    os.execve(python, [python, "-m", "sim"] + sys.argv[1:], env)


class Names:
    """Replaces the names that `tempfile` draws."""

    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


class Stream:
    """A module's random generator, of which simulated threads may have one each."""

    def __init__(self, main):
        self.__dict__.update(_main=main, _own={}, _real=type(main))

    def _now(self):
        return self._own.get(threading.get_ident(), self._main)

    def __getattr__(self, name):
        if _state["adversary"] is not None and not name.startswith("_"):
            g = getattr(self._now(), name)
            if callable(g):
                return lambda *a, **k: _state["adversary"](name, g(*a, **k), a, k)
        if _state["stateless"] is not None and not name.startswith("_") and name != "bit_generator":
            return lambda *a, **k: self._draw(name, a, k)
        return getattr(self._now(), name)

    def _draw(self, name, a, k):
        """A draw that depends on what is asked for, and not on the draws before."""
        import numpy as np

        size = repr((name, k.get("size"), [x for x in a if isinstance(x, (int, tuple, str))]))
        _state["drawn"] += 1
        seed = int.from_bytes(hashlib.sha256(f"{_state['stateless']} {size}".encode()).digest()[:8], "big")
        return getattr(np.random.Generator(np.random.PCG64(seed)), name)(*a, **k)


GENERATORS = []  # every numpy Generator the package made through default_rng
_state = {"urandom": None, "own": {}, "stateless": None, "drawn": 0, "adversary": None}


def install():
    """Import the package under test with every seam in place."""
    import numpy as np

    sys.path[:0] = [p for p in (REPO,) if p not in sys.path]
    real_rng = np.random.default_rng

    def default_rng(seed=None):
        g = real_rng(_bits() if seed is None else seed)
        f = sys._getframe(1)
        if seed is None and f.f_code.co_name == "<module>" and f.f_globals.get("__name__", "").startswith("xrd_simulator"):
            g = Stream(g)
            GENERATORS.append(g)
        return g

    np.random.default_rng = default_rng

    real_urandom = os.urandom

    def urandom(n):
        r = _state["urandom"]
        return real_urandom(n) if r is None else r.randbytes(n)

    os.urandom = urandom
    from . import sched
    sched.patch_locks()

    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # Everything that the package imports late is imported now, so that no import lock
    # or file access of an import falls into a simulation.
    import dill, h5py, meshio, psutil, scipy.optimize, scipy.spatial, warnings  # noqa
    import importlib
    import pkgutil
    import xrd_simulator
    root = os.path.realpath(os.path.dirname(xrd_simulator.__file__))
    if not root.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"xrd_simulator comes from {root}, not from {REPO}")
    for m in pkgutil.iter_modules(xrd_simulator.__path__):
        importlib.import_module("xrd_simulator." + m.name)
    return root


def _bits():
    r = _state["own"].get(threading.get_ident(), _state["urandom"])
    return None if r is None else r.getrandbits(64)


def reseed(seed):
    """Put every source of randomness in a state that depends on `seed` alone."""
    import numpy as np
    import torch

    random.seed(seed)
    np.random.seed(seed % 2**32)
    torch.manual_seed(seed % 2**63)
    _state["urandom"] = random.Random(seed ^ 0x5EED)
    tempfile._name_sequence = Names(random.Random(seed ^ 0x7E3F))
    _state["own"].clear()
    _state["stateless"] = _state["adversary"] = None
    for k, g in enumerate(GENERATORS):
        g._own.clear()
        g._main.bit_generator.state = np.random.PCG64(seed + k).state


def stateless(seed):
    """From now on equal requests to a module's generator get equal random numbers."""
    _state["stateless"] = seed


def adversarial(seed):
    """From now on a module's generator draws rare but possible values: near corners, always the same part."""
    import numpy as np
    r = np.random.RandomState(seed % 2**32)

    def twist(name, value, a, k):
        _state["drawn"] += 1
        v = np.array(value, copy=True)
        mode = r.randint(4)
        if name in ("exponential", "standard_exponential"):
            v = r.choice([0., 1e-3, 1., 10.], v.shape) if mode else np.full(v.shape, r.choice([1e-3, 1., 10.]))
            if v.ndim:  # a nought is rare, nothing but noughts impossible
                v[np.all(v == 0, axis=-1)] = 1.
            elif v == 0:
                v = np.array(1e-3)
        elif name in ("random", "uniform") and v.size:
            lo, hi = (0., 1.) if name == "random" else (float(np.min(a[0])) if a else 0., float(np.max(a[1])) if len(a) > 1 else 1.)
            v = lo + (hi - lo) * r.choice([0., 1e-3, .5, 1 - 1e-3, 1 - 2**-53], v.shape)
        elif name in ("choice", "integers") and v.size:
            v = np.broadcast_to(v.reshape(-1)[r.randint(v.size)], v.shape).copy() if v.ndim else v
        else:
            return value
        return v if v.ndim else type(value)(v)

    _state["adversary"] = twist


def own_streams(seed):
    """Give the calling thread random generators of its own."""
    import numpy as np

    _state["own"][threading.get_ident()] = random.Random(seed ^ 0x5EED)
    for k, g in enumerate(GENERATORS):
        g._own[threading.get_ident()] = np.random.Generator(np.random.PCG64(seed + k))
