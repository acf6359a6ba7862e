"""Runs scenarios, minimises and replays violations, writes evidence."""
import contextlib
import ctypes
import gc
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import env, sched
from .disk import Disk, Clock, Faults, lib

REPLAYS = os.path.join(env.VERIF, "replays")
EVIDENCE = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.json")
RUN_LIMIT = 240  # seconds of real time after which a run counts as an error of the check
LINES = 4_000_000  # package lines one call of the API may execute
REAL_TIME = time.monotonic


class Violation(Exception):
    """A property does not hold. `kind` classifies it; equal kinds are the same finding."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class NoProgress(BaseException):
    pass


class Stats:
    """What a run did."""

    def __init__(self):
        self.faults = {}
        self.counts = {}
        self.states = set()
        self.probes = {}

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def state(self, *key):
        """A state or interleaving reached, as told apart by `key`."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def probe(self, name, hit=True):
        """A rare condition that runs are meant to reach now and then."""
        self.probes[name] = self.probes.get(name, 0) + (1 if hit else 0)


class Ctx:
    """One simulated execution."""

    def __init__(self, scratch):
        self.stats = Stats()
        self.scratch = scratch
        self.disk = Disk(scratch, self.stats)
        self.hash = hashlib.sha256()
        self.events = 0
        self.nontrivial = False
        self.tail = []

    # -- event log
    def log(self, *what):
        text = json.dumps(what, default=_plain, sort_keys=True)
        self.hash.update(text.encode())
        self.events += 1
        self.tail.append(text[:300])
        if len(self.tail) > 200:
            del self.tail[:100]

    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, ok, kind, message):
        if not ok:
            raise Violation(kind, message() if callable(message) else message)

    # -- calls of the code under test
    def do(self, name, fn, *args, **kwargs):
        """Call the code under test; it has no reason to fail."""
        value, error = self.attempt(name, fn, *args, **kwargs)
        if error is not None:
            raise Violation(f"{name} raises {type(error).__name__}", describe(error))
        return value

    def attempt(self, name, fn, *args, **kwargs):
        """Call the code under test. Returns (value, None) or (None, exception)."""
        left = [LINES]

        def tick(code, line):
            left[0] -= 1
            if left[0] < 0:
                raise NoProgress(f"{code.co_name}:{line}")

        before = sched._hooks.get(sched._thread.get_ident())
        if before is not None:  # a scheduler or clock already watches the lines
            guard = contextlib.nullcontext()
        else:
            guard = sched.hooked(tick)
        try:
            with guard, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs), None
        except NoProgress as e:
            raise Violation(f"{name} makes no progress", f"still in {e} after {LINES} lines")
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            return None, e


    def elsewhere(self, fn, *args, seed=1, process="new"):
        """(fn(*args), None) as a process gives it that has seen nothing of this run, or (None, what it raised)."""
        self.stats.count("other processes")
        return Nursery.all[process].call(fn, args, seed)

    def isolated(self, fn):
        """fn() in a process of its own that shares the disk and ends with it.

        For code after which the libraries of the process are no longer in order (a failed
        close corrupts the state of libhdf5). None if the process dies of a signal.
        """
        def job():
            self.stats, outer = Stats(), self.stats
            self.disk.stats = self.stats
            value = fn(self.stats)
            return value, self.disk.events, self.stats, self.disk.errors
        got = in_child(job, 100)
        for r in (env._state["urandom"], tempfile._name_sequence.rng):  # names the child drew
            r.seed(r.getrandbits(64) ^ 0xC41D)
        if got is None:
            self.stats.fault("library_crash")
            return None
        value, self.disk.events, st, self.disk.errors = got
        for k, n in st.faults.items():
            self.stats.fault(k, n)
        for k, n in st.counts.items():
            self.stats.count(k, n)
        return value


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/xrd_simulator/" in f.filename]
    text = str(e).split("\n\nWhile executing")[0]  # qhull goes on with a number of its own for each run
    return f"{type(e).__name__}: {text[:300]} in {' > '.join(where[-3:])}"


def _plain(x):
    try:
        import numpy as np
        import torch
        if torch.is_tensor(x):
            x = x.detach().cpu().numpy()
        if isinstance(x, np.ndarray):
            return digest(x)
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, bytes):
        return hashlib.sha256(x).hexdigest()[:16]
    return repr(x)


def digest(a):
    import numpy as np
    a = np.ascontiguousarray(np.asarray(a))
    if a.dtype.kind != "f":
        return [str(a.dtype), list(a.shape), hashlib.sha256(a.tobytes()).hexdigest()[:16]]
    # The last digit of vectorised arithmetic depends on how memory happens to be aligned,
    # which no seed decides; so floats enter the log by sums of few digits.
    x = a.astype(float).ravel()
    ok = np.isfinite(x)
    x = np.where(ok, x, 0.)
    w = 1 + np.arange(x.size) % 97 / 97
    return [str(a.dtype), list(a.shape), int((~ok).sum()), float(f"{np.abs(x).sum():.5g}"), float(f"{(np.abs(x) * w).sum():.5g}")]


# ---------------------------------------------------------------------- running
def seed_of(prop, seed, i):
    h = hashlib.sha256(f"{prop}/{seed}/{i}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def load(prop):
    return importlib.import_module(f".props.{prop.lower()}", __package__)


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="xrdsim-", dir=base)


class Sink(io.StringIO):
    def isatty(self):
        return False


def execute(mod, scenario, scratch):
    """Run one scenario. Returns a result dict."""
    os.makedirs(scratch, exist_ok=True)
    for name in os.listdir(scratch):
        p = os.path.join(scratch, name)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    ctx = Ctx(scratch)
    env.reseed(scenario.get("rng", 1))
    default_device()
    gc.collect()
    gc.disable()  # finalizers run at the same places in every process
    out, cwd = sys.stdout, os.getcwd()
    result = {"violation": None, "error": None}
    t0 = REAL_TIME()

    def expire(*_):
        raise TimeoutError(f"run took more than {RUN_LIMIT} s")

    signal.signal(signal.SIGALRM, expire)
    signal.alarm(RUN_LIMIT)
    sys.stdout = Sink()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.execute(scenario, ctx)
    except Violation as v:
        result["violation"] = [v.kind, v.message]
    except BaseException:
        result["error"] = traceback.format_exc()
    finally:
        signal.alarm(0)
        gc.enable()
        sys.stdout = out
        lib().shim_files(None, None)
        os.chdir(cwd)
        sys.setprofile(None)
        env._state["urandom"] = None
    if ctx.disk.errors:
        result["error"] = ctx.disk.errors[0]
        result["violation"] = None
    ctx.log("end", result["violation"])
    result.update(
        log=ctx.hash.hexdigest(), events=ctx.events, faults=ctx.stats.faults,
        counts=ctx.stats.counts, states=ctx.stats.states, probes=ctx.stats.probes,
        nontrivial=ctx.nontrivial, wall=REAL_TIME() - t0, tail=ctx.tail[-30:],
        extra=getattr(ctx, "extra", None))
    return result


class Nursery:
    """A process that only imported the package (and did what `warm` does), and hands out copies of itself.

    What runs in a copy sees nothing of the runs before, as a newly started program would.
    """

    all = {}

    def __init__(self, name):
        self.address = f"\0xrd-sim-{os.getpid()}-{name}"
        server = socket.socket(socket.AF_UNIX)
        server.bind(self.address)
        server.listen(64)
        parent = os.getpid()
        if os.fork():
            server.close()
            self.all[name] = self
            return
        try:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its parent
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            while os.getppid() == parent:
                conn, _ = server.accept()
                if not os.fork():
                    server.close()
                    self._serve(conn)
                conn.close()
                with contextlib.suppress(ChildProcessError):
                    while os.waitpid(-1, os.WNOHANG)[0]:
                        pass
        finally:
            os._exit(0)

    @staticmethod
    def _serve(conn):
        try:
            with conn.makefile("rwb") as f:
                module, name, args, seed, cwd = pickle.load(f)
                os.chdir(cwd)
                sys.stdout = Sink()
                env.reseed(seed)
                default_device()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got = getattr(importlib.import_module(module), name)(*args), None
                except Exception as e:
                    got = None, (type(e).__name__, describe(e))
                pickle.dump(got, f)
        finally:
            os._exit(0)

    def call(self, fn, args, seed):
        """(value, None) or (None, (kind of exception, description))."""
        with socket.socket(socket.AF_UNIX) as conn:
            conn.settimeout(RUN_LIMIT)
            conn.connect(self.address)
            with conn.makefile("rwb") as f:
                pickle.dump((fn.__module__, fn.__name__, args, seed, os.getcwd()), f)
                f.flush()
                return pickle.load(f)


def ready(mod):
    """The process as every run finds it."""
    root = env.install()
    if "new" in getattr(mod, "PROCESSES", ()):
        Nursery("new")
    sched.probe(root)
    warm()
    if hasattr(mod, "prepare"):
        mod.prepare()
    if "warm" in getattr(mod, "PROCESSES", ()):
        Nursery("warm")
    gc.collect()
    gc.freeze()


def default_device():
    """Interrupts inside torch can lose its stack of modes."""
    import torch
    from torch.overrides import _pop_mode
    while torch._C._len_torch_function_stack():
        _pop_mode()
    torch.utils._device.CURRENT_DEVICE = None
    torch._GLOBAL_DEVICE_CONTEXT.device_context = None
    torch.set_default_device("cpu")


def warm():
    """What libraries do on first use is done before the first run."""
    from . import store, world
    rng = random.Random(3)
    x = world.gen_experiment(rng, big=2, phases=["al"], full=True, small=True)
    d = scratch_root()
    out, sys.stdout = sys.stdout, Sink()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s, b, m, det = world.experiment(x)
            p = world.take(world.diffract(x, s, b, m), 5)
            for method in ("macro", "micro", "nano", "auto"):
                det.render(p, 1, method)
            s.transform(m, .5)
            mesh = world.mesh(x["sample"])
            mesh.update(m, .3)
            mesh.translate([1., 2., 3.])
            mesh.rotate([0., 0., 1.], .2)
            b.set_beam_vertices(b.vertices * .9)
            world.diffract(x, s, b, m, det)
            import scipy.optimize
            for _ in range(2):
                scipy.optimize.linprog([1., 2.], A_ub=[[1., 1.], [-1., 0.], [0., -1.]], b_ub=[1., 0., 0.], method="highs")
            for k in store.KINDS:
                o = store.gen(rng, k)
                store.save(o, store.build(o), os.path.join(d, k), True)
                store.load(k, store.full(k, os.path.join(d, k)))
    except Exception:
        pass  # the checks will tell
    finally:
        sys.stdout = out
        shutil.rmtree(d, ignore_errors=True)


def in_child(fn, limit):
    """fn() in a forked child. Returns its value, or None if it died or took too long."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], REAL_TIME() + limit
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - REAL_TIME()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                chunks = None
                break
            b = f.read(1 << 20)
            if not b:
                break
            chunks.append(b)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(chunks)) if chunks else None
    except Exception:
        return None


def quiet():
    """Chatter of libraries (h5py on failed closes, HiGHS under strange clocks) goes nowhere."""
    if not os.environ.get("XRD_SIM_STDERR"):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.dup2(null, 1)
        os.close(null)


def run_once(mod, scenario, root, prelude=(), limit=RUN_LIMIT + 60):
    def job():
        quiet()
        d = os.path.join(root, f"one-{os.getpid()}")
        try:
            for p in prelude:
                execute(mod, p, d)
            return execute(mod, scenario, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return in_child(job, limit)


def batch(mod, prop, tier, seed, runs, jobs, cap, root, on_result):
    """Run scenarios 0..runs-1 on `jobs` processes, until `cap` seconds are over."""
    end = REAL_TIME() + cap
    pipes, pids = {}, []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for p in pipes:
                    p.close()
                quiet()
                d = os.path.join(root, f"w{j}")
                with os.fdopen(w, "wb") as f:
                    for i in range(j, runs, jobs):
                        if REAL_TIME() > end:
                            break
                        with open(os.path.join(root, f"cur{j}"), "w") as g:
                            g.write(str(i))
                        try:
                            sc = generate(mod, prop, tier, seed, i)
                            res = execute(mod, sc, d)
                        except BaseException:
                            sc, res = None, {"error": traceback.format_exc(), "violation": None}
                        data = pickle.dumps((i, sc, res))
                        f.write(len(data).to_bytes(8, "big") + data)
                        f.flush()
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        f = os.fdopen(r, "rb", buffering=0)
        os.set_blocking(f.fileno(), False)
        pipes[f] = [b"", j]
        pids.append(pid)
    stop = False
    dead = []
    hard = end + RUN_LIMIT + 30
    while pipes and not stop:
        if REAL_TIME() > hard:
            dead.append("workers did not finish in time")
            break
        for f in select.select(list(pipes), [], [], 1.0)[0]:
            b = f.read(1 << 20)
            if b is None:
                continue
            if not b:
                del pipes[f]
                f.close()
                continue
            pipes[f][0] += b
            buf = pipes[f][0]
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + n:
                    break
                stop = on_result(*pickle.loads(buf[8:8 + n])) or stop
                buf = buf[8 + n:]
            pipes[f][0] = buf
    for j, pid in enumerate(pids):
        if stop or dead:
            with contextlib.suppress(ProcessLookupError):
                os.kill(pid, signal.SIGKILL)
        status = os.waitpid(pid, 0)[1]
        if status and not stop:
            with open(os.path.join(root, f"cur{j}")) as g:
                dead.append(f"a worker ended with status {status} in run {g.read()}")
    return dead


def generate(mod, prop, tier, seed, i):
    s = seed_of(prop, seed, i)
    rng = random.Random(s)
    sc = mod.generate(rng, i, tier)
    sc["rng"] = rng.getrandbits(48)
    return json.loads(json.dumps(sc))


# ---------------------------------------------------------------------- minimising
def minimise(mod, scenario, kind, root, prelude, budget):
    """Smaller scenario with a violation of the same kind."""
    end = REAL_TIME() + budget
    tried = 0

    def fails(sc, pre):
        nonlocal tried
        tried += 1
        r = run_once(mod, sc, root, pre, limit=60)
        return r is not None and r["violation"] is not None and r["violation"][0] == kind

    while len(prelude) and REAL_TIME() < end:
        half = len(prelude) // 2
        for cut in ([], prelude[half:], prelude[:half]) if half else ([],):
            if len(cut) < len(prelude) and fails(scenario, cut):
                prelude = cut
                break
        else:
            shorter = None
            for k in range(len(prelude)):
                if REAL_TIME() > end:
                    break
                c = prelude[:k] + prelude[k + 1:]
                if fails(scenario, c):
                    shorter = c
                    break
            if shorter is None:
                break
            prelude = shorter
    progress = True
    while progress and REAL_TIME() < end:
        progress = False
        for cand in mod.shrink(scenario):
            if REAL_TIME() > end:
                break
            cand = json.loads(json.dumps(cand))
            if cand == scenario:
                continue
            if fails(cand, prelude):
                scenario, progress = cand, True
                break
    return scenario, prelude, tried


# ---------------------------------------------------------------------- known findings
def known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def match(entries, violation):
    for k in entries:
        if k["kind"] == violation[0] and k.get("contains", "") in violation[1]:
            return k
    return None


# ---------------------------------------------------------------------- commands
def check(prop, tier, seed, jobs=None, runs=None, cap=None):
    mod = load(prop)
    t0 = REAL_TIME()
    ready(mod)
    runs = runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = cap or (240 if tier == "quick" else getattr(mod, "THOROUGH_CAP", 3600))
    jobs = jobs or max(1, min(8, os.cpu_count() or 1, runs))
    root = scratch_root()
    entries = known(prop)
    tot = {"runs": 0, "nontrivial": 0, "faults": {}, "counts": {}, "states": set(),
           "probes": {}, "sigs": set(), "events": 0}
    samples, violations, errors, seen_known, history = [], [], [], {}, {}

    def on_result(i, sc, res):
        if res["error"]:
            errors.append((i, res["error"]))
            return len(errors) > 3
        tot["runs"] += 1
        tot["events"] += res["events"]
        for key in ("faults", "counts", "probes"):
            for k, n in res[key].items():
                tot[key][k] = tot[key].get(k, 0) + n
        tot["states"] |= res["states"]
        if res["nontrivial"]:
            sig = res["log"]
            if sig not in tot["sigs"]:
                tot["sigs"].add(sig)
                tot["nontrivial"] += 1
        if len(samples) < 3 and res["nontrivial"]:
            samples.append({"run": i, "seed": seed_of(prop, seed, i), "scenario": sc,
                            "log": res["log"][:16], "last_events": res["tail"][-3:]})
        if res["violation"]:
            k = match(entries, res["violation"])
            if k:
                seen_known.setdefault(k["id"], [i, sc, res["violation"]])
            else:
                violations.append((i, sc, res))
                return True
        return False

    try:
        for k in entries:  # every listed finding is looked at on its own as well
            r = run_once(mod, k["scenario"], root)
            if r is None or r["error"]:
                errors.append((k["id"], r["error"] if r else "died"))
            elif r["violation"] and match([k], r["violation"]):
                seen_known[k["id"]] = [None, k["scenario"], r["violation"]]
        dead = batch(mod, prop, tier, seed, runs, jobs, cap, root, on_result)
        search = REAL_TIME() - t0
        reported = []
        if violations:
            reported = [report(mod, prop, tier, seed, jobs, v, root) for v in violations[:1]]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    wall = REAL_TIME() - t0
    rate = 3600 * tot["runs"] / max(search, 1e-9)
    coverage = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": mod.RULE,
        "samples": samples,
        "runs_per_hour": round(rate),
        "seeds_per_hour": round(rate),
        "workers": jobs,
        "runs_planned": runs,
        "simulated_seconds": round(tot["counts"].pop("simulated_ns", 0) / 1e9, 3),
        "log_events": tot["events"],
        "faults_injected": dict(sorted(tot["faults"].items())),
        "distinct_states": len(tot["states"]),
        "distinct_states_measure": mod.STATES,
        "counts": dict(sorted(tot["counts"].items())),
        "probes": dict(sorted(tot["probes"].items())),
        "components": {"real": mod.REAL, "stub": mod.STUB},
        "known_findings_seen": sorted(seen_known),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
                   "coverage": coverage, "wall_s": round(wall, 2),
                   "assumptions": mod.ASSUMPTIONS,
                   "violations": [{"kind": r["violation"][0], "message": r["violation"][1],
                                   "replay": p} for p, r in reported]}, f, indent=1)
    for k in entries:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: {tot['runs']}/{runs} runs, {tot['nontrivial']} distinct non-trivial, "
          f"{len(tot['states'])} states, {sum(tot['faults'].values())} faults, {wall:.1f} s")
    for p, r in reported:
        print(f"  {r['violation'][0]}: {r['violation'][1]}")
        print(f"VIOLATION property={prop} replay={p}")
    if reported:
        return 1
    if errors or dead:
        for i, e in errors[:3]:
            print(f"harness error in run {i}:\n{e}", file=sys.stderr)
        for d in dead:
            print(f"harness error: {d}", file=sys.stderr)
        return 3
    if not tot["runs"]:
        print("harness error: nothing ran", file=sys.stderr)
        return 3
    return 0


def report(mod, prop, tier, seed, jobs, v, root):
    """Minimise a violation and write its replay file. Returns (path, content)."""
    i, sc, res = v
    kind = res["violation"][0]
    first = run_once(mod, sc, root)
    prelude = []
    if not (first and first["violation"] and first["violation"][0] == kind):
        prelude = [generate(mod, prop, tier, seed, k) for k in range(i % jobs, i, jobs)]
    small, prelude, tried = minimise(mod, sc, kind, root, prelude, float(os.environ.get("XRD_SIM_MINIMISE", 90)))
    final = run_once(mod, small, root, prelude)
    if not (final and final["violation"]):
        small, final = sc, res
    os.makedirs(REPLAYS, exist_ok=True)
    content = {"property": prop, "seed": seed, "run": i, "violation": final["violation"],
               "log": final["log"], "prelude": prelude, "scenario": small,
               "original": sc, "minimiser_runs": tried, "last_events": final["tail"]}
    name = f"{prop}-{hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    r = subprocess.run([sys.executable, "-m", "sim", "replay", path], capture_output=True,
                       text=True, cwd=env.VERIF)
    content["replayed"] = r.returncode == 1
    print(f"  replay in a fresh process: {'reproduced' if content['replayed'] else 'NOT reproduced'} "
          f"({tried} minimiser runs)")
    return path, content


def replay(path):
    with open(path) as f:
        content = json.load(f)
    prop = content["property"]
    mod = load(prop)
    ready(mod)
    root = scratch_root()
    try:
        d = os.path.join(root, "replay")
        for p in content.get("prelude", []):
            execute(mod, p, d)
        r = execute(mod, content["scenario"], d)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r["error"]:
        print(r["error"], file=sys.stderr)
        return 3
    if not r["violation"]:
        print("no violation")
        return 0
    print(f"{r['violation'][0]}: {r['violation'][1]}")
    for t in r["tail"]:
        print("   ", t)
    same = r["violation"] == content["violation"] and r["log"] == content["log"]
    print("exactly as recorded" if same else "DIFFERS from the recorded run")
    print(f"VIOLATION property={prop} replay={path}")
    return 1 if same else 4


def logs(prop, tier, seed, runs, jobs):
    """Hash of the event log of each run, to compare executions."""
    mod = load(prop)
    ready(mod)
    root, out = scratch_root(), {}

    def on_result(i, sc, res):
        out[i] = res["log"] if not res["error"] else "error " + res["error"].strip().splitlines()[-1]

    try:
        batch(mod, prop, tier, seed, runs, jobs, 3000, root, on_result)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def one(prop, tier, seed, numbers, show):
    """Run single scenarios in this process and show what happened."""
    import faulthandler
    faulthandler.enable()
    mod = load(prop)
    ready(mod)
    root = scratch_root()
    try:
        for i in numbers:
            sc = generate(mod, prop, tier, seed, i)
            if show:
                print(json.dumps(sc))
            r = execute(mod, sc, os.path.join(root, "one"))
            for t in r["tail"]:
                print("   ", t)
            print(i, r["violation"], r["error"] or "", r["log"][:12], r["faults"], r["counts"], r["probes"], f"{r['wall']:.2f} s")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 0
