"""C03: a saved path is an atomic register for concurrent users."""
import contextlib
import os
import threading

from .. import linear, store, world
from ..disk import Clock, Faults
from ..sched import Scheduler

QUICK, THOROUGH = 2600, 80000
LEVEL = "exploration"
RULE = ("a run counts when operations of different clients overlapped; distinct = different event logs "
        "(objects, schedule of every file call and package line, crashes, history)")
STATES = "distinct schedules (sequence of clients at the file calls) per kind of object"
REAL = ["xrd_simulator save and load of beams, detectors, motions and polycrystals", "dill"]
STUB = ["client processes: threads under a deterministic scheduler that switches at file calls and package lines",
        "file calls: simulated disk with short and interrupted calls, errors and client crashes"]
ASSUMPTIONS = ["clients share one file system with POSIX semantics (one host)",
               "a mesh is two files and no single register; meshes are left out"]
KINDS = ("beam", "detector", "motion", "polycrystal")


def generate(rng, i, tier):
    kind = KINDS[i % 4]
    n = rng.choice([2, 2, 3, 4])
    values = [store.gen(rng, kind) for _ in range(4)]
    for k, v in enumerate(values):  # no two alike
        v["spec"].update({"motion": {"axis": "any"}, "detector": {"distance": 90000. + 7777 * k}}.get(kind, {}))
    clients = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops.append({"op": rng.choice(["save", "load"]), "value": rng.randrange(1, 4), "form": rng.choice(["plain", "ext", "rel", "link"]),
                        "path": rng.choice([0, 0, 0, 1])})
        clients.append({"ops": ops, "crash": None})
    for c in clients:
        if rng.random() < .35:
            c["crash"] = rng.randrange(0, 14)
    if rng.random() < .5:
        schedule = {"kind": "random", "seed": rng.getrandbits(31), "p": rng.choice([.02, .1, .3, .8])}
    else:
        schedule = {"kind": "pct", "seed": rng.getrandbits(31), "d": rng.choice([1, 2, 3, 6]), "n": rng.choice([60, 150, 300])}
    plan = []
    if rng.random() < .4:
        plan += [{"kind": "short", "p": rng.choice([.1, .6]), "seed": rng.getrandbits(31)}, {"kind": "eintr", "p": .1, "seed": rng.getrandbits(31)}]
    if rng.random() < .25:
        plan.append({"kind": "errno", "at": rng.randrange(0, 40), "err": rng.randrange(6)})
    return {"kind": kind, "values": values, "clients": clients, "schedule": schedule, "plan": plan,
            "clock": rng.choice([0, 0, 15_625_000]) if rng.random() < .25 else None,  # stands still or is coarse
            "initial": rng.random() < .8, "name": store.gen_path(rng, kind)["name"]}


def shrink(sc):
    c = sc["clients"]
    for k in range(len(c)):
        if len(c) > 1:
            yield {**sc, "clients": c[:k] + c[k + 1:]}
        for j in range(len(c[k]["ops"])):
            if len(c[k]["ops"]) > 1:
                yield {**sc, "clients": c[:k] + [{**c[k], "ops": c[k]["ops"][:j] + c[k]["ops"][j + 1:]}] + c[k + 1:]}
        if c[k]["crash"] is not None:
            yield {**sc, "clients": c[:k] + [{**c[k], "crash": None}] + c[k + 1:]}
    if sc.get("clock") is not None:
        yield {**sc, "clock": None}
    for k in range(len(sc["plan"])):
        yield {**sc, "plan": sc["plan"][:k] + sc["plan"][k + 1:]}
    if sc["schedule"]["kind"] != "fixed":
        trace = run(sc)
        if trace is not None:
            yield {**sc, "schedule": {"kind": "fixed", "switches": trace}}
    else:
        s = sc["schedule"]["switches"]
        for size in (len(s) // 2, len(s) // 4, 2, 1):
            if size:
                for k in range(0, len(s), size):
                    yield {**sc, "schedule": {"kind": "fixed", "switches": s[:k] + s[k + size:]}}
    v = sc["values"]
    for k in range(4):
        for o in store.simpler(v[k]):
            yield {**sc, "values": v[:k] + [o] + v[k + 1:]}


def run(sc):
    """Switches that the scenario's schedule makes."""
    import shutil
    from .. import core
    root = core.scratch_root()
    try:
        keep = {}

        def job():
            ctx = core.Ctx(root)
            core.env.reseed(sc.get("rng", 1))
            try:
                execute(sc, ctx)
            except core.Violation:
                pass
            return ctx.trace
        return core.in_child(job, 60)
    finally:
        shutil.rmtree(root, ignore_errors=True)


@contextlib.contextmanager
def clock(sc, ctx):
    """A clock that does not move, or moves on in steps of 1/64 s once in a while."""
    if sc.get("clock") is None:
        yield
        return
    step = sc["clock"]
    with Clock(1_700_000_000_000_000_000, 0, [(64 * k, step) for k in range(1, 20)] if step else [], ctx.stats):
        yield


def execute(sc, ctx):
    kind = sc["kind"]
    objs = [store.build(o) for o in sc["values"]]
    states = {k: store.expected(kind, o) for k, o in enumerate(objs)}
    disk = ctx.disk
    ext = store.EXT[kind]
    stem = sc["name"]
    while stem.endswith(ext):
        stem = stem[:-len(ext)]
    os.chdir(ctx.scratch)
    os.makedirs("real")
    os.symlink("real", "link")

    def spell(op):
        name = stem if op["path"] == 0 else stem + "2"
        full = name + ext
        if op["op"] == "save" and op["form"] in ("plain", "link"):
            full = name
        base = {"rel": "real", "link": "link"}.get(op["form"], os.path.join(ctx.scratch, "real"))
        return os.path.join(base, full)

    for p in (0, 1):
        if sc["initial"]:
            ctx.do("save", store.save, sc["values"][0], objs[0], spell({"op": "save", "path": p, "form": "plain"}))
    disk.reset()
    sched = Scheduler(sc["schedule"], ctx.stats)
    ctx.trace = sched.trace
    history = []
    now = [0]
    calls = {}
    order = []

    def tick():
        now[0] += 1
        return now[0]

    crash_at = {}

    def on_call(op, path):
        me = threading.get_ident()
        if me not in sched.by_ident:
            return
        k = sched.by_ident[me].k
        sched.step((op,))
        calls[k] = calls.get(k, 0) + 1
        order.append(k)
        if crash_at.get(k) is not None and calls[k] > crash_at[k]:
            crash_at[k] = None
            disk.dead.add(me)
            ctx.stats.fault("client_crash")

    def client(k, spec):
        def body():
            me = threading.get_ident()
            for n, op in enumerate(spec["ops"]):
                entry = {"client": k, "n": n, "op": op["op"], "path": op["path"], "value": op["value"], "start": tick(), "end": None,
                         "found": None, "error": None, "dead": False}
                history.append(entry)
                fired = len(fs.fired)
                try:
                    if op["op"] == "save":
                        store.save(sc["values"][op["value"]], objs[op["value"]], spell(op))
                    else:
                        obj = store.load(kind, spell(op))
                        entry["found"] = obj
                except Exception as e:
                    entry["error"] = e
                if me in disk.dead:  # the client is restarted
                    entry["dead"] = True
                    disk.dead.discard(me)
                else:
                    entry["end"] = tick()
                entry["own_fault"] = [f for f in fs.fired[fired:]]
            return True
        return body

    fs = Faults(sc["plan"], ctx.stats)
    for k, spec in enumerate(sc["clients"]):
        crash_at[k] = spec["crash"]
        sched.spawn(f"client{k}", client(k, spec))
    disk.on_call = on_call
    try:
        with clock(sc, ctx), disk.running(fs):
            tasks = sched.run()
    finally:
        disk.on_call = None
        disk.dead.clear()
    if sched.failure:
        ctx.fail("clients block each other", sched.failure)
    for t in tasks:
        if t.error is not None:
            raise t.error
    # -- the history
    initial = 0 if sc["initial"] else None
    unsure = bool(fs.fired)
    for p in (0, 1):
        ops = []
        for e in history:
            if e["path"] != p:
                continue
            if e["op"] == "save":
                ok = e["error"] is None and not e["dead"]
                if not ok and not e["dead"] and not e["own_fault"]:
                    ctx.fail("a save fails because of other clients", f"{type(e['error']).__name__}: {e['error']}")
                # a failed save may have taken effect at its end at the latest
                ops.append((e["start"], e["end"], "w", e["value"], ok))
            elif not e["dead"]:
                if e["error"] is not None:
                    if isinstance(e["error"], FileNotFoundError) and initial is None:
                        v = None
                    elif e["own_fault"]:
                        continue
                    else:
                        ctx.fail("a load fails because of other clients", f"{type(e['error']).__name__}: {str(e['error'])[:150]}")
                else:
                    w = [k for k, s in states.items() if world.same_state(world.state(e["found"]), s) is None]
                    ctx.check(w, "a load returns an object nobody saved", f"client {e['client']}")
                    v = w[0]
                ops.append((e["start"], e["end"], "r", v, True))
        # what a later client finds
        final = spell({"op": "load", "path": p, "form": "ext"})
        if os.path.exists(final):
            obj = ctx.do("load", store.load, kind, final)
            w = [k for k, s in states.items() if world.same_state(world.state(obj), s) is None]
            ctx.check(w, "the last load returns an object nobody saved", "")
            v = w[0]
        else:
            v = None
        ops.append((tick(), tick(), "r", v, True))
        ctx.check(linear.explain([(a, b, k, v, s) for a, b, k, v, s in ops], initial), "history is not linearizable",
                  lambda: " ".join(f"{k}({v})[{a}-{b}]{'' if s else '?'}" for a, b, k, v, s in sorted(ops)))
    ctx.log("history", [(e["client"], e["op"], e["path"], e["value"], e["start"], e["end"], type(e["error"]).__name__, e["dead"]) for e in history],
            sched.trace)
    spans = [(e["start"], e["end"] or 10**9, e["client"]) for e in history]
    ctx.nontrivial = any(a[0] < b[1] and b[0] < a[1] and a[2] != b[2] for a in spans for b in spans)
    ctx.stats.state(kind, order)
