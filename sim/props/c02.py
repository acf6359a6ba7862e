"""C02: a failed or crashed save never costs the previous file."""
import os

from .. import faults, store, world
from ..disk import ERRORS, Faults

QUICK, THOROUGH = 2400, 60000
LEVEL = "exploration"
RULE = ("a run counts when at least one fault or crash struck a save; distinct = different event logs "
        "(object kind, old and new object, fault, place and outcome of every save)")
STATES = "distinct (object kind, fault, step of the save that it struck, outcome of the load)"
REAL = ["xrd_simulator save and load of every kind", "dill, meshio, h5py and libhdf5"]
STUB = ["file calls below the scratch directory: simulated disk with errors, short writes, capacity, "
        "process crash and loss of power", "user interrupt at calls", "allocation failures"]
ASSUMPTIONS = [
    "after a loss of power the file system keeps a prefix of the calls on names, at least up to the last fsync, "
    "and any part of unsynced data (the ordered mode of common journalling file systems)",
    "a save that returned is promised to survive a crash of the process, not a loss of power straight after",
]


def generate(rng, i, tier):
    kind = store.KINDS[i % 5]
    first = store.gen(rng, kind)
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        f = rng.choice(["errno", "errno", "sticky", "capacity", "crash", "crash", "power", "power",
                        "deep_interrupt", "c_memory", "crash_in_fault"])
        o = store.gen(rng, kind)
        rounds.append({"object": o, "fault": f, "frac": rng.random(), "seed": rng.getrandbits(31),
                       "err": rng.randrange(8), "short": rng.random() < .3, "p": rng.choice([.1, .5, 1.]),
                       "xdmf": rng.random() < .3})
    return {"kind": kind, "first": first if rng.random() < .85 else None, "rounds": rounds,
            "path": {**store.gen_path(rng, kind), "relative": False}, "same_data": rng.random() < .85,
            "xdmf": rng.random() < .3}


def shrink(sc):
    r = sc["rounds"]
    for k in range(len(r)):
        if len(r) > 1:
            yield {**sc, "rounds": r[:k] + r[k + 1:]}
    if sc["path"] != {"dir": "", "name": "x", "relative": False}:
        yield {**sc, "path": {"dir": "", "name": "x", "relative": False}}
    for k in range(len(r)):
        for key, v in (("short", False), ("xdmf", False)):
            if r[k][key] != v:
                yield {**sc, "rounds": r[:k] + [{**r[k], key: v}] + r[k + 1:]}
        for o in store.simpler(r[k]["object"]):
            yield {**sc, "rounds": r[:k] + [{**r[k], "object": o}] + r[k + 1:]}
    if sc["first"]:
        for o in store.simpler(sc["first"]):
            yield {**sc, "first": o}


def execute(sc, ctx):
    kind = sc["kind"]
    path = store.path_of(ctx, sc["path"])
    found = store.full(kind, path)
    disk = ctx.disk
    with open(os.path.join(os.path.dirname(found), "bystander.txt"), "wb") as f:
        f.write(b"keep me")
    old = None  # expected state of what the path holds
    held = None
    drawn = None  # expected state of the mesh for viewers next to a polycrystal
    if sc["first"]:
        o = dict(sc["first"])
        if sc["same_data"] and kind == "mesh":
            o["data"] = "a"
        obj = store.build(o)
        ctx.do("save", store.save, o, obj, path, sc["xdmf"])
        old = store.expected(kind, obj)
        held = o
        check_load(ctx, kind, found, {"old": old}, {"old"}, "fault-free save")
        if kind == "polycrystal" and sc["xdmf"]:
            drawn = store.expected("mesh", obj.mesh_sample)
    for n, r in enumerate(sc["rounds"]):
        o = dict(r["object"])
        if sc["same_data"] and kind == "mesh":
            o["data"] = "a"
        obj = store.build(o)
        new = store.expected(kind, obj)
        values = {"old": old, "new": new}
        before = disk.content()
        tag = f"{kind} save {r['fault']}"
        # A fault-free save first, to learn how many steps it takes.
        disk.reset()
        quiet = Faults([], ctx.stats)
        counter = faults.point(r["fault"], None, ctx.stats)
        with disk.running(quiet), faults.inject(r["fault"], counter):
            ctx.do("save", store.save, o, obj, path, r["xdmf"])
        total, points, after = quiet.count, counter.count, disk.content()
        stray(ctx, before, after, kind, found, r["xdmf"], "fault-free save")
        disk.restore(before)
        plan = []
        if r["short"]:
            plan += [{"kind": "short", "p": r["p"], "seed": r["seed"]}, {"kind": "eintr", "p": .1, "seed": r["seed"] + 1}]
        fault = r["fault"]
        crashing = fault in ("crash", "power", "crash_in_fault")
        if fault in ("errno", "sticky", "crash_in_fault"):
            plan.append({"kind": "errno", "at": int(r["frac"] * total), "err": r["err"], "sticky": fault == "sticky"})
        elif fault == "capacity":
            used = sum(len(b) for k, b in after.items() if b and before.get(k) != b)
            plan.append({"kind": "capacity", "bytes": int(r["frac"] * (used + 1))})
        def save_under_faults(stats):
            fs = Faults(plan, stats)
            p = faults.point(fault, int(r["frac"] * max(1, points)), stats)
            with disk.running(fs), faults.inject(fault, p):
                _, e = ctx.attempt("save", store.save, o, obj, path, r["xdmf"])
            return fs.fired + ([p.where] if p.fired else []), e if e is None else f"{type(e).__name__} {str(e)[:200]}"

        done = ctx.isolated(save_under_faults) if kind in ("mesh", "polycrystal") else save_under_faults(ctx.stats)
        if done is None:  # the process died in a library
            done, crashing, fault = (["signal"], "signal"), True, "signal"
        struck, error = done
        ctx.log("save", n, kind, fault, r["xdmf"], struck, (error or "").split(" ")[0], len(disk.events))
        if struck or crashing:
            ctx.nontrivial = True
        if crashing:
            power = fault == "power" or (fault == "crash_in_fault" and r["seed"] % 2 == 1)
            at = int(world.rs(r["seed"]).uniform() * (len(disk.events) + 1))
            ctx.stats.fault("power_loss" if power else "process_crash")
            content = disk.after_crash(at, r["seed"], power)
            complete = at == len(disk.events) and error is None
            if fault != "signal":
                disk.restore(content)
            allowed = {"new"} if complete and not power else {"old", "new"}
            what = f"{'loss of power' if power else 'crash'} in a {kind} save"
            step = f"{at - len(disk.events)}"
        else:
            if error is None:
                allowed = {"new"}
                what = f"{kind} save that returned"
            else:
                ctx.check(struck, "save raises without a fault", f"{kind}: {error}")
                allowed = {"old", "new"}
                what = f"failed {kind} save"
                clean = any(s.startswith(("unlink", "rmdir", "opendir")) for s in struck) or fault in ("deep_interrupt", "sticky")
                if not clean:
                    stray(ctx, before, disk.content(), kind, found, r["xdmf"], what)
        got = check_load(ctx, kind, found, values, allowed, f"{what} ({'; '.join(map(str, struck))})", mixed(disk, kind, found, held, o, before, after))
        if kind == "polycrystal" and (r["xdmf"] or drawn is not None):
            drawing = {"old": drawn, "new": store.expected("mesh", obj.mesh_sample) if r["xdmf"] else None}
            must = {k for k in (allowed if r["xdmf"] else {"old"})}
            seen = check_load(ctx, "mesh", found[:-3] + ".xdmf", drawing, must, f"{what} with .xdmf {r['xdmf']} ({'; '.join(map(str, struck))})")
            drawn = drawing["new"] if "new" in seen else drawn
        step = struck[-1].split("@")[0] if struck else (round(at / (len(disk.events) + 1), 1) if crashing else "")
        ctx.stats.state(kind, fault, step, sorted(got))
        # Every other file is as it was.
        now = disk.content()
        own = {os.path.relpath(f, disk.root) for f in store.own_files(kind, path, r["xdmf"])}
        for k in before:
            if k not in own:
                ctx.check(now.get(k) == before[k], "another file changed", f"{k} after {what}")
        # The path works again, whatever was left behind.
        if got == {"new"} or ("new" in got and "old" not in got):
            old, held = new, o
        elif not got:
            old, held = None, None
        if n == len(sc["rounds"]) - 1:
            ctx.do("save after recovery", store.save, o, obj, path, r["xdmf"])
            check_load(ctx, kind, found, {"new": new}, {"new"}, f"save after {what}")


def mixed(disk, kind, found, held, o, before, after):
    """Whether the disk holds one file of an old mesh and one of a new mesh with other data fields."""
    if kind != "mesh" or held is None or (held.get("data") or "") == (o.get("data") or ""):
        return False
    now = disk.content()
    x = os.path.relpath(found, disk.root)
    h = x[:-5] + ".h5"
    return now.get(x) == before.get(x) and now.get(h) == after.get(h) and now.get(h) != before.get(h)


def stray(ctx, before, after, kind, found, xdmf, what):
    own = {os.path.relpath(f, ctx.disk.root) for f in store.own_files(kind, found, xdmf)}
    extra = sorted(set(after) - set(before) - own)
    ctx.check(not extra, "stray files", f"{what} leaves {[e[:40] for e in extra]}")


def check_load(ctx, kind, found, values, allowed, what, fields_differ=False):
    """Load and compare. Returns the names of the values found; empty if there is no file."""
    first = values.get("old") is None and "old" in allowed
    present = os.path.exists(found)
    if not present:
        ctx.check(first, "file lost", f"nothing to load after {what}")
        return set()
    obj, error = ctx.attempt("load", store.load, kind, found)
    note = " between the renames of .h5 and .xdmf with other data fields" if fields_differ else ""
    if error is not None:
        ctx.fail("saved file does not load", f"after {what}{note}: {type(error).__name__} {str(error)[:120]}")
    got = set(store.which(kind, obj, values))
    ctx.check(got & allowed, "loaded object is neither the old nor the new one" if len(allowed) == 2 else
              "completed save lost" if "new" in allowed else "loaded object differs",
              f"after {what}{note}: found {sorted(got)}, allowed {sorted(allowed)}")
    ctx.log("load", sorted(got))
    return got
