"""C14: device selection never disagrees with itself."""
import numpy as np

from .. import accel, env, faults, world

QUICK, THOROUGH = 1800, 60000
LEVEL = "exploration"
RULE = ("a run counts when at least two selections were made and compared with the driver's answers; distinct = different event logs "
        "(selections, answers, faults, outcomes, simulations)")
STATES = "distinct (device before, request, driver's answers, fault, outcome)"
REAL = ["xrd_simulator: configure_device, get_selected_device; simulation on the selected device", "torch's default device"]
STUB = ["the accelerator: CPU arithmetic that keeps track of devices and fails when they are mixed", "its driver: availability, memory, selection failures",
        "terminal", "interrupts"]
ASSUMPTIONS = ["the default device of torch belongs to a thread; the property is about the thread that selects",
               "set-ups are built after the selection on which they run",
               "tensors of unknown origin go with every device (no false alarm, some mixing missed)"]

VALID = (None, "auto", "AUTO", " auto ", "cpu", "CPU", " cpu\n", "gpu", "GPU", "cuda", "Cuda", "cuda ")
INVALID = ("tpu", "", "cp u", "gpus", "cpu,gpu", 0, 1.5, True, "mps?", "xpu:0", "cudacpu", ["cpu"], {"device": "cpu"})
FAULTS = ("rejected", "rejected", "rejected late", "interrupted early", "interrupted half", "interrupted late", "terminal:EPIPE", "terminal:EIO",
          "terminal:closed", "deep_interrupt")


def generate(rng, i, tier):
    x = world.gen_experiment(rng, big=3, phases=rng.choice([["al"], ["fe"], ["al", "fe"]]), full=True, small=True)
    x["detector"].update(shape=[24, 24], pixel=[4000., 4000.])
    x["detector"].pop("centre", None)
    ops, there = [], rng.random() < .6
    for _ in range(rng.choice([2, 3, 5, 9])):
        r = rng.random()
        if r < .12:
            ops.append({"op": "outside", "device": rng.choice(["cpu", None, "meta"])})
        elif r < .2:
            ops.append({"op": "run", "seed": rng.getrandbits(31), "method": rng.choice(["macro", "micro", "nano", "auto"]),
                        "fault": rng.choice([None, None, "interrupt", "torch_memory"]), "at": rng.randrange(300)})
        else:
            if rng.random() < .35:
                there = not there
            answers = [there]
            if rng.random() < .15:
                answers = [rng.choice([True, False, "error"]) for _ in range(rng.choice([2, 3]))]
            ops.append({"op": "select", "device": rng.choice(VALID) if rng.random() < .85 else rng.choice(INVALID),
                        "verbose": rng.random() < .4, "there": answers,
                        "fault": rng.choice(FAULTS) if rng.random() < .3 else None, "at": rng.randrange(30)})
            if ops[-1]["fault"] and ops[-1]["fault"].startswith("terminal"):
                ops[-1].update(verbose=True, at=rng.randrange(3))
    return {"x": x, "ops": ops, "final": rng.choice([None, "macro", "micro", "nano", "auto"])}


def shrink(sc):
    o = sc["ops"]
    for k in range(len(o)):
        yield {**sc, "ops": o[:k] + o[k + 1:]}
    if sc["final"]:
        yield {**sc, "final": None}
    for k in range(len(o)):
        for key, v in (("fault", None), ("verbose", False), ("at", 0)):
            if o[k].get(key):
                yield {**sc, "ops": o[:k] + [{**o[k], key: v}] + o[k + 1:]}
    for x in world.shrink_experiment(sc["x"]):
        yield {**sc, "x": x}


def simulate(x, method):
    """What a user sees of an experiment."""
    env.reseed(7)
    s, b, m, d = world.experiment(x)
    p = world.diffract(x, s, b, m)
    img, q = d.render(world.take(p, 8), 2, method, verbose=False)
    s.transform(m, .5)
    return {"peaks": world.peaks(p), "image": world.to_np(img), "rows": world.to_np(q["peaks"]), **world.state(s)}


def execute(sc, ctx):
    import torch
    from xrd_simulator import configure_device, get_selected_device

    x = sc["x"]
    methods = {o["method"] for o in sc["ops"] if o["op"] == "run"} | ({sc["final"]} - {None})
    a = accel.Accelerator(ctx.stats)
    with a.installed():
        ctx.do("configure_device", configure_device, "cpu", False)
        want = {m: ctx.do("simulation", simulate, x, m) for m in sorted(methods)}

        def now():
            """Device of new tensors."""
            return torch.empty(1).device.type

        def compare(method, what):
            got = ctx.do("simulation on the selected device", simulate, x, method)
            ref = want[method]
            ctx.check(world.same_peaks(got["peaks"], ref["peaks"]), "peaks differ on the selected device", what)
            ctx.check(world.same_peaks(got["rows"], ref["rows"]), "rendered peaks differ on the selected device", what)
            ctx.check(world.same_image(got["image"], ref["image"]), "an image differs on the selected device",
                      lambda: f"{what}: sum {got['image'].sum():.6g} and not {ref['image'].sum():.6g}")
            bad = world.same_state({k: v for k, v in got.items() if k in ref and k not in ("peaks", "rows", "image")},
                                   {k: v for k, v in ref.items() if k not in ("peaks", "rows", "image")}, 1e-12)
            ctx.check(bad is None, "objects differ on the selected device", f"{bad}, {what}")
            ctx.stats.probe(f"simulation on {get_selected_device()}")

        selections, outside = 0, False
        for k, o in enumerate(sc["ops"]):
            before, default = get_selected_device(), now()
            if o["op"] == "outside":
                torch.set_default_device(o["device"])
                outside = True
                ctx.check(get_selected_device() == before, "the reported device changes by itself", f"{before}")
                ctx.log("outside", o["device"])
                continue
            if o["op"] == "run":
                if outside:
                    continue
                if o["fault"]:
                    p = faults.point(o["fault"], o["at"], ctx.stats)
                    with faults.inject(o["fault"], p):
                        ctx.attempt("simulation", simulate, x, o["method"])
                else:
                    compare(o["method"], f"run {k}, {o['method']} on {before}")
                ctx.check((get_selected_device(), now()) == (before, default), "a simulation changes the selected device",
                          lambda: f"{get_selected_device()}, {now()} and not {before}, {default}")
                ctx.log("run", o["method"], before)
                continue
            a.there, a.asked, a.given = list(o["there"]), 0, None
            f = o["fault"]
            a.fault = f if f and f.split()[0] in ("rejected", "interrupted") else None
            armed = a.fault
            kind = f if f and a.fault is None else "none"
            p = faults.point(kind, o["at"], ctx.stats)
            with faults.inject(kind, p):
                value, error = ctx.attempt("configure_device", configure_device, o["device"], o["verbose"])
            struck = armed is not None and a.fault is None
            a.fault = None
            reported, new = get_selected_device(), now()
            what = f"selection {k} of {o['device']!r} on a driver that answers {o['there']}, fault {f}, {before} before"
            valid = o["device"] is None or str(o["device"]).lower().strip() in ("auto", "cpu", "gpu", "cuda")
            asked = valid and (o["device"] is None or str(o["device"]).lower().strip() != "cpu")
            sure = set(o["there"])
            ctx.log("select", str(o["device"]), o["there"], f, type(error).__name__, value, reported, new)
            ctx.stats.state(before, str(o["device"]), o["there"], f if struck or p.fired else None, type(error).__name__, reported)
            selections += 1
            if error is None:
                outside = False
                ctx.check(valid, "an unknown device is accepted", what)
                ctx.check(value == reported == new, "returned, reported and default device disagree", f"{value}, {reported}, {new}: {what}")
                ctx.check(value in ("cpu", "cuda"), "an unknown device was selected", f"{value}, {what}")
                ctx.check(torch.get_default_device().type == new, "torch and new tensors disagree", what)
                if not asked or sure == {False}:
                    ctx.check(value == "cpu", "the accelerator is selected though " + ("not asked for" if not asked else "not available"), what)
                elif sure == {True}:
                    ctx.check(value == "cuda", "the accelerator is not selected though asked for and available", what)
                elif a.given and value == "cuda":  # it came or went meanwhile
                    ctx.check(a.given[-1] is True, "the accelerator is selected after it vanished", f"{a.given}, {what}")
                elif a.given:
                    ctx.check(False in a.given, "the accelerator is not selected though it was there at every look", f"{a.given}, {what}")
                continue
            may = struck or p.fired or not valid or "error" in sure
            ctx.check(may, f"configure_device raises {type(error).__name__}", f"{error!r}, {what}")
            if not valid and not (p.fired or struck):
                ctx.check(isinstance(error, (ValueError, TypeError)), "an unknown device raises an odd exception", f"{error!r}, {what}")
            if outside:
                continue
            ctx.check(reported == new, "reported and default device disagree after a failed selection", f"{reported}, {new}: {what}")
            if not p.fired:
                ctx.check(reported == before, "a failed selection changes the device", f"{reported} and not {before}: {what}")
        if sc["final"] and not outside:
            compare(sc["final"], f"in the end, {sc['final']} on {get_selected_device()}")
    ctx.do("configure_device", configure_device, "cpu", False)
    ctx.nontrivial = selections > 1 or bool(sc["final"])
    ctx.log("end", {m: v["image"] for m, v in want.items()})
