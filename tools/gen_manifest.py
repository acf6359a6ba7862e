"""Writes MANIFEST.json from the checks in sim/props and the reasons below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C01": "deterministic simulation: save/load histories on a simulated disk with short reads and writes, EINTR and hostile paths",
    "C02": "deterministic simulation with fault injection: disk errors, full disk, interrupts, process crash and power loss at seeded points of save, then recovery",
    "C03": "deterministic simulation: seeded schedules of concurrent savers and loaders with crashes, history checked for linearizability as a register",
    "C04": "deterministic simulation: seeded histories of moves, failed moves, crashes and restarts against a reference model of the pose",
    "C05": "deterministic simulation with fault injection: interrupts, allocation, terminal, disk and argument faults at seeded points of each operation, compared with a fault-free twin",
    "C06": "deterministic simulation: a scan client that crashes at seeded disk and execution points and resumes from saved state, every recorded row checked against an independent diffraction model",
    "C07": "deterministic simulation: seeded interleavings of producers, consumers and mutators with results outstanding",
    "C08": "deterministic simulation: seeded line-level thread schedules (random and priority-based), compared with sequential runs",
    "C09": "deterministic simulation with fault injection: a lying, fluctuating and failing memory probe, seeded batches and orders",
    "C10": "deterministic simulation: seeded scans split in frames and in steps, checked against each other and a partition model",
    "C11": "deterministic simulation with fault injection: simulated clocks that stall, jump and stand still during every operation, native solvers included",
    "C12": "deterministic simulation: seeded random draws and geometries, conserved totals checked against an independent volume computation",
    "C13": "deterministic simulation: seeded and adversarial random draws, checked for support, position and statistics",
    "C14": "deterministic simulation with fault injection: seeded histories of selections on a simulated accelerator that appears, vanishes and fails",
    "C15": "deterministic simulation: seeded histories with failed calls and caller-side mutations before a compared call",
}
NOT_APPLICABLE = {
    "C16": "a pure function of its arguments: no schedule, time, I/O, randomness or fault for a simulator to vary",
    "C17": "a pure function of a structure file and Miller indices: no schedule, time, I/O after reading, randomness or fault for a simulator to vary",
    "C18": "a pure deterministic function of the level set (skimage, meshpy): no schedule, time, I/O, randomness or fault for a simulator to vary",
    "C19": "a pure function of geometry: no schedule, time, I/O, randomness or fault for a simulator to vary",
}
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f]
NOTE = ("seeded search over {q} simulated runs (quick) or {t} (thorough); not exhaustive. "
        "Real library code throughout; the simulated world is the seams in DESIGN.md.")


def constants(p):
    import ast
    out = {}
    with open(os.path.join(HERE, "sim", "props", p.lower() + ".py")) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign):
                t = node.targets[0]
                names = [e.id for e in t.elts] if isinstance(t, ast.Tuple) else [t.id] if isinstance(t, ast.Name) else []
                try:
                    v = ast.literal_eval(node.value)
                except ValueError:
                    continue
                for n, x in zip(names, v if isinstance(t, ast.Tuple) else [v]):
                    out[n] = x
    return out


checks, missing = [], []
for p in ids:
    if os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py")):
        c = constants(p)
        checks.append({"property": p, "quick_cmd": f"python3 -m sim check {p}",
                       "thorough_cmd": f"python3 -m sim check {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": TECHNIQUE[p], "level": c["LEVEL"],
                       "level_note": NOTE.format(q=c["QUICK"], t=c["THOROUGH"])})
    else:
        missing.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m sim build", "checks": checks, "not_applicable": missing,
               "notes": "No hooks in /repo: every seam is put in place from outside, in this process only (see DESIGN.md)."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not applicable")
