"""Checks of the simulator itself."""
import json
import os
import subprocess
import sys

from . import env

ALL = [f"C{i:02d}" for i in range(1, 16)]


def logs(prop, runs, jobs, hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    e.pop("XRD_SIM", None)
    out = subprocess.run([sys.executable, "-m", "sim", "logs", prop, "--runs", str(runs), "--jobs", str(jobs)],
                         capture_output=True, text=True, cwd=env.VERIF, env=e)
    if out.returncode:
        raise SystemExit(f"{prop}: {out.stderr[-2000:]}")
    return json.loads(out.stdout.strip().splitlines()[-1])


def determinism(properties, runs):
    """Same seeds, other processes, other distribution over processes, other hash seed: same event logs."""
    bad = 0
    for p in properties or ALL:
        a = logs(p, runs, 8, 0)
        b = logs(p, runs, 3, 12345)
        diff = sorted(int(k) for k in set(a) | set(b) if a.get(k) != b.get(k))
        print(f"{p}: {len(a)} runs, {len(diff)} with other event logs {diff[:8]}", flush=True)
        bad += len(diff)
    return 1 if bad else 0
