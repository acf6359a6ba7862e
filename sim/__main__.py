"""Command line: check, replay, logs, determinism."""
import argparse
import json
import os
import sys

from . import env


def main():
    ap = argparse.ArgumentParser(prog="sim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=None)
    c.add_argument("--runs", type=int)
    c.add_argument("--jobs", type=int)
    c.add_argument("--cap", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    g = sub.add_parser("logs")
    g.add_argument("property")
    g.add_argument("--runs", type=int, default=64)
    g.add_argument("--jobs", type=int, default=8)
    d = sub.add_parser("determinism")
    d.add_argument("properties", nargs="*")
    d.add_argument("--runs", type=int, default=64)
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("run", type=int, nargs="+")
    o.add_argument("--show", action="store_true")
    o.add_argument("--tier", default="quick")
    sub.add_parser("build")
    args = ap.parse_args()
    if args.cmd == "build":
        print(env.shim())
        return 0
    if args.cmd == "determinism":
        from . import selftest
        return selftest.determinism(args.properties, args.runs)
    env.reexec()
    from . import core
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if args.cmd == "check":
        tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
        return core.check(args.property.upper(), tier, seed, args.jobs, args.runs, args.cap)
    if args.cmd == "one":
        return core.one(args.property.upper(), args.tier, seed, args.run, args.show)
    if args.cmd == "replay":
        return core.replay(os.path.abspath(args.file))
    if args.cmd == "logs":
        print(json.dumps(core.logs(args.property.upper(), "quick", seed, args.runs, args.jobs), sort_keys=True))
        return 0


if __name__ == "__main__":
    code = 3
    try:
        code = main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 3
        if not isinstance(e.code, int):
            print(e.code, file=sys.stderr)
    except BaseException:
        import traceback
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code if code is not None else 0)
