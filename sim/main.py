"""Entry point: ``main.py check ID [--tier T] [--seed N]`` or ``main.py replay FILE``."""
from __future__ import annotations

import atexit
import os
import shutil
import sys
import tempfile

_ENV = {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1", "TZ": "UTC"}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in _ENV.items()) and not os.environ.get("SIM_NO_REEXEC"):
        os.environ.update(_ENV)
        os.execv(sys.executable, [sys.executable, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path[:0] = [REPO, os.path.dirname(HERE)]
if not sys.pycache_prefix:
    # Never trust or write byte code beside the sources under test.
    sys.pycache_prefix = tempfile.mkdtemp(prefix="castepsim-pyc.")
    _OWNER = os.getpid()
    atexit.register(lambda: os.getpid() == _OWNER
                    and shutil.rmtree(sys.pycache_prefix, ignore_errors=True))


def main() -> int:
    import argparse
    import json

    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest="cmd", required=True)
    p = sub.add_parser("check")
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--workers", type=int)
    p.add_argument("--runs", type=int)
    p = sub.add_parser("replay")
    p.add_argument("file")
    p = sub.add_parser("one")
    p.add_argument("id")
    p.add_argument("seed")
    p = sub.add_parser("digests")
    p.add_argument("id")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--runs", type=int, default=100)
    p.add_argument("--workers", type=int, default=8)
    args = parser.parse_args()

    from sim import simfs
    simfs.install_lock_seam()
    from sim import runner
    from sim.checks import load

    if args.cmd == "check":
        check = load(args.id)
        if args.runs:
            check.QUICK = check.THOROUGH = args.runs
        return runner.run_check(check, args.tier, args.seed, args.workers)
    if args.cmd == "replay":
        with open(args.file, encoding="utf-8") as f:
            spec = json.load(f)
        check = load(spec["property"])
        check.findings = runner.load_findings(check.ID)
        check.warm()
        if spec.get("seed"):
            scratch = runner.scratch_base()
            res = runner.fork_run(check, scratch, seed=spec["seed"])
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            res = runner.replay(check, spec)
        for line in res["trace"]:
            print(line[:400])
        print(res["outcome"], res.get("kind"), res.get("message"))
        if res["outcome"] in ("violation", "hang") and res["kind"] == spec["kind"]:
            print(f"VIOLATION property={spec['property']} replay={args.file}")
            return 1
        return 0 if res["outcome"] == "ok" else 3
    if args.cmd == "one":
        check = load(args.id)
        check.findings = runner.load_findings(check.ID)
        check.warm()
        scratch = runner.scratch_base()
        res = runner.fork_run(check, scratch, seed=runner.run_seed(check.ID, 1, int(args.seed)))
        shutil.rmtree(scratch, ignore_errors=True)
        for line in res["trace"]:
            print(line[:400])
        print({k: v for k, v in res.items() if k not in ("trace", "choices")})
        return 0
    if args.cmd == "digests":
        check = load(args.id)
        check.findings = runner.load_findings(check.ID)
        check.warm()
        total = runner.batch(check, args.runs, args.seed, args.workers, 3000)
        for row in total["digests"]:
            print(*row)
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
