#!/usr/bin/env python3
"""Try the planted bugs in seeded/ against the checks, in a scratch clone of /repo.

    plant.py [ID...]      apply each patch in the clone, run the repository's tests, the demonstration (with and
                          without the patch) and the check of the property named in meta.json
    plant.py --all-checks ID...   run every check, to see which ones notice
    plant.py --seed N / --fast    other seed; checks only

The clone is made under /tmp and removed at the end.
"""
from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True,
                           text=True, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return p.returncode, p.stdout + p.stderr


def main(argv: list[str]) -> int:
    every = "--all-checks" in argv
    fast = "--fast" in argv
    seed = argv[argv.index("--seed") + 1] if "--seed" in argv else "1"
    ids = [a for i, a in enumerate(argv) if not a.startswith("--") and (not i or argv[i - 1] != "--seed")]
    ids = ids or sorted(p.name for p in (VERIF / "seeded").iterdir())
    tmp = Path(tempfile.mkdtemp(prefix="plant"))
    clone = tmp / "repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", clone], check=True)
        env = {"PYTHONPATH": str(clone), "PYTHONDONTWRITEBYTECODE": "1"}
        missed = 0
        for name in ids:
            d = VERIF / "seeded" / name
            prop = json.loads((d / "meta.json").read_text())["property"]
            sh(["git", "checkout", "-q", "--", "."], clone)
            line = [name, prop]
            if not fast:
                rc, out = sh(["bash", d / "demo.sh"], clone, env, 300)
                line.append("demo0 ok" if rc == 0 else f"DEMO FAILS ON CLEAN TREE {out[-300:]}")
            rc, out = sh(["git", "apply", d / "patch.diff"], clone)
            if rc:
                print(name, "PATCH DOES NOT APPLY", out)
                continue
            if not fast:
                rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules",
                              "test", "castep_outputs"], clone, env)
                line.append("tests ok" if rc == 0 else f"TESTS FAIL {out[-600:]}")
                rc, out = sh(["bash", d / "demo.sh"], clone, env, 300)
                line.append("demo1 ok" if rc else "DEMO PASSES WITH PATCH")
            props = [f"C{i:02}" for i in range(1, 30) if (VERIF / f"sim/checks/c{i:02}.py").exists()] \
                if every else [prop]
            for p in props:
                t = time.time()
                rc, out = sh([PY, "sim/main.py", "check", p, "--tier", "quick", "--seed", seed],
                             VERIF, {**env, "SIM_REPO": str(clone)})
                hit = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                ok = rc == 1 and any(f"property={p} " in x for x in hit)
                if every and rc == 0:
                    continue
                first = next((x for x in out.splitlines() if "kind" in x or "violat" in x.lower()), "")
                line.append(f"{p}:{'CAUGHT' if ok else f'missed rc={rc}'} {time.time() - t:.0f}s"
                            + ("" if ok and not every else f" {first[:150]}"))
                if p == prop and not ok:
                    missed += 1
                    if rc not in (0, 1):
                        line.append(out[-500:])
            print(" | ".join(line), flush=True)
        print("missed by their own check:", missed)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
