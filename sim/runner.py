"""Run many seeds of a check in isolated forked processes; shrink; replay; evidence."""
from __future__ import annotations

import gc
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

from .core import Ctx, HarnessError, Inconclusive, Violation

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("SIM_EVIDENCE", VERIF / "evidence"))
REPLAYS = EVIDENCE / "replays"
RUN_TIMEOUT = 60.0


def scratch_base() -> str:
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="castepsim.", dir=base)


def from_library(exc: BaseException) -> bool:
    """Whether the code under test itself raised this (not: was called wrongly)."""
    if not isinstance(exc, Exception):
        return False
    tb = exc.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and str(tb.tb_frame.f_globals.get("__name__", "")).startswith(
        "castep_outputs")


def execute(check, ctx: Ctx) -> dict:
    """Run one simulated execution in this process."""
    try:
        check.run(ctx)
        out = {"outcome": "ok"}
    except Violation as exc:
        out = {"outcome": "violation", "kind": exc.kind, "message": exc.message}
    except Inconclusive as exc:
        out = {"outcome": "inconclusive", "message": str(exc)}
    except BaseException as exc:  # noqa: BLE001
        text = "".join(traceback.format_exception(exc))[-6000:]
        if from_library(exc):
            # an error the scenario does not allow, out of the code under test
            out = {"outcome": "violation", "kind": f"unexpected-{type(exc).__name__}",
                   "message": text}
        else:
            out = {"outcome": "harness", "kind": type(exc).__name__, "message": text}
    out.update(ctx.report())
    return out


def fork_run(check, scratch: str, *, seed: str | None = None, replay: list[int] | None = None,
             timeout: float = RUN_TIMEOUT, keep_trace: bool = True) -> dict:
    """Execute one run in a forked child with an empty scratch directory."""
    work = os.path.join(scratch, "w")
    shutil.rmtree(work, ignore_errors=True)
    os.mkdir(work)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            os.chdir(work)
            ctx = Ctx(seed=seed, replay=replay, scratch=work)
            out = execute(check, ctx)
            if not keep_trace and out["outcome"] in ("ok", "inconclusive"):
                out["trace"] = out["trace"][:0]
            data = pickle.dumps(out)
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:  # noqa: BLE001
            code = 3
            try:
                traceback.print_exc()
            except BaseException:  # noqa: BLE001
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            hung = True
            break
        chunk = os.read(rfd, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(rfd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    shutil.rmtree(work, ignore_errors=True)
    if hung:
        return {"outcome": "hang", "kind": "no-progress", "choices": replay or [],
                "message": f"run did not finish in {timeout} s", "trace": [], "faults": {},
                "probes": {}, "ops": 0, "sim_time": 0, "nontrivial": False, "sig": "",
                "digest": "", "known": []}
    try:
        return pickle.loads(b"".join(chunks))
    except Exception as exc:  # noqa: BLE001
        return {"outcome": "harness", "kind": "lost-child", "message": repr(exc), "choices": [],
                "trace": [], "faults": {}, "probes": {}, "ops": 0, "sim_time": 0,
                "nontrivial": False, "sig": "", "digest": "", "known": []}


def run_seed(check_id: str, base_seed: int, i: int) -> str:
    return f"{base_seed}:{check_id}:{i}"


def _worker(check, scratch: str, base_seed: int, indices, wall_end: float, wfd: int) -> None:
    agg = {"runs": 0, "ok": 0, "inconclusive": 0, "faults": {}, "probes": {}, "ops": 0,
           "sim_time": 0, "sigs": set(), "bad": [], "samples": [], "known": {}, "digests": [],
           "inc_msgs": {}}
    for i in indices:
        if time.monotonic() > wall_end:
            break
        res = fork_run(check, scratch, seed=run_seed(check.ID, base_seed, i),
                       keep_trace=len(agg["samples"]) < 2)
        agg["runs"] += 1
        agg["digests"].append((i, res["digest"], res["outcome"]))
        for key in ("faults", "probes"):
            for k, v in res[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        agg["ops"] += res["ops"]
        agg["sim_time"] += res["sim_time"]
        for k in res["known"]:
            agg["known"][k] = agg["known"].get(k, 0) + 1
        if res["nontrivial"] and res["sig"]:
            agg["sigs"].add(res["sig"])
        if res["outcome"] == "ok":
            agg["ok"] += 1
            if len(agg["samples"]) < 2 and res["nontrivial"]:
                agg["samples"].append({"run": i, "seed": run_seed(check.ID, base_seed, i),
                                       "choices": len(res["choices"]),
                                       "trace": [t[:300] for t in res["trace"][:40]]})
        elif res["outcome"] == "inconclusive":
            agg["inconclusive"] += 1
            m = res["message"][:80]
            agg["inc_msgs"][m] = agg["inc_msgs"].get(m, 0) + 1
        else:
            res["index"] = i
            agg["bad"].append(res)
            if len(agg["bad"]) >= 3:
                break
    data = memoryview(pickle.dumps(agg))
    while data:
        data = data[os.write(wfd, data):]


def batch(check, n_runs: int, base_seed: int, workers: int, wall: float) -> dict:
    """Run seeds 0..n_runs-1 over ``workers`` processes."""
    scratch = scratch_base()
    wall_end = time.monotonic() + wall
    gc.collect()
    gc.freeze()
    procs = []
    try:
        for w in range(workers):
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    mine = os.path.join(scratch, f"p{w}")
                    os.mkdir(mine)
                    _worker(check, mine, base_seed, range(w, n_runs, workers), wall_end, wfd)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, rfd))
        total = {"runs": 0, "ok": 0, "inconclusive": 0, "faults": {}, "probes": {}, "ops": 0,
                 "sim_time": 0, "sigs": set(), "bad": [], "samples": [], "known": {},
                 "digests": [], "lost": 0, "inc_msgs": {}}
        bufs = {rfd: [] for _, rfd in procs}
        open_fds = set(bufs)
        while open_fds:
            ready, _, _ = select.select(list(open_fds), [], [])
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    bufs[fd].append(chunk)
                else:
                    open_fds.discard(fd)
        for pid, rfd in procs:
            os.close(rfd)
            os.waitpid(pid, 0)
            try:
                agg = pickle.loads(b"".join(bufs[rfd]))
            except Exception:  # noqa: BLE001
                total["lost"] += 1
                continue
            for key in ("runs", "ok", "inconclusive", "ops", "sim_time"):
                total[key] += agg[key]
            for key in ("faults", "probes", "known", "inc_msgs"):
                for k, v in agg[key].items():
                    total[key][k] = total[key].get(k, 0) + v
            total["sigs"] |= agg["sigs"]
            total["bad"] += agg["bad"]
            total["samples"] += agg["samples"][:1]
            total["digests"] += agg["digests"]
        total["digests"].sort()
        total["bad"].sort(key=lambda r: r["index"])
        return total
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def shrink(check, res: dict, budget: float = 30.0) -> dict:
    """Smallest choice list (in a time budget) that still breaks in the same way."""
    scratch = scratch_base()
    end = time.monotonic() + budget
    best = res
    tried = 0

    def attempt(cand: list[int]) -> bool:
        nonlocal best, tried
        if time.monotonic() > end:
            return False
        tried += 1
        out = fork_run(check, scratch, replay=cand, timeout=30)
        if out["outcome"] == "violation" and out["kind"] == res["kind"]:
            new = out["choices"]
            while new and new[-1] == 0:
                new = new[:-1]
            if (len(new), sum(new)) < (len(best["choices"]), sum(best["choices"])):
                out["choices"] = new
                best = out
                return True
        return False

    try:
        improved = True
        while improved and time.monotonic() < end:
            improved = False
            size = len(best["choices"]) // 2
            while size and time.monotonic() < end:
                pos = 0
                while pos < len(best["choices"]) and time.monotonic() < end:
                    cur = best["choices"]
                    if attempt(cur[:pos] + cur[pos + size:]):
                        improved = True
                    else:
                        pos += size
                size //= 2
            for pos in range(len(best["choices"])):
                if pos >= len(best["choices"]) or time.monotonic() > end:
                    break
                cur = best["choices"]
                for val in (0, cur[pos] // 2, cur[pos] - 1):
                    if 0 <= val < cur[pos] and attempt(cur[:pos] + [val] + cur[pos + 1:]):
                        improved = True
                        break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    best["shrink_attempts"] = tried
    return best


def write_replay(check, res: dict, tier: str, seed: int) -> Path:
    REPLAYS.mkdir(parents=True, exist_ok=True)
    path = REPLAYS / f"{check.ID}-{tier}-{seed}.json"
    path.write_text(json.dumps({
        "property": check.ID, "kind": res["kind"], "message": res["message"],
        "origin_seed": res.get("origin_seed"), "choices": res["choices"],
        "choices_before_shrinking": res.get("unshrunk"),
        "shrink_attempts": res.get("shrink_attempts"),
        "trace": res["trace"],
        "how": f"/opt/venv/bin/python sim/main.py replay {path}",
    }, indent=1))
    return path


def fresh_replay(path: Path) -> bool:
    """Replay the file in a new interpreter; True if it fails in the same way."""
    proc = subprocess.run([sys.executable, str(VERIF / "sim" / "main.py"), "replay", str(path)],
                          capture_output=True, text=True, timeout=300, check=False)
    return proc.returncode == 1


def replay(check, spec: dict) -> dict:
    scratch = scratch_base()
    try:
        return fork_run(check, scratch, replay=spec["choices"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_findings(prop: str) -> dict[str, str]:
    """Listed (unrepaired) findings of a property: id -> description."""
    out = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith(f"finding: property={prop} id="):
                ident, _, what = line.split("id=", 1)[1].partition(" ")
                out[ident] = what
    return out


def run_check(check, tier: str, seed: int, workers: int | None = None) -> int:
    start = time.monotonic()
    workers = workers or os.cpu_count() or 1
    n_runs = check.QUICK if tier == "quick" else check.THOROUGH
    wall = 240.0 if tier == "quick" else float(os.environ.get("SIM_THOROUGH_WALL", "3000"))
    check.findings = load_findings(check.ID)
    check.warm()
    total = batch(check, n_runs, seed, workers, wall)
    run_wall = time.monotonic() - start
    code = 0
    violations = 0
    harness = [r for r in total["bad"] if r["outcome"] == "harness"]
    broken = [r for r in total["bad"] if r["outcome"] == "violation"]
    hung = [r for r in total["bad"] if r["outcome"] == "hang"]
    if broken:
        first = broken[0]
        first["origin_seed"] = run_seed(check.ID, seed, first["index"])
        small = shrink(check, dict(first))
        small["origin_seed"] = first["origin_seed"]
        small["unshrunk"] = len(first["choices"])
        path = write_replay(check, small, tier, seed)
        if not fresh_replay(path):
            first["unshrunk"] = len(first["choices"])
            path = write_replay(check, first, tier, seed)
            small = first
            if not fresh_replay(path):
                print("note: replay in a fresh process did not fail in the same way")
        print(f"kind={small['kind']} {small['message'][:1500]}")
        for line in small["trace"][-25:]:
            print("  " + line[:200])
        print(f"VIOLATION property={check.ID} replay={path}")
        violations = len(broken)
        code = 1
    elif hung:
        scratch = scratch_base()
        again = fork_run(check, scratch, seed=run_seed(check.ID, seed, hung[0]["index"]))
        shutil.rmtree(scratch, ignore_errors=True)
        if again["outcome"] == "hang":
            REPLAYS.mkdir(parents=True, exist_ok=True)
            path = REPLAYS / f"{check.ID}-{tier}-{seed}.json"
            path.write_text(json.dumps({
                "property": check.ID, "kind": "no-progress", "message": again["message"],
                "seed": run_seed(check.ID, seed, hung[0]["index"]), "choices": []}))
            print(f"VIOLATION property={check.ID} replay={path}")
            violations, code = 1, 1
        else:
            code = 2
            print("HARNESS: a run timed out once and not again")
    if harness and code == 0:
        print(f"HARNESS ERROR in run {harness[0].get('index')}: {harness[0]['message']}")
        code = 2
    if code == 0 and (total["lost"] or total["runs"] < max(1, n_runs // 5)):
        print(f"HARNESS: only {total['runs']} of {n_runs} runs completed, lost={total['lost']}")
        code = 2
    if code == 0 and total["inconclusive"] > total["runs"] * check.MAX_INCONCLUSIVE:
        print(f"HARNESS: {total['inconclusive']} of {total['runs']} runs inconclusive "
              f"{total['inc_msgs']}")
        code = 2
    for ident, what in check.findings.items():
        if total["known"].get(ident):
            print(f"KNOWN-FINDING: property={check.ID} {what}")
    hours = max(run_wall, 1e-6) / 3600
    evidence = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(total["sigs"]),
            "rule": check.RULE,
            "samples": total["samples"][:3],
            "planned_runs": n_runs,
            "inconclusive_runs": total["inconclusive"],
            "runs_per_hour": round(total["runs"] / hours),
            "seeds_per_hour": round(total["runs"] / hours),
            "simulated_operations": total["ops"],
            "simulated_time_steps": total["sim_time"],
            "faults_injected": dict(sorted(total["faults"].items())),
            "probes": {**dict.fromkeys(check.PROBES, 0), **dict(sorted(total["probes"].items()))},
            "distinct_measure": check.MEASURE,
            "components_real": check.REAL,
            "components_stubbed": check.STUB,
            "known_findings_seen": total["known"],
            "workers": workers,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - start, 2),
        "violations": violations,
    }
    if not evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"] = [{"run": r["index"], "trace": r["trace"][:40]}
                                           for r in total["bad"][:1]]
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{check.ID}.json").write_text(json.dumps(evidence, indent=1))
    print(f"{check.ID} {tier}: {total['runs']} runs, {len(total['sigs'])} distinct, "
          f"{sum(total['faults'].values())} faults, {total['inconclusive']} inconclusive, "
          f"{evidence['wall_s']} s, exit {code}")
    missing = [p for p in check.PROBES if not total["probes"].get(p)]
    if missing:
        print(f"note: probes never hit: {missing}")
    return code


class Check:
    """Base class of a property's simulation."""

    ID = ""
    QUICK = 400
    THOROUGH = 20000
    RULE = ""
    MEASURE = "hash of the generated workload, fault placement and schedule of a run"
    PROBES: tuple[str, ...] = ()
    REAL: list[str] = []
    STUB: list[str] = []
    ASSUMPTIONS: list[str] = []
    MAX_INCONCLUSIVE = 0.2
    findings: dict[str, str] = {}

    def warm(self) -> None:
        """Import and load everything before forking."""
        from . import corpus
        corpus.load()
        import castep_outputs.cli.castep_outputs_main
        import castep_outputs.tools.get_generated_files
        import castep_outputs.tools.md_geom_parser  # noqa: F401

    def run(self, ctx: Ctx) -> None:
        raise HarnessError("not implemented")
