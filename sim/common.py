"""Helpers shared by the checks."""
from __future__ import annotations

import os
import pickle
import sys
import traceback
from collections.abc import Mapping, MutableMapping

from .core import Ctx, HarnessError, Violation, canon, diff, leq

COMMON_REAL = ["all of castep_outputs", "CPython buffered and text I/O layers"]
COMMON_STUB = ["raw file reads/writes (simulated disk)", "log record sink"]


def outcome(fn) -> tuple:
    """('ok', value, snapshot) or ('err', exception)."""
    try:
        val = fn()
    except Exception as exc:  # noqa: BLE001
        return ("err", exc)
    return ("ok", val, canon(val))


def same(out: tuple, ref: tuple) -> bool:
    """Two outcomes a caller could not tell apart (errors: same type)."""
    if out[0] != ref[0]:
        return False
    if out[0] == "ok":
        return out[2] == ref[2]
    return type(out[1]).__name__ == ref[1] if isinstance(ref[1], str) else \
        type(out[1]) is type(ref[1])


def describe(out: tuple) -> str:
    if out[0] == "ok":
        return "result " + repr(out[1])[:200]
    exc = out[1]
    if isinstance(exc, str):
        return f"error {exc}"
    return f"error {type(exc).__name__}: {str(exc)[:200]}"


def explain(got: tuple, want: tuple) -> str:
    if got[0] == want[0] == "ok" and want[1] is not None:
        return diff(want[1], got[1])
    return f"expected {describe(want)}, got {describe(got)}"


def pristine(fn):
    """Run ``fn`` in a forked copy of this process; its state never returns."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            data = pickle.dumps(fn())
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while chunk := os.read(rfd, 1 << 20):
        chunks.append(chunk)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if status:
        raise HarnessError("reference process failed")
    return pickle.loads(b"".join(chunks))


def portable(out: tuple) -> tuple:
    """Outcome that survives pickling."""
    if out[0] == "ok":
        return ("ok", None, out[2])
    return ("err", type(out[1]).__name__)


def require(cond: bool, kind: str, message) -> None:
    if not cond:
        raise Violation(kind, message() if callable(message) else message)


def draw_chunks(ctx: Ctx, size: int = 0, label: str = "chunks") -> tuple[int, ...]:
    """Sizes of successive raw reads of a ``size`` byte file; () for unlimited."""
    kind = ctx.draw(4, label)
    least = 1 + size // 1500
    if kind == 0:
        return ()
    if kind == 1:
        return (least + ctx.draw(7, label + "-tiny"),)
    if kind == 2:
        return tuple(least + ctx.draw(300, label + "-n")
                     for _ in range(ctx.between(1, 4, label + "-k")))
    return (509, 1, 4096)


def partial_of(got: object, true: object) -> bool:
    """Whether ``got`` is a possibly unfinished picture of ``true``."""
    if isinstance(true, Mapping):
        return isinstance(got, Mapping) and all(
            k in true and partial_of(v, true[k]) for k, v in got.items())
    if isinstance(true, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) > len(true):
            return False
        return all(leq(a, b) for a, b in zip(got[:-1], true)) and (
            not got or partial_of(got[-1], true[len(got) - 1]))
    return leq(got, true)


__all__ = ["COMMON_REAL", "COMMON_STUB", "Ctx", "Violation", "canon", "describe", "diff",
           "draw_chunks", "explain", "leq", "outcome", "partial_of", "portable", "pristine",
           "require", "same"]


def spoil(obj, depth: int = 0) -> int:
    """Edit a returned result everywhere it can be edited."""
    n = 0
    if depth > 30:
        return 0
    if isinstance(obj, MutableMapping):
        for v in list(obj.values()):
            n += spoil(v, depth + 1)
        for k in list(obj)[::2]:
            del obj[k]
        obj["edited by the caller"] = ["!"]
        n += 1
    elif isinstance(obj, list):
        for v in obj:
            n += spoil(v, depth + 1)
        obj.append("edited by the caller")
        n += 1
    elif isinstance(obj, tuple):
        for v in obj:
            n += spoil(v, depth + 1)
    elif isinstance(obj, set):
        obj.add("edited by the caller")
        n += 1
    return n
