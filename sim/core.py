"""Choice source, run context, violation type and canonical values.

Every decision of a simulated run comes from ``Ctx.draw``.  A run is a pure
function of (code, list of drawn numbers): the list *is* the replay file.
"""
from __future__ import annotations

import hashlib
import random
from collections.abc import Mapping


class Violation(Exception):
    """A property is broken in this run."""

    def __init__(self, kind: str, message: str) -> None:
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Inconclusive(Exception):
    """The run cannot be judged (counted, never a violation)."""


class HarnessError(Exception):
    """The simulator itself misbehaved."""


class Ctx:
    """One simulated run: choices in, trace and measurements out."""

    def __init__(self, seed: str | None = None, replay: list[int] | None = None,
                 scratch: str | None = None) -> None:
        self.seed = seed
        self.replay = replay
        self.rng = random.Random(seed) if seed is not None else None
        self.choices: list[int] = []
        self.labels: list[str] = []
        self.trace: list[str] = []
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.ops = 0
        self.sim_time = 0
        self.nontrivial = False
        self.known: list[str] = []
        self.sig = hashlib.blake2b(digest_size=12)
        self.digest = hashlib.blake2b(digest_size=16)
        self.scratch = scratch
        #: may the writers put one count of a document past one or two digits
        self.scale = False

    # -- choices -------------------------------------------------------------
    def draw(self, n: int, label: str) -> int:
        """Choose in ``range(n)``; 0 is always the simplest choice."""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.choices)
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        self.labels.append(label)
        self.digest.update(f"{label}={v}/{n};".encode())
        return v

    def chance(self, num: int, den: int, label: str) -> bool:
        """True with probability num/den (0-choice is always False)."""
        return self.draw(den, label) >= den - num

    def between(self, lo: int, hi: int, label: str) -> int:
        return lo + self.draw(hi - lo + 1, label)

    def pick(self, seq, label: str):
        return seq[self.draw(len(seq), label)]

    def subrng(self, label: str) -> random.Random:
        """Bulk values (not structure) derive from one choice."""
        return random.Random(self.draw(1 << 30, label))

    def shuffle(self, seq, label: str) -> list:
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.draw(len(out) - i, label)
            out[i], out[j] = out[j], out[i]
        return out

    # -- measurements ----------------------------------------------------------
    def log(self, text: str) -> None:
        if len(self.trace) < 4000:
            self.trace.append(text)
        self.digest.update(text.encode("utf-8", "replace"))
        self.digest.update(b"\n")

    def op(self, text: str) -> None:
        self.ops += 1
        self.log(text)

    def fault(self, kind: str, text: str = "") -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log(f"FAULT {kind} {text}")

    def probe(self, name: str) -> None:
        self.probes[name] = self.probes.get(name, 0) + 1

    def signature(self, *parts: object) -> None:
        """Feed the measure of distinctness of this run."""
        self.sig.update(repr(parts).encode())

    def report(self) -> dict:
        return {
            "choices": self.choices, "trace": self.trace, "faults": self.faults,
            "probes": self.probes, "ops": self.ops, "sim_time": self.sim_time,
            "nontrivial": self.nontrivial, "sig": self.sig.hexdigest(),
            "digest": self.digest.hexdigest(), "known": self.known,
        }


# -- canonical values ----------------------------------------------------------
def canon(obj: object, *, order: bool = True):
    """Hashable, order-preserving picture of a parse result.

    Mapping subclass and list/tuple are kept apart only as far as a caller can
    tell from equality (dict vs list vs tuple); floats by repr so nan == nan.
    """
    if isinstance(obj, Mapping):
        items = [(canon(k, order=order), canon(v, order=order)) for k, v in obj.items()]
        if not order:
            items.sort(key=repr)
        return ("map", tuple(items))
    if isinstance(obj, list):
        return ("list", tuple(canon(x, order=order) for x in obj))
    if isinstance(obj, tuple):
        return ("tuple", tuple(canon(x, order=order) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted((canon(x) for x in obj), key=repr)))
    if isinstance(obj, float):
        return ("float", repr(obj))
    if isinstance(obj, (str, bytes, int, bool, complex, type(None))):
        return (type(obj).__name__, repr(obj))
    return (type(obj).__name__, repr(obj))


def loose(obj: object):
    """As canon but lists and tuples alike, dict order ignored, 1 == 1.0, -0.0 == 0.0."""
    if isinstance(obj, Mapping):
        return ("map", tuple(sorted(((loose(k), loose(v)) for k, v in obj.items()), key=repr)))
    if isinstance(obj, (list, tuple)):
        return ("seq", tuple(loose(x) for x in obj))
    if isinstance(obj, bool) or obj is None or isinstance(obj, (str, bytes)):
        return (type(obj).__name__, repr(obj))
    if isinstance(obj, (int, float)):
        return ("num", repr(float(obj) + 0.0))
    if isinstance(obj, complex):
        return ("cpx", repr(complex(obj.real + 0.0, obj.imag + 0.0)))
    return (type(obj).__name__, repr(obj))


def leq(a: object, b: object) -> bool:
    """Whether ``loose(a) == loose(b)``, faster."""
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return a == b or (a != a and b != b)
    if ta is str or tb is str:
        return ta is tb and a == b
    if isinstance(a, Mapping):
        if not isinstance(b, Mapping) or len(a) != len(b):
            return False
        return all(k in b and leq(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(map(leq, a, b)))
    return loose(a) == loose(b)


def diff(a: object, b: object, path: str = "$", *, loose_seq: bool = True) -> str:
    """First difference between two results, for messages."""
    if isinstance(a, Mapping) and isinstance(b, Mapping):
        for k in a:
            if k not in b:
                return f"{path}: key {k!r} only on left"
        for k in b:
            if k not in a:
                return f"{path}: key {k!r} only on right"
        for k in a:
            if loose(a[k]) != loose(b[k]):
                return diff(a[k], b[k], f"{path}[{k!r}]")
        if list(a) != list(b):
            return f"{path}: key order {list(a)!r} != {list(b)!r}"[:300]
        for k in a:
            if canon(a[k]) != canon(b[k]):
                return diff(a[k], b[k], f"{path}[{k!r}]")
        return f"{path}: equal"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if not leq(x, y):
                return diff(x, y, f"{path}[{i}]")
        for i, (x, y) in enumerate(zip(a, b)):
            if canon(x) != canon(y):
                return diff(x, y, f"{path}[{i}]")
        return f"{path}: {type(a).__name__} vs {type(b).__name__}"
    return f"{path}: {str(a)[:120]!r} != {str(b)[:120]!r}"


def exc_name(exc: BaseException) -> str:
    return type(exc).__name__
