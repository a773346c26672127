"""Simulated file system and lock seam.

Real bytes live in a scratch directory; every ``open`` made under that
directory by anyone (library or harness opting in) is served by a raw stream
the simulator owns, below the interpreter's real buffering and decoding.  The
plan of each file decides short reads, EINTR, EIO at a byte offset, interrupts,
ENOSPC, torn writes and growth while reading.  Nothing outside the scratch
directory is touched.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import sys
import threading
from dataclasses import dataclass, field

from .core import Ctx

_real_open = io.open
_real_scandir = os.scandir
_real_listdir = os.listdir


class SimCrash(BaseException):
    """The simulated process is killed here (durable state = what was written)."""


@dataclass
class Plan:
    """What happens to raw operations on one path."""

    #: Largest raw read, 0 for whatever is asked.
    chunk: int = 0
    #: Chunk sizes drawn around ``chunk`` from this list, cyclically.
    chunks: tuple[int, ...] = ()
    #: Buffer size given to the interpreter's buffered layer, 0 for default.
    buffer: int = 0
    #: Byte offset at which reading fails (a read never crosses it).
    fail_at: int | None = None
    fail_with: object = None
    fail_times: int = 1
    #: how many seeks succeed before one fails (with ``fail_with``).
    seek_fail: int | None = None
    #: every ``eintr``-th raw read is first interrupted (must be invisible).
    eintr: int = 0
    #: Fail the open itself.
    open_error: BaseException | None = None
    #: Writing: raw bytes accepted before failing, and how.
    write_limit: int | None = None
    write_error: object = None
    write_chunk: int = 0
    #: called with (simfile, offset) before each raw read.
    on_read: object = None
    fired: int = 0
    written: int = 0


class SimRaw(io.RawIOBase):
    """Raw stream under simulator control."""

    def __init__(self, fs: SimFS, path: str, mode: str, plan: Plan) -> None:
        self._f = io.FileIO(path, mode)
        self.fs = fs
        self.path = path
        self.plan = plan
        self._mode = self._f.mode
        self.name = path
        self.nreads = 0

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._f.close()

    def seek(self, pos, whence=0):
        self.fs.event("seek")
        plan = self.plan
        if plan.seek_fail is not None:
            plan.seek_fail -= 1
            if plan.seek_fail < 0:
                plan.seek_fail = None
                plan.fired += 1
                exc = plan.fail_with() if callable(plan.fail_with) else plan.fail_with
                self.fs.ctx.fault(f"seek-{type(exc).__name__}-{getattr(exc, 'errno', '')}",
                                  self.fs.rel(self.path))
                raise exc
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def readinto(self, b):
        plan = self.plan
        fs = self.fs
        self.nreads += 1
        fs.reads += 1
        fs.event("read")
        want = len(b)
        pos = self._f.tell()
        if plan.on_read is not None:
            plan.on_read(self, pos)
        if plan.eintr and self.nreads % plan.eintr == 0 and not getattr(self, "_just", False):
            self._just = True
            fs.ctx.fault("eintr")
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        self._just = False
        if plan.chunks:
            want = min(want, plan.chunks[(self.nreads - 1) % len(plan.chunks)])
        elif plan.chunk:
            want = min(want, plan.chunk)
        if plan.fail_at is not None and plan.fired < plan.fail_times:
            if pos <= plan.fail_at < pos + want:
                if pos == plan.fail_at or self._at_or_past(pos, plan.fail_at):
                    plan.fired += 1
                    exc = plan.fail_with() if callable(plan.fail_with) else plan.fail_with
                    fs.ctx.fault(f"read-{type(exc).__name__}-{getattr(exc, 'errno', '')}",
                                 f"{fs.rel(self.path)}@{pos}")
                    raise exc
                want = plan.fail_at - pos
        if want < len(b):
            fs.short_reads += 1
        data = self._f.read(want)
        if data is None:
            return None
        b[:len(data)] = data
        return len(data)

    @staticmethod
    def _at_or_past(pos: int, at: int) -> bool:
        return pos >= at

    def readall(self):
        out = []
        while True:
            buf = bytearray(8192)
            try:
                n = self.readinto(buf)
            except InterruptedError:
                continue
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        plan = self.plan
        fs = self.fs
        fs.event("write")
        data = bytes(b)
        n = len(data)
        if plan.write_chunk:
            n = min(n, plan.write_chunk)
        if plan.write_limit is not None:
            room = plan.write_limit - plan.written
            if room <= 0 and n:
                exc = plan.write_error() if callable(plan.write_error) else plan.write_error
                if exc is None:
                    exc = OSError(errno.ENOSPC, "No space left on device")
                fs.ctx.fault(f"write-{type(exc).__name__}-{getattr(exc, 'errno', '')}",
                             fs.rel(self.path))
                plan.fired += 1
                raise exc
            n = min(n, room)
        done = self._f.write(data[:n])
        plan.written += done
        if done < len(data):
            fs.short_writes += 1
        return done


class SimFS:
    """Owns every file opened below ``root``."""

    def __init__(self, ctx: Ctx, root: str | None = None) -> None:
        self.ctx = ctx
        self.root = os.path.realpath(root or ctx.scratch)
        self.plans: dict[str, Plan] = {}
        self.default_plan = None
        self.open_handles: list = []
        self.opened = 0
        #: library code under which a file was opened
        self.openers: set = set()
        self.reads = 0
        self.short_reads = 0
        self.short_writes = 0
        self.on_event = None
        self.list_order = None
        self.active = False
        self.track = True

    def rel(self, path) -> str:
        return os.path.relpath(path, self.root)

    def event(self, kind: str) -> None:
        if self.on_event is not None:
            self.on_event(kind)

    def inside(self, file) -> str | None:
        try:
            path = os.fspath(file)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.startswith("/dev/") and not path.startswith(self.root):
            return None
        full = os.path.realpath(path)
        return full if full == self.root or full.startswith(self.root + os.sep) else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        full = None if isinstance(file, int) or opener is not None else self.inside(file)
        if full is None or not self.active:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        plan = self.plans.get(full)
        if plan is None:
            plan = self.default_plan(full) if self.default_plan else Plan()
        self.event("open")
        if plan.open_error is not None:
            plan.fired += 1
            self.ctx.fault(f"open-{type(plan.open_error).__name__}", self.rel(full))
            raise plan.open_error
        text = "b" not in mode
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        if not text and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
        raw = SimRaw(self, full, rawmode, plan)
        raw.name = os.fspath(file)
        self.opened += 1
        frame = sys._getframe(1)
        while frame is not None:
            if "castep_outputs" in frame.f_code.co_filename:
                self.openers.add(frame.f_code)
            frame = frame.f_back
        size = plan.buffer or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if buffering == 0:
            if text:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            if self.track:
                self.open_handles.append(raw)
            return raw
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] in "wax":
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        out = buf
        if text:
            out = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline,
                                   line_buffering=buffering == 1)
            out.mode = mode
        if self.track:
            self.open_handles.append(out)
        return out

    # -- directory order -----------------------------------------------------
    def listdir(self, path="."):
        names = _real_listdir(path)
        if self.active and self.list_order and not isinstance(path, int) and self.inside(path):
            self.ctx.probe("directory listed")
            return self.list_order(sorted(names), key=lambda n: n)
        return names

    def scandir(self, path="."):
        if self.active and self.list_order and not isinstance(path, int) and self.inside(path):
            self.ctx.probe("directory listed")
            with _real_scandir(path) as it:
                entries = sorted(it, key=lambda e: e.name)
            return _Scan(self.list_order(entries, key=lambda e: e.name))
        return _real_scandir(path)

    def __enter__(self) -> SimFS:
        builtins.open = self.open
        io.open = self.open
        os.listdir = self.listdir
        os.scandir = self.scandir
        self.active = True
        return self

    def __exit__(self, *exc) -> None:
        self.active = False
        builtins.open = _real_open
        io.open = _real_open
        os.listdir = _real_listdir
        os.scandir = _real_scandir

    # -- harness side ----------------------------------------------------------
    def put(self, name: str, data: bytes) -> str:
        """Store a file durably, bypassing the simulated stream."""
        path = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with _real_open(path, "wb") as f:
            f.write(data)
        return path

    def append(self, name: str, data: bytes) -> None:
        with _real_open(os.path.join(self.root, name), "ab") as f:
            f.write(data)

    def get(self, name: str) -> bytes:
        with _real_open(os.path.join(self.root, name), "rb") as f:
            return f.read()

    def leaked(self) -> list[str]:
        """Tracked streams still open."""
        return [self.rel(_raw(h).path) for h in self.open_handles if not h.closed]

    def forget(self) -> None:
        for h in self.open_handles:
            try:
                h.close()
            except Exception:  # noqa: BLE001, S110
                pass
        self.open_handles = []


def _raw(handle):
    while not isinstance(handle, SimRaw):
        handle = getattr(handle, "buffer", None) or handle.raw
    return handle


class _Scan:
    def __init__(self, entries) -> None:
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def close(self):
        return None


# -- locks ---------------------------------------------------------------------
#: Set by the scheduler while simulated threads run.
CURRENT_SCHEDULER = None
_RealLock = threading.Lock
_RealRLock = threading.RLock


class SimLock:
    """Lock created by the code under test: cooperative inside a simulation."""

    def __init__(self, *, reentrant: bool) -> None:
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            sched = CURRENT_SCHEDULER
            if sched is None or not sched.blocked():
                raise RuntimeError("deadlock: lock never released")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def install_lock_seam() -> None:
    """Locks created by castep_outputs itself become simulated locks."""

    def factory(real, reentrant):
        def make(*args, **kwargs):
            caller = sys._getframe(1).f_globals.get("__name__", "")
            if caller.startswith("castep_outputs"):
                return SimLock(reentrant=reentrant)
            return real(*args, **kwargs)
        return make

    threading.Lock = factory(_RealLock, False)
    threading.RLock = factory(_RealRLock, True)
