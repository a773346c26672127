"""One interpreter with a given hash seed: run jobs from stdin, print what a user would see."""
from __future__ import annotations

import io
import logging
import os
import pickle
import select
import signal
import socket
import sys
import traceback

logging.getLogger().addHandler(logging.NullHandler())


def ordered(obj):
    """As printed, except that the order within a set is nobody's promise."""
    from collections.abc import Mapping
    if isinstance(obj, Mapping):
        return "{" + ", ".join(f"{ordered(k)}: {ordered(v)}" for k, v in obj.items()) + "}"
    if isinstance(obj, list):
        return "[" + ", ".join(map(ordered, obj)) + "]"
    if isinstance(obj, tuple):
        return "(" + ", ".join(map(ordered, obj)) + ")"
    if isinstance(obj, (set, frozenset)):
        return "set(" + ", ".join(sorted(map(ordered, obj))) + ")"
    return repr(obj)


def job(kind: str, arg) -> str:
    from castep_outputs.bin_parsers import PARSERS as BIN
    from castep_outputs.cli.castep_outputs_main import main, parse_all
    from castep_outputs.parsers import PARSERS
    if kind == "parse":
        fmt, path = arg
        return ordered((PARSERS.get(fmt) or BIN[fmt])(path))
    if kind == "dump":
        out_fmt, files = arg
        out = io.StringIO()
        parse_all(output=out, out_format=out_fmt, **files)
        return out.getvalue()
    if kind == "predict":
        from castep_outputs.tools import get_generated_files
        cell, param = arg
        return ordered(get_generated_files("job", cell_data=cell, param_data=param))
    if kind == "cli":
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            sys.argv = ["castep_outputs", *arg]
            main()
            return sys.stdout.getvalue()
        finally:
            sys.stdout = out
    raise ValueError(kind)


def shuffle_listings(order: int) -> None:
    """Directory listings come in another (fixed) order."""
    import random
    real_list, real_scan = os.listdir, os.scandir

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *exc):
            return None

        def close(self):
            return None

        def __iter__(self):
            while self:
                yield self.pop(0)

    def listdir(path="."):
        out = sorted(real_list(path))
        random.Random(order).shuffle(out)
        return out

    def scandir(path="."):
        with real_scan(path) as it:
            out = sorted(it, key=lambda e: e.name)
        random.Random(order).shuffle(out)
        return Scan(out)

    os.listdir, os.scandir = listdir, scandir


def answer(jobs, order: int) -> list:
    if order:
        shuffle_listings(order)
    out = []
    for kind, arg in jobs:
        try:
            out.append(("ok", job(kind, arg)))
        except Exception as exc:  # noqa: BLE001
            out.append(("err", type(exc).__name__))
    return out


def serve(path: str) -> None:
    """Answer each connection from a forked copy of this freshly started interpreter.

    Ends when standard input does (the simulator is gone).
    """
    import castep_outputs.bin_parsers
    import castep_outputs.cli.castep_outputs_main
    import castep_outputs.tools  # noqa: F401
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    sock = socket.socket(socket.AF_UNIX)
    sock.bind(path)
    sock.listen(64)
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        ready, _, _ = select.select([sock, sys.stdin], [], [])
        if sys.stdin in ready:
            return
        conn, _ = sock.accept()
        if os.fork():
            conn.close()
            continue
        try:
            sock.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(50)
            with conn.makefile("rwb") as f:
                jobs, order, cwd = pickle.load(f)
                os.chdir(cwd)
                pickle.dump(answer(jobs, order), f)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1])
