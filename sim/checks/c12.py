"""C12: naming a calculation reports on exactly its own outputs, each exactly once."""
from __future__ import annotations

import ast
import io
import os
import sys
import zlib

from .. import common, corpus
from ..common import require
from ..core import Ctx
from ..runner import Check
from ..simfs import SimFS

STEMS = ("Si", "Si2", "Si2.run1", "a.b.c", "my job", "x[1]", "q*", "w?", "é-1", "Si.old", "md", ".hid",
         "castep", "run-1_b", "Si2.err", "n#1", "Si.MD", "Si.Castep")
_tiny: dict = {}


def tiny() -> dict[str, bytes]:
    """Smallest readable file of each format."""
    if not _tiny:
        for fmt in [*corpus.text_formats(), *corpus.bin_formats()]:
            if fmt == "castep":
                _tiny[fmt] = next(s["text"] for s in corpus.load()["castep_sections"]
                                  if s["name"] == "test_get_build_version").encode() + b"\n"
            elif fmt in ("cell", "param"):
                _tiny[fmt] = b"task : singlepoint\n"
            else:
                _tiny[fmt] = corpus.MODELS[fmt](Ctx(replay=[])).data()
    return _tiny


_empty: set = set()


def empties() -> set[str]:
    """Formats of which an output without content is read as one."""
    if not _empty:
        for fmt in tiny():
            try:
                corpus.Input(fmt, "empty", b"").parse()
            except Exception:  # noqa: BLE001, S112
                continue
            _empty.add(fmt)
    return _empty


class C12(Check):
    ID = "C12"
    QUICK = 20000
    THOROUGH = 250000
    RULE = ("non-trivial: the directory held outputs of a similarly named calculation or an entry that "
            "is not a file; distinct = directory content + arguments + listing order")
    MEASURE = "hash of (directory entries, arguments, order of listings, vanished file)"
    PROBES = ("seed with a dot", "pattern characters in a seed", "seed in a directory",
              "seed in the current directory", "absolute seed", "output file named directly",
              "several seeds", "similar names beside it", "directory named like an output",
              "numbered error files", "restricted to some kinds", "explicit files too", "include all",
              "seed given with an extension it does not have", "nothing found", "file vanishes",
              "unknown extension beside it", "option without files",
              "empty output", "output kept elsewhere")
    REAL = ["command line, argument handling, discovery, parse_all", *common.COMMON_REAL]
    STUB = ["order of directory listings (simulated disk)", "files vanishing after discovery",
            "standard output"]
    ASSUMPTIONS = ["one document entry per path as given or built from the seed"]

    def warm(self) -> None:
        super().warm()
        tiny()
        empties()

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.cli.castep_outputs_main import main

        content = tiny()
        kinds = list(content)
        empty = empties()
        fs = SimFS(ctx)
        subs = ["", "d", "d/e.f"][:ctx.between(1, 3, "n-dirs")]
        stems = []
        for _ in range(ctx.between(1, 4, "n-stems")):
            stem = STEMS[ctx.draw(len(STEMS), "stem")]
            if stem not in stems:
                stems.append(stem)
        files = set()
        oddity = False
        for sub in subs:
            for stem in stems:
                for _ in range(ctx.draw(5, "n-files")):
                    kind = kinds[ctx.draw(len(kinds), "kind")]
                    name = os.path.join(sub, f"{stem}.{kind}")
                    if os.path.isdir(os.path.join(fs.root, name)):
                        continue
                    if ctx.draw(12, "as-dir") == 11 and name not in files and kind != "err":
                        os.makedirs(os.path.join(fs.root, name))
                        ctx.probe("directory named like an output")
                        oddity = True
                        continue
                    form = ctx.draw(12, "file-form")
                    if form == 11 and kind in empty:
                        fs.put(name, b"")
                        ctx.probe("empty output")
                    elif form == 10 and name not in files:
                        fs.put(f"store/{len(files)}.x", content[kind])
                        if sub:
                            os.makedirs(os.path.join(fs.root, sub), exist_ok=True)
                        os.symlink(os.path.join(fs.root, f"store/{len(files)}.x"), os.path.join(fs.root, name))
                        ctx.probe("output kept elsewhere")
                    else:
                        fs.put(name, content[kind])
                    files.add(name)
                for k in range(ctx.draw(4, "n-err") if ctx.draw(2, "errs") else 0):
                    rank = (f"{k + 1:04d}", f"{k:04d}", f"{k + 1}", f"{10000 * k + 1}")[ctx.draw(4, "rank")]
                    name = os.path.join(sub, f"{stem}.{rank}.err")
                    if not os.path.isdir(os.path.join(fs.root, name)):
                        fs.put(name, content["err"])
                        files.add(name)
                        ctx.probe("numbered error files")
                if ctx.draw(4, "others") == 3:
                    for name in (f"{stem}.check", f"{stem}.castep.bak", f"{stem}", f"{stem}-x.0001.err",
                                 f"{stem}2.castep", f"{stem}.txt", f"{stem}.0001x.err", f"{stem}.00012.err",
                                 f"{stem}.0001.0002.err", f"{stem}..err", f"{stem}.-1.err",
                                 f"{stem}.0001.err.gz"):
                        name = os.path.join(sub, name)
                        if not os.path.exists(os.path.join(fs.root, name)):
                            fs.put(name, content.get(name.rpartition(".")[2], b"?\n"))
                            files.add(name)
                    ctx.probe("unknown extension beside it")
        if len(stems) > 1:
            ctx.probe("similar names beside it")
            oddity = True
        if not subs[0] and os.path.exists(fs.root):
            os.makedirs(fs.root, exist_ok=True)

        def exists(path: str) -> bool:
            return os.path.isfile(os.path.join(fs.root, path))

        # which kinds
        mode = ctx.draw(4, "inc-mode")
        inc = set(kinds)
        args = []
        if mode == 1:
            inc = {kinds[ctx.draw(len(kinds), "inc")] for _ in range(ctx.between(1, 4, "n-inc"))}
            if ctx.draw(2, "inc-err"):
                inc.add("err")
            args += [f"--inc-{k}" for k in sorted(inc)]
            ctx.probe("restricted to some kinds")
        elif mode == 2:
            args += [ctx.pick(("-A", "--inc-all"), "all-flag")]
            ctx.probe("include all")
        want: set[str] = set()
        # explicit files
        fs.put("guard.hug", content["hug"])
        explicit = {"hug": ["guard.hug"]}
        if ctx.draw(4, "explicit") == 3:
            ctx.probe("explicit files too")
            readable = sorted(f for f in files if f.endswith(tuple("." + k for k in content)))
            for _ in range(ctx.between(1, 2, "n-explicit")):
                if readable:
                    f = readable[ctx.draw(len(readable), "explicit-file")]
                    explicit.setdefault(f.rsplit(".", 1)[1], []).append(f)
        for kind, fl in explicit.items():
            args += [f"--{kind}", *fl]
            want |= set(fl)
        if ctx.draw(8, "empty-option") == 7:  # a shell pattern which matched nothing
            args += [f"--{ctx.pick([k for k in kinds if k not in explicit], 'empty-kind')}"]
            ctx.probe("option without files")
        args += ["-f", "print"]
        # seeds
        nseed = ctx.between(1, 3, "n-seeds")
        if nseed > 1:
            ctx.probe("several seeds")
        for _ in range(nseed):
            sub = subs[ctx.draw(len(subs), "seed-dir")]
            stem = stems[ctx.draw(len(stems), "seed-stem")]
            base = os.path.join(sub, stem)
            form = ctx.draw(6, "seed-form")
            known = stem.rsplit(".", 1)[-1] in content if "." in stem[1:] else False
            if form == 5:
                kind = kinds[ctx.draw(len(kinds), "seed-kind")]
                arg = f"{base}.{kind}"
            else:
                arg = base
            if form == 4:
                arg = os.path.join(fs.root, arg)
                ctx.probe("absolute seed")
            elif not sub:
                ctx.probe("seed in the current directory")
            else:
                ctx.probe("seed in a directory")
            if "." in stem[1:]:
                ctx.probe("seed with a dot")
            if set(stem) & set("[]*?"):
                ctx.probe("pattern characters in a seed")
            ext = arg.rsplit(".", 1)[-1] if "." in os.path.basename(arg)[1:] else ""
            if exists(arg) and ext in content:
                want.add(arg)
                ctx.probe("output file named directly")
            else:
                root = arg
                if ext in content:
                    root = arg[:-len(ext) - 1]
                    ctx.probe("seed given with an extension it does not have")
                del known
                want |= {f"{root}.{k}" for k in inc if exists(f"{root}.{k}")}
                if "err" in inc:
                    here = os.path.dirname(root)
                    tail = os.path.basename(root)
                    for f in files:
                        d, name = os.path.split(f)
                        same = os.path.join(fs.root, d) == os.path.normpath(os.path.join(fs.root, here))
                        if (same or os.path.normpath(os.path.join(fs.root, d))
                                == os.path.normpath(os.path.join(fs.root, here))):
                            # seed.<rank>.err
                            if name.startswith(tail + ".") and name.endswith(".err") \
                                    and name[len(tail) + 1:-4].isdecimal():
                                want.add(os.path.join(here, name))
            args.append(arg)
        if want == {"guard.hug"}:
            ctx.probe("nothing found")
        salt = ctx.draw(1 << 16, "listing-order")

        def reorder(entries, key):
            ctx.fault("listing-reordered")
            return sorted(entries, key=lambda e: zlib.crc32(f"{salt}{key(e)}".encode()))

        fs.list_order = reorder
        gone = None
        real = sorted(os.path.normpath(os.path.join(fs.root, w)) for w in want)
        real = [r for r in real if not os.path.islink(r)]
        if len(real) > 1 and ctx.draw(6, "vanish") == 5:
            gone = real[ctx.draw(len(real), "vanish-which")]
        os.chdir(fs.root)
        out = io.StringIO()
        saved = sys.argv, sys.stdout
        err = None
        opened = []

        def plan_for(path):
            from ..simfs import Plan
            opened.append(path)
            if gone and os.path.exists(gone) and path != gone:
                os.unlink(gone)
                ctx.fault("file-vanishes", fs.rel(gone))
                ctx.probe("file vanishes")
            return Plan()

        fs.default_plan = plan_for
        ctx.op(f"castep_outputs {' '.join(a.replace(fs.root, '$PWD') for a in args)}")
        with fs:
            sys.argv = ["castep_outputs", *args]
            sys.stdout = out
            try:
                main()
            except BaseException as exc:  # noqa: BLE001
                err = exc
            finally:
                sys.argv, sys.stdout = saved
        if gone and gone not in opened and not os.path.exists(gone):
            require(err is not None, "lost-file", f"{fs.rel(gone)} vanished after it was found, no error")
            require(out.getvalue() == "", "partial-output", "document written although a file vanished")
            ctx.nontrivial = True
            ctx.signature(sorted(files), args[:-1], salt, fs.rel(gone))
            return
        gone_opened = gone is not None and not os.path.exists(gone) and gone in opened
        if gone_opened and err is not None:
            require(isinstance(err, OSError), "spurious-error", f"{err!r}")
            return
        require(err is None, "spurious-error", f"{' '.join(args)}: {err!r}")
        text = out.getvalue()
        if len(want) == 1:
            require("guard.hug" not in text[:20] and text.strip() != "{}", "wrong-files",
                    lambda: f"expected only the explicit file, got {text[:200]!r}")
            got = {"guard.hug"}
            require(len(opened) == 1, "wrong-files", lambda: f"read {[fs.rel(o) for o in opened]}")
        else:
            got = set(_keys(text))
        require(got == want, "wrong-files",
                lambda: f"args {args}: missing {sorted(want - got)}, unexpected {sorted(got - want)}")
        ctx.nontrivial = oddity
        ctx.signature(sorted(files), [a.replace(fs.root, "") for a in args], salt)
        ctx.sim_time += fs.reads + len(files)


def _keys(text: str) -> list[str]:
    """Top-level keys of a printed dictionary."""
    import re
    text = re.sub(r"defaultdict\(<class '\w+'>, ", "dict(", text)
    tree = ast.parse(text.strip(), mode="eval").body
    if not isinstance(tree, ast.Dict):
        return []
    return [k.value for k in tree.keys]


CHECK = C12()
