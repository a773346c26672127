#!/opt/venv/bin/python
"""Turn the recorded log sections into writers: corpus/templates.json.

For every recorded section the numbers in the text that reach the result become slots; the result becomes a tree of
literals and slots, for the full and the reduced reading.  Lines which are entries of a table are found by repeating
them.  A simulated job can then write that section with any numbers and any number of rows, and knows what a reader
must report.  Built once, from the repaired reference tree; no check runs this.  Every template is verified here on
fresh fillings, alone, twice in one log, and next to every other section and event it may meet.
"""
from __future__ import annotations

import io
import json
import logging
import multiprocessing as mp
import random
import re
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(HERE)]
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file  # noqa: E402

from sim import templates as T  # noqa: E402

logging.disable(logging.CRITICAL)
TOKEN = re.compile(r"(?<![\w.+-])[-+]?\d+\.\d+(?:[EeDd][-+]?\d+)?(?![\w.]|-\d)|(?<![\w.+:/-])-?\d+(?![\w.:/-])")
INT = re.compile(r"-?\d+$")


def runs_of(text: str, full: bool):
    return parse_castep_file(io.StringIO(text), Filters.FULL if full else Filters.HIGH)


def parse(text: str):
    """Both readings of the text, as one tree."""
    full, high = runs_of(text, True), runs_of(text, False)
    if len(full) != 1 or len(high) > 1:
        raise ValueError(f"{len(full)} runs")
    return {"full": full[0], "high": high[0] if high else {}}


def try_parse(text: str):
    try:
        return parse(text)
    except Exception:  # noqa: BLE001
        return None


def leaves(tree, path=()):
    if isinstance(tree, dict):
        for k, v in tree.items():
            yield from leaves(v, (*path, ("k", k)))
    elif isinstance(tree, (list, tuple)):
        for i, v in enumerate(tree):
            yield from leaves(v, (*path, ("i", i)))
    else:
        yield path, tree


def shape(tree):
    if isinstance(tree, dict):
        return {k: shape(v) for k, v in tree.items()}
    if isinstance(tree, (list, tuple)):
        return [shape(v) for v in tree]
    return type(tree).__name__


def fields(text: str):
    """(start, end) of every number with the blanks before it which it may use."""
    for m in TOKEN.finditer(text):
        start = m.start()
        while start > 1 and text[start - 1] == " " and text[start - 2] == " " and m.start() - start < 6:
            start -= 1
        yield start, m.end()


def split(text: str, frozen: set):
    parts, toks = [], []
    at = 0
    for i, (a, b) in enumerate(fields(text)):
        if i in frozen:
            continue
        parts.append(text[at:a])
        toks.append(text[a:b])
        at = b
    parts.append(text[at:])
    return parts, toks


def locate(runs, ids):
    """Which slot does every moving leaf follow?  runs: [(tree, fill)]."""
    table = {}
    for j in range(len(ids)):
        table.setdefault(tuple(T.number(r[1][j]) for r in runs), j)
    trees = [dict(leaves(r[0])) for r in runs]
    lost, slots = [], {}
    for path in trees[0]:
        vals = [t[path] for t in trees]
        if all(v == vals[0] for v in vals):
            continue
        if isinstance(vals[0], str):
            cands = [j for j in range(len(ids)) if all(r[1][j].strip() in v for r, v in zip(runs, vals))]
            tmpl = T.str_template(vals[0], [(j, runs[0][1][j].strip()) for j in cands])
            if all(T.str_fill(tmpl, r[1]) == v for r, v in zip(runs, vals)):
                slots[path] = ("s", tmpl)
                continue
        elif isinstance(vals[0], complex):
            re_, im = (table.get(tuple(getattr(v, p) for v in vals)) for p in ("real", "imag"))
            if re_ is not None and im is not None:
                slots[path] = ("c", re_, im)
                continue
        elif not isinstance(vals[0], bool) and vals[0] is not None and None not in vals:
            j = table.get(tuple(vals))
            if j is not None:
                slots[path] = ("n", j)
                continue
            j = table.get(tuple(-v for v in vals))
            if j is not None:
                slots[path] = ("-", j)
                continue
        lost.append(path)
    return slots, lost


def encode(tree, slots, path=(), key=T.pack):
    if path in slots:
        return {"$": slots[path]}
    if isinstance(tree, dict):
        return {"d": [[key(k), encode(v, slots, (*path, ("k", k)), key)] for k, v in tree.items()]}
    if isinstance(tree, (list, tuple)):
        return {"l": [encode(v, slots, (*path, ("i", i)), key) for i, v in enumerate(tree)]}
    return {"v": key(tree)}


def build(text: str):
    rng = random.Random(7)
    draw = rng.randrange
    base = parse(text)
    want = shape(base)
    frozen: set = set()
    every = range(len(list(fields(text))))

    def indices():
        return [i for i in every if i not in frozen]

    def attempt(only=None):
        parts, toks = split(text, frozen)
        ids = indices()
        fill = [t if only is not None and i not in only else T.vary(t, draw) for i, t in zip(ids, toks)]
        res = try_parse(T.join(parts, fill))
        return (res if res is not None and shape(res) == want else None), fill

    # slots which change the shape of the result stay as recorded
    def bad(ids):
        return any(attempt(set(ids))[0] is None for _ in range(3))

    def search(ids):
        if not ids or not bad(ids):
            return
        if len(ids) == 1:
            frozen.add(ids[0])
            return
        h = len(ids) // 2
        search(ids[:h])
        search(ids[h:])

    for _ in range(6):
        ids = indices()
        if not bad(ids):
            break
        search(ids)
    else:
        for i in indices():
            if bad([i]):
                frozen.add(i)
    # slots whose value cannot be followed into the result stay too
    slots = {}
    for _ in range(12):
        runs = [attempt() for _ in range(5)]
        if any(r[0] is None for r in runs):
            for i in indices():
                if bad([i]):
                    frozen.add(i)
            continue
        ids = indices()
        slots, lost = locate(runs, ids)
        if not lost:
            break
        # who moves those leaves?
        for i in list(ids):
            ref = attempt(set())[0]
            for _ in range(2):
                got = attempt({i})[0]
                if got is None:
                    frozen.add(i)
                    break
                g, r = dict(leaves(got)), dict(leaves(ref))
                if any(g[p] != r[p] for p in lost):
                    frozen.add(i)
                    break
    else:
        return None
    parts, toks = split(text, frozen)
    res = encode(base, slots)
    trees = {k: v for k, v in ((T.unpack(k), v) for k, v in res["d"])}
    tmpl = {"parts": parts, "tokens": toks, "modes": [""] * len(toks), "rows": [], **trees}

    def right(fill):
        got = try_parse(T.join(parts, fill))
        return got is not None and all(T.same(T.decode(tmpl[k], fill), got[k]) for k in ("full", "high"))

    if not all(right([T.vary(t, draw) for t in toks]) for _ in range(20)):
        return None
    tmpl["modes"] = learn_modes(toks, right, draw)
    tmpl["rows"] = learn_rows(tmpl, text, frozen, draw)
    return tmpl


def learn_modes(toks, right, draw):
    modes = []
    for i, tok in enumerate(toks):
        ok = ""
        for mode in (T.ZERO, T.SIGN, T.WIDE):
            for _ in range(40):
                fill = [T.vary(t, draw) for t in toks]
                fill[i] = T.vary(tok, draw, mode, 100)
                if not right(fill):
                    break
            else:
                ok += mode
        modes.append(ok)
    # several at once
    for _ in range(40):
        fails = []
        for _ in range(6):
            fill = [T.vary(t, draw, m, 40) for t, m in zip(toks, modes)]
            if not right(fill):
                fails.append(fill)
        if not fails:
            break
        fill = fails[0]
        # the smallest part of it that still fails
        plain = [T.vary(t, draw) for t in toks]
        keep = list(range(len(toks)))
        for j in list(keep):
            trial = [k for k in keep if k != j]
            if not right([fill[k] if k in trial else plain[k] for k in range(len(toks))]):
                keep = trial
        if not keep:
            keep = [0]
        modes[keep[0]] = ""
    return modes


def diff_insert(old, new, path=()):
    """[(path, position or key, value)] by which ``new`` has more than ``old``; None if they differ otherwise."""
    if isinstance(old, dict):
        if not isinstance(new, dict) or not old.keys() <= new.keys():
            return None
        out = [(path, k, new[k]) for k in new if k not in old]
        for k, v in old.items():
            sub = diff_insert(v, new[k], (*path, k))
            if sub is None:
                return None
            out += sub
        return out
    if isinstance(old, (list, tuple)):
        if not isinstance(new, (list, tuple)) or len(new) < len(old):
            return None
        extra = len(new) - len(old)
        if not extra:
            out = []
            for i, (a, b) in enumerate(zip(old, new)):
                sub = diff_insert(a, b, (*path, i))
                if sub is None:
                    return None
                out += sub
            return out
        at = next((i for i, (a, b) in enumerate(zip(old, new)) if not T.same(a, b)), len(old))
        if not T.same(list(old[at:]), list(new[at + extra:])):
            return None
        return [(path, at + i, new[at + i]) for i in range(extra)]
    return [] if T.same(old, new) else None


def learn_rows(tmpl, text, frozen, draw):
    """Groups of lines a job may print more often."""
    lines = text.splitlines(keepends=True)
    # where the fields are, by line
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln))
    base_fill = list(tmpl["tokens"])
    base = parse(text)
    rows = []
    taken = set()
    for size in (1, 2, 3, 4, 5, 6, 7, 8):
        for start in range(len(lines) - size + 1):
            if len(rows) >= 4 or taken & set(range(start, start + size)):
                continue
            block = "".join(lines[start:start + size])
            if not TOKEN.search(block) or not block.strip():
                continue
            row = learn_row(lines, start, size, block, base, draw)
            if row:
                rows.append(row)
                taken |= set(range(max(0, start - 1), start + size + 1))
    return rows


def learn_row(lines, start, size, block, base, draw):
    before, after = "".join(lines[:start + size]), "".join(lines[start + size:])
    spans = list(fields(block))
    toks = [block[a:b] for a, b in spans]
    parts = [block[a:b] for a, b in zip([0, *(b for _, b in spans)], [*(a for a, _ in spans), len(block)])]
    ints = [i for i, t in enumerate(toks) if INT.match(t.strip())]
    plans = [()] + [(i,) for i in ints[:6]]
    same_val = {}
    for i in ints:
        same_val.setdefault(int(toks[i]), []).append(i)
    plans += [tuple(v) for v in same_val.values() if len(v) > 1]
    for plan in plans:
        # the numbers of the further rows
        first = None
        for first in ([None] if not plan else [int(toks[plan[0]]) + 1, 50, 101]):
            got = try_row(before, after, parts, toks, plan, first, base, draw)
            if got:
                return {"after": start + size - 1, "first": first or 0,
                        "index": [[i, len(toks[i])] for i in plan] if plan else None, **got}
    return None


def try_row(before, after, parts, toks, plan, first, base, draw):
    fixed = set(plan)

    def copy(index, modes=None, odd=0):
        fill = [t if i in fixed else T.vary(t, draw, modes[i] if modes else "", odd) for i, t in enumerate(toks)]
        for i in plan:
            fill[i] = str(index).rjust(len(toks[i]))
        return T.join(parts, fill), fill

    for _ in range(40):
        runs = []
        culprit = None
        for _ in range(5):
            text, fill = copy(first)
            new = try_parse(before + text + after)
            add = new and [x for k in ("full", "high") for x in
                           [(k, *a) for a in (diff_insert(base[k], new[k]) or [(None,) * 3])]]
            if not add or any(a[1] is None for a in add if a[0] == "full") or not any(a[0] == "full" for a in add):
                runs = None
                break
            add = [a for a in add if a[1] is not None]
            if new["high"] and diff_insert(base["high"], new["high"]) is None:
                runs = None
                break
            runs.append((add, fill))
        if runs is None:
            # a field of the copy may be more than a number: hold the integers as they are
            loose_ints = [i for i, t in enumerate(toks) if i not in fixed and INT.match(t.strip())]
            if loose_ints and not fixed.issuperset(loose_ints):
                fixed.update(loose_ints)
                continue
            return None
        spots = [[(k, p, q if not plan or isinstance(q, int) and False else q) for k, p, q, _ in add] for add, _ in runs]
        if any(len(s) != len(spots[0]) or any(a != b for a, b in zip(s, spots[0])) for s in spots):
            return None
        adds = []
        shapes = [[shape(v) for *_, v in add] for add, _ in runs]
        if any(s != shapes[0] for s in shapes):
            culprit = True
        else:
            for n, (kind, path, pos, _) in enumerate(runs[0][0]):
                trees = [(add[n][3], fill) for add, fill in runs]
                slots, lost = locate(trees, toks)
                if lost:
                    culprit = True
                    break
                adds.append((kind, path, pos, trees[0][0], slots))
        if culprit:
            loose_ints = [i for i, t in enumerate(toks) if i not in fixed and INT.match(t.strip())]
            if not loose_ints:
                return None
            fixed.update(loose_ints)
            continue
        break
    else:
        return None
    if not any(s for *_, s in adds):
        return None  # nothing of the row reaches the result

    def mark(value):
        if isinstance(value, (list, tuple)):
            return {"t": [mark(v) for v in value]}
        if plan and not isinstance(value, bool):
            if isinstance(value, int) and value == first:
                return {"i": "i"}
            if isinstance(value, float) and value == first:
                return {"i": "f"}
            if isinstance(value, str) and value == str(first):
                return {"i": "s"}
        return T.pack(value)

    out = []
    for kind, path, pos, tree, slots in adds:
        box = base[kind]
        for step in path:
            box = box[step]
        if isinstance(box, dict):
            key = mark(pos)
            if "i" not in json.dumps(key):
                return None
            out.append([kind, [T.pack(s) for s in path], key, encode(tree, slots, (), mark)])
        else:
            out.append([kind, [T.pack(s) for s in path], pos, encode(tree, slots, (), mark)])
    row = {"parts": parts, "tokens": toks, "modes": [""] * len(toks), "adds": out,
           "index": [[i, len(toks[i])] for i in plan] if plan else None, "first": first or 0}
    # slots of the copy which may not change
    used = set()
    for i in fixed - set(plan):
        used.add(i)
    merged_parts, merged_toks, names = [parts[0]], [], {}
    for i, t in enumerate(toks):
        if i in used:
            merged_parts[-1] += t + parts[i + 1]
        else:
            names[i] = len(merged_toks)
            merged_toks.append(t)
            merged_parts.append(parts[i + 1])

    def rename(tree):
        if "$" in tree:
            k, *args = tree["$"]
            if k == "s":
                return {"$": (k, [names[x] if isinstance(x, int) else x for x in args[0]])}
            return {"$": (k, *(names[x] for x in args))}
        if "d" in tree:
            return {"d": [[k, rename(v)] for k, v in tree["d"]]}
        if "l" in tree:
            return {"l": [rename(v) for v in tree["l"]]}
        return tree

    row.update(parts=merged_parts, tokens=merged_toks, modes=[""] * len(merged_toks),
               index=[[names[i], len(toks[i])] for i in plan] if plan else None,
               adds=[[k, p, q, rename(t)] for k, p, q, t in row["adds"]])
    before_lines = before.splitlines(keepends=True)

    def right(times, odd=0):
        text = "".join(before_lines)
        fills = []
        for n in range(times):
            t, f = T.row_lines(row, draw, row["first"] + n, odd)
            text += t
            fills.append(f)
        got = try_parse(text + after)
        if got is None:
            return False
        want = json_copy(base)
        for n, fill in enumerate(fills):
            for kind, path, pos, tree in row["adds"]:
                box = want[kind]
                for step in path:
                    box = box[T.unpack(step)]
                if isinstance(box, list):
                    box.insert(pos + n, T.decode(tree, fill, row["first"] + n))
                else:
                    box[T.unpack(pos, row["first"] + n)] = T.decode(tree, fill, row["first"] + n)
        return T.same(want, got)

    if not all(right(t) for t in (1, 2, 3)):
        return None
    row["max"] = max(t for t in (3, 12, 40, 105) if all(right(s) for s in range(3, t + 1, max(1, t // 3))) and right(t)) \
        if right(3) else 3
    # odd shapes
    modes = []
    for i, tok in enumerate(row["tokens"]):
        ok = ""
        if not (row["index"] and any(i == a for a, _ in row["index"])):
            for mode in (T.ZERO, T.SIGN, T.WIDE):
                row["modes"] = ["" if j != i else mode for j in range(len(row["tokens"]))]
                if all(right(2, 100) for _ in range(3)):
                    ok += mode
        modes.append(ok)
    row["modes"] = modes
    if not all(right(3, 40) for _ in range(12)):
        row["modes"] = [""] * len(modes)
    row.pop("first"), row.pop("index")
    row = {**row, "index": [[names[i], len(toks[i])] for i in plan] if plan else None}
    return row


def json_copy(x):
    if isinstance(x, dict):
        return {k: json_copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [json_copy(v) for v in x]
    return x


class Event:
    """A section or a simulated event, written with fresh numbers."""

    def __init__(self, name, make, rules):
        self.name, self.make, self.rules = name, make, rules


def check_seq(header_ev, events, rng) -> bool:
    text, want = header_ev.make(rng)
    wants = {True: dict(want[True]), False: dict(want[False])}
    for ev in events:
        t, w = ev.make(rng)
        text += t
        for full in (True, False):
            w[full](wants[full]) if callable(w[full]) else T.combine(wants[full], w[full], ev.rules)
    try:
        return all(len(r := runs_of(text, f)) == 1 and T.same(wants[f], r[0]) for f in (True, False))
    except Exception:  # noqa: BLE001
        return False


def sec_event(sec):
    def make(rng):
        grow = {}
        for r, row in enumerate(sec["rows"]):
            if rng.random() < 0.15:
                grow[r] = rng.randint(1, min(row["max"], 12))
        lines, out = T.write(sec, rng.randrange, 10, grow)
        return "".join(lines), {True: out["full"], False: out["high"]}
    return Event(sec["name"], make, sec.get("rules", {}))


def model_event(name):
    from sim.castep_model import Job, _apply
    from sim.core import Ctx
    from sim.models import Values

    def make(rng):
        ctx = Ctx(seed=str(rng.random()))
        lines, pay = getattr(Job(ctx, Values(ctx), 1), name)()

        def put(full):
            def go(run):
                for p in ([q for _, q in pay[1]] if pay[0] == "lines" else [pay]):
                    _apply(run, p, scf=full)
            return go
        return "".join(lines), {True: put(True), False: put(False)}
    return Event(name, make, {})


def header(rng):
    from sim.castep_model import Job
    from sim.core import Ctx
    from sim.models import Values
    ctx = Ctx(seed=str(rng.random()))
    lines, pay = Job(ctx, Values(ctx), 1).build()
    return "".join(lines), {f: {"build_info": dict(pay[1])} for f in (True, False)}


MAKERS = ["started", "title", "continuation", "masses", "warning", "cell", "positions", "memory", "scf", "energy",
          "noise", "forces", "stress", "mulliken", "hirshfeld", "spin", "finish", "efficiency"]
HEAD = Event("build", header, {})


def one(args):
    k, s = args
    text = s["text"].rstrip(" ")
    if not text.endswith("\n"):
        text += "\n"
    text += "\n"
    try:
        got = build(text)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        return None
    if got is None:
        print(k, s["name"], "not usable", flush=True)
        return None
    got["name"] = s["name"].replace("test_", "").replace("get_", "") + f"#{k}"
    print(k, got["name"], "slots", len(got["tokens"]), "odd", sum(map(bool, got["modes"])), "rows",
          [(r["after"], r["max"], r["index"], len(r["adds"])) for r in got["rows"]], flush=True)
    return got


def settle(sec):
    """Hold what must be held so that the section, alone in a log, always reads as foretold."""
    rng = random.Random(4)
    head, wants = HEAD.make(rng)

    def right(fill, grow=None):
        if grow is None:
            text = T.join(sec["parts"], fill)
            out = {k: T.decode(sec[k], fill) for k in ("full", "high")}
        else:
            lines, out = T.write(sec, rng.randrange, 10, grow)
            text = "".join(lines)
        try:
            for f in (True, False):
                want = dict(wants[f])
                T.combine(want, out["full" if f else "high"], {})
                r = runs_of(head + text, f)
                if len(r) != 1 or not T.same(want, r[0]):
                    return False
        except Exception:  # noqa: BLE001
            return False
        return True

    if not right(sec["tokens"]):
        print("not after a header:", sec["name"], flush=True)
        return False
    held, good = [], 0
    for _ in range(5000):
        fill = [T.vary(t, rng.randrange, m, 10) for t, m in zip(sec["tokens"], sec["modes"])]
        if right(fill):
            good += 1
            if good > 250:
                break
            continue
        good = 0
        for j, t in enumerate(sec["tokens"]):
            trial = list(fill)
            trial[j] = t
            if not right(trial):
                fill = trial
        left = [j for j, t in enumerate(sec["tokens"]) if fill[j] != t]
        held.append(left[0])
        sec["modes"][left[0]] = T.FIXED
    else:
        return False
    if held:
        print(sec["name"], "holds", [sec["tokens"][j] for j in held], flush=True)
    rows, sec["rows"] = sec["rows"], []
    for row in rows:
        sec["rows"].append(row)
        n = len(sec["rows"])
        if not all(right(None, {r: rng.randint(1, min(sec["rows"][r]["max"], 12)) for r in range(n)
                                if r == n - 1 or rng.random() < .3}) for _ in range(150)):
            sec["rows"].pop()
    if len(rows) > len(sec["rows"]):
        print(sec["name"], "rows", len(rows), "to", len(sec["rows"]), flush=True)
    return True


def rules_of(sec):
    if not settle(sec):
        return None
    rng = random.Random(3)
    ev = sec_event(sec)
    rules = {}
    keys = {T.unpack(k) for f in ("full", "high") for k, _ in sec[f]["d"]}
    for key in sorted(keys):
        for rule in ("extend", "merge", "deep", "update", "set"):
            ok = True
            for _ in range(40):
                h, _ = HEAD.make(rng)
                a, aw = ev.make(rng)
                b, bw = ev.make(rng)
                try:
                    for f in (True, False):
                        r = runs_of(h + a + b, f)
                        if key in aw[f]:
                            want = {key: aw[f][key]}
                            T.combine(want, {key: bw[f][key]}, {key: rule})
                            ok = ok and T.same(want[key], r[0][key])
                except Exception:  # noqa: BLE001
                    ok = False
                if not ok:
                    break
            if ok:
                rules[key] = rule
                break
        else:
            rules[key] = "none"
    sec["rules"] = rules
    return sec


USABLE: list = []


def pair_row(i):
    events = [sec_event(s) for s in USABLE] + [model_event(m) for m in MAKERS]
    rng = random.Random(i)
    return [all(check_seq(HEAD, [events[i], b], rng) for _ in range(8)) for b in events]


def main():
    global USABLE
    secs = [s for s in json.loads((HERE / "corpus/sections.json").read_text()) if s["kind"] == "castep"]
    if len(sys.argv) > 1:
        pick = [int(x) for x in sys.argv[1:]]
        for k in pick:
            got = one((k, secs[k]))
            print(json.dumps(got["rows"] if got else None)[:3000])
        return
    with mp.get_context("fork").Pool(8) as pool:
        if Path("/tmp/t1.json").exists():  # an interrupted build goes on
            out = json.loads(Path("/tmp/t1.json").read_text())
        else:
            out = [s for s in pool.imap(one, list(enumerate(secs)), chunksize=1) if s]
        print(len(out), "of", len(secs))
        Path("/tmp/t1.json").write_text(json.dumps(out))
        USABLE = [s for s in pool.imap(rules_of, out) if s]
    with mp.get_context("fork").Pool(8) as pool:
        names = [s["name"] for s in USABLE] + MAKERS
        n = len(names)
        good = list(pool.imap(pair_row, range(n)))
    for i, a in enumerate(names):
        bad = [names[j] for j in range(n) if not good[i][j]]
        if bad:
            print(a, "not before", len(bad), bad[:12])
    events = [sec_event(s) for s in USABLE] + [model_event(m) for m in MAKERS]
    rng = random.Random(5)
    for size, count in ((3, 1500), (6, 1500)):
        fails = {}
        total = 0
        for _ in range(count):
            seq = []
            for _ in range(40):
                j = rng.randrange(n)
                if all(good[i][j] for i in seq):
                    seq.append(j)
                if len(seq) == size:
                    break
            total += 1
            if not check_seq(HEAD, [events[i] for i in seq], rng):
                fails[tuple(names[i] for i in seq)] = 1
        print("sequences of", size, ":", len(fails), "of", total, "fail", list(fails)[:10])
    for i, sec in enumerate(USABLE):
        sec["not_after"] = [names[j] for j in range(n) if not good[j][i]]
        sec["not_before"] = [names[j] for j in range(n) if not good[i][j]]
    (HERE / "corpus/templates.json").write_text(
        "[\n" + ",\n".join(json.dumps(s, separators=(",", ":")) for s in USABLE) + "\n]\n")
    print(len(USABLE), "templates")


if __name__ == "__main__":
    main()
