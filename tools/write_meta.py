"""Writes properties.jsonl and MANIFEST.json (run by hand when the property list changes)."""
from __future__ import annotations

import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = "castep_outputs/parsers/"
U = "castep_outputs/utilities/"
PROPS = [
    dict(
        id="C01", title="Lazy trajectory reads do not depend on what was read before",
        statement="A lazily read trajectory (.md/.geom) delivers for every frame number the frame that reading "
                  "the whole file delivers at that place, whatever frames, slices, index lists or iterations were "
                  "requested, started or abandoned before. Negative and out-of-range numbers behave as on a list of "
                  "the same frames, and several readers of one file do not disturb each other.",
        over=["histories", "inputs", "schedules"],
        text="every sequence of index, slice, list, next-frame and (partly consumed, interleaved) iteration "
             "requests on one or more readers, over every trajectory whose frames have one layout",
        why="Tests request a few frames of one recorded file in a fixed order; they reach no interleaved or "
            "abandoned iterations and no arbitrary histories.",
        files=["castep_outputs/tools/md_geom_parser.py", P + "md_geom_file_parser.py", U + "filewrapper.py"],
        mech=[("seek to start + frame*frame_bytes", "MDGeomParser._go_to_frame"),
              ("next_frame bookkeeping", "MDGeomParser.read_next")],
        obs=["MDGeomParser.get_frame / __getitem__ / __iter__ / read_next / len"]),
    dict(
        id="C02", title="A failed or interrupted trajectory read does not spoil later reads",
        statement="When reading a frame of a lazily read trajectory fails or is interrupted (I/O error, signal, out "
                  "of memory), the failure reaches the caller. Every later request on the same reader, once the fault "
                  "has stopped, delivers exactly the frame asked for.",
        over=["fault_sequences", "histories"],
        text="every placement of read failures and interrupts inside a history of requests on a reader",
        why="No test makes a read fail; the position kept by the reader after a failure is never exercised.",
        files=["castep_outputs/tools/md_geom_parser.py", U + "filewrapper.py"],
        mech=[("position marked unknown while a frame is read", "MDGeomParser._in_place")],
        obs=["frames returned after a failed request"]),
    dict(
        id="C03", title="The trajectory of a killed or running job gives only whole, exact frames",
        statement="Opening or re-opening the trajectory of a job which is still writing or was killed at any byte "
                  "yields only frames the job finished, each exactly as written, in order. Frames that were complete "
                  "when the file was opened remain readable, and once the job has finished a new reader gives all of "
                  "them.",
        over=["crash_points", "schedules", "inputs"],
        text="every byte at which the writer stops, every interleaving of whole-frame growth with reads, every frame "
             "layout",
        why="Tests use complete files only; the result depends on the byte where the file ends and on growth under an "
            "open reader.",
        files=["castep_outputs/tools/md_geom_parser.py", P + "md_geom_file_parser.py"],
        mech=[("length estimate from file size", "MDGeomParser.__init__"),
              ("frame separator search", "MDGeomParser.__init__, parse_md_geom_file")],
        obs=["len, frames, iteration of the lazy reader"]),
    dict(
        id="C04", title="The unformatted-record reader is a cursor over the written records",
        statement="Reading, typed reading, skipping and rewinding a Fortran unformatted file behaves as moving one "
                  "position along the list of records that were written, for every sequence of those operations and "
                  "every way the bytes arrive. A file torn or damaged inside a record never yields a record other "
                  "than a written one.",
        over=["histories", "inputs", "crash_points", "fault_sequences"],
        text="every operation sequence, record layout, delivery chunking and truncation point",
        why="Tests read one recorded file forwards and rewind once.",
        files=["castep_outputs/bin_parsers/fortran_bin_parser.py"],
        mech=[("length words before and after each record", "FortranBinaryReader.__next__, rewind, skip"),
              ("short reads refused", "FortranBinaryReader._read")],
        obs=["records and values returned by the reader"]),
    dict(
        id="C05", title="A torn or damaged binary output is never taken for a complete one",
        statement="A binary output cut at any byte, or with a damaged record length, is refused or - where the cut "
                  "falls between the last parts the format allows - read as exactly the parts that are there. It "
                  "never produces a result that differs from what was written, and reading never fails to end.",
        over=["crash_points", "fault_sequences", "inputs"],
        text="every cut and every corrupted length word over generated and recorded binary outputs",
        why="Tests only parse complete recorded files.",
        files=["castep_outputs/bin_parsers/fortran_bin_parser.py",
               "castep_outputs/bin_parsers/cst_esp_file_parser.py",
               "castep_outputs/bin_parsers/epme_bin_parser.py"],
        mech=[("record framing checks", "FortranBinaryReader._read, __next__"),
              ("section headers and counts", "_check_header, parse_cst_esp_file, _parse_phonons")],
        obs=["result or exception of the binary parsers"]),
    dict(
        id="C06", title="A read failure is reported, never a partial result, and a retry is complete",
        statement="If opening or reading an input fails at any point, the call raises that failure and returns and "
                  "writes nothing. Repeating the call after the fault has stopped gives the complete, correct result.",
        over=["fault_sequences", "inputs"],
        text="every format and interface, every fault kind (I/O error, stale handle, timeout, signal, exhausted "
             "memory or descriptors, undecodable byte) at every byte offset",
        why="No test injects a failing read; swallowed errors only show when one happens at the right offset.",
        files=[U + "utility.py", U + "filewrapper.py", "castep_outputs/cli/castep_outputs_main.py",
               P + "castep_file_parser.py"],
        mech=[("errors propagate through the readers", "FileWrapper.__next__, Block.from_re"),
              ("open/close around each call", "file_or_path"),
              ("output written only after every input was parsed", "parse_all")],
        obs=["exception or result of the parsers, parse_single, parse_all"]),
    dict(
        id="C07", title="What is reported does not depend on how the bytes are delivered",
        statement="The result for an input is the same for every way the same bytes can reach the library: as path "
                  "or open file, in reads of any size, interrupted and resumed, with Unix or DOS line ends, with any "
                  "buffering, and from any position handling of the stream.",
        over=["schedules", "configurations", "inputs"],
        text="every chunking of reads, buffer size, interrupted read, opening mode and calling convention over "
             "recorded and generated inputs of every format",
        why="Tests deliver each sample one way (whole, from memory or one path).",
        files=[U + "filewrapper.py", U + "utility.py", "castep_outputs/bin_parsers/fortran_bin_parser.py"],
        mech=[("position kept by tell/seek", "FileWrapper.__next__, rewind"),
              ("exact-size record reads", "FortranBinaryReader._read"), ("path or handle", "file_or_path")],
        obs=["results of every parser"]),
    dict(
        id="C08", title="Calls do not influence each other",
        statement="The result of a call is that of the same call made first in a fresh process, whatever was parsed, "
                  "dumped, refused, interrupted or converted before it and whatever the caller did to earlier "
                  "results. Results handed out earlier do not change because of later calls.",
        over=["histories", "fault_sequences"],
        text="every sequence of calls over all formats and interfaces, with failing calls and callers editing the "
             "results in between",
        why="Tests check isolated calls, in one order; leaked module or default-argument state needs a particular "
            "history.",
        files=[P + "castep_file_parser.py", P + "cell_param_file_parser.py", P + "parse_utilities.py",
               U + "utility.py", U + "castep_res.py", "castep_outputs/tools/get_generated_files.py"],
        mech=[("per-call accumulators", "every parser"), ("shared compiled patterns and tables are read only",
                                                         "castep_res, constants")],
        obs=["results of repeated calls against a pristine process"]),
    dict(
        id="C09", title="Concurrent callers get the results they would get alone",
        statement="Calls running at the same time in several threads on separate inputs each give what they give "
                  "alone, under every interleaving. A failing call in one thread does not affect another.",
        over=["schedules", "inputs", "fault_sequences"],
        text="every interleaving of two to four calls at line granularity over all formats, some of them failing",
        why="No test runs two calls at once.",
        files=[P + "castep_file_parser.py", U + "utility.py", U + "filewrapper.py"],
        mech=[("no shared mutable state between calls", "all parsers and utilities")],
        obs=["results of each simulated thread"]),
    dict(
        id="C10", title="The output sink gets whole documents or nothing, and loses nothing",
        statement="Every completed run of the tool leaves in its output one whole document, in the requested format, "
                  "which covers every given input exactly once and reads back as the parsed results, after whatever "
                  "the output already held. A run that fails before writing starts leaves the output unchanged, a "
                  "failure while writing is reported, and what the output held before is never lost.",
        over=["fault_sequences", "inputs", "configurations", "histories"],
        text="every set of inputs, output format and kind of sink, over sequences of runs with failing inputs, full "
             "disks and failing or short writes",
        why="Tests dump one small result to memory; they reach neither repeated runs on one sink nor failing ones.",
        files=["castep_outputs/cli/castep_outputs_main.py", U + "dumpers.py", U + "utility.py"],
        mech=[("all inputs parsed before the sink is opened", "parse_all"), ("append mode", "parse_all"),
              ("dumpers", "get_dumpers")],
        obs=["bytes of the sink after each run"]),
    dict(
        id="C11", title="The same files give the same document on every run of the program",
        statement="The document produced for a set of files - values and order - is byte for byte the same in every "
                  "process, whatever the interpreter's hash seed and the order in which the system lists directories. "
                  "The same holds for the files predicted from an input.",
        over=["configurations", "inputs", "schedules"],
        text="every hash seed and directory order over recorded and generated inputs of every format",
        why="Tests run in one process with one hash seed and compare unordered results.",
        files=[P + "xrd_sf_file_parser.py", "castep_outputs/tools/get_generated_files.py",
               "castep_outputs/cli/args.py", U + "utility.py"],
        mech=[("ordered containers throughout", "parsers"), ("set-typed collections sorted before use",
                                                           "get_generated_files")],
        obs=["dumped documents of processes with different hash seeds"]),
    dict(
        id="C12", title="Naming a calculation reports exactly its own outputs, each once",
        statement="Giving the tool the name of a calculation makes it report exactly the existing outputs of that "
                  "calculation, each of them once, and never a file of another calculation - in every directory "
                  "content and listing order, whatever characters the names contain. Explicitly given files are "
                  "reported as given, besides, and outputs of kinds that were not asked for are left out.",
        over=["configurations", "inputs", "schedules"],
        text="every directory content (similar names, sub-directories, dotted and special names), option combination "
             "and listing order",
        why="Tests use a handful of hand-written name lists in one directory.",
        files=["castep_outputs/cli/args.py", "castep_outputs/cli/castep_outputs_main.py"],
        mech=[("seed and extension matching", "extract_parsables")],
        obs=["files reported by the command line"]),
    dict(
        id="C13", title="The text output of a running or killed job is refused or read as far as it goes",
        statement="Reading an output cut at any line either fails or reports what the finished part says - exactly, "
                  "apart from an unfinished last item in formats that show one - and never reports anything the job "
                  "did not write. What was finished before a torn line is unharmed, and reading again when the job "
                  "is done reports everything.",
        over=["crash_points", "schedules", "inputs"],
        text="every point at which the writer stops and every interleaving of growth with reading, over generated "
             "outputs of all text formats with a writer model",
        why="Tests parse complete outputs only.",
        files=[P + "castep_file_parser.py", P + "bands_file_parser.py", P + "phonon_file_parser.py",
               P + "md_geom_file_parser.py", U + "filewrapper.py"],
        mech=[("unexpected end of a block is an error", "Block.from_re, Block.get_lines"),
              ("items appended when complete", "the parsers")],
        obs=["result or exception against the writer's record of what it wrote"]),
    dict(
        id="C14", title="Restarted runs in one log are reported separately, each with its own data",
        statement="A log to which restarted or further runs were appended is reported as one result per run, in "
                  "order, each with exactly the data that run wrote. A run killed between its messages leaves the "
                  "runs before and after it as if they stood alone.",
        over=["crash_points", "histories", "inputs"],
        text="every sequence of runs in one log, each finished or killed at any event, with reads in between",
        why="Recorded multi-run logs are few and all their runs finished.",
        files=[P + "castep_file_parser.py"],
        mech=[("a new header starts a new run", "parse_castep_file")],
        obs=["list of runs reported"]),
    dict(
        id="C15", title="The line cursor and its blocks behave as a list with one position",
        statement="Every line of a file is delivered once, in order and unchanged, except where the caller stepped "
                  "back; stepping back re-delivers exactly the line before. Blocks cut from a file or another block "
                  "hold exactly the lines from their first to their last matching line, leave the source at the line "
                  "after, and a block whose end is missing is refused unless the caller allows it.",
        over=["histories", "inputs", "schedules", "fault_sequences"],
        text="every sequence of cursor and block operations over several files and nested blocks, every content, "
             "line end and delivery, growth at the end of file, failing reads",
        why="Tests exercise single operations on a few fixed lines in memory.",
        files=[U + "filewrapper.py"],
        mech=[("position of the last line", "FileWrapper._pos"), ("index into the lines", "Block._i")],
        obs=["lines delivered by FileWrapper and Block"]),
    dict(
        id="C16", title="Everything a job reported is in the result once, in order, with its value",
        statement="For every sequence of events a job can report in its outputs, the result holds each reported "
                  "quantity exactly once, in the order written, under its own name, with the value written. Nothing "
                  "is dropped, repeated, mixed up between atoms, steps or runs, or invented.",
        over=["histories", "inputs", "schedules"],
        text="every event sequence of the simulated jobs (22 formats, single point, dynamics and optimisation "
             "logs, one or several runs), every delivery of the bytes, several outputs in one process",
        why="Recorded samples fix one event order and a few values each; conservation must hold for every sequence.",
        files=[P + "castep_file_parser.py", P + "md_geom_file_parser.py", P + "bands_file_parser.py",
               P + "phonon_file_parser.py", P + "magres_file_parser.py", P + "elastic_file_parser.py",
               P + "efield_file_parser.py", P + "epme_file_parser.py", P + "parse_fmt_files.py",
               "castep_outputs/bin_parsers/epme_bin_parser.py"],
        mech=[("per-step and per-run accumulators", "parse_castep_file and its section readers"),
              ("regex groups to named entries", "castep_res")],
        obs=["results against the reference model replaying the job's events"]),
    dict(
        id="C17", title="Files the library opens are closed; the caller's are left as they were",
        statement="Every file the library opens itself is closed when the call ends, by return or by any failure. A "
                  "file the caller supplies stays open and usable, after errors and after everything the library made "
                  "of it was collected. A trajectory reader closes its file when it is let go, and discarding one that "
                  "could not be opened raises nothing.",
        over=["fault_sequences", "histories", "inputs"],
        text="every interface and format, with truncated inputs, failing opens, reads and writes and interrupts at "
             "every offset",
        why="Tests never look at handles after a call, least of all after a failing one.",
        files=[U + "utility.py", U + "filewrapper.py", "castep_outputs/cli/castep_outputs_main.py",
               "castep_outputs/bin_parsers/fortran_bin_parser.py"],
        mech=[("with-statement around opened files", "file_or_path, parse_all"),
              ("no closing of wrapped files", "FileWrapper")],
        obs=["open streams of the simulated disk, state of caller handles"]),
    dict(
        id="C18", title="An input file means what its statements say, through every edit and save",
        statement="Reading a .cell or .param file gives exactly one entry for each keyword and block in it, with the "
                  "value, units and rows that statement carries - every row, species, tag, index and number in it - "
                  "whatever its order, spelling, comments and line ends, the last statement counting where one is "
                  "repeated. A file whose save was cut short gives its whole statements or is refused; an unfinished "
                  "block is never reported as a finished one, and the file once saved completely is read completely.",
        over=["histories", "crash_points", "inputs", "schedules"],
        text="every sequence of edits (add, remove, repeat, reorder, comment), of saves (whole, cut short at any byte, "
             "out of space, renamed into place, still going on) and of reads, over every documented kind of statement",
        why="Tests read a handful of complete blocks, each once, short and in one spelling.",
        files=[P + "cell_param_file_parser.py", U + "castep_res.py", U + "type_conv.py", U + "filewrapper.py",
               U + "utility.py"],
        mech=[("statement and block dispatch", "parse_cell_param_file, _PARSERS"),
              ("row readers", "_parse_positions, _parse_ionic_constraints, _parse_general, ..."),
              ("unfinished blocks refused", "Block.from_re"), ("comment stripping", "strip_comments")],
        obs=["parse_cell_param_file, parse_single"]),
]

NA = [
    dict(
        id="N01", title="Numbers are converted exactly as printed",
        statement="Every number in an output, in any notation the program prints (fixed, exponent with D or E or "
                  "without a letter, fractions), is reported as the value it denotes.",
        over=["inputs"], text="every numeral",
        why="Tests sample a few numerals.",
        files=[U + "type_conv.py", U + "utility.py"], mech=[("conversion", "to_type")], obs=["to_type"],
        reason="A pure function of one string: no schedule, clock, I/O, fault or history enters, so simulated "
               "executions add nothing over plain input generation."),
    dict(
        id="N02", title="Narrowing what is read from a log does not alter what is still reported",
        statement="Asking for fewer kinds of data from a log only removes those kinds; what remains is what the full "
                  "reading reports.",
        over=["inputs", "configurations"], text="every selection over every log",
        why="Tests use three fixed selections.",
        files=[P + "castep_file_parser.py"], mech=[("selection flags", "Filters")], obs=["parse_castep_file"],
        reason="A relation between two evaluations of a deterministic function on one input; nothing the simulator "
               "controls can affect it. It was tried against the job model all the same and does not hold as stated, "
               "nor do the documents promise it: selections nest, an unselected SCF section ends at another line than "
               "a selected one, pseudopotential reports belong to two kinds. The two selections the jobs use are "
               "compared with the model under C16."),
    dict(
        id="N03", title="The predicted output files follow from the calculation's settings",
        statement="The files predicted for a calculation are those the program writes for its task and settings.",
        over=["inputs"], text="every cell and param content",
        why="Tests cover a list of tasks.",
        files=["castep_outputs/tools/get_generated_files.py"],
        mech=[("rules per task", "get_generated_files")], obs=["get_generated_files"],
        reason="A static table lookup with no I/O order, concurrency or fault dimension beyond reading two files (that "
               "part is covered by C08, C11 and C17); whether the table is right needs CASTEP itself as oracle."),
]


def line(p: dict) -> dict:
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": None}}


NOTES = {
    "C09": "seeded line-granularity thread interleavings under a cooperative scheduler; no weak-memory effects "
           "(CPython holds its lock)",
    "C11": "hash seeds are set per simulated process; the processes themselves are real interpreters run one at a "
           "time",
    "C14": "one listed finding (torn block swallowing a restart) is tolerated and named",
    "C16": "the listed findings (mostly encoded by the existing tests) are tolerated exactly and named",
    "C18": "one listed finding (keywords standing alone are not reported) is tolerated and named",
}


def main() -> None:
    with (HERE / "properties.jsonl").open("w") as f:
        for p in [*PROPS, *NA]:
            f.write(json.dumps(line(p)) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python sim/main.py check {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python sim/main.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search, replayable runs)",
            "level": "exploration",
            "level_note": "Seeded search, not exhaustive: " + NOTES.get(
                i, "every run is decided against a reference model or a pristine run of the same call")
            + ". Trusts the simulated disk/job models in sim/ and CPython's own buffering layers.",
        })
    (HERE / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import castep_outputs'",
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "No hooks in /repo: the simulator replaces open, directory listing, threads, locks and handles "
                 "from outside. /repo has only fix: commits. Findings: KNOWN_FINDINGS.txt. Planted bugs: seeded/.",
    }, indent=1) + "\n")


if __name__ == "__main__":
    main()
