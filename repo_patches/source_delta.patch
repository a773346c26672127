From 7e373ad09e67b3678bb849edf7b20529457f54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 01/43] fix: split .md/.geom frames on whitespace-only
 separator lines

CASTEP separates frames with lines holding only blanks; these did not match
"^$" and so a whole trajectory was merged into one frame.
---
 castep_outputs/parsers/md_geom_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..d7e7b76 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
+import castep_outputs.utilities.castep_res as REs
 from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
@@ -171,7 +172,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    while block := Block.from_re("", md_geom_file, "", REs.EMPTY, eof_possible=True):
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From ca2d68b49d81e560cb929a8f2de9cb83206fdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 02/43] fix: find every output of a seed given with a directory
 or dotted name

.err files were looked up as dir/dir/seed.*.err (or crashed for absolute
paths), in directory enumeration order, and "seed-0.5" looked for
"seed-0.castep".
---
 castep_outputs/cli/args.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..4ba83fc 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import argparse
+import glob
 from collections.abc import Sequence
 from pathlib import Path
 
@@ -97,13 +98,16 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
         if seed.is_file() and (ext := seed.suffix[1:]) in ALL_NAMES:
             getattr(args, ext).append(str(seed))
         else:
+            # Only drop a known extension, seednames may themselves contain dots.
+            stem = seed.stem if seed.suffix[1:] in ALL_NAMES else seed.name
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{stem}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
-                args.err.extend(map(str, err_files))
+            if args.inc_err:
+                err_files = seed.parent.glob(f"{glob.escape(stem)}.*.err")
+                args.err.extend(sorted(map(str, err_files)))
 
     return args
 
-- 
2.43.0


From ac4e65463438734fa1b8c7174dfefd41b62a82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 03/43] fix: keep xrd_sf columns in file order rather than hash
 order

---
 castep_outputs/parsers/xrd_sf_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/xrd_sf_file_parser.py b/castep_outputs/parsers/xrd_sf_file_parser.py
index e30999f..4c18c5b 100644
--- a/castep_outputs/parsers/xrd_sf_file_parser.py
+++ b/castep_outputs/parsers/xrd_sf_file_parser.py
@@ -55,7 +55,7 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
     headers = next(xrd_sf_file).split()[3:]
     # Turn Re(x) into x_re
     headers = [f"{head[3:-1]}_{head[0:2]}".lower() for head in headers]
-    headers_wo = {head[:-3] for head in headers}
+    headers_wo = tuple(dict.fromkeys(head[:-3] for head in headers))
 
     xrd_re = re.compile(rf"(?P<qvec>(?:\s*{REs.INTNUMBER_RE}){{3}})" +
                         labelled_floats(headers))
-- 
2.43.0


From 6ee80e668e2b7bf2f16a8a683ef7f1b51466c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 04/43] fix: choose pseudopotential theory independently of
 hash order

---
 castep_outputs/tools/get_generated_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..cbef38c 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,10 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            theory = next(
+                (XC_TO_PS_THEORY[func] for func in sorted(xc) if func in XC_TO_PS_THEORY),
+                "LDA",
+            )
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From 39f0cb0c5d657a4584f236433d2167958fe06b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 05/43] fix: allow several Path inputs to be dumped by
 parse_all

json refuses Path keys and yaml tagged them as Python objects.
---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..f7f310e 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -125,7 +125,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From a160c49afe7cae0cf02d2f72ef5f52f864218136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 06/43] fix: do not close the caller's file when a FileWrapper
 is collected

parse_castep_file(handle) and parse_md_geom_file(handle) closed handles they
did not open, unlike all other parsers.
---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..633f683 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -106,9 +106,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 29f720e7e221cf997215b6c86dfa5647e349ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 07/43] fix: return the right frame from MDGeomParser after a
 failed read

An error or interrupt part way through a frame left the file position out of
step with next_frame, so the next access silently returned data spanning two
frames. read_next past the counted frames raised TypeError if the file had
grown since being opened.
---
 castep_outputs/tools/md_geom_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..b3c9d11 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -30,6 +30,8 @@ class MDGeomParser:
 
     def __init__(self, md_geom_file: Path | str) -> None:
         self._next_frame: int | None
+        #: Whether file position is known to be that of the next frame.
+        self._in_place = False
 
         self.file = Path(md_geom_file).expanduser()
 
@@ -91,10 +93,12 @@ While iteration should work, extracting particular frames may not.
 
     def _go_to_frame(self, frame: int) -> None:
         """Set file pointer to given index."""
+        self._in_place = False
         ind = self._get_index(frame)
         self._handle.file.seek(ind)
         self._handle._lineno = self._start_line + (frame * self._frame_lines)
         self._next_frame = frame if frame < len(self) else None
+        self._in_place = True
 
     def get_frame(self, frame: int) -> MDGeomTimestepInfo:
         """Get particular frame of md/geom.
@@ -165,11 +169,20 @@ While iteration should work, extracting particular frames may not.
         StopIteration
             No next frame.
         """
+        if self._next_frame is None:
+            raise StopIteration
+
+        if not self._in_place:  # Previous read or seek did not complete.
+            self._go_to_frame(self._next_frame)
+
+        self._in_place = False
         if not (block := Block.get_lines(self._handle, self._frame_lines, eof_possible=True)):
             raise StopIteration
 
+        data = parse_md_geom_frame(block)
         self._next_frame = self._next_frame + 1 if self._next_frame < len(self) - 1 else None
-        return parse_md_geom_frame(block)
+        self._in_place = True
+        return data
 
     @overload
     def __getitem__(self, frame: int) -> MDGeomTimestepInfo: ...
-- 
2.43.0


From 8abc1373d99c4ac891d565885710b27392e4c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 08/43] fix: refuse truncated records in Fortran unformatted
 files

Short records were returned as if complete, and get_dtype_dict returned partial
(or empty) entries at end of file, so a cut .epme_bin parsed "successfully" with
made-up phonons.
---
 .../bin_parsers/fortran_bin_parser.py         | 44 ++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index e375925..5d4f535 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -48,14 +48,36 @@ class FortranBinaryReader:
         return self
 
     def __next__(self) -> bytes:
-        bin_size = self.file.read(4)
+        bin_size = self._read(4)
 
         if not bin_size:
             raise StopIteration
 
         size = int.from_bytes(bin_size, "big")
+        data = self._read(size)
+        post_size = self._read(4)
+
+        if len(data) != size or post_size != bin_size:
+            raise OSError("Truncated or corrupt record in Fortran unformatted file.")
+
+        return data
+
+    def _read(self, size: int) -> bytes:
+        """Read ``size`` bytes, or all remaining if fewer, allowing for short reads.
+
+        Parameters
+        ----------
+        size
+            Number of bytes to read.
+
+        Returns
+        -------
+        :
+            Data read.
+        """
         data = self.file.read(size)
-        self.file.read(4)
+        while len(data) < size and (more := self.file.read(size - len(data))):
+            data += more
         return data
 
     def rewind(self, n: int = 1, /) -> None:
@@ -83,15 +105,15 @@ class FortranBinaryReader:
             self.file.seek(-4, SEEK_CUR)
             for _ in range(abs(n) - 1):
                 # Rewind to record size before last read
-                size = int.from_bytes(self.file.read(4), "big")
+                size = int.from_bytes(self._read(4), "big")
                 self.file.seek(-size - 12, SEEK_CUR)
 
             # Rewind one extra
-            size = int.from_bytes(self.file.read(4), "big")
+            size = int.from_bytes(self._read(4), "big")
             self.file.seek(-size - 8, SEEK_CUR)
         else:
             for _ in range(n):
-                size = int.from_bytes(self.file.read(4), "big")
+                size = int.from_bytes(self._read(4), "big")
                 self.file.seek(size + 4, SEEK_CUR)
 
     @overload
@@ -214,8 +236,18 @@ class FortranBinaryReader:
         -------
         :
             Loaded data.
+
+        Raises
+        ------
+        OSError
+            If file ends before all values are read.
         """
-        return {
+        out = {
             key: parse_bytes(datum, typ)
             for (key, typ), datum in zip(dtypes.items(), self, strict=False)
         }
+
+        if len(out) != len(dtypes):
+            raise OSError("Unexpected end of Fortran unformatted file.")
+
+        return out
-- 
2.43.0


From 47c0416428367aea2c6eb6b81184f45f5f8ae5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 09/43] fix: do not take .ts header words for geometry blocks

---
 castep_outputs/parsers/ts_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..7e81a35 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,8 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"^\s*(REA|PRO|TST)\b",
+                                   r"^\s*$", eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From 499bf3e80868cd475c1f8efa76f010909b4bea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 10/43] fix: do not take a torn line for the end of the first
 trajectory frame

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index b3c9d11..f5f030f 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -47,7 +47,8 @@ class MDGeomParser:
         self._start = self._handle.tell()
         self._start_line = self._handle.lineno
 
-        while next(self._handle).strip():
+        # A blank line without newline is the torn start of an unfinished line.
+        while (line := next(self._handle)).strip() or not line.endswith("\n"):
             pass
         self._frame_lines = self._handle.lineno - self._start_line - 1
 
-- 
2.43.0


From fae8b6dd94c2c16c17b3342676dd46d5438081cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 11/43] fix: refuse cst_esp files which end before the grid is
 complete

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 374ac38..d226ce2 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -36,6 +36,11 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     -------
     :
         Parsed data.
+
+    Raises
+    ------
+    OSError
+        If file ends before the grid is complete.
     """
     dtypes = {"n_spins": int, "grid": (int, ...)}
 
@@ -55,7 +60,11 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
 
     accum["esp"].append(curr)
 
-    size = accum["grid"][0]
+    size, n_y, _ = accum["grid"]
+    n_columns = sum(map(len, accum["esp"]))
+    if not n_columns or n_columns % (size * n_y):
+        raise OSError("Unexpected end of cst_esp file.")
+
     if len(accum["esp"]) > size:  # Have MGGA pot
         accum["esp"], accum["mgga"] = accum["esp"][:size], accum["esp"][size:]
 
-- 
2.43.0


From 0d5a51b82c5f9bc44c1837ec45fdc3b89f93cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 12/43] fix: do not report the error files of another
 calculation

"Si.old.0001.err" matches "Si.*.err" but is an output of "Si.old".
---
 castep_outputs/cli/args.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 4ba83fc..ca84d2d 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -106,7 +106,9 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                     getattr(args, typ).append(str(trial))
 
             if args.inc_err:
-                err_files = seed.parent.glob(f"{glob.escape(stem)}.*.err")
+                # seed.<rank>.err; "seed.other.<rank>.err" belongs to "seed.other".
+                err_files = (path for path in seed.parent.glob(f"{glob.escape(stem)}.*.err")
+                             if path.name[len(stem) + 1:-len(".err")].isdigit())
                 args.err.extend(sorted(map(str, err_files)))
 
     return args
-- 
2.43.0


From eddcd0e13a7605ef426efb3ed37a8b0f70708e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 13/43] fix: do not swallow the line after a one-line warning

The line which showed that a warning was complete was only given back if
the warning had further lines.
---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..e4cd545 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From d7d56c779684ed94c135b19fb501e42c0cd9e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 14/43] fix: report the energies of every run of a log in the
 same way

Only the last run of a log had its energies converted (tuple), earlier runs
kept the raw lists.
---
 castep_outputs/parsers/castep_file_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index e4cd545..dd7d6dd 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -207,6 +207,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                   REs.EMPTY):
 
             if curr_run:
+                fix_data_types(curr_run, {"energies": float,
+                                          "solvation": float})
                 runs.append(curr_run)
             logger("Found run %s", len(runs) + 1)
             curr_run = defaultdict(list)
-- 
2.43.0


From 1d9a8105136dc6793fc23704bb4fef427af43405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 15/43] fix: report the final configuration of runs without a
 finished iteration

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index dd7d6dd..f620330 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1052,6 +1052,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
-- 
2.43.0


From c4ba81fd233bf35179a5071b40b5fa284ec77675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 16/43] fix: read negative ratios in cell and param files as
 one number

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..2e96def 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?<![\w.]){INTNUMBER_RE}/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From 25383bd7cd082b3c0e9fa84f17438d846831a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 17/43] fix: keep tagged species of positions blocks

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 2e96def..995a2df 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -613,7 +613,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{ATOM_NAME_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
-- 
2.43.0


From c447eaf4de00981b304657bf8ca650799cffe612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 18/43] fix: keep ionic constraints numbered above nine

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 995a2df..d52b4ac 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -611,7 +611,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{ATOM_NAME_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From 6806f376b2099c0a4f74c5540174f5ee6b0a3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 19/43] fix: do not take a one-parameter species for the units
 of sedc_custom_params

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..058a39d 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -550,7 +550,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test:
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From f697847df12c220d79794474cd10183734b0c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 20/43] fix: do not report pieces of devel_code values as
 present keywords

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 058a39d..973cf9c 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -383,6 +383,9 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
         devel_code_parsed[key] = to_type(val, typ)
 
+    # Values are not present components
+    main_block = re.sub(REs.DEVEL_CODE_VAL_RE, "", main_block)
+
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
-- 
2.43.0


From 554d2301a1e2abfd180fa8f6888185c15874586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 21/43] fix: keep the units of transition-state positions given
 in absolute terms

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 973cf9c..aac8190 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -717,8 +717,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From 33af7456316d3317300ccaede5bfa1985d0ada05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 22/43] fix: quietly discard trajectory readers whose file
 could not be opened

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f5f030f..0017183 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -221,7 +221,8 @@ While iteration should work, extracting particular frames may not.
 
     def __del__(self) -> None:
         """Close file before deletion."""
-        self._handle.close()
+        if hasattr(self, "_handle"):  # Otherwise file could not be opened.
+            self._handle.close()
 
     def __str__(self) -> str:
         return f"""\
-- 
2.43.0


From 836cb0d493a17deff56a8bc0e34e241c2cd67bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 23/43] fix: recognise finite basis corrections with ten or
 more cut-off energies

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index f620330..05de195 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -477,7 +477,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             if Filters.SCF not in to_parse:
                 continue
-- 
2.43.0


From b476e79766f4bad3a2432f45312f981318443937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 24/43] fix: keep k-points numbered ten and above of an
 explicit list

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 05de195..346692e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2111,7 +2111,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From 89162c2f17273bf18822f164fdfad20df9d449ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 25/43] fix: keep a bond's spin when it is zero

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 346692e..d0a4404 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2275,7 +2275,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From 2f2e5395143ca027880a70b892e9676788913be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 26/43] fix: read header counts with a value for each spin
 channel, and fractional ones

---
 castep_outputs/parsers/parse_utilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..beb08c5 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -39,7 +39,13 @@ def parse_regular_header(block: Block,
     for line in block:
         if line.strip().startswith("Number of"):
             _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            vals = [float(val)]
+            # Spin-polarised counts have a value for each channel
+            while key and re.fullmatch(rf"{REs.INTNUMBER_RE}|{REs.FNUMBER_RE}", key[-1]):
+                vals.insert(0, float(key.pop()))
+            if all(val.is_integer() for val in vals):
+                vals = list(map(int, vals))
+            data[" ".join(key)] = vals[0] if len(vals) == 1 else vals
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From d2bc8dd9b48f0ee7834540ab6975b49ac2e67f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 27/43] fix: report the Fermi energies of spin-polarised .bands
 files

---
 castep_outputs/parsers/bands_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..9efee9b 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -63,7 +63,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
     bands_info.update(data)
 
     for line in bands_file:
-- 
2.43.0


From ce67268d039a55550f23b1f36bdf82aa8a994165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 28/43] fix: keep the atoms of tagged species in file headers

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d52b4ac..35adf1c 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -570,7 +570,7 @@ MAGRES_TASK = (
 # Regexp to identify block in .phonon or .phonon_dos file
 FRACCOORDS_RE = re.compile(
     rf"\s*(?P<index>{INTNUMBER_RE}){labelled_floats(('u', 'v', 'w'))}"
-    rf"\s*(?P<spec>{SPECIES_RE}){labelled_floats(('mass',))}",
+    rf"\s*(?P<spec>{ATOM_NAME_RE}){labelled_floats(('mass',))}",
 )
 
 PHONON_PHONON_RE = re.compile(
-- 
2.43.0


From 8e8dbcd594b8916b791bb4e98f499c739195daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 29/43] fix: read phonon densities of states of tagged species

---
 castep_outputs/parsers/phonon_dos_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/phonon_dos_file_parser.py b/castep_outputs/parsers/phonon_dos_file_parser.py
index e3ae6ca..6508b51 100644
--- a/castep_outputs/parsers/phonon_dos_file_parser.py
+++ b/castep_outputs/parsers/phonon_dos_file_parser.py
@@ -123,13 +123,14 @@ def parse_phonon_dos_file(phonon_dos_file: TextIO) -> PhononDosFileInfo:
             # First chunk is " BEGIN DOS   Freq (cm-1)  g(f)", thus need the 5th on
             species = block[0].split()[5:]
             headers = ("freq", "g", *species)
-            rows = re.compile(labelled_floats(headers))
+            # Labels of tagged species cannot name groups
+            rows = re.compile(labelled_floats([f"col_{i}" for i, _ in enumerate(headers)]))
 
             block.remove_bounds(1, 2)
 
             for line in block:
                 match = rows.match(line)
-                stack_dict(dos, match.groupdict())
+                stack_dict(dos, dict(zip(headers, match.groups(), strict=True)))
 
             if dos:
                 fix_data_types(dos, dict.fromkeys(headers, float))
-- 
2.43.0


From e7ae4fe94288f84442d1ac7e7dde9157fe1b3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 30/43] fix: read symmetry-related atoms of tagged species

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index d0a4404..ad343ef 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2179,7 +2179,7 @@ def _process_symmetry(block: Block) -> tuple[SymmetryReport, ConstraintsReport]:
             next(block)  # elif "symmetry related atoms:" in line:
 
             while line := next(block).strip():
-                key, val = line.split(":")
+                key, val = line.rsplit(":", 1)
                 curr_sym["symmetry_related"].extend((key, int(ind))
                                                     for ind in val.split())
 
-- 
2.43.0


From ac704cefe7851a64ae1b56107e2137f61b1312a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 31/43] fix: read vectors of integers and reals in cell and
 param files

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index aac8190..56f6cd0 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -161,7 +161,8 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             logger("Found param %s", key)
 
             if " " in val.strip():
-                val = to_type(val.split(), determine_type(val))
+                vals = val.split()
+                val = to_type(vals, float if float in map(determine_type, vals) else int)
             else:
                 val = to_type(val, determine_type(val))
 
-- 
2.43.0


From 03d8728b4284eccdc0a9386c86c54e0cbff5ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 32/43] fix: read strings which start like a number in cell and
 param files

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 ++-
 castep_outputs/utilities/castep_res.py           | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 56f6cd0..ec7870f 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -151,7 +151,8 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         elif match := REs.PARAM_VALUE_RE.match(line):
             if match["str"] is not None:
                 key, val = match.group("key", "str")
-                curr[key.strip().lower()] = to_type(val.strip(), determine_type(val))
+                val = val.strip()
+                curr[key.strip().lower()] = to_type(val, bool) if determine_type(val) is bool else val
 
                 logger("Found param %s", key)
                 continue
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 35adf1c..48fc56c 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -602,8 +602,8 @@ PARAM_VALUE_RE = re.compile(
 ^\s*(?P<key>[a-z_]+)
 \s*[ \t:=]\s*
     (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
+    # Anything else is a string, which starts after the separator.
+    (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
     (?(val)(?P<unit>\s\S+)?)
 \s*$
-- 
2.43.0


From 3b8c5260c6495c30cf8465bdc65a7962face1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 33/43] fix: read blocks whose name follows a tab

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index ec7870f..b91cdb8 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -138,7 +138,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         if block := Block.from_re(
             line,
             cell_param_file,
-            re.compile(r"^\s*%block ", re.IGNORECASE),
+            re.compile(r"^\s*%block[ \t]", re.IGNORECASE),
             re.compile(r"^\s*%endblock", re.IGNORECASE),
         ):
             block_title = next(block).split()[1].lower()
-- 
2.43.0


From 7f6bbbdff145df2e311d2df378377134be55b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 34/43] fix: do not take the end of an empty sedc_custom_params
 for its units

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index b91cdb8..cd97473 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -555,7 +555,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2 and ":" not in test:
+    if len(units := test.split()) == 2 and not re.search(r":|^\s*%endblock", test, re.IGNORECASE):
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From 72090b77fb23d8c7bd9835783467633ec5bc14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 35/43] fix: read strings which start with a long number in
 linear time

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 48fc56c..34aab23 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -601,7 +601,7 @@ PARAM_VALUE_RE = re.compile(
     rf"""
 ^\s*(?P<key>[a-z_]+)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
+    (?:(?P<val>{NUMBER_RE.pattern}(?:\s+{NUMBER_RE.pattern})*)|
     # Anything else is a string, which starts after the separator.
     (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
-- 
2.43.0


From df1d34d12d1c67fdf3d15964dccccfec8c693e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 36/43] fix: read units after several spaces in cell and param
 files

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 34aab23..dde15a0 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -605,7 +605,7 @@ PARAM_VALUE_RE = re.compile(
     # Anything else is a string, which starts after the separator.
     (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?(val)(?P<unit>\s+\S+)?)
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From e542d02ae7338e3edde29185080f104b6e1dc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 37/43] fix: read vectors whose numbers are separated by tabs

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index cd97473..ffd3ad3 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -161,8 +161,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
-                vals = val.split()
+            if len(vals := val.split()) > 1:
                 val = to_type(vals, float if float in map(determine_type, vals) else int)
             else:
                 val = to_type(val, determine_type(val))
-- 
2.43.0


From 80b6e906e6b74455e5e773fde4c9d4e9e70b9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 38/43] fix: read SCF cycles of fixed-occupancy calculations

Without a Fermi energy column the energy gain was read as the Fermi energy
and the initial cycle was lost.
---
 castep_outputs/parsers/castep_file_parser.py | 6 +++++-
 castep_outputs/utilities/castep_res.py       | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ad343ef..4afa9d4 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1711,8 +1711,12 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    loop_re = REs.SCF_LOOP_RE
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if "SCF loop" in line:
+            loop_re = REs.SCF_LOOP_RE if "Fermi" in line else REs.SCF_LOOP_FIXED_OCC_RE
+
+        elif match := loop_re.match(line):
             if curr:
                 scf.append(curr)
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index dde15a0..03bca40 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -299,6 +299,13 @@ SCF_LOOP_RE = re.compile(
     f"{labelled_floats(('time',))}",
 )
 
+# SCF Loop at fixed occupancy (no Fermi energy)
+SCF_LOOP_FIXED_OCC_RE = re.compile(
+    r"\s*(?:Initial|\d+)\s*"
+    rf"{labelled_floats(('energy', 'energy_gain'))}?\s*"
+    f"{labelled_floats(('time',))}",
+)
+
 # Spin density
 INTEGRATED_SPIN_DENSITY_RE = re.compile(
     r"(?P<vec>2\*)?Integrated \|?Spin Density\|?[^=]+=\s*"
-- 
2.43.0


From 85ca0b9ebda3196de08d57175f04efe28b6dc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 39/43] fix: keep what was found before a finite basis set
 correction block

Warnings printed inside of the block replaced all earlier ones.
---
 castep_outputs/parsers/castep_file_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 4afa9d4..aae19af 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -495,7 +495,11 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
 
-            curr_run.update(data)
+            for key, val in data.items():
+                if isinstance(val, list):  # Keep those found earlier
+                    curr_run[key].extend(val)
+                else:
+                    curr_run[key] = val
 
         # Energies
         elif line.startswith("Final energy"):
-- 
2.43.0


From 421ac8b864a549969ec7a12283a5a438dded5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 40/43] fix: end tagged three-body pair parameters at their own
 rule

The block ran past its end, or to the end of the file.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index aae19af..0eb4d30 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2487,7 +2487,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From 445416981fa8d74c4aac16fc6b421c37ddb90059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 41/43] fix: read pair parameters without units in full

The last digit of the last number was taken for the unit.
---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 03bca40..306f12e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -413,7 +413,7 @@ PAIR_POT_RES = {
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
             {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            [\w^/*]*\s* \* \s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
@@ -430,7 +430,7 @@ PAIR_POT_RES = {
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
         {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        [\w^/*]*\s* \* \s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From 018b94b788acfb6b2d4dfe965ec06261d37a2b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 42/43] fix: read DFT-D parameters of tagged species

The colon of the tag was taken to separate a key from its value.
---
 castep_outputs/parsers/castep_file_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 0eb4d30..b4c4d9a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2311,7 +2311,13 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        # Species may be tagged, i.e. contain ":"
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2319,11 +2325,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From 38d626a3e33e6d66a177028671ba4d3391ddf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 43/43] fix: read devel_code groups given in pieces or with
 key:value parameters

---
 castep_outputs/parsers/cell_param_file_parser.py | 7 +++++--
 castep_outputs/utilities/castep_res.py           | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index ffd3ad3..accb400 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -350,15 +350,16 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Get groups
     for blk in matches:
         block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
+        # Values may also be given as `key:value`.
+        block_str = blk.group(0).partition(":")[2].rpartition(":")[0]
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
             key, val = re.split(r"[:=]", par.group(0))
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
 
+        block_str = re.sub(REs.DEVEL_CODE_VAL_RE, "", block_str)
         if block_str.strip():
             block["data"] = []
             for par in block_str.split():
@@ -366,6 +367,8 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
                 block["data"].append(to_type(par, determine_type(par)))
 
         if block_title in devel_code_parsed:
+            if "data" in block:
+                block["data"] = [*devel_code_parsed[block_title].get("data", ()), *block["data"]]
             devel_code_parsed[block_title].update(block)
         else:
             devel_code_parsed[block_title] = block
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 306f12e..262abf5 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -602,7 +602,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0

