From e89a15608801dc2197242dd73d9637e196a58bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 01/66] fix: count line pre/suffixes of multiband BIL images
 once per line

---
 pdr/loaders/queries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..d09afd7 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -192,9 +192,11 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     check_fix_validity(props)
     props["pixels"] = (
         (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
+        * (props["ncols"] + props["colpad"])
         * (props["nbands"] + props["bandpad"])
     )
+    # line pre/suffixes occur once per line, including in multiband BIL images
+    props["pixels"] += props["nrows"] * props["linepad"]
     return props
 
 
-- 
2.43.0


From ea72160ea33ec139c0f14ef9fc17e756bec2b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 02/66] fix: keep the word break where a PVL value continues on
 its second line

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..9a64d0f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -74,8 +74,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join([value_head, *map(str.strip, statement[1:])])
+        statements.append((parameter, value.strip()))
     return statements
 
 
-- 
2.43.0


From 512b8b7c9d7dea03730883f85429602384e85e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 03/66] fix: do not drop explicitly positive exponents from PVL
 quantities

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 9a64d0f..8f46cb3 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,7 +23,7 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
+PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][-+]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
-- 
2.43.0


From 1933f40ad7ffbae920d7de5417111f1e2001ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 04/66] fix: end PVL comments at their terminator

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 8f46cb3..b0372c2 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -140,7 +140,7 @@ def parse_pvl(
     label: str, deduplicate_pointers: bool = True
 ) -> tuple[MultiDict[str, Any], list[str]]:
     """Parse a PVL-text into a MultiDict and a flattened list of keys."""
-    uncommented_label = re.sub(r"/\*.*?(\r|\n|/\*)", "\n", label)
+    uncommented_label = re.sub(r"/\*.*?(\r|\n|\*/)", "\n", label)
     trimmed_lines = filter(
         None, map(lambda line: line.strip(), uncommented_label.split("\n"))
     )
-- 
2.43.0


From aee9eed3107d1883ac13f1bb13309d9e703d9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 05/66] fix: recognize bare END_GROUP and stop dropping
 parameters that start with END

---
 pdr/parselabel/pds3.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index b0372c2..f883aba 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|_GROUP|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][-+]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -97,6 +97,16 @@ class BlockParser:
         self.names.append(name)
         self.aggregations.append(MultiDict())
 
+    def _is_block_end(self, parameter, value):
+        """
+        Does this statement end a block? Also recognizes nonstandard
+        terminators, but only if they name the current block -- otherwise,
+        they're just parameters whose names start with "END".
+        """
+        if re.match(PVL_BLOCK_TERMINAL, parameter):
+            return True
+        return parameter.startswith("END") and value in self.names[-1:]
+
     def add_statement(self, parameter, value):
         """Add a statement."""
         self.aggregations[-1].add(parameter, value)
@@ -112,7 +122,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif self._is_block_end(parameter, value):
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From 0841e4d9253025b0f1cca3ddf74b7d73b2c8d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 06/66] fix: keep PVL statements whose values contain an equals
 sign

---
 pdr/parselabel/pds3.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index f883aba..37a545a 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -67,12 +67,10 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             statements.append((terminal, ""))
             continue
         try:
-            parameter, value_head = map(str.strip, assignment.split("="))
-        except ValueError:
-            # some people like to put extra '='s on assignment lines,, like:
+            # some people like to put extra '='s in values, like:
             # MRO:SPECIMEN_DESC      = "MONTMORILLONITE + FEOX, 100 % FECL2 SOL_N, PH=7,
-            # i strongly suspect we will never make semantic use of
-            # parameters like this and so we will just ignore them for now
+            parameter, value_head = map(str.strip, assignment.split("=", 1))
+        except ValueError:
             continue
         value = " ".join([value_head, *map(str.strip, statement[1:])])
         statements.append((parameter, value.strip()))
-- 
2.43.0


From 6edb91c9970b5029019a67cb0b2cf752d9248547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 07/66] fix: find label endings wherever they fall in the file

---
 pdr/parselabel/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..9f7badf 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,15 +6,17 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    re.compile(b"\nEND {0,8}(\r|\n|\x00| {8})"),  # common PVL convention
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
-    b"\nEND\n",  # mostly for Chang'e labels
 )
 """
 Fast regex patterns for generic PVL label endings. They work for almost all PVL 
 labels in the PDS.
 """
 
+MAX_LABEL_ENDING_LENGTH = 20
+"""no match for a KNOWN_LABEL_ENDINGS pattern is longer than this"""
+
 DEFAULT_PVL_LIMIT = 1000 * 1024
 """heuristic for max label size. we know it's not a real rule."""
 
@@ -31,9 +33,13 @@ def _scan_to_end_of_label(
     while length < max_size:
         if (chunk := buf.read(50 * 1024)) == b'':
             break
+        # an ending may begin in text we've already read
+        overlap = min(len(text), MAX_LABEL_ENDING_LENGTH)
+        chunk = text[len(text) - overlap:] + chunk
+        text = text[:len(text) - overlap]
         for ending in KNOWN_LABEL_ENDINGS:
             if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+                return text + chunk[: endmatch.span()[1]].rstrip(b"\x00")
         text, length = text + chunk, length + 50 * 1024
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
-- 
2.43.0


From 7db4d3fa7d60f2f04996d34b9026815778afba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 08/66] fix: read 4- and 8-byte integer qubes at their labelled
 width

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index d09afd7..2d9f9ca 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From 55d0db0c5a4ef369ad70c4ca9e5801992f6f6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 09/66] fix: treat zero-sized qube prefix/suffix planes as
 absent

---
 pdr/loaders/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..5b19d2d 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (None, 0):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From 6e01a7e8780742c97d5b08225f56d55f24d7d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 10/66] fix: read single-band qubes that have band planes

---
 pdr/loaders/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 5b19d2d..f32c9b8 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,7 +24,7 @@ def read_image(
     f.seek(start_byte)
     try:
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] + props["bandpad"] == 1:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
@@ -172,6 +172,9 @@ def process_multiband_image(f: BufferedIOBase, props: ImageProps) -> tuple[
         image = image.reshape(lines, bands, samples)
         image = np.moveaxis(image, 0, 1)
     image, axplanes = extract_axplanes(image, props)
+    if props["nbands"] == 1:
+        # a single band stored along with top/bottomplanes
+        image = image[0]
     return make_c_contiguous(image), axplanes, prefix, suffix
 
 
-- 
2.43.0


From feac2bc7cb596c1181c2a07d9b88ba66baa8ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 11/66] fix: measure table row padding from the end of the last
 item, past the row prefix

---
 pdr/formats/rosetta.py | 3 ---
 pdr/pd_utils.py        | 9 ++++++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/rosetta.py b/pdr/formats/rosetta.py
index 7a43945..d7b77a1 100644
--- a/pdr/formats/rosetta.py
+++ b/pdr/formats/rosetta.py
@@ -93,8 +93,5 @@ def fix_pad_length_structure(block, name, filename, data, identifiers):
 
     # to calculate end_byte correctly in compute_offsets()
     fmtdef["BYTES"] = fmtdef["ITEM_BYTES"]
-    # to calculate pad_length correctly in compute_offsets()
-    fmtdef["ROW_BYTES"] = fmtdef["ROW_BYTES"] + fmtdef["ROW_PREFIX_BYTES"]
-    
     fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..46c3c6c 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,9 +135,16 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    # the last field of a column w/multiple items is only one item wide
+    last_bytes = fmtdef.iloc[-1].get("ITEM_BYTES")
+    if pd.isna(last_bytes):
+        last_bytes = fmtdef["BYTES"].iloc[-1]
+    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + int(last_bytes)
     if "ROW_BYTES" in fmtdef.columns:
+        # ROW_BYTES does not include ROW_PREFIX_BYTES, but SB_OFFSET does
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
+        if "ROW_PREFIX_BYTES" in fmtdef.columns:
+            pad_length += fmtdef["ROW_PREFIX_BYTES"].iloc[0]
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
     if pad_length > 0:
-- 
2.43.0


From f61e3d33d88fe419859da9c181fd596407c8872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 12/66] fix: never rename a repeated column to a name another
 column has

---
 pdr/pd_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 46c3c6c..e5f8105 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -3,7 +3,7 @@ Methods for working with pandas objects, primarily intended for use in
 TABLE/ARRAY/SPREADSHEET/HISTOGRAM-loading workflows.
 """
 from __future__ import annotations
-from itertools import chain
+from itertools import chain, count, islice
 import re
 from typing import Hashable, TYPE_CHECKING
 import warnings
@@ -42,13 +42,19 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
     include START_BYTE in string for values marked as RESERVED.
     """
     namegroups = df.groupby(column)
+    taken = set(df[column])
     for name, field_group in namegroups:
         if len(field_group) == 1:
             continue
         # TODO: check what this is hitting.
         if name == "RESERVED":
             name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
-        names = [f"{name}_{ix}" for ix in range(len(field_group))]
+        # don't reuse a name some other value already has
+        fresh = filter(
+            lambda n: n not in taken, (f"{name}_{ix}" for ix in count())
+        )
+        names = list(islice(fresh, len(field_group)))
+        taken.update(names)
         df.loc[field_group.index, column] = names
     return df
 
-- 
2.43.0


From ff1d4307e8b8eaf13b8675abfa708bd057ef8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 13/66] fix: don't let scaled integer table columns wrap around

---
 pdr/loaders/table.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..d871622 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -100,6 +100,7 @@ def read_table(
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
+            table[col] = _widen_for_scaling(table[col], record)
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
                 table[col] = table[col].mul(record["SCALING_FACTOR"])
             else:
@@ -110,6 +111,20 @@ def read_table(
     return table
 
 
+def _widen_for_scaling(series: pd.Series, record: dict) -> pd.Series:
+    """
+    Integer-valued scaling factors and offsets don't promote narrow integer
+    columns on their own, so the results might wrap around.
+    """
+    scaled = any(
+        record.get(k) and not pd.isnull(record.get(k))
+        for k in ("SCALING_FACTOR", "OFFSET")
+    )
+    if scaled and series.dtype.kind in "iu" and series.dtype.itemsize < 8:
+        return series.astype("int64")
+    return series
+
+
 def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     """"""
     # TODO: this works poorly (from a usability and performance
-- 
2.43.0


From 09b756bdbf3e86bfdb9015c88b99192ab9419a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 14/66] fix: order the pieces of odd-length LSB bit strings
 from the most significant

---
 pdr/bit_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..91230ff 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,9 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the most significant bits of a little-endian value come last
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From b2258bd4cc78a94457ecb85e64985aa8bcf2d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 15/66] fix: refuse integers of unsupported widths instead of
 reading one byte of them

---
 pdr/datatypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..d8a8cda 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -24,8 +24,13 @@ def integer_code(
     Translation from integer width, signedness, and byteorder to struct or
     numpy dtype string.
     """
-    # TODO: add struct letter for longlong
-    if sample_bytes == 4:
+    if sample_bytes > 0 and sample_bytes not in (1, 2, 4, 8):
+        raise NotImplementedError(
+            f"{sample_bytes}-byte integers are not supported."
+        )
+    if sample_bytes == 8:
+        letter = "q"
+    elif sample_bytes == 4:
         letter = "l"
     elif sample_bytes == 2:
         letter = "h"
-- 
2.43.0


From 0c838840cfe4e3ca7449381b4b040a6889387d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 16/66] fix: convert multi-item columns of 4-byte IBM reals at
 their own width

---
 pdr/pd_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index e5f8105..fd06507 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -342,9 +342,13 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
+        # BYTES gives the total width of columns with multiple items
+        width = field.get("ITEM_BYTES")
+        if pd.isna(width):
+            width = field["BYTES"]
+        func = ibm32_to_np_f32 if width == 4 else ibm64_to_np_f64
         converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        if width == 4:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From ff6990e15cbfaa591a86acc74756400d634cf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 17/66] fix: convert IBM reals in images and qubes

---
 pdr/loaders/image.py   | 19 ++++++++++++++-----
 pdr/loaders/queries.py | 16 ++++++++++++++--
 pdr/pdrtypes.py        |  2 ++
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index f32c9b8..5dc3600 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -10,7 +10,9 @@ import numpy as np
 import vax
 
 from pdr.loaders.queries import get_image_properties
-from pdr.np_utils import make_c_contiguous, np_from_buffered_io
+from pdr.np_utils import (
+    ibm32_to_np_f32, ibm64_to_np_f64, make_c_contiguous, np_from_buffered_io
+)
 from pdr.pdrtypes import ImageProps, DataIdentifiers
 from pdr.utils import decompress
 
@@ -73,10 +75,17 @@ def extract_single_band_linefix(
     return image, prefix, suffix
 
 
-def convert_if_vax(image: np.ndarray, props: dict) -> np.ndarray:
-    """If an array is in 32-bit VAX real format, convert it to 32-bit float."""
+def convert_nonnative_reals(image: np.ndarray, props: dict) -> np.ndarray:
+    """
+    If an array is in 32-bit VAX real format, convert it to 32-bit float; if
+    it's in IBM real format, convert it to 64-bit float.
+    """
     if props.get('is_vax_real') is True:
         return vax.from_vax32(image)
+    if props.get('is_ibm_real') is True:
+        if image.dtype.itemsize == 4:
+            return ibm32_to_np_f32(image)
+        return ibm64_to_np_f64(image)
     return image
 
 
@@ -99,7 +108,7 @@ def process_single_band_image(
     #  the multiband loaders too.
     image = np_from_buffered_io(f, dtype=numpy_dtype, count=props["pixels"])
     image, prefix, suffix = extract_single_band_linefix(image, props)
-    image = convert_if_vax(image, props)
+    image = convert_nonnative_reals(image, props)
     image = image.reshape(
         (props["nrows"] + props["rowpad"], props["ncols"] + props["colpad"])
     )
@@ -150,7 +159,7 @@ def process_multiband_image(f: BufferedIOBase, props: ImageProps) -> tuple[
         bst = "BAND_SEQUENTIAL"
     _, numpy_dtype = make_format_specifications(props)
     image = np_from_buffered_io(f, numpy_dtype, count=props["pixels"])
-    image = convert_if_vax(image, props)
+    image = convert_nonnative_reals(image, props)
     bands, lines, samples = (
         props["nbands"] + props["bandpad"],
         props["nrows"] + props["rowpad"],
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 2d9f9ca..274041d 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -51,7 +51,7 @@ def generic_qube_properties(
     props["sample_type"] = sample_types(
         use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
-    props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
+    props |= check_nonnative_reals(use_block["CORE_ITEM_TYPE"])
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
         props['axnames'] = block.get("AXIS_NAME")
         if props['axnames'] is None:
@@ -209,6 +209,18 @@ def im_sample_type(base_samp_info: dict) -> str:
         )
 
 
+def check_nonnative_reals(sample_type: Optional[str]) -> dict[str, bool]:
+    """
+    Do image elements of this type represent reals that numpy can't interpret
+    without further conversion?
+    """
+    sample_type = str(sample_type).replace(" ", "_")
+    props = {"is_vax_real": sample_type == "VAX_REAL"}
+    if sample_type == "IBM_REAL":
+        props["is_ibm_real"] = True
+    return props
+
+
 def base_sample_info(block: MultiDict) -> dict:
     """Determine basic sample-level type info for an image object."""
     return {
@@ -226,11 +238,11 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
         # TODO: BYTES_PER_PIXEL check appears repeated with slight variation
         #  from base_sample_info()
         "BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),
-        "is_vax_real": block.get("SAMPLE_TYPE") == "VAX_REAL",
         "sample_type": sample_type,
         "nrows": block["LINES"],
         "ncols": block["LINE_SAMPLES"],
     }
+    props |= check_nonnative_reals(block.get("SAMPLE_TYPE"))
     if "BANDS" in block:
         props["nbands"] = block["BANDS"]
         props["band_storage_type"] = block.get("BAND_STORAGE_TYPE", None)
diff --git a/pdr/pdrtypes.py b/pdr/pdrtypes.py
index 30738c1..43610b8 100644
--- a/pdr/pdrtypes.py
+++ b/pdr/pdrtypes.py
@@ -55,6 +55,8 @@ class ImageProps(TypedDict):
     BYTES_PER_PIXEL: Literal[1, 2, 4, 8]
     # Do the elements of the array, when loaded, represent VAX reals?
     is_vax_real: bool
+    # Do the elements of the array, when loaded, represent IBM reals?
+    is_ibm_real: Optional[bool]
     # numpy dtype string
     sample_type: str
     # total number of elements
-- 
2.43.0


From 8c01c20fa9a14d30bf8218325cf4155471c4ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 18/66] fix: don't squeeze IBM reals into subnormal float32

---
 pdr/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index fd06507..e610322 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -355,7 +355,7 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
             big = absolute.max() > np.finfo(np.float32).max
             nonzero = absolute[absolute > 0]
             if len(nonzero) > 0:
-                small = nonzero.min() < 1e-44
+                small = nonzero.min() < np.finfo(np.float32).tiny
             else:
                 small = False
             if not (big or small):
-- 
2.43.0


From 7f1591c236065ac709c1fd8e737f40629875f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 19/66] fix: load FITS headers again when asked to

---
 pdr/pdr.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..6a7c523 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -273,6 +273,9 @@ class Data:
         # data structure recording interleaved PDS3 objects not defined at top
         # level, intended for things like axplanes and line prefix tables
         self._interleaved_objects = {}
+        # objects inferred while loading other objects (like FITS headers),
+        # mapped to the names of the objects they came with
+        self._derived_objects = {}
         # Attempt to identify and assign a label file
         self.labelname = associate_label_file(
             self.filename, label_fn, skip_existence_check
@@ -550,17 +553,19 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        if name in self._derived_objects:
+            return self._load_derived(name)
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name))
+            self._add_loaded_objects(self._load_primary_fits(name), name)
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
 
             if self.metaget("n_frames", 1) == 1:
                 self._add_loaded_objects(
-                    {name: handle_compressed_image(self.filename)}
+                    {name: handle_compressed_image(self.filename)}, name
                 )
                 return
             # TODO: hacky!
@@ -569,7 +574,7 @@ class Data:
             else:
                 seek = int(name.split("_")[-1])
             self._add_loaded_objects(
-                {name: handle_compressed_image(self.filename, seek)}
+                {name: handle_compressed_image(self.filename, seek)}, name
             )
             return
         if self.file_mapping.get(name) is None:
@@ -585,7 +590,7 @@ class Data:
                 raise TypeError(
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
-            self._add_loaded_objects(obj)
+            self._add_loaded_objects(obj, name)
             return
         except DebugExceptionPreempted:
             pass
@@ -599,13 +604,28 @@ class Data:
             warnings.warn(f"Unable to load {name}: {ex}")
         setattr(self, name, self.metaget_(name))
 
-    def _add_loaded_objects(self, obj: Mapping[str, Any]):
-        """Helper for `load()`. Ingests objects returned by a `Loader`."""
+    def _add_loaded_objects(self, obj: Mapping[str, Any], name: str):
+        """
+        Helper for `load()`. Ingests objects returned by the `Loader` for the
+        object called `name`.
+        """
         for k, v in obj.items():
             if v is not None:
                 setattr(self, k, v)
                 if k not in self.index:
                     self.index.append(k)
+                    self._derived_objects[k] = name
+
+    def _load_derived(self, name: str):
+        """
+        Load an object that comes with another one again. Leaves that other
+        object as it was.
+        """
+        parent = self._derived_objects[name]
+        kept = {k: v for k, v in self.__dict__.items() if k == parent}
+        self.load(parent, reload=True)
+        self.__dict__.pop(parent, None)
+        self.__dict__.update(kept)
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -738,12 +758,12 @@ class Data:
                 structure.parent_filename, object_name, offset
             )
             if structure.is_header() is True:
-                return self._add_loaded_objects(result)
+                return self._add_loaded_objects(result, object_name)
             if (hid := self._find_fits_header_pds4_id(offset)) is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-            self._add_loaded_objects(result)
+            self._add_loaded_objects(result, object_name)
         elif structure.is_array():
             import numpy as np
 
-- 
2.43.0


From 0ebc200a8f6df32ce0b8757048400dc6d0b3fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 20/66] fix: scale unsigned PDS4 arrays under NumPy 2

---
 pdr/pds4_tools/reader/data_types.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..78a1937 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -781,24 +781,21 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
     # Adjust data type to prevent overflow on application of scaling factor and value offset, if necessary
     data = adjust_array_data_type(data, scaling_factor, value_offset)
 
-    # Apply scaling factor and value offset
-    # (workaround inability of NumPy 2.0+ to add / multiply in cases where
-    #  value on right of operand is out-of-bounds of dtype, see PR #99)
-    if not no_scaling:
+    # Apply scaling factor and value offset. The adjusted data type can hold the result, even when NumPy
+    # 2.0+ would promote the operands to a larger or differently-signed one (as it does for unsigned
+    # integers and positive signed ones), so we tell it to store the result in that type regardless.
+    for ufunc, value, skip in ((np.multiply, scaling_factor, no_scaling), (np.add, value_offset, no_offset)):
 
-        scale_dtype = None
-        if isinstance(scaling_factor, six.integer_types):
-            scale_dtype = get_min_integer_numpy_type([scaling_factor])
+        if skip:
+            continue
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        value_dtype = None
+        if isinstance(value, six.integer_types):
+            value_dtype = get_min_integer_numpy_type([value])
 
-    if not no_offset:
-
-        offset_dtype = None
-        if isinstance(value_offset, six.integer_types):
-            offset_dtype = get_min_integer_numpy_type([value_offset])
-
-        data += np.array(value_offset, dtype=offset_dtype)
+        raw = data.view(np.ndarray)
+        ufunc(raw, np.array(value, dtype=value_dtype), out=raw,
+              where=~np.ma.getmaskarray(data), casting='unsafe')
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From f855a6fb44c27d594a667d8dc1a1d8cdf357d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 21/66] fix: don't choose too small a type for the lowest NumPy
 integers

---
 pdr/pds4_tools/reader/data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 78a1937..05157ab 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1093,6 +1093,8 @@ def get_min_integer_numpy_type(data):
         data_min = min(data)
         data_max = max(data)
 
+    # Convert to Python integers because abs() of the smallest value of a NumPy integer type overflows
+    data_min, data_max = int(data_min), int(data_max)
     abs_max = max(abs(data_min), abs(data_max))
 
     if abs_max <= 127:
-- 
2.43.0


From 68b0afd80c9685d9d4c97fb38bc331b659e14172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 22/66] fix: don't scale a loaded PDS4 array in place

---
 pdr/_scaling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..4501a37 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -182,7 +182,8 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     # TODO: apply bit_mask
     from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
 
-    array = struct.data
+    # copy because apply_scaling_and_value_offset may work in place
+    array = struct.data.copy()
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
-- 
2.43.0


From d5000eb35c12325a28795e4a69c31193a09f7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 23/66] fix: refuse PDS4 tables whose file ends too early

---
 pdr/pds4_tools/reader/read_tables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..ccc7454 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -923,6 +923,11 @@ def read_table_data(table_structure, no_scale, decode_strings, masked):
                                             field['location'] - 1, record_length,
                                             array_shape, group_locations, repetition_lengths)
 
+            # Elements beyond the end of the file are short or empty. Converting them could fail, but it
+            # could also give other values (e.g. by broadcasting those that are present).
+            if extracted_data and len(extracted_data[-1]) < field['length']:
+                raise ValueError("Data file ends before the end of table '{0}'.".format(table_structure.id))
+
         # Cast the byte data for this field into the appropriate data type
         try:
 
-- 
2.43.0


From e5150075b61ef466205ee73dc4714fce8e02e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 24/66] fix: refuse PDS4 delimited records with too few columns

---
 pdr/pds4_tools/reader/read_tables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index ccc7454..a1813ea 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -601,6 +601,11 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
                 start_bytes[column_idx][record_idx] = next_start_byte
                 next_start_byte += len(value) + 1
 
+        # We have no start bytes for columns that are not there
+        if len(split_record) < num_columns:
+            raise ValueError("Record {0} of table '{1}' has fewer columns than the label describes."
+                             .format(record_idx + 1, table_structure.id))
+
         # Add an extra start byte, which actually acts only as the end byte for the last field
         start_bytes[-1][record_idx] = next_start_byte
 
-- 
2.43.0


From 98307c222fa09b3f319f2ad7460f7cd042e6d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 25/66] fix: fall back to the label when a loader returns None

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 6a7c523..648e02f 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -591,6 +591,9 @@ class Data:
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
             self._add_loaded_objects(obj, name)
+            # the loader may have found nothing to load (and warned about it)
+            if obj.get(name) is None:
+                setattr(self, name, self.metaget_(name))
             return
         except DebugExceptionPreempted:
             pass
-- 
2.43.0


From a946c355c7f82e00b767025e4281a2c172a7dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 26/66] fix: decompress text objects

---
 pdr/loaders/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..b01e382 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -135,5 +135,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with decompress(check_cases(fn)) as f:
+        return TextIOWrapper(f).read()
-- 
2.43.0


From eccb215e9496a24794c945d1ab39b5dd81f36bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 27/66] fix: read arrays from zip files

---
 pdr/np_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..4d79aed 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,7 +79,7 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
         n_bytes = None if count is None else count * dtype.itemsize
-- 
2.43.0


From d1c999f4673f5846fed19978c513e3181d9b439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 28/66] fix: read compressed binary ARRAY objects

---
 pdr/np_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 4d79aed..fb8bda0 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -82,7 +82,7 @@ def np_from_buffered_io(
     if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
-        n_bytes = None if count is None else count * dtype.itemsize
+        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
         return np.frombuffer(stream.getbuffer(), dtype=dtype)
     count = -1 if count is None else count
-- 
2.43.0


From 102d547220d42bcdc0117fb832f5251dff8bc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 29/66] fix: count from the bottom of decompressed files

---
 pdr/loaders/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..96c97f4 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
+from pdr.utils import decompress
+
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
 
@@ -61,7 +63,9 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    return os.path.getsize(Path(fn)) - tab_size
+    # the file may be compressed: its size on disk is not the one we want
+    with decompress(fn) as f:
+        return f.seek(0, os.SEEK_END) - tab_size
 
 
 def _check_delimiter_stream(
-- 
2.43.0


From cb7bae531e177a024c169c292261460abfd025c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 30/66] fix: let metaget take any default

---
 pdr/pdr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 648e02f..46e5662 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -1233,12 +1233,18 @@ class Data:
 
 def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
 
+    @cache
+    def dig(text):
+        """"""
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
+
+    # `default` may be unhashable and shouldn't be part of the cached answer
     def metaget_interior(text, default):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
+        value = dig(text)
         return default if value is None else value
 
-    return cache(metaget_interior)
+    return metaget_interior
 
 
 def _metablock_factory(metadata: Metadata) -> Callable[[str], Mapping]:
-- 
2.43.0


From 99c263df1676df2c96224fe6b2ba6e59e50b4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 31/66] fix: make metaget_fuzzy deterministic

---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 46e5662..61f32e5 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -142,7 +142,7 @@ class Metadata(MultiDict):
         """Like `metaget()`, but fuzzy-matches key names."""
         import Levenshtein as lev
         levratio = {
-            key: lev.ratio(key, text) for key in set(self.fieldcounts.keys())
+            key: lev.ratio(key, text) for key in self.fieldcounts.keys()
         }
         if levratio == {}:
             return None
-- 
2.43.0


From fd990f5656697e6355b726a2b1ec9743b234fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 32/66] fix: find and match special constants given with units,
 as text, or rounded to float32

---
 pdr/_scaling.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 4501a37..c590a44 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -4,7 +4,7 @@ import warnings
 from functools import wraps
 from itertools import product
 from numbers import Integral, Number, Real
-from typing import Optional, Sequence, Union
+from typing import Mapping, Optional, Sequence, Union
 
 import numpy as np
 
@@ -32,14 +32,20 @@ def find_special_constants(
         if (name in block.keys()) and not (block[name] == "N/A")
     }
     for k in specials.keys():
-        if isinstance(specials[k], Sequence):
+        if isinstance(specials[k], Mapping):
+            specials[k] = specials[k]["value"]
+        if isinstance(specials[k], Sequence) and not isinstance(
+            specials[k], str
+        ):
             specials[k] = specials[k][0]
+    # constants given as text ("UNK", "NULL") match no array element
+    specials = {k: v for k, v in specials.items() if not isinstance(v, str)}
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
@@ -57,13 +63,25 @@ def mask_specials(obj, specials):
     obj = np.ma.masked_array(obj)
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
+        obj.mask = np.ma.mask_or(_match_constants(obj.data, specials),
                                  ~np.isfinite(obj.data))
     else:
-        obj.mask = np.isin(obj.data, specials)
+        obj.mask = _match_constants(obj.data, specials)
     return obj
 
 
+def _match_constants(data, constants):
+    """
+    like np.isin(), but compares with the precision of the data, so that e.g.
+    -1e32 matches its own float32 representation
+    """
+    mask = np.zeros(data.shape, dtype=bool)
+    with np.errstate(over="ignore"):
+        for constant in constants:
+            mask |= data == constant
+    return mask
+
+
 def fit_to_scale(
     arr: np.ndarray,
     scale: Union[Integral, Real],
-- 
2.43.0


From 8fe068a7c28e73c3e7f1fc3b76d7b2cabe404017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 33/66] fix: correct the implied N/A constant of 32-bit
 integers

---
 pdr/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index d8a8cda..ea2a109 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -176,12 +176,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 1f1a312c52ee017e5622d535f92ba73e50f6d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 34/66] fix: don't wrap around or fail when scaling integer
 arrays

---
 pdr/_scaling.py | 119 +++++++++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 53 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index c590a44..6e15d4b 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -1,7 +1,5 @@
 from __future__ import annotations
 
-import warnings
-from functools import wraps
 from itertools import product
 from numbers import Integral, Number, Real
 from typing import Mapping, Optional, Sequence, Union
@@ -88,64 +86,80 @@ def fit_to_scale(
     offset: Union[Integral, Real]
 ) -> np.ndarray:
     """
-    Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    If multiplying `arr` by `scale` and adding `offset` would overflow its
+    data type, return a version of `arr` cast to the minimum dtype of the same
+    kind that will hold the results. Otherwise, return `arr`. Masked and
+    non-finite elements are not considered. Integer arrays that scaling makes
+    floating point are cast to float64.
 
     Supports:
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
-        raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc = ('f',), (4, 8), np.finfo
+    if arr.dtype.kind == "f":
+        bases, infofunc, cast = ("f",), np.finfo, float
+    elif arr.dtype.kind in "iu" and not casting_to_float(arr, scale, offset):
+        bases, infofunc, cast = ("u", "i"), np.iinfo, int
     else:
-        bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
-        cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
+        return arr.astype(np.float64) if arr.dtype.kind in "iu" else arr
+    valid = arr.compressed() if np.ma.isMaskedArray(arr) else arr
+    if cast is float:
+        valid = valid[np.isfinite(valid)]
+    if valid.size == 0:
+        return arr
+    bounds = [cast(bound) for bound in (valid.min(), valid.max())]
+    products = [bound * scale for bound in bounds]
+    values = bounds + products + [prod + offset for prod in products]
+    if cast is int:
+        values += [scale, offset]
+
+    def fits(dtype):
+        info = infofunc(dtype)
+        return min(values) >= info.min and max(values) <= info.max
+
+    if fits(arr.dtype):
+        return arr
+    for width, base in product((1, 2, 4, 8), bases):
+        if base == "f" and width < 4:
+            continue
+        if fits(candidate := np.dtype(f"{base}{width}")):
             return arr.astype(candidate)
+    if cast is float:
+        return arr.astype(np.float64)
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
-def overflow_wrap(array_func):
-    @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
-        with warnings.catch_warnings():
-            warnings.filterwarnings("error", message=".*overflow enc.*")
-            try:
-                return array_func(arr, scale, offset, *args, **kwargs)
-            except (OverflowError, RuntimeWarning):
-                arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
-
-    return with_upcasting
-
-
-def _copy_scale(obj, offset, scale):
-    try:
-        # TODO: we should also be doing this per-plane scaling in inplace case
-        if len(obj) == len(scale) == len(offset) > 1:
-            planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
-            ]
-            stacked = np.rollaxis(np.ma.dstack(planes), 2)
-            return stacked
-    except TypeError:
-        pass  # len() is not usable on a float object
-    return obj * scale + offset
-
-
-def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+def _scale_planes(obj, offset, scale, inplace=False):
+    """
+    apply scaling to an array, band by band if there is one scaling parameter
+    per band.
+    """
+    n_bands = len(obj) if obj.ndim == 3 else 1
+    params = []
+    for param in (scale, offset):
+        param = param if isinstance(param, Sequence) else [param]
+        if len(param) not in (1, n_bands):
+            raise ValueError(
+                f"{len(param)} scaling parameters given for {n_bands} bands"
+            )
+        params.append(list(param))
+    scale, offset = params
+    if len(scale) == len(offset) == 1:
+        return _scale_plane(obj, offset[0], scale[0], inplace)
+    scale = scale * n_bands if len(scale) == 1 else scale
+    offset = offset * n_bands if len(offset) == 1 else offset
+    planes = [
+        _scale_plane(obj[ix], offset[ix], scale[ix]) for ix in range(n_bands)
+    ]
+    return np.ma.stack(planes) if np.ma.isMaskedArray(obj) else np.stack(planes)
+
+
+def _scale_plane(obj, offset, scale, inplace=False):
+    fitted = fit_to_scale(obj, scale, offset)
+    if inplace is False or fitted is not obj or not obj.flags.writeable:
+        return fitted * scale + offset
+    obj *= scale
+    obj += offset
     return obj
 
 
@@ -182,15 +196,14 @@ def scale_array(
         return obj
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
-    # TODO: detect rollover cases, etc.
     if inplace is True and not casting_to_float(obj, scale, offset):
-        return overflow_wrap(_inplace_scale)(obj, offset, scale)
+        return _scale_planes(obj, offset, scale, inplace=True)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
     if casting_to_float(obj, scale, offset):
         if float_dtype is not None:
             obj = obj.astype(float_dtype)
-    return overflow_wrap(_copy_scale)(obj, offset, scale)
+    return _scale_planes(obj, offset, scale)
 
 
 # TODO: shake this out much more vigorously
-- 
2.43.0


From b6fb1da2fde4eaa9cfe36972ad4f82994f8ab108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 35/66] fix: look special constants up again after label
 changes and reloads

---
 pdr/pdr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 61f32e5..9e741ed 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -332,6 +332,7 @@ class Data:
     def load_metadata_changes(self):
         if "_metaget_interior" in dir(self):
             self.metadata.refresh_cache()
+            self.specials = {}
         self._metaget_interior = self.metadata._metaget_interior
         self._metablock_interior = self.metadata._metablock_interior
 
@@ -553,6 +554,7 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        self.specials.pop(name, None)
         if name in self._derived_objects:
             return self._load_derived(name)
         if self.standard == "PDS4":
-- 
2.43.0


From d916f38f0d5b8eddfd8033c2e988a84652900de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 36/66] fix: mask PDS4 special constants that the data type
 cannot hold or no element equals

---
 pdr/pds4_tools/reader/data.py       | 2 +-
 pdr/pds4_tools/reader/data_types.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data.py b/pdr/pds4_tools/reader/data.py
index 0207b61..3d4c72e 100644
--- a/pdr/pds4_tools/reader/data.py
+++ b/pdr/pds4_tools/reader/data.py
@@ -242,7 +242,7 @@ class PDS_ndarray(np.ndarray):
         if (self.shape != out_arr.shape or
             (isinstance(out_arr, PDS_ndarray) and
              (context is not None and context[0] in _comparison_functions))):
-            return out_arr[()] if return_scalar else out_arr.data
+            return out_arr[()] if return_scalar else out_arr.view(np.ndarray)
         else:
             return out_arr
 
diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 05157ab..9f1dd37 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1062,7 +1062,13 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
             if (not key.startswith('valid_')) and compatible_dtypes:
                 data = np.ma.masked_where(data == value, data, copy=copy)
-                data.set_fill_value(value)
+
+                # An integer constant that the data type cannot hold (and therefore never matches)
+                # cannot be its fill value either
+                try:
+                    data.set_fill_value(value)
+                except (TypeError, OverflowError):
+                    pass
 
     return data
 
-- 
2.43.0


From 847669f6e5e2ce204a9e4526ae318d30c5527f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 37/66] fix: render images whose percentile bounds coincide or
 whose integers are 32-bit and more

---
 pdr/browsify.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..a780b37 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -82,18 +82,23 @@ def normalize_range(
         cheat_low, cheat_high = (clip, clip)
     range_min, range_max = bounds
     if isinstance(image, np.ma.MaskedArray):
-        minimum, maximum = find_masked_bounds(image, cheat_low, cheat_high)
-        if minimum is None:
-            return image
+        find_bounds = find_masked_bounds
     else:
-        minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
-    if nice_clip is True and minimum == maximum:  # scaling was too intense
+        find_bounds = find_unmasked_bounds
+    minimum, maximum = find_bounds(image, cheat_low, cheat_high)
+    if minimum is None:
         return image
+    if nice_clip is True and minimum == maximum:  # scaling was too intense
+        minimum, maximum = find_bounds(image, 0, 0)
+        if minimum == maximum:
+            return image
     if not ((cheat_high is None) and (cheat_low is None)):
         if inplace is True:
             image = np.clip(image, minimum, maximum, out=image)
         else:
             image = np.clip(image, minimum, maximum)
+    if minimum == maximum:  # nothing to stretch
+        return image - minimum + range_min
     if inplace is True:
         # perform the operation in-place
         image -= minimum
@@ -277,9 +282,13 @@ def _render_array(
             "Rendering browse images requires the optional pillow dependency."
         )
 
-    # upcast integer data types < 32-bit to prevent unhelpful wraparound
-    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 2):
-        obj = obj.astype(np.int32)
+    # upcast integer data types to prevent unhelpful wraparound
+    if obj.dtype.char in np.typecodes["AllInteger"]:
+        obj = obj.astype(
+            {1: np.int32, 2: np.int32, 4: np.int64}.get(
+                obj.itemsize, np.float64
+            )
+        )
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From 434d098047e63fde4bb514980bef2027ed2ad70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 38/66] fix: browse images with one very long and one very
 short axis

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index a780b37..47fb1a0 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -311,7 +311,7 @@ def _render_array(
             f"Axis length {max(obj.shape)} > JPEG encoder threshold of "
             f"65500; downsampling browse image to {scale * 100}%."
         )
-        image.thumbnail([int(axis * scale) for axis in image.size])
+        image.thumbnail([max(int(axis * scale), 1) for axis in image.size])
     image.save(f"{outbase}.{image_format}")
 
 
-- 
2.43.0


From 1326e4d5bb250da505614d6ddb9453c89e567315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 39/66] fix: don't let invalid elements blank out browse images

---
 pdr/browsify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 47fb1a0..a2317e1 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -289,6 +289,10 @@ def _render_array(
                 obj.itemsize, np.float64
             )
         )
+    # don't let invalid elements determine what the others look like
+    elif obj.dtype.char in np.typecodes["Float"]:
+        if not np.isfinite(np.ma.getdata(obj)).all():
+            obj = np.ma.masked_invalid(obj, copy=False)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From e1db9621a4d426d479a0b05c9c48c78bc04f91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 40/66] fix: don't modify the arrays that astropy and
 pds4_tools hold in dump_browse(purge=True)

---
 pdr/pdr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 9e741ed..1e1f190 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -1118,7 +1118,13 @@ class Data:
             # no need to have all this mpl stuff in the namespace normally
             from pdr.browsify import browsify
 
-            dump_it = partial(browsify, purge=purge, **browse_kwargs)
+            # astropy and pds4_tools keep (and would reload) the arrays they
+            # give us, so we can't work in place on those
+            dump_it = partial(
+                browsify,
+                purge=purge and self.standard not in ("FITS", "PDS4"),
+                **browse_kwargs
+            )
             fdt = browse_kwargs.get("float_dtype")
             if (
                 self[obj].__class__.__name__ == "ndarray"
-- 
2.43.0


From e353ed4adbf51e5a6356f95fc50c335820068d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 41/66] fix: give united signatures a legal and reproducible
 parameter order

---
 pdr/func.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pdr/func.py b/pdr/func.py
index d205398..f6c6087 100644
--- a/pdr/func.py
+++ b/pdr/func.py
@@ -114,11 +114,12 @@ def paramsort(params: Collection[Parameter]) -> list[Parameter]:
     for p in params:
         bins[p.kind.name].append(p)
 
-    # then put Optional variables at the end of each bin
+    # then put variables with defaults, and among them, Optional variables,
+    # at the end of each bin
     for kind, paramlist in bins.items():
         bins[kind] = sorted(
             paramlist,
-            key=lambda p: not_optional(p) is False
+            key=lambda p: (p.default is not _empty, not_optional(p) is False)
         )
 
     # noinspection PyTypeChecker
@@ -134,8 +135,11 @@ def sig_union(*funcs: Callable) -> Signature:
     elements of funcs and calls them in a dispatched, sequenced, or parallel
     fashion, rather than composed)
     """
-    params = reduce(set.union, map(sigparams, funcs))
-    outparams = set(p for p in params)
+    # dictionaries, unlike sets, keep the same order in every process
+    params = dict.fromkeys(
+        chain.from_iterable(signature(f).parameters.values() for f in funcs)
+    )
+    outparams = params.copy()
     for p1, p2 in combinations(params, r=2):
         # filter duplicate parameter names caused by mismatched type
         # annotations (other causes of mismatches indicate real problems)
@@ -143,18 +147,18 @@ def sig_union(*funcs: Callable) -> Signature:
             if p1.name != p2.name:
                 continue
             if (p1._annotation == _empty) and (p2._annotation != _empty):
-                outparams.remove(p1)
+                outparams.pop(p1)
             elif (p1._annotation != _empty) and (p2._annotation == _empty):
-                outparams.remove(p2)
+                outparams.pop(p2)
             elif (p1._annotation == _empty) and (p2._annotation == _empty):
-                outparams.remove(p2)
+                outparams.pop(p2)
             elif p1._annotation != p2._annotation:
                 raise TypeError(
                     f"{p1.name} and {p2.name} have different annotations in "
                     f"some of {funcs}, suggesting possible type mismatch."
                 )
             else:
-                outparams.remove(p2)
+                outparams.pop(p2)
         except KeyError:
             # we already removed it
             continue
-- 
2.43.0


From 49531deac86de229ced4cb19126faa4d74ba5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 42/66] fix: give flattened FITS and PDS4 columns unique names

---
 pdr/pd_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index e610322..c3d9778 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -312,6 +312,7 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
     """
     sub_dfs = []
     name_buffer = []
+    taken = set(array.dtype.names)
     for field in array.dtype.descr:
         if len(field) == 2:
             name_buffer.append(field[0])
@@ -320,9 +321,12 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
                 sub_dfs.append(rectified_rec_df(array[name_buffer]))
                 name_buffer = []
             sub_df = rectified_rec_df(array[field[0]])
-            sub_df.columns = [
-                f"{field[0]}_{ix}" for ix in range(len(sub_df.columns))
-            ]
+            # other fields might already be named things like "FLUX_0"
+            names = (f"{field[0]}_{ix}" for ix in count())
+            sub_df.columns = list(
+                islice((n for n in names if n not in taken), sub_df.shape[1])
+            )
+            taken.update(sub_df.columns)
             sub_dfs.append(sub_df)
     if len(name_buffer) > 0:
         sub_dfs.append(rectified_rec_df(array[name_buffer]))
-- 
2.43.0


From e51ccade2d8a84c752e24bef8aa6f012d9ec8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 43/66] fix: don't replace objects by other objects' FITS
 headers, reload FITS HDUs from file

---
 pdr/pdr.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 1e1f190..0431cfc 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -267,6 +267,8 @@ class Data:
         # cache for hdulist, for primary FITS files -- this is primarily
         # an optimization for compressed files
         self._hdulist = None
+        # names of HDUs loaded from that hdulist
+        self._loaded_hdus = set()
         # dict of [str, int] for HDU name / position in primary FITS files,
         # for reindexing duplicates and efficiency
         self._hdumap = None
@@ -615,6 +617,14 @@ class Data:
         object called `name`.
         """
         for k, v in obj.items():
+            if (
+                k != name
+                and k in self.index
+                and self._derived_objects.get(k) != name
+            ):
+                # an object in its own right, not to be replaced by another
+                # object's companion of the same name
+                continue
             if v is not None:
                 setattr(self, k, v)
                 if k not in self.index:
@@ -662,6 +672,14 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
+        if object_name in self._loaded_hdus:
+            # astropy modifies headers when it scales data, and hands out the
+            # same array every time, so reread files to reload HDUs
+            from astropy.io import fits
+
+            self._hdulist = fits.open(self.filename)
+            self._loaded_hdus.clear()
+        self._loaded_hdus.add(object_name)
         obj = handle_fits_file(
             self.filename,
             object_name,
-- 
2.43.0


From f4863cd59ad2599562aef246741e275618fdce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 44/66] fix: name repeated FITS HDUs and columns uniquely, open
 FITS files with invalid cards

---
 pdr/loaders/handlers.py | 76 ++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..e5f7d66 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -73,30 +73,10 @@ def handle_fits_file(
         hdu_ix, is_header = objrec['ix'], objrec['part'] == 'header'
     else:
         # this is the case when dealing with a FITS file in 'primary' mode.
-        # This is a little sloppy, but it is more convenient to handle certain
-        # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
-    try:
-        hdr_val = handle_fits_header(hdulist, hdu_ix)
-    # astropy.io.fits does not call any verification on read. on 'output'
-    # tasks -- which iterating over header cards (sometimes) counts as, and
-    # which we have to do in order to place the header content into our
-    # preferred data structure -- it does call verification at the strictest
-    # settings, resulting in delayed exceptions. However, we do not want to
-    # automatically run every fix, because astropy's fixes can be quite slow
-    # on large, complicated headers. So, if and when astropy decides something
-    # is too invalid to show us, tell it to fix it.
-    except fits.VerifyError:
-        try:
-            hdulist.verify('silentfix')
-            hdr_val = handle_fits_header(hdulist, hdu_ix)
-        except (fits.VerifyError, ValueError):  # real messed up
-            hdr_val = handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+        # note that HDUs may be named things like "IMAGE HEADER"; this does
+        # not mean that the caller wants only their headers.
+        hdu_ix, is_header = hdu_id, False
+    hdr_val = _handle_invalid_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
@@ -169,11 +149,15 @@ def reindex_dupe_names(hdu: BinTableHDU):
     incrementing integers).
     """
     names = [c.name for c in hdu.columns]
-    repeats = {n for n in names if names.count(n) > 1}
-    for r in repeats:
-        indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+    taken = set(names)
+    for r in dict.fromkeys(n for n in names if names.count(n) > 1):
+        indices, i = [ix for ix, n in enumerate(names) if n == r], 0
+        for ix in indices:
+            # other columns might already be named things like "FLUX_0"
+            while f"{r}_{i}" in taken:
+                i += 1
+            hdu.columns[ix].name = f"{r}_{i}"
+            taken.add(f"{r}_{i}")
 
 
 def handle_compressed_image(
@@ -259,6 +243,28 @@ def handle_fits_header(
     return output_hdr
 
 
+def _handle_invalid_fits_header(hdulist: HDUList, hdu_ix: int) -> MultiDict:
+    """`handle_fits_header()` for headers that might contain invalid cards."""
+    from astropy.io import fits
+
+    try:
+        return handle_fits_header(hdulist, hdu_ix)
+    # astropy.io.fits does not call any verification on read. on 'output'
+    # tasks -- which iterating over header cards (sometimes) counts as, and
+    # which we have to do in order to place the header content into our
+    # preferred data structure -- it does call verification at the strictest
+    # settings, resulting in delayed exceptions. However, we do not want to
+    # automatically run every fix, because astropy's fixes can be quite slow
+    # on large, complicated headers. So, if and when astropy decides something
+    # is too invalid to show us, tell it to fix it.
+    except fits.VerifyError:
+        try:
+            hdulist.verify('silentfix')
+            return handle_fits_header(hdulist, hdu_ix)
+        except (fits.VerifyError, ValueError):  # real messed up
+            return handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+
+
 # TODO: shouldn't be in this module
 def add_bit_column_info(
     obj: dict,
@@ -309,12 +315,18 @@ def unpack_fits_headers(
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(name, _handle_invalid_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
-        for ix, hdu in enumerate(group):
+        ix = 0
+        for hdu in group:
+            # other HDUs might already be named things like "IMAGE_0"
+            while f'{name}_{ix}' in hdumap or f'{name}_{ix}' in namegroups:
+                ix += 1
             hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(
+                hdu_name, _handle_invalid_fits_header(hdulist, hdu_ix)
+            )
             hdumap[hdu_name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
-- 
2.43.0


From 7dce4788d89cc834cfa2bc62a99ea61c70bb0d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 45/66] fix: pair repeated pointers with the definitions in
 their own block, don't reuse taken names

---
 pdr/parselabel/pds3.py | 111 ++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 36 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 37a545a..07978cc 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -4,11 +4,12 @@ from __future__ import annotations
 import re
 import warnings
 from ast import literal_eval
+from itertools import chain, count
 from numbers import Number
 from operator import eq
 from pathlib import Path
 from typing import (
-    Iterable, Optional, Type, Union, Collection, Any, Callable
+    Iterable, Optional, Type, Union, Collection, Any, Callable, Sequence
 )
 
 from cytoolz import groupby, identity
@@ -390,13 +391,14 @@ def index_duplicate_pointers(
     "pointer" keys of a MultiDict, and also their "depointerized" versions,
     in order to distinguish data objects. This _can_ potentially fail if
     duplicate-named object pointers and their corresponding object definitions
-    are not given in the same order in a label, but we have not yet
-    encountered that case.
+    are not given in the same order in one block of a label, but we have not
+    yet encountered that case.
     """
     if pointers is None:
         return mapping, params
     # noinspection PyTypeChecker
     pt_groups = groupby(identity, pointers)
+    taken = set(params)
     for pointer, group in pt_groups.items():
         if (len(group) > 1) and \
                 not any(sub in pointer for sub in
@@ -404,46 +406,83 @@ def index_duplicate_pointers(
             # don't waste anyone's time mentioning, that the label
             # references both ODL.TXT and VICAR2.TXT, etc.
             if "DESCRIPTION" not in pointer:
-                depoint = True
+                depointer = depointerize(pointer)
                 warnings.warn(
                     f"Duplicated {pointer}, indexing with integers after each "
                     f"entry (e.g.: {pointer}_0)"
                 )
             else:
-                depoint = False
-            for ix in range(len(group)):
-                indexed_pointer = f"{pointer}_{ix}"
-                mapping = multidict_dig_and_edit(
-                    input_multidict=mapping,
-                    target=pointer,
-                    input_object=list(range(len(group))),
-                    setter_function=set_key_index,
-                    key_editor=True,
-                )
-                params.append(indexed_pointer)
-                params.remove(pointer)
-                if depoint:
-                    depointer = depointerize(pointer)
-                    indexed_depointer = f"{depointer}_{ix}"
-                    mapping = multidict_dig_and_edit(
-                        input_multidict=mapping,
-                        target=depointer,
-                        input_object=list(range(len(group))),
-                        setter_function=set_key_index,
-                        key_editor=True,
-                    )
-                    params.append(indexed_depointer)
-                    if depointer in params:
-                        params.remove(depointer)
-
+                depointer = None
+            # don't use names that other pointers or objects already have
+            indices = []
+            for ix in count():
+                if len(indices) == len(group):
+                    break
+                names = {f"{pointer}_{ix}", f"{depointerize(pointer)}_{ix}"}
+                if taken.isdisjoint(names):
+                    indices.append(ix)
+            mapping, keys = _index_duplicates(
+                mapping, pointer, depointer, indices
+            )
+            for key, indexed_key in keys:
+                params.append(indexed_key)
+                params.remove(key)
+                taken.add(indexed_key)
     return mapping, params
 
 
-def set_key_index(pointer_range: list[int], key: str) -> str:
+def _index_duplicates(
+    mapping: MultiDict[str, Any],
+    pointer: str,
+    depointer: Optional[str],
+    indices: Sequence[int],
+) -> tuple[MultiDict[str, Any], list[tuple[str, str]]]:
     """
-    utility setter function for `multidict_dig_and_edit()` as called by
-    `index_duplicate_pointers()`; appends a number from a list to a string
+    Helper for `index_duplicate_pointers()`. Returns a copy of `mapping` in
+    which `indices` are appended to every key named `pointer`, in order, and
+    to the names of the associated object definitions, if `depointer` is not
+    None; also the list of edited keys and their new names. The definitions
+    associated with pointers are, if possible, those that appear in the same
+    block.
     """
-    indexed_key = f"{key}_{pointer_range[0]}"
-    pointer_range.pop(0)
-    return indexed_key
+    pointer_indices, definitions, remaining = {}, {}, iter(indices)
+
+    def find_matches(block):
+        for key, value in block.items():
+            if key == pointer:
+                pointer_indices.setdefault(id(block), []).append(
+                    next(remaining)
+                )
+            elif isinstance(value, MultiDict):
+                if key == depointer:
+                    definitions.setdefault(id(block), []).append(id(value))
+                find_matches(value)
+
+    find_matches(mapping)
+    definition_indices, free = {}, set(indices)
+    for block_id, block_indices in pointer_indices.items():
+        matches = zip(definitions.get(block_id, ()), block_indices)
+        definition_indices.update(matches)
+    free = sorted(free.difference(definition_indices.values()))
+    unmatched = chain.from_iterable(definitions.values())
+    unmatched = [d for d in unmatched if d not in definition_indices]
+    definition_indices.update(zip(unmatched, free))
+    keys = []
+
+    def edit(block):
+        output = MultiDict()
+        block_indices = iter(pointer_indices.get(id(block), ()))
+        for key, value in block.items():
+            ix = None
+            if key == pointer:
+                ix = next(block_indices)
+            elif isinstance(value, MultiDict):
+                ix = definition_indices.get(id(value))
+                value = edit(value)
+            if ix is not None:
+                keys.append((key, f"{key}_{ix}"))
+                key = f"{key}_{ix}"
+            output.add(key, value)
+        return output
+
+    return edit(mapping), keys
-- 
2.43.0


From 4bce2aa50d02237f84324fb1fbfe45e6c7713ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 46/66] fix: give PDS4 structures and FITS HDUs unique names
 that don't replace attributes

---
 pdr/loaders/handlers.py | 45 ++++++++++++++---------------------------
 pdr/pdr.py              | 36 ++++++++++++++++++++++++---------
 pdr/utils.py            | 23 ++++++++++++++++++++-
 3 files changed, 64 insertions(+), 40 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index e5f7d66..d5471b5 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -6,12 +6,13 @@ libraries that provide high-level support for specific file formats, including
 
 from __future__ import annotations
 
-from typing import Optional, TYPE_CHECKING, Union
+from typing import Collection, Optional, TYPE_CHECKING, Union
 import warnings
 
-from cytoolz import groupby
 from multidict import MultiDict
 
+from pdr.utils import unique_names
+
 if TYPE_CHECKING:
     from pathlib import Path
     from astropy.io import fits
@@ -149,15 +150,9 @@ def reindex_dupe_names(hdu: BinTableHDU):
     incrementing integers).
     """
     names = [c.name for c in hdu.columns]
-    taken = set(names)
-    for r in dict.fromkeys(n for n in names if names.count(n) > 1):
-        indices, i = [ix for ix, n in enumerate(names) if n == r], 0
-        for ix in indices:
-            # other columns might already be named things like "FLUX_0"
-            while f"{r}_{i}" in taken:
-                i += 1
-            hdu.columns[ix].name = f"{r}_{i}"
-            taken.add(f"{r}_{i}")
+    for ix, name in enumerate(unique_names(names)):
+        if name != names[ix]:
+            hdu.columns[ix].name = name
 
 
 def handle_compressed_image(
@@ -296,14 +291,17 @@ def add_bit_column_info(
 
 
 def unpack_fits_headers(
-    filename: Union[str, Path], hdulist: Optional[HDUList] = None
+    filename: Union[str, Path],
+    hdulist: Optional[HDUList] = None,
+    reserved: Collection[str] = (),
 ) -> tuple[MultiDict, list[str], dict[str, int]]:
     """
     Unpack all headers in a FITS file into a MultiDict and flattened list of
     keys suitable for constructing a `pdr.Metadata` object, along with a
     mapping between HDU names and indices. Used when opening a FITS file in
     "primary" mode (i.e., directly from its own headers, without a supporting
-    PDS3 or PDS4 label).
+    PDS3 or PDS4 label). HDUs with repeated names, or names in `reserved`, are
+    indexed with ascending integers.
     """
     from astropy.io import fits
 
@@ -311,23 +309,10 @@ def unpack_fits_headers(
     headerdict = MultiDict()
     if hdulist is None:
         hdulist = fits.open(filename)
-    namegroups = groupby(lambda hi: hi[1], hdulist.info(False))
-    for name, group in namegroups.items():
-        if len(group) == 1:
-            hdu_ix = group[0][0]
-            headerdict.add(name, _handle_invalid_fits_header(hdulist, hdu_ix))
-            hdumap[name] = hdu_ix
-            continue
-        ix = 0
-        for hdu in group:
-            # other HDUs might already be named things like "IMAGE_0"
-            while f'{name}_{ix}' in hdumap or f'{name}_{ix}' in namegroups:
-                ix += 1
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
-            headerdict.add(
-                hdu_name, _handle_invalid_fits_header(hdulist, hdu_ix)
-            )
-            hdumap[hdu_name] = hdu_ix
+    hdu_names = [hdu_info[1] for hdu_info in hdulist.info(False)]
+    for hdu_ix, name in enumerate(unique_names(hdu_names, reserved)):
+        headerdict.add(name, _handle_invalid_fits_header(hdulist, hdu_ix))
+        hdumap[name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
         # note that FITS headers aren't nested, so we only have to iterate
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 0431cfc..999172e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -71,6 +71,7 @@ from pdr.utils import (
     check_cases,
     check_primary_fmt,
     prettify_multidict,
+    unique_names,
 )
 
 if TYPE_CHECKING:
@@ -338,6 +339,18 @@ class Data:
         self._metaget_interior = self.metadata._metaget_interior
         self._metablock_interior = self.metadata._metablock_interior
 
+    def _reserved_names(self) -> set[str]:
+        """
+        Names of our own attributes and methods, which data objects with the
+        same names must not replace.
+        """
+        # these might not be assigned yet
+        unassigned = {
+            "metadata", "identifiers", "pointers",
+            "_metaget_interior", "_metablock_interior"
+        }
+        return unassigned.union(dir(self))
+
     def _init_pds4(self):
         """use pds4_tools to open pds4 files, but in our interface idiom."""
 
@@ -346,9 +359,14 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        structures = structure_list.structures
+        names = unique_names(
+            [s.id.replace(" ", "_") for s in structures],
+            self._reserved_names() | {"label"}
+        )
+        for name, structure in zip(names, structures):
+            self._pds4_structures[name] = structure
+            self.index.append(name)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
@@ -733,8 +751,8 @@ class Data:
         """
         Given start byte for an HDU's data segment, check to see if the
         PDS4 product associated with self includes that HDU's header as a
-        distinct data object with a local identifier. If it is, return the
-        PDS4 local identifier of that object. If not, return None.
+        distinct data object. If it is, return the name of that object (as
+        given in our index). If not, return None.
         """
         from pdr.pds4_tools.reader.header_objects import HeaderStructure
 
@@ -748,9 +766,7 @@ class Data:
             if 'object_length' not in meta.keys():
                 continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
-                    return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
@@ -823,7 +839,9 @@ class Data:
             from pdr.loaders.handlers import unpack_fits_headers
 
             mapping, params, self._hdumap = unpack_fits_headers(
-                self.filename, hdulist=self._hdulist
+                self.filename,
+                hdulist=self._hdulist,
+                reserved=self._reserved_names(),
             )
             return Metadata((mapping, params), standard="FITS")
         if self.standard == "PDS4":
diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..524be8e 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from io import BytesIO
-from itertools import chain
+from itertools import chain, count
 from numbers import Number
 from pathlib import Path
 import struct
@@ -148,6 +148,27 @@ def append_repeated_object(
     return fields
 
 
+def unique_names(
+    names: Sequence[str], reserved: Collection[str] = ()
+) -> list[str]:
+    """
+    Append ascending integers to all repeated members of `names` (for
+    instance, "IMAGE" -> "IMAGE_0", "IMAGE_1"), as well as to any that are
+    also members of `reserved`. Skips integers that would duplicate other
+    names.
+    """
+    taken, output = {*names, *reserved}, []
+    for name in names:
+        if names.count(name) > 1 or name in reserved:
+            name = next(
+                indexed for ix in count()
+                if (indexed := f"{name}_{ix}") not in taken
+            )
+            taken.add(name)
+        output.append(name)
+    return output
+
+
 def import_best_gzip():
     """"""
     try:
-- 
2.43.0


From f74b454402a1ac56296649c9d16978e03b211ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 47/66] fix: read PDS4 bit masks of signed and masked arrays
 correctly

---
 pdr/pds4_tools/reader/read_arrays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..fed1af5 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -102,14 +102,15 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
 
     # Convert bit mask to binary (python assumes the input is a string describing the integer in MSB format,
     # which is what the PDS4 standard specifies.)
-    bit_mask = int(bit_mask_string, 2)
+    # Signed types store masks that include the sign bit as negative numbers
+    bit_mask = np.uint64(int(bit_mask_string, 2)).astype(data.dtype)
 
     # Mask Special_Constants values so that bit mask application does not affect them
     non_masked = np.arange(0, len(data))
     if special_constants is not None:
 
         masked_data = mask_special_constants(data, special_constants=special_constants)
-        non_masked = np.where(masked_data.mask == False)
+        non_masked = np.where(~np.ma.getmaskarray(masked_data))
 
         del masked_data
 
-- 
2.43.0


From c7700329be61202202cf8e0ca331e22152ca8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 48/66] fix: mark missing PDS4 table values, keep unique column
 names, and reread on reload

---
 pdr/pdr.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 999172e..cd9ed69 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -782,6 +782,9 @@ class Data:
         structure = self._pds4_structures[object_name]
         from pdr.pds4_tools.reader.label_objects import Label
 
+        if not isinstance(structure, Label):
+            # structures cache their data, which users might have modified
+            vars(structure).pop("data", None)
         if isinstance(structure, Label):
             setattr(self, "label", structure)
         elif check_special_pds4_cases(structure, self.filename,
@@ -808,11 +811,24 @@ class Data:
 
             setattr(self, object_name, np.asarray(structure.data))
         elif structure.is_table():
+            import numpy as np
+
             from pdr.pd_utils import structured_array_to_df
 
-            df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
-            df.columns = df.columns.str.strip(", ")
+            df = structured_array_to_df(np.asarray(structure.data))
+            if isinstance(structure.data, np.ma.MaskedArray):
+                # missing values in delimited tables
+                masks = np.ma.getmaskarray(structure.data)
+                df = df.mask(structured_array_to_df(masks))
+            # drop placeholder names of unnamed groups, unless we need them to
+            # distinguish columns
+            names = [
+                re.sub(r"(^|(?<=, ))GROUP_\d+, ", "", c) for c in df.columns
+            ]
+            df.columns = [
+                name if names.count(name) == 1 else column
+                for name, column in zip(names, df.columns)
+            ]
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
         else:
-- 
2.43.0


From 48e90e81efde3db844aec1219dc7238895ed987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 49/66] fix: scale labelled desktop-format images that have no
 label block

---
 pdr/_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 6e15d4b..01f471f 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -22,7 +22,8 @@ def find_special_constants(
     # NOTE: doesn't do anything for PDS4 products at present, although this
     #  may not be important; usually pds4_tools handles it.
 
-    block = specialblock(data, name)
+    # some objects (desktop-format images, ...) may have no label block
+    block = specialblock(data, name) or {}
     # check for explicitly-defined special constants
     specials = {
         name: block[name]
@@ -173,7 +174,7 @@ def scale_array(
     """"""
     from pdr.formats.checkers import specialblock
 
-    block = specialblock(meta, object_name)
+    block = specialblock(meta, object_name) or {}
     scale, offset = 1, 0
     if "SCALING_FACTOR" in block.keys():
         scale = block["SCALING_FACTOR"]
-- 
2.43.0


From a3872434c1f228e6f5598b9adccd1eade1bfd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 50/66] fix: find text objects positioned by row in stream
 files

---
 pdr/loaders/_helpers.py |  2 +-
 pdr/loaders/queries.py  | 30 +++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 96c97f4..0b617ad 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -44,7 +44,7 @@ def quantity_start_byte(
     # TODO: are there cases in which _these_ aren't 1-indexed?
     if quantity_dict["units"] == "BYTES":
         return quantity_dict["value"] - 1
-    if record_bytes is not None:
+    if record_bytes not in (None, ""):
         return record_bytes * max(quantity_dict["value"] - 1, 0)
 
 
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 274041d..f4d22bb 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -406,7 +406,7 @@ def get_hdulist(fn):
 
 
 def data_start_byte(
-    identifiers: DataIdentifiers, block: Mapping, target, fn
+    identifiers: DataIdentifiers, block: Mapping, target, fn, name: str = ""
 ) -> int:
     """
     Determine the first byte of the data in a file from its pointer.
@@ -416,6 +416,9 @@ def data_start_byte(
     else:
         record_bytes = identifiers["RECORD_BYTES"]
     start_byte = None
+    as_rows = block is not None and _check_delimiter_stream(
+        identifiers, name, target, block
+    )
     if isinstance(target, (list, tuple)):
         target = target[-1]
     if isinstance(target, int):
@@ -423,7 +426,7 @@ def data_start_byte(
             start_byte = 0
         elif record_bytes not in [None, ""]:
             start_byte = record_bytes * max(target - 1, 0)
-        elif "ROWS" in block.keys():
+        elif "ROWS" in block.keys() and "ROW_BYTES" in block.keys():
             rows = block["ROWS"]
             row_bytes = block["ROW_BYTES"]
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
@@ -431,6 +434,9 @@ def data_start_byte(
         start_byte = quantity_start_byte(target, record_bytes)
     elif isinstance(target, str):
         start_byte = 0
+    if start_byte is None and as_rows is True:
+        # the position is in rows, not bytes; see table_position()
+        start_byte = 0
     if start_byte is not None:
         if start_byte < 0:
             raise ValueError(f"BUG: start_byte={start_byte} < 0")
@@ -461,18 +467,16 @@ def _table_row_position(
     A return value of None for `length` implies that the table occupies the
     entirety of the file including and after `start`.
     """
-    if isinstance(target[1], dict):
-        # noinspection PyTypeChecker
-        start = target[1]["value"] - 1
+    if isinstance(target, (list, tuple)):
+        target = target[-1]
+    if isinstance(target, dict):
+        start = target["value"] - 1
+    elif isinstance(target, int):
+        start = target - 1
     else:
-        try:
-            start = target[1] - 1
-        except TypeError:
-            # You cannot subtract an integer from a string. If target[1] is a
-            # string, it implies that the PhysicalTarget is also a string,
-            # meaning that it specifies only a filename, which implies that the
-            # table starts at the beginning of the file.
-            start = 0
+        # If target is a string, it specifies only a filename, which implies
+        # that the table starts at the beginning of the file.
+        start = 0
     return n_records, start
 
 
-- 
2.43.0


From d10fcbdd7469fcf35db8dcf1ffd0923d07d702bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 51/66] fix: read ARRAYs with gaps, nested ARRAYs, VAX/IBM
 reals and all ASCII numbers

---
 pdr/loaders/queries.py | 35 +++++++++++++++++++++++++----
 pdr/loaders/table.py   | 50 +++++++++++++++++++++++++++++++-----------
 2 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index f4d22bb..0336e36 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -671,14 +671,30 @@ def parse_array_structure(
         dt = sample_types(block["DATA_TYPE"], block["BYTES"], True)
         return None, dt
     fmtdef = read_table_structure(block, name, fn, data, identifiers)
+    from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
+
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
     if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
-
-    from pdr.pd_utils import insert_sample_types_into_df
-    return insert_sample_types_into_df(fmtdef, identifiers)
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
+        fmtdef = compute_offsets(fmtdef)
+    fmtdef, dt = insert_sample_types_into_df(fmtdef, identifiers)
+    # COLLECTIONs may end with pad bytes
+    size = block.get("COLLECTION", {}).get("BYTES")
+    if size is not None and size > dt.itemsize:
+        import numpy as np
+
+        formats, offsets = zip(*[dt.fields[name][:2] for name in dt.names])
+        dt = np.dtype(
+            {
+                "names": dt.names,
+                "formats": formats,
+                "offsets": offsets,
+                "itemsize": size
+            }
+        )
+    return fmtdef, dt
 
 
 def create_placeholder_field(block_info, definition):
@@ -742,6 +758,8 @@ def read_format_block(
         if item_type not in PDS3_STRUCTURED_DATA_PARAMETERS:
             # things formally unrelated to data structure (e.g. physical units)
             continue
+        # don't carry these over from the preceding object
+        add_placeholder, reps = False, None
         if item_type == "ARRAY":
             if not check_array_for_subobject(definition):
                 item_type = "PRIMITIVE_ARRAY"
@@ -768,6 +786,15 @@ def read_format_block(
                     "BIT_ELEMENTS in ARRAYS not yet supported"
                 )
             reps = definition.get("ITEMS")
+            if item_type == "PRIMITIVE_ARRAY":
+                # handle these like COLUMNs with multiple items
+                reps = get_array_num_items(definition)
+                obj |= {
+                    "ITEMS": reps,
+                    "ITEM_BYTES": definition["BYTES"],
+                    "BYTES": definition["BYTES"] * reps,
+                }
+                obj.pop("AXIS_ITEMS")
             obj = add_bit_column_info(obj, definition, identifiers)
         elif item_type in ("CONTAINER", "COLLECTION", "ARRAY"):
             # This is a somewhat convoluted way to tell the caller to place a
diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index d871622..20fdd1e 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -11,12 +11,16 @@ import pandas as pd
 from multidict import MultiDict
 from pandas.errors import ParserError
 import re
+import vax
 
 from pdr import bit_handling
 from pdr.datatypes import sample_types
 from pdr.loaders._helpers import check_explicit_delimiter
 from pdr.loaders.queries import get_array_num_items
-from pdr.np_utils import np_from_buffered_io, enforce_order_and_object
+from pdr.np_utils import (
+    enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64,
+    np_from_buffered_io
+)
 from pdr.pd_utils import (
     booleanize_booleans, compute_offsets, convert_ebcdic, convert_ibm_reals,
     convert_vax_reals
@@ -39,7 +43,13 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     Read an array object from this product and return it as a numpy array.
     """
     if block.get("INTERCHANGE_FORMAT") == "BINARY":
-        _, dt = fmtdef_dt
+        fmtdef, dt = fmtdef_dt
+        if fmtdef is not None:
+            if fmtdef["DATA_TYPE"].str.match("(VAX|IBM).*REAL").any():
+                raise NotImplementedError(
+                    "VAX and IBM reals within structured ARRAYs are not "
+                    "supported."
+                )
         count = get_array_num_items(block)
         with decompress(fn) as f:
             array = np_from_buffered_io(
@@ -48,19 +58,33 @@ def read_array(fn, block, start_byte, fmtdef_dt):
                 count=count,
                 offset=start_byte,
             )
+        if fmtdef is None and re.match("VAX.*REAL", block["DATA_TYPE"]):
+            array = vax.from_vax32(array)
+        elif fmtdef is None and re.match("IBM.*REAL", block["DATA_TYPE"]):
+            is_short = array.dtype.itemsize == 4
+            array = (ibm32_to_np_f32 if is_short else ibm64_to_np_f64)(array)
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
-    try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
-    except (TypeError, IndexError, ValueError):
-        text = re.split(r"\s+", text)
-    array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-    if "DATA_TYPE" in block.keys():
-        array = array.astype(
-            sample_types(block["DATA_TYPE"], block["BYTES"], True)
-        )
+    with decompress(fn) as stream:
+        stream.seek(start_byte)
+        text = stream.read().decode("ISO-8859-1")
+    pattern = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[EeDd][+-]?\d+)?"
+    matches, count = list(re.finditer(pattern, text)), get_array_num_items(block)
+    if len(matches) > count:
+        # other objects may follow this one, but make sure that the first
+        # numbers we found are really its elements
+        matches = matches[:count]
+        if re.search(r"\w", re.sub(pattern, "", text[:matches[-1].end()])):
+            raise ValueError("can't find the elements of this ASCII array")
+    numbers = [match.group() for match in matches]
+    array = np.array(
+        [float(re.sub("[Dd]", "E", number)) for number in numbers]
+    ).reshape(block["AXIS_ITEMS"])
+    data_type = block.get("DATA_TYPE", "ASCII_REAL")
+    if data_type == "ASCII_INTEGER":
+        array = array.astype("int64")
+    elif data_type != "ASCII_REAL":
+        array = array.astype(sample_types(data_type, block["BYTES"], True))
     return array
 
 
-- 
2.43.0


From 23592bc94f00b2196dac247ce2feb6cd2d41446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 52/66] fix: keep text identifiers text in special-case checks

---
 pdr/pdr.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index cd9ed69..6c7a371 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -191,9 +191,16 @@ class Metadata(MultiDict):
             field: self.metaget_(field, "")
             for field in get_annotations(DataIdentifiers)
         }
-        # it never does us any favors to have tuples or sets in here
+        # it never does us any favors to have tuples or sets in here, or, for
+        # text parameters, things that happened to parse as numbers, dates, etc.
+        counts = (
+            "FILE_RECORDS", "LABEL_RECORDS", "RECORD_BYTES", "ROW_BYTES",
+            "ROWS"
+        )
         for k, v in identifiers.items():
-            if isinstance(v, (tuple, set)):
+            if isinstance(v, (tuple, set)) or (
+                k not in counts and not isinstance(v, str)
+            ):
                 identifiers[k] = str(v)
         return identifiers
 
-- 
2.43.0


From 390ef1999836c68637eb6e8af449c5fc0636da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 53/66] fix: special cases: match file names rather than paths,
 and only the products described

---
 pdr/formats/checkers.py | 85 +++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..899c30d 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,8 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+        or identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
@@ -212,7 +213,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ULY-J-GAS-5-SKY-MAPS-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "GASDATA.FMT"
+        and block.get("^STRUCTURE") == "GASDATA.FMT"
     ):
         return True, formats.ulysses.gas_table_loader(fn, fmtdef_dt)
     if (
@@ -262,7 +263,7 @@ def check_special_table_reader(
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
         identifiers["DATA_SET_ID"] == "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"
-        and block["INTERCHANGE_FORMAT"] == "ASCII"
+        and block.get("INTERCHANGE_FORMAT") == "ASCII"
         and name == "TABLE"
     ):
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
@@ -324,7 +325,7 @@ def check_special_table_reader(
         return True, formats.msl_rems.rdr_table_loader(fn, fmtdef_dt)
     if (
         all(x in identifiers["DATA_SET_ID"] for x in ["ICE-C-", "-3-RDR-"])
-        and "TRAJ_ICE" in fn
+        and "TRAJ_ICE" in Path(fn).name
         and name == "TABLE"
     ):
         return True, formats.ihw.add_newlines_table_loader(
@@ -345,7 +346,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in Path(fn).name.lower()
     ):
         return formats.odyssey.grs_e_kernel_loader(name, fn)
     if (
@@ -420,9 +421,9 @@ def check_special_structure(
     ) or (
         identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
         and (
-            "HUY_DTWG_ENTRY_AERO" in fn
+            "HUY_DTWG_ENTRY_AERO" in Path(fn).name
             or (
-                "HASI" in data.metaget_("FILE_NAME", "")
+                "HASI" in identifiers["FILE_NAME"]
                 and "PWA" not in identifiers["FILE_NAME"]
             )
         )
@@ -472,7 +473,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT"
+        and block.get("^STRUCTURE") == "VGR_PLS_HR_2017.FMT"
     ):
         return True, formats.voyager.get_structure(
             block, name, fn, data, identifiers
@@ -484,7 +485,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-MECA-2-NIEDR-V1.0"
         and name == "TBL_TABLE"
-        and block["CONTAINER"]["^STRUCTURE"] == "TBL_0_STATE_DATA.FMT"
+        and block.get("CONTAINER", {}).get("^STRUCTURE") == "TBL_0_STATE_DATA.FMT"
     ):
         return True, formats.phoenix.elec_em6_structure(
             block, name, fn, data, identifiers
@@ -500,7 +501,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-2-LEDEDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_LED.FMT"
+        and block.get("^STRUCTURE") == "TEGA_LED.FMT"
     ):
         return True, formats.phoenix.led_edr_structure(
             block, name, fn, data, identifiers
@@ -508,7 +509,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-4-SCRDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_SCRDR.FMT"
+        and block.get("^STRUCTURE") == "TEGA_SCRDR.FMT"
     ):
         return True, formats.phoenix.sc_rdr_structure(
             block, name, fn, data, identifiers
@@ -558,16 +559,16 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in Path(fn).name.lower()
     ):
         return formats.odyssey.grs_e_kernel_structure()
     if (
             identifiers["INSTRUMENT_HOST_NAME"] == "VENUS EXPRESS"
             and identifiers["INSTRUMENT_ID"] in ["VRA"]
             and identifiers['PRODUCT_TYPE'] == "UDR"
-            and "ODF" not in fn
-            and "TNF" not in fn
-            and "RSR" not in fn
+            and "ODF" not in Path(fn).name
+            and "TNF" not in Path(fn).name
+            and "RSR" not in Path(fn).name
     ):
         return formats.vex_vera.udr_table_structure()
 
@@ -770,7 +771,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
@@ -820,9 +821,9 @@ def check_special_block(
     which label pointers don't correspond to label block names AND/OR if a
     value within the block needs to be changed before going to other functions.
     """
-    if name == "XDR_DOCUMENT":
+    if name == "XDR_DOCUMENT" and data.metablock_(name) is None:
         return True, formats.cassini.xdr_redirect_to_image_block(data)
-    if name == "CHMN_HSK_HEADER_TABLE":
+    if name == "CHMN_HSK_HEADER_TABLE" and data.metablock_(name) is None:
         return True, formats.msl_cmn.fix_mangled_name(data)
     if (
         identifiers["DATA_SET_ID"].startswith("JNO-E/J/SS")
@@ -841,7 +842,7 @@ def check_special_block(
         return True, formats.lro.lamp_rdr_histogram_image_loader(data)
     if (
         identifiers["DATA_SET_ID"] == "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"
-        and "GLOBAL_S4_32PPD" in data.metaget_("PRODUCT_ID")
+        and "GLOBAL_S4_32PPD" in identifiers["PRODUCT_ID"]
         and name == "IMAGE"
     ):
         # typo in one of the labels
@@ -1132,7 +1133,7 @@ def check_trivial_case(pointer: str, identifiers: DataIdentifiers, fn: str) -> b
     ):
         return formats.kaguya.grs_eng_tables_trivial()
     if (
-        "CE3_BMYK_VNIS-CC_SCI_" in fn
+        "CE3_BMYK_VNIS-CC_SCI_" in Path(fn).name
         and pointer == "CAL_TARGET_DATA"
     ):
         return formats.change.cal_target_data_trivial()
@@ -1343,64 +1344,65 @@ def check_special_pds4_cases(structure, filename, object_name):
     with pds4_tools. Mostly utilized by datasets not verified by the PDS but
     that have PDS4 labels (ISRO, ESA, CNSA etc).
     """
+    name = Path(filename).name
     if (
-            "CE6-L_GRAS_LMS-M" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-M" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-S" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-S" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-N" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-N" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-N" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-N" in name and ".2B" in name
+            and "SCI" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-M" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-M" in name and ".2B" in name
+            and "SCI" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE4_GRAS_ASAN-SCI_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_ASAN-SCI_SCI" in name and ".2B" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-DPSL_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-DPSL_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-ThN_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-ThN_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-TID_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-TID_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     # if (
-    #         "CE4_GRAS_VNIS-VD_SCI" in filename and ".2B" in filename
+    #         "CE4_GRAS_VNIS-VD_SCI" in name and ".2B" in name
     #         and object_name == "TABLE_0"
     # ):
     # this is a fixed width table, but it's not all UTF-8 so PD can't handle it
     #    return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_VNIS-SD_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_VNIS-SD_SCI" in name and ".2B" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "ch2_cla_l1_" in filename
+            "ch2_cla_l1_" in name
             and (object_name == "header_Data" or object_name == "data")
     ):
         return formats.ch2_isro.read_class_fits_table(filename, object_name)
@@ -1414,17 +1416,18 @@ def check_special_label(fn: Union[str, Path]):
     loaders.datawrap.ReadLabel's dispatch to `read_label()`. Also used in
     `read_pvl()`.
     """
+    name = Path(fn).name
     if (
-            any(tag in fn for tag in ['CE1', 'CE2', 'CE3'])
-            and any(sfx in fn for sfx in ['.1A', '.1B', '.1C',
+            any(tag in name for tag in ['CE1', 'CE2', 'CE3'])
+            and any(sfx in name for sfx in ['.1A', '.1B', '.1C',
                                                 '.2A', '.2B', '.2C',
                                                 '.3A', '.3B', '.3C',
                                                 '.01', '.02', '.03'])
     ):
         return True, formats.change.special_label(fn)
     if (
-            ".TAB" in fn and "_DOY" in fn and
-            ("MAG_" in fn or "BIO_" in fn) and "_V1" in fn
+            ".TAB" in name and "_DOY" in name and
+            ("MAG_" in name or "BIO_" in name) and "_V1" in name
     ):
         return True, formats.vex_mag.special_label(fn)
     return False, None
-- 
2.43.0


From b9010d0a57bd1659093503da107932c36ee0e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 54/66] fix: MSL camera decoder: header noise, stream ends,
 global pillow state

---
 pdr/formats/msl_edr.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index a2f94f7..f4b02b6 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -61,12 +61,13 @@ def msl_msss_edr_prefix_fn(data):
     * msl_mrd
         * all
     """
-    target = data.filename
-    target = target.replace(".img", ".dat")
-    target = target.replace(".IMG", ".DAT")
-    target = target.replace(".lbl", ".dat")
-    target = target.replace(".LBL", ".DAT")
-    return True, target
+    # only the extension changes: folder names may well contain ".img"
+    target, extension = os.path.splitext(data.filename)
+    if extension in (".img", ".lbl"):
+        extension = ".dat"
+    elif extension in (".IMG", ".LBL"):
+        extension = ".DAT"
+    return True, target + extension
 
 
 def get_special_block(data, name):
@@ -168,7 +169,6 @@ def decode_dat_header(fd: int):
     """
     raw_hdr = read_header(fd)
     if raw_hdr is None:
-        os.close(fd)
         return None
 
     # make a Header object and fill in the important info
@@ -287,15 +287,20 @@ def read_jpeg_image(fp, dat_hdr) -> tuple["ndarray", int, int]:
     if soi == -1:
         raise ValueError("Could not find JPEG start or end markers.")
     jpeg_bytes = jpeg_data[soi:]
-    ImageFile.LOAD_TRUNCATED_IMAGES = True
     img = Image.open(io.BytesIO(jpeg_bytes))
     bands = len(img.getbands())
     if bands != dat_hdr.bands:
         # when there's a mismatch between number of bands in header and the
         # image we use the number in the image
         dat_hdr.bands = bands
-    # changes to pixel interleaved or L / grayscale for 1 band
-    img = img.convert('RGB') if bands == 3 else img.convert('L')
+    load_truncated = ImageFile.LOAD_TRUNCATED_IMAGES
+    ImageFile.LOAD_TRUNCATED_IMAGES = True
+    try:
+        # changes to pixel interleaved or L / grayscale for 1 band
+        img = img.convert('RGB') if bands == 3 else img.convert('L')
+    finally:
+        # this is a global setting of pillow: don't impose it on other images
+        ImageFile.LOAD_TRUNCATED_IMAGES = load_truncated
     arr = np.array(img)
     if bands == 1:
         arr = arr[:, :, np.newaxis]
@@ -328,14 +333,14 @@ def read_jpeg_image(fp, dat_hdr) -> tuple["ndarray", int, int]:
 
 class InputBits:
     # was InputBits_t
-    def __init__(self, fd):
+    def __init__(self, fd, start=0):
         self.fd = fd  # original class didn't save fd
-        self.p = 0
+        self.p = start
         self.bit = 0
         # file length -msss
         self.length = os.lseek(self.fd, 0, os.SEEK_END)
-        # and reset to the beginning of the file -msss
-        os.lseek(self.fd, 0, os.SEEK_SET)
+        # and reset to the beginning of the data
+        os.lseek(self.fd, start, os.SEEK_SET)
         raw = os.read(self.fd, 1)
         self.byte = raw[0] if raw else 0  # from read(fd, &s->byte, 1);
 
@@ -498,19 +503,19 @@ def decode_x(
     while s.bit > 0:
         next_bit(s)
     while s.p & 3:
-        next_bit(s)
+        if next_bit(s) == -1:
+            break
 
 
 def pdecom(fd: int, width: int, height: int, outbuf: bytearray) -> bytearray:
     """
     main lossless decompression function for 'PRED' files.
     """
-    # start after header bytes
-    os.lseek(fd, 64, os.SEEK_SET)
     block = bytearray(2048*8)
     chunk = bytearray(2048*8)
     bytes_read = 0
-    s = InputBits(fd)
+    # start after header bytes
+    s = InputBits(fd, 64)
     offset = 8*width//4  # used / in the C code
     for j in range(height // 8):
         if os.lseek(fd, 0, os.SEEK_CUR) >= s.length:
-- 
2.43.0


From ebe2bcd85e7c5ca0b98b787e5f4a871fda9c9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 55/66] fix: MOC decoder: data that end early and successive
 damaged blocks

---
 pdr/formats/mgs_moc.py | 46 +++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 0f30a0c..18a6da5 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -320,7 +320,6 @@ def pred_decode(
 
     height = h.down_total * 16
     width = h.edit_length * 16
-    length = width * height
     prev_line = bytearray(width)
     cur_line = bytearray(width)
     result = bytearray(height * width)
@@ -338,6 +337,7 @@ def pred_decode(
     bit_stuff = BitStruct(data)
     last_sync_pos = 0
     sync = 0xf0ca
+    overrun = False  # set when a block of lines ran past the end of the data
 
     for y in range(height):
         # we are automatically doing sync, was optional in moc_sun
@@ -351,28 +351,24 @@ def pred_decode(
             if (bit_stuff.output & 0x1) == 0x1:
                 bit_stuff.output += 1
 
-            if bit_stuff.output + 1 >= len(data):
-                warnings.warn("Exceeded length of data while decompressing.")
-                return bytes(result[:y * width]), y
-
+            got_sync = None
             if bit_stuff.output + 1 < len(data):
                 got_sync = data[bit_stuff.output] | (
                         data[bit_stuff.output + 1] << 8)
 
-                if got_sync != sync:
-                    search_start = last_sync_pos
-                    search_len = length - search_start
-                    found_offset = find_sync(data[search_start:], search_len,
-                                             sync)
-                    if found_offset is None:
-                        warnings.warn("Unable to sync properly during"
-                                      " decompression.")
-                        return bytes(result[:y * width]), y
-
-                    else:
-                        bit_stuff.output = search_start + found_offset
-                else:
-                    last_sync_pos = bit_stuff.output
+            if got_sync != sync:
+                search_start = last_sync_pos
+                search_len = len(data) - search_start
+                found_offset = find_sync(data[search_start:], search_len,
+                                         sync)
+                if found_offset is None:
+                    warnings.warn("Unable to sync properly during"
+                                  " decompression.")
+                    return bytes(result[:y * width]), y
+
+                bit_stuff.output = search_start + found_offset
+            last_sync_pos = bit_stuff.output
+            overrun = False
 
             pred_line_decompressor(cur_line,
                                    prev_line,
@@ -382,7 +378,7 @@ def pred_decode(
                                    left,
                                    right,
                                    bit_stuff)
-        else:
+        elif not overrun:
             pred_line_decompressor(cur_line,
                                    prev_line,
                                    width,
@@ -392,6 +388,15 @@ def pred_decode(
                                    right,
                                    bit_stuff)
 
+        if not overrun and (
+            bit_stuff.output * 8 + bit_stuff.bit_count > len(data) * 8
+        ):
+            # values decoded past the end of the data aren't part of the image
+            warnings.warn("Exceeded length of data while decompressing. "
+                          "Padding missing lines with 0.")
+            overrun = True
+            cur_line[:] = bytes(width)
+
         result[y * width:(y + 1) * width] = cur_line
         prev_line[:] = cur_line
 
@@ -892,7 +897,6 @@ def read_bits(bit_count: int, bit_stuff: BitStruct):
         while bit_queue_count < 24:
             if byte_count == queue_size:
                 if bit_queue_count >= bit_count:
-                    byte_count = 0
                     break
                 else:
                     raise ValueError(f"Unable to read bits: {bit_count}")
-- 
2.43.0


From 65bb1e38ff228480569174bb8e3d4842444ab3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 56/66] fix: don't take running text for a PVL assignment

---
 pdr/parselabel/pds3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 07978cc..c190354 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -27,6 +27,8 @@ PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|_GROUP|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][-+]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
+KEYWORDPAT = re.compile(r"\s*[^\s=\"'({]+\s*=")
+"""regex pattern for the beginning of an assignment: keywords have no blanks"""
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
 """regex pattern for format file pointers"""
 
@@ -53,6 +55,8 @@ def is_an_assignment_line(line: str) -> bool:
         if extract_pvl_block_terminal(line) is not None:
             return True
         return False
+    if re.match(KEYWORDPAT, line) is None:
+        return False
     start = line[:8]
     if start != start.upper():
         return False
-- 
2.43.0


From a8f552f5c191f8937cd4ebb0127a8f7ca1117230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 57/66] fix: read ASCII tables whose rows have prefixes or
 suffixes

---
 pdr/loaders/queries.py |  1 +
 pdr/loaders/table.py   | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 0336e36..c6364b0 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -491,6 +491,7 @@ def _table_length(block, identifiers, n_records):
                 record_length = block["RECORD_BYTES"]
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
+                record_length += block.get("ROW_PREFIX_BYTES", 0)
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
             elif identifiers["RECORD_BYTES"] is not None:
                 # TODO, probably, and applicable many more places than here:
diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 20fdd1e..062bed2 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -284,6 +284,33 @@ def _read_table_from_stringio(
     return pd.read_fwf(string_buffer, header=None, delimiter=PAD_CHARACTERS)
 
 
+def _blank_row_fixes(text: str, block: MultiDict) -> str:
+    """
+    Blank out row prefixes and suffixes, which aren't part of any column, of
+    an ASCII table's text. Keeps everything else at its position. If the
+    text's lines don't match the row sizes given by the label, leave it alone.
+    """
+    sizes = [
+        block.get(f"ROW{part}_BYTES", 0) for part in ("_PREFIX", "", "_SUFFIX")
+    ]
+    if not all(isinstance(size, int) for size in sizes) or sizes[1] <= 0:
+        return text
+    prefix, row, suffix = sizes
+    if prefix + suffix <= 0:
+        return text
+    width = prefix + row + suffix
+    rows = [text[i:i + width] for i in range(0, len(text), width)]
+    if any(r[-1] != "\n" for r in rows[:-1]):
+        return text
+    blanked = []
+    for r in rows:
+        body = r.rstrip("\r\n")
+        end = r[len(body):]
+        body = " " * prefix + body[prefix:prefix + row]
+        blanked.append(body.ljust(len(r) - len(end)) + end)
+    return "".join(blanked)
+
+
 def _interpret_as_ascii(
     fn: str,
     fmtdef: pd.DataFrame,
@@ -297,9 +324,10 @@ def _interpret_as_ascii(
                 f, nbytes=table_props["length"], offset=table_props["start"]
             )
             try:
-                stringbuf = StringIO(bytesbuf.read().decode())
+                text = bytesbuf.read().decode()
             finally:
                 bytesbuf.close()
+            stringbuf = StringIO(_blank_row_fixes(text, block))
         else:
             if table_props["start"] > 0:
                 [next(f) for _ in range(table_props["start"])]
-- 
2.43.0


From e1abbcc9eff640b42f77bb732ae881f3958af932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 58/66] fix: read standalone line prefix tables at their own
 image's position

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index c6364b0..3248421 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -968,6 +968,6 @@ def standalone_start_byte(
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
-- 
2.43.0


From 46feb396dca4f6267b9fbd27dbe2681d3368bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 59/66] fix: keep line prefix tables in step with padded
 prefixes and line suffixes

---
 pdr/loaders/queries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3248421..f9cd8c1 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -313,9 +313,13 @@ def _fix_up_line_prefix_table_block(
     block = MultiDict(format_block)
     if "ROWS" not in block.keys():
         block["ROWS"] = block["LINES"]
+    if "ROW_BYTES" not in block.keys() and "LINE_PREFIX_BYTES" in block.keys():
+        # the prefix may be longer than the columns it contains
+        block["ROW_BYTES"] = block["LINE_PREFIX_BYTES"]
     if "ROW_SUFFIX_BYTES" not in block.keys():
         block['ROW_SUFFIX_BYTES'] = (
             block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
+            + block.get("LINE_SUFFIX_BYTES", 0)
         )
     return block
 
-- 
2.43.0


From bda7a2dce43cd7804692a8cc9d8b4a80af63c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 60/66] fix: find the file of a line prefix table that only its
 image's label implies

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 6c7a371..dd43e9b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -486,6 +486,9 @@ class Data:
         )
         if is_special is True:
             return self.get_absolute_paths(special_target)
+        if object_name in self._interleaved_objects:
+            # stored inside its parent object, so in its parent's file
+            object_name = self._interleaved_objects[object_name]["parent"]
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
-- 
2.43.0


From 6f913a355cc69b737ba7db8457d13b5b60e055e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:33 +0000
Subject: [PATCH 61/66] fix: keep large ASCII_INTEGERs of ARRAYs exact

---
 pdr/loaders/table.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 062bed2..ec37b18 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -77,10 +77,15 @@ def read_array(fn, block, start_byte, fmtdef_dt):
         if re.search(r"\w", re.sub(pattern, "", text[:matches[-1].end()])):
             raise ValueError("can't find the elements of this ASCII array")
     numbers = [match.group() for match in matches]
-    array = np.array(
-        [float(re.sub("[Dd]", "E", number)) for number in numbers]
-    ).reshape(block["AXIS_ITEMS"])
     data_type = block.get("DATA_TYPE", "ASCII_REAL")
+    if data_type == "ASCII_INTEGER" and all(
+        re.fullmatch(r"[+-]?\d+", number) for number in numbers
+    ):
+        # not all integers survive conversion to float
+        values = [int(number) for number in numbers]
+    else:
+        values = [float(re.sub("[Dd]", "E", number)) for number in numbers]
+    array = np.array(values).reshape(block["AXIS_ITEMS"])
     if data_type == "ASCII_INTEGER":
         array = array.astype("int64")
     elif data_type != "ASCII_REAL":
-- 
2.43.0


From b9f28c150e57cd57264712fa70b892ab7160c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 62/66] fix: read blanks between numbers of ASCII tables as
 missing numbers

---
 pdr/loaders/table.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index ec37b18..8ac1a1c 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -198,10 +198,24 @@ def _read_as_delimited(
     for c, d in zip(table.columns, table.dtypes):
         # string data is "object" in pandas < 3 and "str" in pandas > 3
         if d.name in ("object", 'str'):
-            table[c] = table[c].str.strip(PAD_CHARACTERS)
+            table[c] = _with_blank_numbers(table[c].str.strip(PAD_CHARACTERS))
     return table
 
 
+def _with_blank_numbers(text: pd.Series) -> pd.Series:
+    """
+    If everything in a text column is a number except for some blanks, treat
+    the blanks as missing numbers.
+    """
+    blank = text == ""
+    if blank.all() or not blank.any():
+        return text
+    try:
+        return pd.to_numeric(text.mask(blank))
+    except (TypeError, ValueError):
+        return text
+
+
 def read_strictly_fixed(string_buffer, specs, padchars=PAD_CHARACTERS):
     from collections import defaultdict
     from more_itertools import windowed
-- 
2.43.0


From 082ab8cfd99bf9cc05bad0e8ba3497424b7362ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 63/66] fix: keep blank rows of ASCII tables

---
 pdr/loaders/table.py | 45 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 8ac1a1c..51d04cc 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -4,7 +4,7 @@ TABLE/SPREADSHEET/ARRAY/HISTOGRAM loading.
 """
 from __future__ import annotations
 from io import StringIO
-from typing import Optional, TYPE_CHECKING
+from typing import Callable, Optional, TYPE_CHECKING
 
 import numpy as np
 import pandas as pd
@@ -178,16 +178,38 @@ def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     return table
 
 
+def _read_text(
+    reader: Callable[..., pd.DataFrame],
+    string_buffer: StringIO,
+    n_rows: Optional[int],
+    **kwargs
+) -> pd.DataFrame:
+    """
+    Call a pandas text reader. pandas skips blank lines by default, but if the
+    table is too short without them, they're rows of the table.
+    """
+    table = reader(string_buffer, header=None, **kwargs)
+    if isinstance(n_rows, int) and len(table) < n_rows:
+        string_buffer.seek(0)
+        full = reader(
+            string_buffer, header=None, skip_blank_lines=False, **kwargs
+        )
+        if len(full) == n_rows:
+            return full
+    return table
+
+
 def _read_as_delimited(
     sep: str,
     string_buffer: StringIO,
-    fmtdef: pd.DataFrame
+    fmtdef: pd.DataFrame,
+    n_rows: Optional[int] = None
 ) -> Optional[pd.DataFrame]:
     """
     Attempt to read an ASCII table as a delimiter-separated file. We always
     try this first before moving to a fixed-width parser.
     """
-    table = pd.read_csv(string_buffer, sep=sep, header=None)
+    table = _read_text(pd.read_csv, string_buffer, n_rows, sep=sep)
     # TODO: adding this 'PLACEHOLDER' check has allowed many tables to use
     #  read_csv() instead of read_fwf(), which is generally preferable
     #  because read_fwf() is very slow. This may also be able to invalidate
@@ -240,7 +262,9 @@ def read_strictly_fixed(string_buffer, specs, padchars=PAD_CHARACTERS):
 
 
 def _read_fwf_with_colspecs(
-    fmtdef: pd.DataFrame, string_buffer: StringIO
+    fmtdef: pd.DataFrame,
+    string_buffer: StringIO,
+    n_rows: Optional[int] = None
 ) -> pd.DataFrame:
     """
     Attempt to read an ASCII table as a fixed-width file using column
@@ -267,9 +291,10 @@ def _read_fwf_with_colspecs(
     # an actual delimiter. It defines characters the read_fwf parser
     # will treat as 'padding' and strip from each table element.
     # return read_strictly_fixed(string_buffer, colspecs, PAD_CHARACTERS)
-    table = pd.read_fwf(
+    table = _read_text(
+        pd.read_fwf,
         string_buffer,
-        header=None,
+        n_rows,
         colspecs=colspecs,
         delimiter=PAD_CHARACTERS
     )
@@ -289,12 +314,16 @@ def _read_table_from_stringio(
     # TODO, maybe: add better delimiter detection & dispatch
     try:
         sep = check_explicit_delimiter(block)
-        return _read_as_delimited(sep, string_buffer, fmtdef)
+        return _read_as_delimited(
+            sep, string_buffer, fmtdef, block.get("ROWS")
+        )
     except (IndexError, UnicodeError, AttributeError, ParserError):
         string_buffer.seek(0)
     if "BYTES" in fmtdef.columns:
         try:
-            return _read_fwf_with_colspecs(fmtdef, string_buffer)
+            return _read_fwf_with_colspecs(
+                fmtdef, string_buffer, block.get("ROWS")
+            )
         except (pd.errors.EmptyDataError, pd.errors.ParserError):
             string_buffer.seek(0)
     # last-ditch fallback if we don't have column specifications or using the
-- 
2.43.0


From e271ed3d46c11b05b09ef8b35e59df3f76742e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 64/66] fix: notice added and removed keys in
 load_metadata_changes

---
 pdr/pdr.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index dd43e9b..80ef90e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -109,6 +109,10 @@ class Metadata(MultiDict):
         self._metaget_interior = _metaget_factory(self)
         self._metablock_interior = _metablock_factory(self)
 
+    def refresh_fieldcounts(self):
+        """Recount our keys, some of which might be new or gone."""
+        self.fieldcounts = countby(identity, _nested_keys(self))
+
     def metaget(
         self, text: str, default: Any = None, warn: bool = True
     ) -> Any:
@@ -342,6 +346,7 @@ class Data:
     def load_metadata_changes(self):
         if "_metaget_interior" in dir(self):
             self.metadata.refresh_cache()
+            self.metadata.refresh_fieldcounts()
             self.specials = {}
         self._metaget_interior = self.metadata._metaget_interior
         self._metablock_interior = self.metadata._metablock_interior
@@ -1301,6 +1306,16 @@ class Data:
     _metablock_interior: Callable[[str], Mapping]
 
 
+def _nested_keys(mapping: Mapping) -> Iterator[str]:
+    """All keys of `mapping` and the blocks (but not quantities) inside it."""
+    for key, value in mapping.items():
+        yield key
+        if isinstance(value, (dict, MultiDict)) and (
+            set(value) != {"value", "units"}
+        ):
+            yield from _nested_keys(value)
+
+
 def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
 
     @cache
-- 
2.43.0


From 37c7b1fab7be9af442bdd092e5ece0307beb4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 65/66] fix: print metadata that holds long blank text

---
 pdr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 524be8e..0054f6a 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -230,7 +230,8 @@ def prettify_multidict(multi, sep=" ", indent=0):
         elif (not isinstance(v, str)) or (len(v) <= 70):
             output += f"{indentation}{k}: {v},{sep}"
         else:
-            lines = textwrap.wrap(v, width=(70 - len(indentation)))
+            # (which may consist of nothing but blanks)
+            lines = textwrap.wrap(v, width=(70 - len(indentation))) or [""]
             vstr = f"{lines[0]}\n" + "\n".join(
                 [(" " * (indent + 1)) + line for line in lines[1:]]
             )
-- 
2.43.0


From dc8159f7fa6e358fd760557b52a35557c9f904e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 66/66] fix: find FITS objects by record pointers

---
 pdr/loaders/queries.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index f9cd8c1..d543407 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -394,10 +394,8 @@ def get_fits_start_byte(
     elif isinstance(target, (list, tuple)):
         target = target[1]
     if isinstance(target, dict):
-        if target['units'] == 'BYTES':
-            target = target['value']
-        else:
-            target = target['value'] * 2880
+        # we might be looking at either bytes or records
+        target = target['value']
     return _agnostic_fits_index('HEADER' in name, target, hdulist)
 
 
-- 
2.43.0

