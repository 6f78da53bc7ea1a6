"""single source of properties.jsonl: run `python3 tools/props.py` after editing"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["pdr/" + f for f in files], mechanism=[dict(name=" ".join(mechanism.split()), where=files[0])],
                     state=[dict(name=state, meaning="state the property ranges over", where=files[0])] if state else [],
             observe_at=[observe_at], hook_needed=None),
    ))


prop("C01", "PDS3 labels parse to exactly the statements and values they contain", """
For every well-formed PVL label (ODL subset used by PDS3: assignments, OBJECT/GROUP nesting with END_OBJECT/END_GROUP
or bare terminators, comments, multi-line values, any statement order, duplicate keys, LF or CRLF line endings; upper-case keywords, as PDS3 requires), parsing yields exactly
the label's nested blocks, in order and with repeated keys kept, and every value is converted to what PVL says it denotes:
integers, reals, based integers (2#101#), quoted strings and dates/symbols as text, sequences and sets of those, and quantities
as {'value','units'}, including tuples that mix file names and quantities. No statement is lost, duplicated, re-parented or given
another statement's value.""",
     ["inputs", "programs"], "all labels built from the statement alphabet up to the stated nesting depth, length and value menu, in every order",
     """The parser is line- and regex-driven: what happens to a statement depends on its neighbours (continuations,
comments, terminators, '=' or END inside values). Tests parse two fixed labels; only enumerating statement sequences x value kinds x
nesting reaches the interactions.""",
     ["parselabel/pds3.py", "parselabel/utils.py", "utils.py"],
     "chunk_statements -> BlockParser.parse_statements -> literalize_pvl (multidict_dig_and_edit)", "pdr.read(label).metadata and pdr.parselabel.pds3.parse_pvl return values")

prop("C02", "An attached PDS3 label ends exactly at its END statement", """
When a PDS3 label is attached to data, the metadata read is exactly the text up to and including the first END statement, for every label
length, every position of END relative to read-chunk boundaries, every supported terminator style (LF, CRLF, trailing spaces/padding, END followed by
nulls), every kind of following bytes (binary, nulls, more text, text that itself contains END lines), through the same answer whether the
label is attached or detached, and whether the file is plain or compressed. A label larger than pvl_limit is the only reason for losing statements.""",
     ["inputs"], "all label lengths in windows around every read boundary x terminator styles x following-byte patterns x attached/detached",
     "END can fall on any offset relative to the reader's chunking; tests use short detached labels so no boundary is ever crossed.",
     ["parselabel/utils.py", "parselabel/pds3.py", "utils.py"], "trim_label's chunked scan for KNOWN_LABEL_ENDINGS", "pdr.read(file).metadata / read_pvl()")

prop("C03", "PDS3 images decode to exactly the pixels the label describes", """
For every PDS3 IMAGE definition - lines, line samples, bands, band storage type (BAND_SEQUENTIAL, LINE_INTERLEAVED, SAMPLE_INTERLEAVED), SAMPLE_TYPE and SAMPLE_BITS
(signed/unsigned, both byte orders, IEEE and VAX reals), start offset, line prefix/suffix bytes, and any amount of data after the image - the array returned has shape (lines, samples) or
(bands, lines, samples), a dtype of the labelled kind and width, and element [b,l,s] equal to the value stored on disk at the place the label says; bytes before,
between and after are never mistaken for pixels, and prefix/suffix bytes are exactly the ones skipped.""",
     ["inputs", "configurations"], "all combinations of the listed label parameters over small extents (1-3 bands, 1-3 lines, 1-3 samples, all sample types, pads, offsets, trailing bytes)",
     "The layout formulas interact (pads x interleave x type x trailing data); the repository's tests read one 2-D image of one type.",
     ["loaders/image.py", "loaders/queries.py", "datatypes.py", "np_utils.py", "loaders/datawrap.py"], "get_image_properties/process_multiband/extract_linefix", "pdr.read(...)['IMAGE']")

prop("C04", "ISIS qubes, with or without axis planes, decode to the labelled core", """
For every QUBE definition with AXIS_NAME in any of the supported axis orders, CORE_ITEMS, CORE_ITEM_BYTES/TYPE and prefix/suffix planes on at most one axis, the returned object is
the core array ordered (band, line, sample) with each element equal to the stored core item: the prefix/suffix planes never leak into it (they are returned as separate objects);
zero-sized prefixes and suffixes are no-ops; unsupported combinations are refused, never misread.""",
     ["inputs", "configurations"], "all axis orders x extents x item types x suffix/prefix axis x suffix size",
     "Depends on products of axis order, plane position and sizes; no unit test reads a qube.",
     ["loaders/image.py", "loaders/queries.py"], "generic_qube_properties/extract_axplane_metadata/extract_axplanes", "pdr.read(...)['QUBE'] and its {..}_PREFIX/_SUFFIX objects")

prop("C05", "Binary PDS3 tables decode to the rows and columns the label describes", """
For every binary TABLE definition - COLUMN DATA_TYPE/START_BYTE/BYTES, gaps and overlaps-free ordering, ITEMS with ITEM_BYTES/ITEM_OFFSET, nested CONTAINERs with REPETITIONS, columns from
^STRUCTURE format files, ROW_BYTES larger than the columns, ROW_PREFIX/ROW_SUFFIX bytes, table offset, trailing bytes - the DataFrame has ROWS rows, one uniquely named column per
labelled (item of a) column in label order, and every cell equals the stored value, with SCALING_FACTOR/OFFSET applied only where pdr documents it.""",
     ["inputs", "configurations"], "all column-list shapes over the type alphabet up to 3-4 columns x gaps x items x containers x pads",
     "Offset computation is cumulative: an error shows only for particular column neighbours; tests load one fixed table.",
     ["loaders/table.py", "loaders/queries.py", "pd_utils.py", "loaders/datawrap.py"], "parse_table_structure -> compute_offsets -> insert_sample_types_into_df -> np_from_buffered_io", "pdr.read(...)['TABLE']")

prop("C06", "ASCII tables and spreadsheets decode to the values in the text", """
For every ASCII TABLE (fixed width) or SPREADSHEET (delimited) definition - field widths, gaps, delimiters, padding, quoting, row terminators LF/CRLF, prefix bytes, table start offset by record,
byte or line, trailing text - the DataFrame has exactly ROWS rows and one column per labelled field, every cell equal to the text of that field, with fields that hold only numbers numeric and character fields stripped
text; neighbouring objects in the same file are not consumed.""",
     ["inputs", "configurations"], "all field-type lists x delimiter x padding x terminator x offset form x trailing data",
     "Row/byte/line offsets, delimiter sniffing and fallback parsing paths interact; tests read one fixed table.",
     ["loaders/table.py", "loaders/queries.py", "loaders/_helpers.py", "pd_utils.py"], "read_table/_interpret_as_ascii/table_position", "pdr.read(...)['TABLE' / 'SPREADSHEET']")

prop("C07", "Bit columns decode to exactly the labelled bits", """
For every table column with BIT_COLUMNs, each row's entry is the list of bit fields in label order, each equal to the labelled START_BIT/BITS slice of the
column's bytes taken most-significant-bit first for MSB types (and as documented for LSB types), over all byte values and every partition of 8/16/32 bits, inside CONTAINERs and with multi-item bit columns.""",
     ["inputs"], "all single bit fields (start, length) and all partitions into up to 3 fields of 1-4 byte columns, over all boundary byte patterns",
     "Every (start, length, byte value) triple matters; tests check three fixed values.", ["bit_handling.py", "loaders/handlers.py", "loaders/table.py"],
     "expand_bit_strings/convert_to_full_bit_string/splice_bit_string", "pdr.read(...)['TABLE'] column values")

prop("C08", "Numeric formats map to the right type and value for every bit pattern class", """
sample_types gives, for every PDS3 type name and byte width it accepts, the dtype with that kind, byte order and size, identically for image and table use;
IBM-float, VAX-float, EBCDIC and boolean conversion return the mathematically specified value for every sign/exponent/fraction class, leave other columns untouched, preserve
order and length, and refuse rather than guess for unsupported widths.""",
     ["inputs"], "all type names x widths, all IBM/VAX exponents x boundary fractions x signs, all 256 EBCDIC codes",
     "Finite but too large for hand-written cases: exponents, fraction boundaries and type aliases must all agree with the format definition.",
     ["datatypes.py", "np_utils.py", "pd_utils.py"], "sample_types, ibm_to_np, convert_ibm_reals, rms-vax wrapper, convert_ebcdic, booleanize", "sample_types()/ibm32_to_np_f32/64 and table values via pdr.read")

prop("C09", "Pointers in every legal form select the same bytes", """
Whatever legal form a data pointer takes - record number, byte count with units, file name, file name plus record or bytes, quoted or tuple form, any RECORD_BYTES, attached or
detached, for images, tables, headers and text, with or without a FILE object around it - pdr starts reading at exactly the byte the label names, so all equivalent forms give the identical object.""",
     ["inputs", "configurations"], "all pointer forms x object types x offsets x record sizes x attachment",
     "One dispatch of isinstance cases per loader; tests exercise two of the forms for one object.", ["loaders/queries.py", "loaders/_helpers.py", "pdr.py", "parselabel/pds3.py"],
     "data_start_byte, quantity_start_byte, table_position, _target_path", "pdr.read(...)[name]")

prop("C10", "Data behaves as a lazily loaded mapping after any operation history", """
After any sequence of attribute access, item access, load, load with reload, load_all, get_scaled, keys, len, iteration, membership tests and failed operations, a Data object is observably
equal to the simple model: index never changes except by declared loads (FITS/derived planes), an object is loaded at most once unless reload is asked, loaded values equal a fresh
read regardless of the order of access, unloaded() is exactly the not-yet-loaded names, loading one object never changes another or the metadata, and unknown names raise KeyError/AttributeError without changing state.""",
     ["histories"], "all operation sequences up to the stated depth over a product with several object kinds, explored breadth-first to closure of the model state space",
     "The defect class is history dependent (load twice, access after failed load, iterate while loading); tests run one history per object.", ["pdr.py"],
     "Data.__getattribute__/__getitem__/load/load_all/_loaded state", "public Data API", "Data.__dict__, index, loaders, _scaleflags")

prop("C11", "A missing, truncated or corrupt file affects only the objects stored in it", """
For every subset of a product's files being missing, unreadable, empty or truncated at any point, opening the product succeeds, metadata is intact, objects in other
files load exactly as without the fault, and each affected object fails loudly - PDS3 objects with a warning, falling back to the object's label block or to an intact leading part of the stored data, PDS4 objects with an exception -
instead of returning wrong-shaped or silently wrong data; nothing else raises.""",
     ["fault_sequences", "crash_points"], "every subset of files x fault kind x every truncation length of the small product, x order of access",
     "Needs every fault placement; tests have a single missing-file case.", ["pdr.py", "loaders/datawrap.py", "utils.py", "loaders/queries.py", "np_utils.py"],
     "Data.load error handling, check_cases, _target_path", "pdr.read, load, warnings, attributes")

prop("C12", "Companion files are found regardless of letter case, location, search path", """
Opening by label finds each data file, and each format file, whenever exactly one candidate exists under any letter case (data files also under any compression suffix), in the label's directory, the given search paths, or
(for format files) LABEL directories; opening by an uncompressed data file finds the label beside it that shares its stem, in any letter case; the exact-name file wins over variants; an explicitly given label is always used; and nothing outside those locations is picked up.""",
     ["configurations"], "all file-name case variants x compression suffix x directory placement x decoy files x ways of opening", "File-system layouts multiply; tests use a single directory with matching names.",
     ["utils.py", "pdr.py", "loaders/queries.py"], "check_cases, associate_label_file, find_repository_root, inject_format_files", "pdr.read(...)")

prop("C13", "Compression is transparent", """
For every supported object kind of PDS3 products (image, qube, table, spreadsheet, array, text, header, labelled FITS), for unlabelled gzipped FITS files, and every supported compression (gzip, bzip2, zip), reading the compressed file gives results identical to reading
the uncompressed one, for attached and detached labels, any start offset, and any data size relative to internal buffer sizes.""",
     ["configurations"], "all object kinds x compressions x offset/trailing shapes x attachment", "Every loader has its own file-opening path; tests use uncompressed files only.",
     ["utils.py", "np_utils.py", "loaders/table.py", "loaders/text.py", "loaders/image.py", "loaders/handlers.py"], "decompress(), np_from_buffered_io", "pdr.read(...)")

prop("C14", "Metadata queries answer from the label, first match in order, and never go stale", """
metaget, metaget_, metaget_fuzzy, metablock(_), item access, keys and fieldcounts agree with a simple search of the nested label, outermost level first and in label order within a level, for every key, at any nesting, with duplicates: the
first occurrence is returned (the default when there is none) and a DuplicateKeyWarning is issued exactly when a warning variant is asked about a key occurring more than once; results do not depend on which queries were made before, and label changes (changed, added or removed keys) are visible once they are
announced with load_metadata_changes. str() and repr() of the metadata show every key and value of every level, in order.""",
     ["histories", "inputs"], "all small nested multi-key trees x all query sequences up to depth 2-3", "Memoised answers depend on query history; tests ask one query.", ["pdr.py", "utils.py"],
     "Metadata.metaget/_metaget_interior/metablock (memoized)", "Data.metadata and Data.metaget*")

prop("C15", "Scaling and masking are exact, non-destructive and history independent", """
get_scaled(name) equals value*SCALING_FACTOR+OFFSET for every element not equal to a labelled (or default) special constant, with special constants masked, for every sample type, bands with
per-band factors, and any integer range (no silent wrap-around: a result that cannot be represented raises); it never modifies the loaded object unless inplace is asked, gives the same answer on every call and after any history of other calls, and is the identity when no scaling and no special constants are labelled.
For PDS4 arrays, special constants are masked where a scaling factor or offset is labelled.""",
     ["inputs", "histories"], "all sample types x boundary values x factor/offset menu x special-constant menu x call histories", "Overflow, masking and caching interact; tests check one array.",
     ["_scaling.py", "pdr.py", "datatypes.py"], "find_special_constants, mask_specials, scale_pds3_tools etc.", "Data.get_scaled", "Data._scaleflags")

prop("C16", "Browse products show the object and never change it", """
dump_browse writes, for every loaded object and no unloaded one, exactly the documented files (an image file for arrays, csv for tables, txt/xml for text, label), whose content is a linear 8-bit rendering of the array - one band or an RGB triple, clipped at the given percentiles, masked elements
marked in the mask colour - or the full table/text; repeated dumps in any order, with any scaled option, produce the same files and leave the Data object unchanged unless purge is asked (after which objects can be loaded again).""",
     ["inputs", "histories"], "all object kinds x scaled options x dump histories; all small arrays for the renderer over the value alphabet incl. nan/inf/masked", "Rendering corner cases (constant, masked, non-finite) and repeated dumps; tests cover one array.",
     ["browsify.py", "pdr.py"], "dump_browse/browsify/normalize_range/eightbit/colorfill", "files written, show() output")

prop("C17", "FITS products expose every HDU under one stable name, with its own header", """
For every FITS file, unlabelled or described by a PDS3 or PDS4 label, every HDU is listed once: in unlabelled files under its EXTNAME (PRIMARY for the first; repeated names numbered in file order; a name of one of Data's own attributes gets a number; unnamed extensions get any unique name), else under its pointer or identifier.
The object is the HDU's image, binary table or ASCII table with BSCALE/BZERO/TSCAL/TZERO applied (get_scaled returns the same), under any access order and after reloads. {name}_HEADER is that HDU's header, unless another object has that name in its own right. Illegal cards don't hide the others.""",
     ["inputs", "configurations"], "all HDU-list shapes up to length 3-4 over the HDU kind alphabet x names incl. duplicates x access orders", "The mapping name->HDU is positional and shared between loaders; tests use one two-HDU file.",
     ["loaders/handlers.py", "loaders/queries.py", "pdr.py", "loaders/datawrap.py"], "hdu_byte_index/handle_fits_file/unpack_fits_headers/reindex_dupe_names", "pdr.read(fits)")

prop("C18", "PDS4 arrays, tables and labels decode as their XML describes", """
For every PDS4 label with Array/Array_2D/Array_3D and Table_Binary/Table_Character/Table_Delimited/Header objects - data types, byte orders, offsets, axis order, groups with
repetitions, uniformly sampled gaps, bit masks, scaling, special constants - every object is available under its local identifier or name, equal to the stored values (missing values of delimited tables marked as such, trailing blanks and nulls of text
not kept), every table column under its own name, and metadata has all label elements with repeats of one element in order.""",
     ["inputs", "configurations"], "all data types x extents x offsets x field/group shapes up to the bound", "Layout arithmetic in the vendored reader and in pdr's wrapping; tests parse one label.",
     ["pds4_tools/reader/read_tables.py", "pds4_tools/reader/read_arrays.py", "pds4_tools/reader/data_types.py", "parselabel/pds4.py", "pdr.py", "loaders/handlers.py"], "pds4_read + Data._init_pds4", "pdr.read(xml)")

prop("C19", "Desktop-format images decode to their pixels, in label-free and labelled use", """
For each desktop format pdr can open directly or by label (PNG, TIFF, JPEG, GIF, BMP, WebP, JPEG 2000, MPO), each pixel mode, and single or multi-frame files, the array equals the file's pixels (palettes resolved, bands first) whatever the order frames are asked for in,
every frame is its own object, metadata describes the file, and a labelled image opens the same with or without an object block, scaled as its label says.""",
     ["inputs", "configurations"], "all formats x modes x sizes x frame counts", "mode/frames branches; tests do three files.", ["loaders/handlers.py", "pil_utils.py", "pdr.py", "loaders/image.py"], "open_with_pillow/unpack", "pdr.read(png...)")

prop("C20", "softquery fills each metadata field by its own query, independent of order", """
For every acyclic assignment of query functions to fields, softquery calls each query at most once, with exactly the argument values the signature asks for, honours already-provided values and None returns, calls the queries in a fixed order that depends only on the declaration, and the result does not depend on hash seed; specialize() tries each check in order and the first special result wins, otherwise the wrapped function's own result is returned.""",
     ["programs", "inputs"], "all dependency graphs over up to 4-5 queries x declaration orders x provided subsets x None-returning subsets", "Order-dependence needs all graphs and orders; tests have one graph.", ["func.py"],
     "softquery/sig_union/get_all_argnames/call_kwargfiltered/specialize", "pdr.func.softquery/specialize results")

prop("C21", "Data objects are independent under any interleaving of their users", """
Two Data objects - of different products, of products with the same names and other content, or of the very same files; in one thread or two - never influence each other. Under every interleaving of their operations (opening, loading, scaling, browse output,
metadata queries, editing in place what was returned, dropping the object, failing) and every thread schedule up to two preemptions, each operation returns exactly what it returns when its user is alone,
and whatever one user did, every other product reads as in a fresh process.""",
     ["schedules", "histories"], "all interleavings of two operation histories; all two-thread schedules with one preemption at every line of pdr executed and with two at lines touching shared state", "Interference needs particular interleavings of module-level state (caches, trackers, scratch buffers, library switches); tests are sequential with one object.",
     ["pdr.py", "loaders/datawrap.py", "utils.py", "loaders/handlers.py", "func.py", "formats/msl_edr.py"], "module-level state, memoisation, trackers, default arguments, library switches", "results of two Data objects", "module globals, Loader.tracker, default args")

prop("C22", "Every object definition gets its own unique, stable name bound to its own data", """
For every PDS3 label with any multiset of pointers and object definitions - repeated names, FILE objects, names that already end in _0, keywords of the same name, surplus or missing definitions - keys() lists each data object exactly once under a unique name (repeats numbered in label order, a unique name unchanged);
the n-th duplicate pointer is paired with the n-th definition of that name in its block, and data, metadata block and pointer of a name belong together. PDS4 structures are listed once each in label order under unique names that replace no attribute of Data, each bound to its own data.""",
     ["inputs"], "all pointer multisets up to 4 pointers over the name alphabet x statement orders", "Renaming edits the whole tree once per duplicate; collisions need specific multisets.", ["parselabel/pds3.py", "pdr.py"], "index_duplicate_pointers/_find_objects", "Data.keys, Data[name]")

prop("C23", "Debug mode changes reporting, never results", """
For every product and operation history, a Data opened with debug=True returns the same objects, index and metadata as one opened without, differing only in that failures raise or are recorded in the tracker.""",
     ["histories", "configurations"], "all products of the corpus x histories x debug flag", "Two execution paths (cached/uncached, tracked/untracked) must agree everywhere; tests use one mode.", ["pdr.py", "loaders/datawrap.py", "loaders/utility.py", "func.py"],
     "debug flag and TrivialTracker/Tracker", "pdr.read(..., debug=True)")

prop("C24", "Text, header and label objects return exactly the labelled text", """
HEADER objects return exactly the stored characters of their labelled byte or line range (BYTES, RECORDS x RECORD_BYTES, ROWS, or lines of a STREAM file), wherever the pointer puts its start and whatever comes before and behind; TEXT/DESCRIPTION/CATALOG objects return the whole
text of the file they name; LABEL returns the label itself up to END. Line contents come in order with every line ending as a newline, bytes of headers are never dropped, and text that cannot be decoded or found is refused with a warning, not altered.""",
     ["inputs", "configurations"], "all offsets x lengths x terminators x encodings x pointer forms", "Offset and length pairs; not covered by tests.", ["loaders/text.py", "loaders/datawrap.py", "loaders/queries.py"], "read_text/read_header/read_label", "pdr.read(...)[name]")

prop("C25", "ARRAY, HISTOGRAM and similar small objects decode to the labelled elements", """
For every ARRAY (of a primitive type, or of ELEMENTs, COLLECTIONs or nested ARRAYs with any START_BYTE gaps and padding, binary or ASCII) and HISTOGRAM definition - AXES/AXIS_ITEMS, item types, byte order, start offset, compression - the object returned has the labelled shape, element names and types,
and every element, in order, equals the stored value; what pdr cannot represent, and arrays the file is too short for, are refused with a warning, never misread.""",
     ["inputs", "configurations"], "all nestings up to depth 2 x types x extents", "Recursive structure parsing is untested.", ["loaders/table.py", "loaders/queries.py", "pd_utils.py"], "read_array/parse_array_structure", "pdr.read(...)['ARRAY']")

prop("C26", "Mission special cases never leak into products they do not describe", """
Special-case handling for a mission's quirks fires only for the products and objects it describes: every product for which some identifying condition of each special case fails - whatever its object names, file and directory names, or the values and types of unrelated metadata are - is read generically:
indexed as labelled, every object equal to its stored bytes, metadata decoded as for any other label, no special constants, no errors or warnings.""",
     ["inputs", "configurations"], "every term of every special case's condition with each atom violated in every way of a menu and the others satisfied; every trigger value alone, moved to other fields, or paired with another mission's", "Checks are hundreds of string predicates; operator precedence or substring slips show only for particular metadata values.",
     ["formats/checkers.py", "loaders/dispatch.py", "loaders/queries.py"], "check_special_* predicate chains", "pdr.read(...) of generic products")

prop("C27", "Decompression of MSL camera EDRs and MGS MOC images inverts their encoding", """
For every MSL camera .DAT stream (raw 8/16 bit, thumbnail, predictive, JPEG) and every MGS MOC .IMQ stream (uncompressed, X- or Y-predictive with any of the eight Huffman tables, DCT with any levels, groups and coefficient tables), whatever its fragmentation,
the image read is exactly the one the stream encodes, rows and columns included. Where the stream ends early the read fails, or the complete rows, strips and blocks are exact and everything after them is absent or 0 (with a warning for MOC); damage inside one 128-line MOC block leaves the other blocks exact.""",
     ["inputs"], "all methods x tables x sizes x contents covering every codeword; every fragmentation kind, every cut position and damage at grid positions", "Bit-level state machines, tables and resynchronisation, not covered by tests.", ["formats/msl_edr.py", "formats/mgs_moc.py", "formats/checkers.py"], "bitstream decoders", "decoder functions through pdr.read")

prop("C28", "Tables in image lines' prefixes decode to their rows beside the intact image", """
For every image whose lines carry one table row each in their prefixes - whatever the columns, the padding after them, the sample type, a line suffix, the image's name and start, one image or more - and every way to describe that table (a structure named in the image's definition,
a pointer at the image's own position with or without a definition of its own; format files of bare columns or with a TABLE around them), the table is listed once beside its image, has one row per line with every column equal to the stored values, and the image keeps all its pixels.""",
     ["inputs", "configurations"], "all column lists x layouts x descriptions up to the bound", "The table is assembled from two definitions and an implied name; not covered by tests.",
     ["loaders/queries.py", "pdr.py", "loaders/dispatch.py"], "line prefix table queries, _interleaved_objects", "pdr.read(...)['IMAGE_LINE_PREFIX_TABLE']")

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
