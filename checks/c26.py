"""C26: special cases for particular missions fire only for the products they describe.

Reference model: mc/missions.py states, as conditions over label identifiers, object name and file name, which products each special case is meant for. A product matching none of them must be read generically:
indexed as labelled, every object equal to its stored bytes, quietly. Every condition's every term is enumerated with each of its atoms violated in every way of the menu (absent, generic, damaged, prefixed, extended,
lower-cased, moved into another field, not a string) while all other atoms hold."""
import re
import struct
from pathlib import Path

import numpy as np

from mc import fitsw, pds, pds4w, tables as T
from mc.core import Fail, Space, product, require, short
from mc.missions import RULES

ASSUMPTIONS = ["mc/missions.py states the intended condition of each special case (written down from the code's conditions and comments, with the contradictions between the two listed in DESIGN.md)",
               "what a special case does to the products it describes is not decided here"]
STR_FIELDS = ["DATA_SET_ID", "DATA_SET_NAME", "DATA_QUALITY_DESC", "FILE_NAME", "INSTRUMENT_ID", "INSTRUMENT_HOST_NAME", "INSTRUMENT_NAME", "NOTE", "PRODUCT_ID", "PRODUCT_TYPE", "SPACECRAFT_NAME", "STANDARD_DATA_PRODUCT_ID"]


# ------------------------------------------------------------------ conditions
def holds(cond, env):
    op = cond[0]
    if op == "and":
        return all(holds(c, env) for c in cond[1:])
    if op == "or":
        return any(holds(c, env) for c in cond[1:])
    got, val = env.get(cond[1], ""), cond[2]
    if op == "eq":
        return got == val
    if op == "in":
        return got in val
    got = str(got)
    return {"has": lambda: val in got, "nothas": lambda: val not in got, "starts": lambda: got.startswith(val), "ends": lambda: got.endswith(val),
            "match": lambda: re.match(val, got) is not None, "search": lambda: re.search(val, got) is not None}[op]()


def own(fields, name, files, extra=None, skip=()):
    """the special cases this object of this product belongs to"""
    for where, cond in RULES:
        if where in skip:
            continue
        for fn in files:
            if holds(cond, {**fields, **(extra or {}), "name": name, "fn": fn}):
                return where
    return None


def terms(cond):
    if cond[0] == "or":
        return [t for c in cond[1:] for t in terms(c)]
    if cond[0] == "and":
        out = [[]]
        for c in cond[1:]:
            out = [a + b for a in out for b in terms(c)]
        return out
    return [[cond]]


WITNESS = {"(HEADER|DATA)_TABLE": ["HEADER_TABLE", "DATA_TABLE"], "MER[12]-M-RSS-1-EDR-V1.0": ["MER1-M-RSS-1-EDR-V1.0"], "GP-J-(NMS|ASI)-3-ENTRY-V1.0": ["GP-J-NMS-3-ENTRY-V1.0"],
           "VEGA.-C-PUMA.*": ["VEGA1-C-PUMA1"], "MRO-M-MCS-(4-RDR|2-EDR)-V1.0": ["MRO-M-MCS-4-RDR-V1.0", "MRO-M-MCS-2-EDR-V1.0"], "CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)": ["CO-CAL-ISS", "CO-S-ISSNA/ISSWA-2"],
           "IHW-C-MSNRDR-3-RDR-HALLEY-(ETA-AQUAR|ORIONID)-V1.0": ["IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0"], "MECA-EM1[012]": ["MECA-EM11"]}


def witnesses(atom):
    op, _, v = atom
    if op == "in":
        return list(v)
    if op in ("match", "search"):
        return WITNESS.get(v) or v.split("|")[:3]
    return [v]


def join(atoms):
    """a string satisfying all these atoms of one field (None: none found)"""
    if not atoms:
        return None
    for a in atoms:
        if a[0] in ("eq", "in"):
            return witnesses(a)[0]
    pos = sorted((a for a in atoms if a[0] != "nothas"), key=lambda a: {"starts": 0, "match": 0, "has": 1, "search": 1, "ends": 2}[a[0]])
    if not pos:
        return None
    return "_".join(witnesses(a)[0] for a in pos)


def near(v):
    """strings close to v"""
    if not isinstance(v, str):
        return [v + 1, 0, None]
    mid = len(v) // 2
    return [None, v + "X", "X" + v, v[:-1], v[1:], v.lower(), v[:mid] + "~" + v[mid + 1:], v.replace(" ", "_"), v.replace("_", "-"), v.replace("-", ""), "GENERIC", v + "1", v.replace("1", "9")]


def assignments():
    """(rule number, {field: value} fulfilling one term of it)"""
    for i, (where, cond) in enumerate(RULES):
        for t in terms(cond):
            yield i, where, t, {f: join([a for a in t if a[1] == f]) for f in {a[1] for a in t}}


# ------------------------------------------------------------------ templates
WORDS = ("TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM", "HISTOGRAM", "FILE")


def kind_of(name):
    if any(w in name for w in ("TEXT", "FILENAME", "DESC")):
        return "text"
    if "ARRAY" in name:
        return "array"
    if any(w in name for w in WORDS) and not any(w + "_HEADER" in name for w in WORDS) and "HISTOGRAM_IMAGE" not in name:
        return "histogram" if "HISTOGRAM" in name else "spreadsheet" if "SPREADSHEET" in name else "table"
    if "HEADER" in name:
        return "header"
    if "QUB" in name:
        return "qube"
    if ("IMAGE" in name or "XDR_DOCUMENT" in name) and "PREFIX" not in name:
        return "image"
    return "other"


ELS = [dict(k="col", name="WORD", type="CHARACTER", nb=4), dict(k="col", name="COUNT", type="LSB_INTEGER", nb=4), dict(k="col", name="LEVEL", type="PC_REAL", nb=4),
       dict(k="bits", name="FLAGS", type="MSB_BIT_STRING", nb=2, fields=[("LOW", 1, 3), ("NADIR_OFFSET_SIGN", 4, 7)]), dict(k="bits", name="SWAPPED", type="LSB_BIT_STRING", nb=2, fields=[("P", 1, 4), ("Q", 5, 12)]),
       dict(k="items", name="SET", type="MSB_UNSIGNED_INTEGER", nb=2, n=3, pad=0), dict(k="col", name="NUM", type="UNSIGNED_INTEGER", nb=2), dict(k="col", name="RVAL", type="REAL", nb=8)]
PIX = [65535, 1, -5, 1000000, 0, -32768, 255, 254, 7, 100, 99, 3]


def q(v):
    if v is None or isinstance(v, (int, float)):
        return v
    return f'"{v}"'


def table_template(name, d, ascii_=False, structure=None):
    files = {}
    if ascii_:
        rows = [("ab", 12, 2.5), ("cd", -7, 0.25), ("ef", 300, -1.0)]
        raw = b"".join(f"{a:<4}{b:>6}{c:>8}\r\n".encode() for a, b, c in rows)
        cols = [pds.block("OBJECT", "COLUMN", ("NAME", n), ("DATA_TYPE", t), ("START_BYTE", s), ("BYTES", w)) for n, t, s, w in (("WORD", "CHARACTER", 1, 4), ("COUNT", "ASCII_INTEGER", 5, 6), ("LEVEL", "ASCII_REAL", 11, 8))]
        blk = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 3), ("COLUMNS", 3), ("ROW_BYTES", 20)]

        def check(got, what):
            require(list(got.columns) == ["WORD", "COUNT", "LEVEL"] and [tuple(r) for r in got.itertuples(index=False)] == rows, f"{what} differs from stored cells", got.to_dict("list"))
    else:
        raw, cells = T.make_rows(ELS, 4)
        cols = T.statements(ELS, files)
        blk = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 4), ("COLUMNS", len(ELS)), ("ROW_BYTES", T.span(ELS))]

        def check(got, what):
            T.check_frame(got, ELS, cells, what)
    if structure:
        files[structure] = T.fmt_text(cols)
        cols = [("^STRUCTURE", f'"{structure}"')]
    return raw, [pds.block("OBJECT", name, *blk, *cols)], {k: v.encode() if isinstance(v, str) else v for k, v in files.items()}, check


def spreadsheet_template(name):
    raw = b'ab,12,2.5\r\ncd,-7,0.25\r\n"e,f",300,-1.0\r\n'
    want = {"WORD": ["ab", "cd", "e,f"], "COUNT": [12, -7, 300], "LEVEL": [2.5, 0.25, -1.0]}
    fields = [pds.block("OBJECT", "FIELD", ("NAME", n), ("DATA_TYPE", t), ("BYTES", 8)) for n, t in (("WORD", "CHARACTER"), ("COUNT", "ASCII_INTEGER"), ("LEVEL", "ASCII_REAL"))]

    def check(got, what):
        require(type(got).__name__ == "DataFrame" and {k: got[k].tolist() for k in got.columns} == want, f"{what} differs from stored cells", got)
    return raw, [pds.block("OBJECT", name, ("ROWS", 3), ("ROW_BYTES", 30), ("FIELDS", 3), ("FIELD_DELIMITER", '"COMMA"'), *fields)], {}, check


def template(name, opts=None):
    """-> data bytes, object statements, other files, check(value, what), check of get_scaled or None"""
    opts = opts or {}
    kind = kind_of(name)
    if kind == "table":
        return *table_template(name, None, opts.get("ascii"), opts.get("structure")), None
    if kind == "spreadsheet":
        return *spreadsheet_template(name), None
    if kind == "histogram":
        def check(got, what):
            require(np.asarray(got).ravel().tolist() == PIX, f"{what} differs from stored items", got)
        return struct.pack(">12i", *PIX), [pds.block("OBJECT", name, ("ITEMS", 12), ("DATA_TYPE", "MSB_INTEGER"), ("ITEM_BYTES", 4), ("BYTES", 4))], {}, check, None
    if kind == "array":
        def check(got, what):
            require(isinstance(got, np.ndarray) and got.shape == (3, 4), f"{what} is not the labelled array", got)
            require((got["E"] if got.dtype.names else got).ravel().tolist() == PIX, f"{what} differs from stored elements", got)
        return struct.pack(">12i", *PIX), [pds.block("OBJECT", name, ("NAME", '"A"'), ("AXES", 2), ("AXIS_ITEMS", "(3, 4)"), ("INTERCHANGE_FORMAT", "BINARY"),
                                                     pds.block("OBJECT", "ELEMENT", ("NAME", '"E"'), ("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 4)))], {}, check, None
    if kind in ("text", "header"):
        raw = b"First line, \xb0C = 3\r\n  second\r\nOBJECT = X\r\n" if kind == "header" else b"First line = 3\r\n  second\r\nOBJECT = X\r\n"
        want = raw.decode("latin-1").replace("\r\n", "\n")

        def check(got, what):
            require(isinstance(got, str) and got == want, f"{what} differs from stored text", got)
        return raw, ([pds.block("OBJECT", name, ("HEADER_TYPE", "X"), ("BYTES", len(raw)))] if kind == "header" else []), {}, check, None
    if kind == "image":
        def check(got, what):
            pds.check_array(got, (3, 4), PIX, "i", 4, what)
        blk = [("LINES", 3), ("LINE_SAMPLES", 4), ("SAMPLE_TYPE", "LSB_INTEGER"), ("SAMPLE_BITS", 32)]

        def scaled(got, what):
            require(isinstance(got, np.ndarray) and not np.ma.getmaskarray(got).any() and np.asarray(got).ravel().tolist() == PIX, f"get_scaled of {what} differs from stored values", got)
        return struct.pack("<12i", *PIX), [pds.block("OBJECT", name, *blk)], {}, check, scaled
    if kind == "qube":
        # AXIS_NAME (BAND, SAMPLE, LINE): band varies fastest
        arr = np.array(PIX, dtype=">i4").reshape(2, 3, 2)  # line, sample, band
        want = arr.transpose(2, 0, 1)

        def check(got, what):
            pds.check_array(got, (2, 2, 3), want.ravel().tolist(), "i", 4, what)
        return arr.tobytes(), [pds.block("OBJECT", name, ("AXES", 3), ("AXIS_NAME", "(BAND, SAMPLE, LINE)"), ("CORE_ITEMS", "(2, 3, 2)"), ("CORE_ITEM_BYTES", 4), ("CORE_ITEM_TYPE", "MSB_INTEGER"), ("SUFFIX_ITEMS", "(0, 0, 0)"))], {}, check, None

    def check(got, what):
        require(got is not None and not isinstance(got, (np.ndarray, str)) and got.get("SOME_KEY") == 3, f"{what} should be its label's block", type(got), got)
    return pds.filler(60), [pds.block("OBJECT", name, ("SOME_KEY", 3))], {}, check, None


GENERIC = {"DATA_SET_ID": "GEN-X-GCAM-3-V1.0", "PRODUCT_TYPE": "DATA", "PRODUCT_ID": "GEN_1", "INSTRUMENT_ID": "GCAM", "INSTRUMENT_NAME": "GENERIC CAMERA", "INSTRUMENT_HOST_NAME": "GENERIC ONE", "SPACECRAFT_NAME": "GENERIC ONE"}
NAMES = ["IMAGE", "TABLE", "SPREADSHEET", "HEADER", "QUBE", "ARRAY", "TIME_SERIES"]


def write(d, fields, name, fn, opts=None, raw_fields=None):
    """one product; fields: label identifiers (None = absent); raw_fields: label text as is"""
    data, objs, files, check, scaled = template(name, opts)
    opts = opts or {}
    st = [("RECORD_TYPE", "UNDEFINED")]
    for k, v in fields.items():
        if v is not None:
            st.append((k, q(v)))
    for k, v in (raw_fields or {}).items():
        st.append((k, v))
    off = opts.get("offset", 0)
    where = f'"{fn}"' if kind_of(name) == "text" or (not off and opts.get("bare")) else f'("{fn}", {off + 1} <BYTES>)'
    if kind_of(name) == "text":
        off = 0
    st.append((f"^{name}", where))
    Path(d).mkdir(parents=True, exist_ok=True)
    for f, b in files.items():
        (Path(d) / f).write_bytes(b)
    if opts.get("attached"):
        rec = max(len(data), 1)
        path, _ = pds.write_attached(d, fn, lambda n: st[:-1] + [("FILE_RECORDS", n + 1)] * ("FILE_RECORDS" not in fields) + [("RECORD_BYTES", rec), (f"^{name}", n + 1), *objs], rec, data)
        return path, check, scaled
    path = pds.write_detached(d, Path(fn).stem if opts.get("stem") is None else opts["stem"], st + objs, {fn: pds.filler(off) + data})
    return path, check, scaled


def loud(warned):
    """warnings other than about files left open"""
    return [w for w in warned if not w.startswith("ResourceWarning")]


def judge(path, name, check, scaled, ctx):
    data, warned = pds.quiet_read(path)
    require(not loud(warned), "opening warns", warned)
    require(set(data.keys()) == {name, "LABEL"}, "index differs from the label", data.keys())
    got, warned = pds.load(data, name)
    if kind_of(name) != "other":
        require(not loud(warned), f"loading {name} warns", warned)
    check(got, name)
    if scaled is not None:
        with pds.silent():
            scaled(data.get_scaled(name), name)
    ctx.step()
    label, warned = pds.load(data, "LABEL")
    require(isinstance(label, str) and "PDS_VERSION_ID" in label and label.rstrip().endswith("END"), "LABEL is not the label", label, warned)


def options(fields, offset=0):
    o = dict(offset=offset)
    if fields.get("STRUCTURE"):
        o["structure"] = fields["STRUCTURE"]
    if fields.get("INTERCHANGE") == "ASCII":
        o["ascii"] = True
    return o


PSEUDO = ("name", "fn", "STRUCTURE", "INTERCHANGE")


def run(c, ctx):
    vals = c["set"]
    name = c["name"]
    fn = vals.get("fn") or ("GEN.IMG" if c.get("attached") else "GEN.BIN")
    if "/" in fn or not re.fullmatch(r"[A-Za-z0-9][-\w.~]*|_[-\w.~]*", fn):
        return "trivial: not a file name"
    if not re.fullmatch(r"[A-Z]\w*", name):
        return "trivial: not an object name"
    if vals.get("STRUCTURE") and not re.fullmatch(r"[\w.]+", vals["STRUCTURE"]):
        return "trivial: not a file name"
    if fn.upper().endswith((".LBL", ".FIT", ".FITS", ".GZ", ".ZIP", ".PNG", ".TIF", ".JPG", ".XML")):
        return "trivial: file extension selects a reader"
    fields = {k: v for k, v in vals.items() if k not in PSEUDO}
    if not c.get("bare"):
        fields = {**GENERIC, **fields}
    opts = options(vals, c.get("offset", 5))
    kind = kind_of(name)
    extra = {"STRUCTURE": opts.get("structure", ""), "INTERCHANGE": {"table": "ASCII" if opts.get("ascii") else "BINARY", "array": "BINARY"}.get(kind, "")}
    if kind != "table":
        extra["STRUCTURE"] = ""
    present = {k: v for k, v in fields.items() if v is not None}
    if c.get("attached") and kind != "text" and Path(fn).suffix.upper() not in (".DAT", ".IMG", ".TAB", ".IMQ"):
        return "trivial: not a product's extension"
    opts["attached"] = c.get("attached") and kind != "text"
    label = fn if opts["attached"] else Path(fn).stem + ".LBL"
    mine = own(present, name, [fn, label], extra)
    path, check, scaled = write(ctx.dir, fields, name, fn, opts)
    if mine:
        try:
            judge(path, name, check, scaled, ctx)
        except Exception:
            return f"trivial: special ({mine})"
        return f"own, read generically ({mine})"
    judge(path, name, check, scaled, ctx)
    return f"generic {kind}"


def names_for(term, deep):
    at = [a for a in term if a[1] == "name"]
    if not at:
        return NAMES if deep else NAMES[:5]
    out = []
    for a in at:
        for v in witnesses(a):
            out.append(v)
            if a[0] in ("has", "match", "starts"):
                out.append(v + "_B")
            if a[0] in ("has",) and deep:
                out.append("MY_" + v)
    return list(dict.fromkeys(out))


def near_names(term):
    for a in term:
        if a[1] == "name":
            for v in witnesses(a):
                yield from (v + "X", "X" + v, v[:-1], v + "_1", "MY_" + v, v.replace("_", ""))
    yield from ("IMAGE", "TABLE", "HEADER", "SPREADSHEET", "BROWSE_IMAGE", "MY_TABLE", "DATA_HEADER")


def near_cases(deep):
    seen = set()
    for i, where, term, full in assignments():
        if where in ("pds4_cases", "label", "fits_start_byte"):
            continue
        base = {k: v for k, v in full.items() if k != "name"}
        plan = [(n, {}) for n in names_for(term, deep)]
        for n in names_for(term, deep)[: None if deep else 2]:
            for f, v in base.items():
                if v is None:  # only nothas atoms
                    alts = [a[2] for a in term if a[1] == f]
                else:
                    alts = near(v) + ([5, -3.5] if f in STR_FIELDS else [])
                    for a in term:
                        if a[1] == f and a[0] == "in":
                            alts += [x for w in a[2] for x in (near(w)[1:3] if not deep else near(w)[1:])] + ([] if not deep else list(a[2]))
                        elif a[1] == f and a[0] in ("has", "starts", "ends", "match", "search") and isinstance(v, str):
                            for w in witnesses(a):
                                alts += [v.replace(w, x) for x in near(w)[3:7]]
                                if a[0] in ("starts", "match"):
                                    alts.append("A" + v)
                        elif a[1] == f and a[0] == "nothas":
                            alts.append(f"{v}_{a[2]}")
                plan += [(n, {f: x}) for x in alts]
        for n in near_names(term):
            plan.append((n, {}))
        for n, change in plan:
            s = {**base, **change}
            if change and isinstance(next(iter(change.values())), float) and not deep:
                continue
            for bare, attached in ((False, False), (True, True), (True, False), (False, True)):
                if bare != attached and not deep and (change or not bare):
                    continue
                c = dict(rule=i, where=where, set=s, name=n, bare=bare, attached=attached)
                k = repr((sorted(s.items(), key=str), n, bare, attached))
                if k not in seen:
                    seen.add(k)
                    yield c


def vocabulary():
    """every identifier value any special case looks for"""
    out = {}
    for i, where, term, full in assignments():
        for a in term:
            if a[1] not in ("name",) and a[0] != "nothas":
                for w in witnesses(a):
                    out.setdefault(a[1], {})[w] = None
    return {k: list(v) for k, v in out.items()}


def alone_cases(deep):
    names = {}
    for i, where, term, full in assignments():
        for a in term:
            if a[1] == "name":
                for w in witnesses(a):
                    if re.fullmatch(r"[A-Z]\w*", w):
                        names[w] = None
    every = list(names)
    few = NAMES if not deep else every
    for f, vs in vocabulary().items():
        for v in vs:
            for n in few:
                yield dict(set={f: v}, name=n, bare=False)
    for n in every:
        for bare in (False, True):
            yield dict(set={}, name=n, bare=bare)


def moved_cases():
    """values in a field where they mean nothing"""
    voc = vocabulary()
    for f, vs in voc.items():
        for g in STR_FIELDS + ["TARGET_NAME", "MISSION_PHASE_NAME", "fn"]:
            if g != f and f != "STRUCTURE":
                for v in (vs if g != "fn" else [x for x in vs if isinstance(x, str)]):
                    for n in ("TABLE", "IMAGE", "SPREADSHEET"):
                        yield dict(set={g: v}, name=n, bare=False)


def pair_cases():
    """two values that belong to different special cases"""
    voc = vocabulary()
    second = [(f, v) for f in ("PRODUCT_TYPE", "FILE_NAME", "fn", "NOTE", "STANDARD_DATA_PRODUCT_ID", "DATA_SET_NAME") for v in voc.get(f, ())]
    second += [("PRODUCT_ID", v) for v in voc["PRODUCT_ID"]]
    first = [(f, v) for f in ("INSTRUMENT_HOST_NAME", "INSTRUMENT_NAME", "SPACECRAFT_NAME", "INSTRUMENT_ID", "DATA_SET_ID") for v in voc.get(f, ())]
    for f, v in first:
        for g, w in second:
            for n in ("TABLE", "IMAGE") if f != "DATA_SET_ID" else ("TABLE",):
                yield dict(set={f: v, g: w}, name=n, bare=False)


# --------------------------------------------------------- unusual metadata types
LITERALS = ["5", "0", "-3.5", "1979-01-01", "1979-01-01T00:00:00.000", "5.0 <M>", "(1, 2)", '("A", "B")', "{A, B}", '("IMAGE", 3)', "NULL", '"N/A"', '"UNK"', '""', '" "', "16#FF#", '"TIME"', "SUN", "'sym'"]


def run_types(c, ctx):
    name = c["name"]
    raw = {f: c["value"] for f in c["fields"]}
    text = c["value"].strip("\"'")
    if own({f: text for f in c["fields"]}, name, ["GEN.DAT", "GEN.LBL"]):
        return "trivial: special"
    fields = {k: v for k, v in GENERIC.items() if k not in raw} if c["rest"] else {}
    path, check, scaled = write(ctx.dir, fields, name, "GEN.DAT", dict(offset=5), raw)
    judge(path, name, check, scaled, ctx)
    return f"{c['value']} {kind_of(name)}"


def type_cases(deep):
    groups = [[f] for f in STR_FIELDS] + [STR_FIELDS]
    for c in product(dict(fields=groups, value=LITERALS, name=NAMES + ["CAL_TARGET_DATA", "HISTOGRAM", "DATA_DESCRIPTION_TEXT", "PLAIN_IMAGE"] if deep else NAMES, rest=[True, False])):
        yield c


# --------------------------------------------------------- names of directories
def run_dirs(c, ctx):
    """triggers in directory names only"""
    d = ctx.dir / c["folder"]
    name = c["name"]
    if own({}, name, ["GEN.DAT", "GEN.LBL"]):
        return "trivial: special"
    if c["form"] == "attached":
        data, objs, files, check, scaled = template(name)
        if files:
            return "trivial: format files"
        d.mkdir(parents=True)
        path, _ = pds.write_attached(d, "GEN.IMG", lambda n: [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 100), ("LABEL_RECORDS", n), ("NOTE", '"caf\u00e9 \u2713"'), (f"^{name}", n + 1), *objs], 100, data)
    else:
        path, check, scaled = write(d, c["ids"], name, "GEN.DAT", dict(offset=5, structure="GEN.FMT" if kind_of(name) == "table" else None), {"NOTE": '"caf\u00e9 \u2713"'})
    judge(path, name, check, scaled, ctx)
    data, _ = pds.quiet_read(path)
    require(data.metaget("NOTE") == "caf\u00e9 \u2713", "NOTE read differently", data.metaget("NOTE"))
    return f"{c['form']} {name}"


def dir_cases(deep):
    voc = vocabulary()
    folders = list(dict.fromkeys([v for v in voc["fn"]] + ["CE1_x.2A_data", "CE3.01", "CE2_.3C", "MAG_BIO_DOY_V1.TAB", "HUY_DTWG_ENTRY_AERO", "CE1", "_DOY", "CE6-L_GRAS_LMS-M_SCI.2B", "ch2_cla_l1_"] + [w for v in voc.values() for w in map(str, v) if deep and re.fullmatch(r"[-\w.]+", str(w))]))
    ids = [{}, GENERIC] if not deep else [{}, GENERIC, {"INSTRUMENT_HOST_NAME": "HUYGENS PROBE"}, {"SPACECRAFT_NAME": "MAGELLAN"}, {"DATA_SET_ID": "ODY-M-GRS-2-EDR-V1.0"}]
    for c in product(dict(folder=folders, form=["detached"], name=["IMAGE", "TABLE", "HEADER", "CAL_TARGET_DATA"], ids=ids)):
        if own(c["ids"], c["name"], ["GEN.DAT", "GEN.LBL"]) is None:
            yield c
    for c in product(dict(folder=folders, form=["attached"], name=["IMAGE", "HEADER", "SPREADSHEET"])):
        yield c


# ------------------------------------------------------------------ labels
def run_label(c, ctx):
    """the character set of a label depends on its content, not its name"""
    name = "IMAGE"
    stem, suffix = c["stem"], c["suffix"]
    if own({}, name, [stem + suffix]) == "label":
        return "trivial: special (label)"
    data, objs, files, check, scaled = template(name)
    note = {"utf8": "caf\u00e9 \u2713", "ascii": "plain"}[c["note"]]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 100), ("NOTE", f'"{note}"')]
    if c["form"] == "attached":
        path, _ = pds.write_attached(ctx.dir, stem + suffix, lambda n: st + [("LABEL_RECORDS", n), (f"^{name}", n + 1), *objs], 100, data)
    else:
        path = pds.write_detached(ctx.dir, stem, st + [(f"^{name}", '"F.DAT"'), *objs], {"F.DAT": data}, suffix=suffix)
    got, warned = pds.quiet_read(path)
    require(set(got.keys()) == {name, "LABEL"}, "index", got.keys())
    require(got.metaget("NOTE") == note, "NOTE read differently", got.metaget("NOTE"))
    v, w = pds.load(got, name)
    require(not loud(w), "warnings", w)
    check(v, name)
    lab, w = pds.load(got, "LABEL")
    require(isinstance(lab, str) and f'NOTE = "{note}"' in lab, "LABEL", lab, w)
    return f"{c['form']} label"


def label_cases(deep):
    stems = ["GEN", "CE1", "CE", "CE4", "XCE2X", "ce1", "MAG_", "MAG_A_DOY1_V1", "BIO_V1_DOY", "A_DOY_V1", "CE1_1A", "CE3_GEN"]
    for c in product(dict(stem=stems, suffix=[".LBL", ".lbl", ".IMG", ".TAB", ".DAT"], note=["utf8", "ascii"], form=["attached", "detached"])):
        if c["suffix"] not in (".LBL", ".lbl") and c["form"] == "detached":
            continue
        yield c


# ------------------------------------------------------------------ FITS
def run_fits(c, ctx):
    vals = c["set"]
    fields = {k: v for k, v in vals.items() if k not in PSEUDO}
    if not c["bare"]:
        fields = {**GENERIC, **fields}
    present = {k: v for k, v in fields.items() if v is not None}
    name = c["name"]
    mine = own(present, name, ["GEN.FIT", "GEN.LBL"]) or own(present, "MY_TABLE", ["GEN.FIT", "GEN.LBL"])
    px = PIX[:6]
    hdus = [fitsw.image(32, (2, 3), px), fitsw.image(32, (3, 2), px[::-1], ext=True), fitsw.bintable([dict(name="A", code="J", values=[1, -2, 3]), dict(name="B", code="D", values=[0.5, 1.5, 2.5])], 3)]
    raw = fitsw.build(hdus)[0]
    from astropy.io import fits
    import io
    with fits.open(io.BytesIO(raw)) as h:
        locs = [(x.fileinfo()["hdrLoc"], x.fileinfo()["datLoc"]) for x in h]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880)] + [(k, q(v)) for k, v in present.items()]
    n = c["hdu"]
    st += [(f"^{name}", f'("GEN.FIT", {locs[n][1] // 2880 + 1})'), ("^MY_TABLE", f'("GEN.FIT", {locs[2][1] // 2880 + 1})'),
           pds.block("OBJECT", name, ("LINES", 2 + n), ("LINE_SAMPLES", 3 - n), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 32)),
           pds.block("OBJECT", "MY_TABLE", ("ROWS", 3), ("ROW_BYTES", 12), ("COLUMNS", 2))]
    path = pds.write_detached(ctx.dir, "GEN", st, {"GEN.FIT": raw})

    def all_checks():
        data, warned = pds.quiet_read(path)
        require(not loud(warned), "opening warns", warned)
        require(set(data.keys()) == {name, "MY_TABLE", "LABEL"}, "index differs from the label", data.keys())
        got, warned = pds.load(data, name)
        require(not loud(warned), f"loading {name} warns", warned)
        pds.check_array(got, (2, 3) if n == 0 else (3, 2), px if n == 0 else px[::-1], "i", 4, name)
        got, warned = pds.load(data, "MY_TABLE")
        require(not loud(warned), "loading MY_TABLE warns", warned)
        require(got["A"].tolist() == [1, -2, 3] and got["B"].tolist() == [0.5, 1.5, 2.5], "table", got)
        ctx.step()
    if mine:
        try:
            all_checks()
        except Exception:
            return f"trivial: special ({mine})"
        return f"own, read generically ({mine})"
    all_checks()
    return "generic"


def fits_cases(deep):
    seen = set()
    for i, where, term, full in assignments():
        if where != "fits_start_byte" and not deep:
            continue
        if where in ("pds4_cases", "label"):
            continue
        base = {k: v for k, v in full.items() if k not in PSEUDO}
        names = [n for n in (names_for(term, False) if where == "fits_start_byte" else ["IMAGE"]) + ["IMAGE", "BROWSE_IMAGE", "HISTORY", "EXT_MASK_IMAGE"] if n not in ("MY_TABLE", "HEADER")]
        for n in dict.fromkeys(names):
            plan = [base] + [{**base, f: x} for f, v in base.items() if v is not None for x in near(v)[:None if where == "fits_start_byte" else 3]]
            for s in plan:
                for hdu in (0, 1):
                    for bare in (False, True):
                        k = repr((sorted(s.items(), key=str), n, hdu, bare))
                        if k not in seen:
                            seen.add(k)
                            yield dict(where=where, set=s, name=n, hdu=hdu, bare=bare)


# ------------------------------------------------------------------ PDS4
def run_pds4(c, ctx):
    d = ctx.dir / c["folder"] if c["folder"] else ctx.dir
    d.mkdir(parents=True, exist_ok=True)
    stem, suffix, name = c["stem"], c["suffix"], c["name"]
    if own({}, name, [stem + suffix]) == "pds4_cases":
        return "trivial: special (pds4)"
    rows = [(1, 2.5), (-5, 0.25), (70000, -1.0)]
    raw = b"".join(struct.pack(">if", *r) for r in rows)
    f = lambda nm: [pds4w.bfield(1, "A", "SignedMSB4", 1, 4), pds4w.bfield(2, "B", "IEEE754MSBSingle", 5, 4)]
    txt = b"".join(f"{a:>8}{b:>8}\r\n".encode() for a, b in rows)
    kind = c["kind"]
    ident = None if name.startswith("TABLE_") else name
    if kind == "binary":
        area = [pds4w.table("Binary", 3, f(0), 8, 0, name=ident)]
    else:
        area = [pds4w.table("Character", 3, [pds4w.bfield(1, "A", "ASCII_Integer", 1, 8, kind="Character"), pds4w.bfield(2, "B", "ASCII_Real", 9, 8, kind="Character")], 18, 0, name=ident)]
        raw = txt
    dat = stem + ".dat"
    path = pds4w.write(d, stem, [(dat, area)], {dat: raw}, suffix=suffix)
    got, warned = pds.quiet_read(path)
    names = [k for k in got.keys() if k != "label"]
    require(len(names) == 1 and (ident is None or names == [ident]), "index", got.keys())
    mine = own({}, names[0], [stem + suffix])
    if mine:
        return f"trivial: special ({mine})"
    v, w = pds.load(got, names[0])
    require(not loud(w), "warnings", w)
    require([tuple(r) for r in v.itertuples(index=False)] == rows, "table", v)
    ctx.step()
    return f"{kind} {names[0]}"


def pds4_cases(deep):
    seen = set()
    stems = []
    for i, where, term, full in assignments():
        if where != "pds4_cases":
            continue
        parts = [a[2] for a in term if a[1] == "fn"]
        stems.append("_".join(parts))
        for k in range(len(parts)):
            for x in near(parts[k]):
                stems.append("_".join(parts[:k] + ([x] if x else []) + parts[k + 1:]))
    stems = list(dict.fromkeys(s for s in stems if s and re.fullmatch(r"[-\w.~]+", s)))
    for s in stems:
        for name in ("TABLE_0", "data", "header_Data", "TBL"):
            for kind in ("binary", "character"):
                for suffix in (".xml", ".lblx"):
                    yield dict(stem=s.lstrip("."), folder="", name=name, kind=kind, suffix=suffix)
    for i, where, term, full in assignments():
        if where == "pds4_cases":
            for name in ("TABLE_0", "data", "header_Data"):
                for kind in ("binary", "character"):
                    yield dict(stem="GEN", folder="_".join(a[2] for a in term if a[1] == "fn"), name=name, kind=kind, suffix=".xml")


def spaces(tier):
    deep = tier == "thorough"
    out = [Space("near", lambda: near_cases(deep), run, "every term of every special case's condition, each atom violated every way of the menu and all others satisfied, x names"),
           Space("alone", lambda: alone_cases(deep), run, "every identifier value of every condition alone x object names, and every object name alone"),
           Space("types", lambda: type_cases(deep), run_types, "identifier fields x values that are not plain strings x object kinds"),
           Space("dirs", lambda: dir_cases(deep), run_dirs, "directory names holding the file-name triggers"),
           Space("labels", lambda: label_cases(deep), run_label, "label names near the character-set special cases"),
           Space("fits", lambda: fits_cases(deep), run_fits, "FITS-backed labels: every term near-missed x HDU x name"),
           Space("pds4", lambda: pds4_cases(deep), run_pds4, "PDS4 file names near the special cases x structure names")]
    if deep:
        out += [Space("moved", moved_cases, run, "every value in every field where it means nothing"),
                Space("pairs", pair_cases, run, "mission values x secondary triggers of other missions")]
    return out
