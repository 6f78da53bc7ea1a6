"""C09: pointers in every legal form select the same bytes.

Reference model: the object's stored bytes sit at a known byte offset of a known file; a pointer form is legal for an offset if it can express it
(record forms need a multiple of RECORD_BYTES). Every legal form, placement and wrapper must give exactly the stored object."""
import itertools

import numpy as np

from mc import pds, tables as T
from mc.core import Space, product, require

ASSUMPTIONS = ["units are written in upper case (<BYTES>, <RECORDS>), as the standard says",
               "TEXT pointers are covered by C24"]

EOL = b"\r\n"
ROWS_A = [("alpha", 12, 1.5), ("beta", -7, -0.25), ("gamma", 345, 3.0), ("delta", 0, 0.5)]
ATAB = b"".join(f"{a:<6},{b:>5},{x:>6}".encode() + EOL for a, b, x in ROWS_A)
SHEET = b"".join(f"{b},{a},{x}".encode() + EOL for a, b, x in ROWS_A)
HEADER = b"HEADER LINE ONE  " + EOL + b"SECOND, LINE = 2 " + EOL
ELS = [dict(k="col", name="A", type="MSB_INTEGER", nb=2), dict(k="col", name="B", type="UNSIGNED_INTEGER", nb=1, gap=1),
       dict(k="col", name="C", type="CHARACTER", nb=4)]
BTAB, CELLS = T.make_rows(ELS, 3)
PIX = [pds.pixel_value("i", 2, i) for i in range(6)]
IMAGE = b"".join(pds.encode_value("i", ">", 2, v) for v in PIX)


def image(name, salt=0):
    return IMAGE, pds.block("OBJECT", name, ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 16))


def atab(name):
    return ATAB, pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 4), ("COLUMNS", 3), ("ROW_BYTES", len(ATAB) // 4),
                           *[pds.block("OBJECT", "COLUMN", ("NAME", n), ("DATA_TYPE", t), ("START_BYTE", s), ("BYTES", w))
                             for n, t, s, w in (("A", "CHARACTER", 1, 6), ("B", "ASCII_INTEGER", 8, 5), ("X", "ASCII_REAL", 14, 6))])


def sheet(name):
    return SHEET, pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 4), ("FIELDS", 3), ("ROW_BYTES", 40), ("FIELD_DELIMITER", '"COMMA"'), ("BYTES", len(SHEET)),
                            *[pds.block("OBJECT", "FIELD", ("NAME", n), ("DATA_TYPE", t), ("BYTES", 10))
                              for n, t in (("B", "ASCII_INTEGER"), ("A", "CHARACTER"), ("X", "ASCII_REAL"))])


def btab(name):
    return BTAB, pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3), ("COLUMNS", 3), ("ROW_BYTES", len(BTAB) // 3), *T.statements(ELS, {}))


def header(name):
    return HEADER, pds.block("OBJECT", name, ("HEADER_TYPE", "X"), ("BYTES", len(HEADER)))


MAKE = {"IMAGE": image, "TABLE": btab, "ASCII_TABLE": atab, "SPREADSHEET": sheet, "HEADER": header}


def check(kind, got, what):
    import pandas as pd
    if kind == "IMAGE":
        pds.check_array(got, (2, 3), PIX, "i", 2, what)
    elif kind == "TABLE":
        T.check_frame(got, ELS, CELLS, what)
    elif kind == "HEADER":
        require(isinstance(got, str), f"{what} is not text", type(got), got)
        require(got.split() == HEADER.decode().split(), f"{what} differs from the stored text", got)
    else:
        require(isinstance(got, pd.DataFrame), f"{what} is not a table", type(got), got)
        cols = dict(A=[r[0] for r in ROWS_A], B=[r[1] for r in ROWS_A], X=[r[2] for r in ROWS_A])
        require(sorted(got.columns) == ["A", "B", "X"] and all(got[k].tolist() == v for k, v in cols.items()), f"{what} differs from the stored table", got.to_dict("list"))


def pointers(offset, rb, fn, attached):
    """every legal way to write the pointer: form -> text"""
    out = {}
    q = f'"{fn}"'
    rec = offset % rb == 0 if rb else False
    n = offset // rb + 1 if rec else None
    if attached:
        if rec:
            out["rec"] = f"{n}"
            out["recunits"] = f"{n} <RECORDS>"
            out["self+rec"] = f"({q}, {n})"
            out["self+recunits"] = f"({q}, {n} <RECORDS>)"
        out["bytes"] = f"{offset + 1} <BYTES>"
        out["self+bytes"] = f"({q}, {offset + 1} <BYTES>)"
        out["self+lines"] = f"(\r\n    {q},\r\n    {offset + 1} <BYTES>\r\n  )"
    else:
        if offset == 0:
            out["name"] = q
            out["tuple1"] = f"({q})"
            out["bare"] = fn
        if rec:
            out["name+rec"] = f"({q}, {n})"
            out["name+recunits"] = f"({q}, {n} <RECORDS>)"
        out["name+bytes"] = f"({q}, {offset + 1} <BYTES>)"
        out["tight"] = f"({q},{offset + 1}<BYTES>)"
        out["lines"] = f"({q},\r\n          {offset + 1} <BYTES>)"
    return out


LEAD = {"none": 0, "one": 1, "rec": 2, "odd": 0}


def lead_bytes(c):
    rb = c["rb"]
    return {"none": 0, "rec": rb, "rec3": 3 * rb, "odd": rb + 7}[c["lead"]]


def run(c, ctx):
    kind, rb, name = c["kind"], c["rb"], c.get("name") or c["kind"]
    raw, blk = MAKE[kind](name)
    lead = lead_bytes(c)
    nb, nblk = MAKE[c["next"]]("SECOND_" + c["next"]) if c.get("next") else (b"", None)
    filler = pds.filler(lead) if kind in ("IMAGE", "TABLE") else (b"L" * 14 + EOL) * (lead // 16 + 1)
    filler = filler[:lead]
    if lead >= 2 and kind not in ("IMAGE", "TABLE"):
        filler = filler[:-2] + EOL
    body = filler + raw
    if rb and nb:
        body = body.ljust(-(-len(body) // rb) * rb, b" ")
    next_at = len(body)
    body += nb + (pds.filler(9) if kind in ("IMAGE", "TABLE", "HEADER") else b"")
    attached = c["attached"]

    def stmts(n):
        base = n * rb
        ptr = pointers(lead + base, rb, "D.DAT", attached).get(c["form"])
        if ptr is None:
            return None
        out = [("RECORD_TYPE", "FIXED_LENGTH")]
        rbst = [("RECORD_BYTES", rb), ("FILE_RECORDS", 9)] if c["rbplace"] != "absent" else []
        ptrs = [(f"^{name}", ptr)]
        blks = [blk]
        if nblk:
            q = pointers(next_at + base, rb, "D.DAT", attached)
            second = (f"^SECOND_{c['next']}", q.get("bytes") or q.get("name+bytes"))
            ptrs = [second] + ptrs if c.get("swap") else ptrs + [second]
            blks = [nblk] + blks if c.get("swap") else blks + [nblk]
        if c["rbplace"] == "block":  # the object has records of its own size
            k, nm, inner = blks[0]
            blks[0] = (k, nm, [("RECORD_BYTES", rb)] + inner)
            return out + [("RECORD_BYTES", 2 * rb if c.get("toprb") else rb // 2)] + ptrs + blks
        if c["rbplace"] == "file":
            return out + [pds.block("OBJECT", "FILE", *rbst, *ptrs, *blks)]
        if c["rbplace"] == "ufile":
            return out + [pds.block("OBJECT", "DATA_FILE", ("FILE_NAME", '"D.DAT"'), *rbst, *ptrs, *blks)]
        return out + rbst + ptrs + blks

    if stmts(1) is None:
        return "trivial: not expressible"
    if attached:
        path, _ = pds.write_attached(ctx.dir, "D.DAT", stmts, rb, body)
    else:
        path = pds.write_detached(ctx.dir, c.get("stem", "D"), stmts(0), {"D.DAT": body})
        if c["open"] == "data":
            path = ctx.dir / "D.DAT"
    data, _ = pds.quiet_read(path)
    require(name in data.keys(), f"{name} is not in keys", data.keys())
    order = [name] + ([f"SECOND_{c['next']}"] if nblk else [])
    for nm in (order if c.get("loadorder", 0) == 0 else order[::-1]):
        got, warned = pds.load(data, nm)
        k = kind if nm == name else c["next"]
        check(k, got, f"{nm} [{c['form']}]")
        require(not warned, f"loading {nm} warned", warned)
        ctx.step()
    return f"{kind} {c['form']}"


FORMS_D = ("name", "tuple1", "bare", "name+rec", "name+recunits", "name+bytes", "tight", "lines")
FORMS_A = ("rec", "recunits", "bytes", "self+rec", "self+recunits", "self+bytes", "self+lines")


def legal(c):
    attached = c["attached"]
    if (c["form"] in FORMS_A) != bool(attached):
        return False
    if attached and c["open"] == "data":
        return False
    if c["rbplace"] == "absent" and c["form"] not in ("name", "tuple1", "bare", "name+bytes", "tight", "lines", "bytes", "self+bytes", "self+lines"):
        return False
    if c["rbplace"] == "ufile" and attached:
        return False
    if c["rbplace"] == "block" and (attached or c["kind"] in ("ASCII_TABLE", "SPREADSHEET") or c.get("next")):
        return False
    if c.get("toprb") and c["rbplace"] != "block":
        return False
    if c["form"] in ("name", "tuple1", "bare") and c["lead"] != "none":
        return False
    if c["lead"] == "odd" and "rec" in c["form"]:
        return False
    return True


def bottom(c, ctx):
    """a table whose pointer gives an unusable position (no record length anywhere) ends where its file ends"""
    kind, name = c["kind"], c["name"]
    raw, blk = MAKE[kind](name)
    head = (b"# header line" + EOL) * c["head"] + b"x" * c["odd"]
    ptr = f'("D.DAT", {c["at"]})'
    path = pds.write_detached(ctx.dir, "D", [(f"^{name}", ptr), blk], {"D.DAT": head + raw})
    if c["wrap"]:
        pds.compress_file(ctx.dir / "D.DAT", c["wrap"])
        path.write_bytes(path.read_bytes().replace(b"D.DAT", f"D.DAT.{c['wrap']}".encode()))
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, name)
    check(kind, got, name)
    require(not warned, "loading warned", warned)
    return f"{kind} bottom"


def two_files(c, ctx):
    """two objects in different data files of the same product, each with its own offset and pointer form"""
    (ka, fa, la), (kb, fb, lb) = c["a"], c["b"]
    rb = c["rb"]
    files, ptrs, blks, names = {}, [], [], []
    for tag, kind, form, lead in (("1", ka, fa, la), ("2", kb, fb, lb)):
        name = f"{'FIRST' if tag == '1' else 'OTHER'}_{kind}"
        raw, blk = MAKE[kind](name)
        fill = (b"L" * (lead * rb - 2) + EOL) if lead else b""
        fn = f"D{tag}.DAT"
        ptr = pointers(lead * rb, rb, fn, False).get(form)
        if ptr is None:
            return "trivial: not expressible"
        files[fn] = fill + raw
        ptrs.append((f"^{name}", ptr))
        blks.append(blk)
        names.append((name, kind))
    path = pds.write_detached(ctx.dir, "D", [("RECORD_BYTES", rb)] + ptrs + blks, files)
    data, _ = pds.quiet_read(path)
    for name, kind in (names if not c["rev"] else names[::-1]):
        got, warned = pds.load(data, name)
        check(kind, got, name)
        require(not warned, f"loading {name} warned", warned)
        ctx.step()
    return "two files"


def two_file_blocks(c, ctx):
    """two FILE objects, each with its own RECORD_BYTES"""
    blks, files = [], {}
    for tag, rb in (("A", c["rb"][0]), ("B", c["rb"][1])):
        fill = b"L" * (2 * rb - 2) + EOL
        raw, blk = MAKE[c["kind"]](f"{tag}_{c['kind']}")
        files[f"{tag}.DAT"] = fill + raw
        ptr = f'("{tag}.DAT", 3)' if c["form"] == "rec" else f'("{tag}.DAT", {2 * rb + 1} <BYTES>)'
        blks.append(pds.block("OBJECT", "FILE", ("RECORD_BYTES", rb), (f"^{tag}_{c['kind']}", ptr), blk))
    path = pds.write_detached(ctx.dir, "D", blks, files)
    data, _ = pds.quiet_read(path)
    for tag in "AB":
        got, warned = pds.load(data, f"{tag}_{c['kind']}")
        check(c["kind"], got, tag)
        ctx.step()
    return "two FILE objects"


def spaces(tier):
    deep = tier == "thorough"
    kinds = list(MAKE)

    def forms():
        for c in product(dict(kind=kinds, form=FORMS_D + FORMS_A, attached=(0, 1), rb=(64, 2048) if not deep else (36, 64, 100, 512, 2048, 8192), lead=("none", "rec", "rec3", "odd"),
                              rbplace=("top", "file", "absent", "ufile", "block"), toprb=(0, 1), open=("label", "data"), next=("",) if not deep else ("", "TABLE", "ASCII_TABLE"))):
            if legal(c):
                yield c

    def neighbours():
        for c in product(dict(kind=kinds, next=kinds, form=("name", "name+rec", "name+bytes", "rec", "bytes"), attached=(0, 1), rb=(64,), lead=("none", "rec", "odd"),
                              rbplace=("top", "file"), open=("label",), swap=(0, 1), loadorder=(0, 1))):
            if legal(c) and (deep or not (c["loadorder"] and c["swap"])):
                yield c

    def names():
        for kind, ns in (("IMAGE", ("THUMBNAIL_IMAGE", "IMAGE_2", "BROWSE_IMAGE")), ("TABLE", ("DATA_TABLE", "TIME_SERIES", "SERIES", "SPECTRUM", "TABLE_2")),
                         ("ASCII_TABLE", ("TABLE", "TIME_SERIES", "DATA_TABLE")), ("HEADER", ("IMAGE_HEADER", "TABLE_HEADER"))):
            for name in ns:
                for c in product(dict(form=("name", "name+rec", "name+bytes", "rec", "bytes"), attached=(0, 1), rb=(64,), lead=("none", "rec3", "odd"), rbplace=("top", "file"), open=("label",))):
                    c = dict(c, kind=kind, name=name)
                    if legal(c):
                        yield c

    def twofiles():
        side = [(k, f, l) for k in (kinds if deep else ("IMAGE", "ASCII_TABLE", "TABLE")) for f, l in (("name", 0), ("name+rec", 2), ("name+bytes", 1), ("bare", 0))]
        for a, b, rb, rev in itertools.product(side, side, (64,), (0, 1)):
            yield dict(a=a, b=b, rb=rb, rev=rev)

    def fileblocks():
        for k, form, rb in itertools.product(kinds, ("rec", "bytes"), ((64, 64), (64, 80), (80, 64))):
            if form == "rec" and rb[0] != rb[1]:
                continue
            yield dict(kind=k, form=form, rb=rb)

    def probes():
        yield dict(kind="TABLE", form="rec", rb=(64, 80), probe="record-bytes-per-FILE-object")

    return [
        Space("forms", forms, run, "object kind x pointer form x attached/detached x RECORD_BYTES x start x where RECORD_BYTES is given x opened by label/data"),
        Space("neighbours", neighbours, run, "another object after it in the same file, either label order, either load order"),
        Space("names", names, run, "other object names of each kind"),
        Space("two-files", twofiles, two_files, "two objects in two files, each its own form and start, both load orders"),
        Space("file-blocks", fileblocks, two_file_blocks, "two FILE objects with their own RECORD_BYTES"),
        Space("bottom", product(dict(kind=["TABLE", "ASCII_TABLE"], name=["TABLE", "DATA_TABLE", "SERIES"], head=[0, 1, 2, 5], odd=[0, 3], at=[2, 3, 7], wrap=[None, "gz", "bz2", "zip"])), bottom, "tables placed from the end of their file"),
        Space("probes", probes, two_file_blocks, "inputs pdr is known to misread", key=lambda c: c["probe"]),
    ]
