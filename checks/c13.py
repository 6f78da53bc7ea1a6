"""C13: compression is transparent.

Every supported kind of object is stored at a known place of a data file; the file is then stored in every supported compressed form. The object read from each form must be the
stored one - shape, type, values - exactly as it is when the file is not compressed."""
import bz2
import gzip
import io
import struct
import zipfile
from pathlib import Path

import numpy as np

from mc import pds, pds4w
from mc.core import Space, product, require
from mc.products import PIX, TABF, ASC, ASCF, Arr, Block, Frame, Text, U2, asc_bytes, asc_block, check, fits_bytes, img_block, img_bytes, tab_block, tab_bytes

TECHNIQUE = "exhaustive enumeration of object kinds x compressed representations x file layouts (offsets and sizes around every buffer boundary) on the real code, against an independent encoder"
ASSUMPTIONS = ["isal is not installed, so gzip files go through the standard gzip module"]


def squeeze(raw, form):
    """-> (suffix, bytes)"""
    if form == "plain":
        return "", raw
    if form == "gz":
        return ".gz", gzip.compress(raw, mtime=0)
    if form == "GZ":
        return ".GZ", gzip.compress(raw, mtime=0)
    if form == "gz-stored":
        return ".gz", gzip.compress(raw, 0, mtime=0)
    if form == "gz-members":
        k = max(1, len(raw) // 3)
        return ".gz", b"".join(gzip.compress(raw[i:i + k], mtime=0) for i in range(0, len(raw), k))
    if form == "gz-named":
        b = io.BytesIO()
        with gzip.GzipFile("OTHER.NAME", "wb", fileobj=b, mtime=1) as f:
            f.write(raw)
        return ".gz", b.getvalue()
    if form == "bz2":
        return ".bz2", bz2.compress(raw)
    if form == "BZ2":
        return ".BZ2", bz2.compress(raw, 1)
    if form == "bz2-streams":
        k = max(1, len(raw) // 3)
        return ".bz2", b"".join(bz2.compress(raw[i:i + k], 1) for i in range(0, len(raw), k))
    method = zipfile.ZIP_STORED if form == "zip-stored" else zipfile.ZIP_BZIP2 if form == "zip-bzip2" else zipfile.ZIP_DEFLATED
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", method) as z:
        z.writestr("dir/OTHER.IMG" if form == "zip-named" else "D.DAT", raw)
        if form == "zip-two":
            z.writestr("E.DAT", b"\x55" * 300)
    return (".ZIP" if form == "ZIP" else ".zip"), b.getvalue()


FORMS = ["gz", "bz2", "zip", "GZ", "BZ2", "ZIP", "gz-stored", "gz-members", "gz-named", "bz2-streams", "zip-stored", "zip-bzip2", "zip-named", "zip-two"]


# ------------------------------------------------------------------ kinds of objects
def _qube():
    vals = [pds.pixel_value("u", 2, i) for i in range(12)]
    blk = pds.block("OBJECT", "QUBE", ("AXES", 3), ("AXIS_NAME", "(SAMPLE,LINE,BAND)"), ("CORE_ITEMS", "(3,2,2)"), ("CORE_ITEM_BYTES", 2), ("CORE_ITEM_TYPE", "MSB_UNSIGNED_INTEGER"))
    return "QUBE", blk, struct.pack(">12H", *vals), Arr((2, 2, 3), "u", 2, vals)


def _bands():
    vals = [pds.pixel_value("f", 4, i) for i in range(8)]
    blk = pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 2), ("BANDS", 2), ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL"), ("SAMPLE_TYPE", "PC_REAL"), ("SAMPLE_BITS", 32))
    return "IMAGE", blk, struct.pack("<8f", *vals), Arr((2, 2, 2), "f", 4, vals)


def _prefix():
    blk = pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("LINE_PREFIX_BYTES", 2), ("LINE_SUFFIX_BYTES", 1), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))
    return "IMAGE", blk, bytes([200, 201, 1, 2, 3, 202, 203, 204, 4, 5, 6, 205]), Arr((2, 3), "u", 1, [1, 2, 3, 4, 5, 6])


def _vax():
    vals = [1.5, -2.25, 1000.0, 0.125]
    blk = pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "VAX_REAL"), ("SAMPLE_BITS", 32))
    return "IMAGE", blk, b"".join(pds.vax32_bytes(v) for v in vals), Arr((2, 2), "f", 4, vals)


def _sheet():
    rows = [("ab", 12), ("c", -7), ("def", 300)]
    blk = pds.block("OBJECT", "SPREADSHEET", ("ROWS", 3), ("ROW_BYTES", 12), ("FIELDS", 2), ("FIELD_DELIMITER", "COMMA"),
                    pds.block("OBJECT", "FIELD", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("BYTES", 5)), pds.block("OBJECT", "FIELD", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER"), ("BYTES", 5)))
    return "SPREADSHEET", blk, b"".join(f"{w:>5},{n:<4}\r\n".encode() for w, n in rows), Frame(W=[r[0] for r in rows], N=[r[1] for r in rows])


def _fwf():
    """ASCII table without delimiters: read with fixed widths"""
    rows = [("ab", 12), ("cd", -7), ("ef", 300)]
    blk = pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 3), ("COLUMNS", 2), ("ROW_BYTES", 12),
                    pds.block("OBJECT", "COLUMN", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("START_BYTE", 1), ("BYTES", 4)),
                    pds.block("OBJECT", "COLUMN", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER"), ("START_BYTE", 6), ("BYTES", 5)))
    return "TABLE", blk, b"".join(f"{w:<4} {n:>5}\r\n".encode() for w, n in rows), Frame(W=[r[0] for r in rows], N=[r[1] for r in rows])


def _bits():
    blk = pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2), ("COLUMNS", 1), ("ROW_BYTES", 2),
                    pds.block("OBJECT", "COLUMN", ("NAME", "B"), ("DATA_TYPE", "MSB_BIT_STRING"), ("START_BYTE", 1), ("BYTES", 2),
                              pds.block("OBJECT", "BIT_COLUMN", ("NAME", "X"), ("BIT_DATA_TYPE", "MSB_UNSIGNED_INTEGER"), ("START_BIT", 3), ("BITS", 7))))
    raw = bytes([0b10110101, 0b01110001, 0b00011111, 0b11000000])
    return "TABLE", blk, raw, lambda got, what: require([[int(b, 2) for b in r] for r in got["B"]] == [[0b1101010], [0b0111111]], f"{what} is {got['B'].tolist()}")


def _hist():
    vals = [5, 70000, 3, 9]
    blk = pds.block("OBJECT", "HISTOGRAM", ("ITEMS", 4), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"), ("ITEM_BYTES", 4))
    return "HISTOGRAM", blk, struct.pack(">4I", *vals), lambda got, what: require([int(x) for x in np.asarray(got).ravel()] == vals, f"{what} is {got!r}")


def _array():
    vals = [1, -2, 300, 4]
    blk = pds.block("OBJECT", "ARRAY", ("AXES", 2), ("AXIS_ITEMS", "(2,2)"), ("INTERCHANGE_FORMAT", "BINARY"), ("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 2))
    return "ARRAY", blk, struct.pack(">4h", *vals), Arr((2, 2), "i", 2, vals)


HEAD = "first line\r\nsecond, \xe9\xa0 line\r\nend"


def _header():
    return "HEADER", pds.block("OBJECT", "HEADER", ("BYTES", len(HEAD)), ("HEADER_TYPE", "X")), HEAD.encode("latin-1"), Text(HEAD)


KINDS = {
    "image": lambda: ("IMAGE", img_block("IMAGE"), img_bytes(), U2()), "bands": _bands, "prefix": _prefix, "vax": _vax, "qube": _qube,
    "binary table": lambda: ("TABLE", tab_block("TABLE"), tab_bytes(), TABF), "ascii table": lambda: ("TABLE", asc_block("TABLE"), asc_bytes(), ASCF),
    "fixed-width table": _fwf, "bit table": _bits, "spreadsheet": _sheet, "histogram": _hist, "array": _array, "header": _header,
}
OFFSETS = {"start": 0, "record": 3, "bytes": 7}
RB = 4


def kind_run(c, ctx):
    d = Path(ctx.dir)
    name, blk, raw, want = KINDS[c["kind"]]()
    suffix, _ = squeeze(b"", c["form"])
    base = "D.DAT"
    ref = base + suffix if c["named"] else base
    k = OFFSETS[c["offset"]] * (RB if c["offset"] == "record" else 1)
    tail = pds.filler(9) if c["tail"] else b""
    ptr = {"start": f'"{ref}"', "record": f'("{ref}", {OFFSETS["record"] + 1})', "bytes": f'("{ref}", {OFFSETS["bytes"] + 1} <BYTES>)'}[c["offset"]]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", RB)]
    if c["how"] == "attached":
        rb = 16

        def stmts(n):
            p = {"start": n + 1, "record": n + 4, "bytes": f"{n * rb + 8} <BYTES>"}[c["offset"]]
            return [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", rb), (f"^{name}", p), blk]
        pad = {"start": 0, "record": 3 * rb, "bytes": 7}[c["offset"]]
        path, _ = pds.write_attached(d, base, stmts, rb, pds.filler(pad, 3) + raw + tail)
        whole = path.read_bytes()
        path.unlink()
        suffix, blob = squeeze(whole, c["form"])
        path = d / (base + suffix)
        path.write_bytes(blob)
    else:
        suffix, blob = squeeze(pds.filler(k, 3) + raw + tail, c["form"])
        path = pds.write_detached(d, "L", st + [(f"^{name}", ptr), blk], {base + suffix: blob})
    data, w = pds.quiet_read(path)
    got, w2 = pds.load(data, name)
    check(got, want, f"{c['kind']} in {c['form']}")
    require(not [x for x in w + w2 if "UserWarning" in x], "reading a good file warns", w, w2)
    ctx.step(2)
    ctx.state((c["kind"], c["form"], c["offset"]))
    return f"{c['kind']} read"


def kind_cases(deep):
    ax = dict(kind=list(KINDS), form=["plain"] + FORMS, offset=list(OFFSETS), tail=[True, False], how=["detached", "attached"], named=[False, True])
    return product(ax, lambda c: not (c["how"] == "attached" and c["named"]) and (deep or c["form"] in ("plain", "gz", "bz2", "zip") or c["tail"]))


# ------------------------------------------------------------------ other ways of reading
STREAM_TAB = b"".join(f"{w},{n}\r\n".encode() for w, n in ASC)


def other_run(c, ctx):
    """objects located by rows, by file end, in whole files and in other formats"""
    d = Path(ctx.dir)
    form, kind = c["form"], c["kind"]
    two = [pds.block("OBJECT", "FIELD", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("BYTES", 5)), pds.block("OBJECT", "FIELD", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER"), ("BYTES", 5))]
    files, tail = {}, b"zz,99\r\n" * 2
    suffix = squeeze(b"", form)[0]
    if kind == "spreadsheet by rows":
        st = [("RECORD_TYPE", "STREAM"), ("^SPREADSHEET", '("D.CSV", 3)'), pds.block("OBJECT", "SPREADSHEET", ("ROWS", 3), ("ROW_BYTES", 12), ("FIELDS", 2), ("FIELD_DELIMITER", "COMMA"), *two)]
        files["D.CSV"], want, name = b"title\r\nsecond title\r\n" + STREAM_TAB + tail, ASCF, "SPREADSHEET"
    elif kind == "spreadsheet to end of file":
        st = [("RECORD_TYPE", "STREAM"), ("^SPREADSHEET", '"D.CSV"'), pds.block("OBJECT", "SPREADSHEET", ("FIELDS", 2), ("FIELD_DELIMITER", "COMMA"), *two)]
        files["D.CSV"], want, name = STREAM_TAB, ASCF, "SPREADSHEET"
    elif kind == "header by rows":
        st = [("RECORD_TYPE", "STREAM"), ("^HEADER", '("D.CSV", 1)'), pds.block("OBJECT", "HEADER", ("RECORDS", 2), ("HEADER_TYPE", "X"))]
        files["D.CSV"], want, name = b"title\r\none\r\ntwo\r\nthree\r\n", Text("title\none\n"), "HEADER"
    elif kind in ("table counted from the end", "ascii table counted from the end"):
        asc = kind.startswith("ascii")
        st = [("RECORD_TYPE", "UNDEFINED"), ("^TABLE", '("D.DAT", 5)'), (asc_block if asc else tab_block)("TABLE")]
        files["D.DAT"], want, name = b"a header of some length!" + (asc_bytes() if asc else tab_bytes()), ASCF if asc else TABF, "TABLE"
    elif kind == "text":
        st = [("^NOTES_TEXT", '"D.TXT"')]
        files["D.TXT"], want, name = HEAD.encode(), Text(HEAD), "NOTES_TEXT"
    elif kind == "description":
        st = [("^DATA_SET_DESC", '"D.TXT"')]
        files["D.TXT"], want, name = b"words\nmore words\n", Text("words\nmore words\n"), "DATA_SET_DESC"
    elif kind == "format file":
        st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 10), ("^TABLE", '"D.DAT"'),
              pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3), ("COLUMNS", 3), ("ROW_BYTES", 10), ("^STRUCTURE", '"D.FMT"'))]
        (d / "D.DAT").write_bytes(tab_bytes())
        files["D.FMT"] = ("\r\n".join(pds.render(tab_block("T")[2][4:])) + "\r\nEND\r\n").encode()
        want, name = TABF, "TABLE"
    elif kind == "label":
        st, name, want = None, "IMAGE", U2()
        (d / "D.IMG").write_bytes(img_bytes())
        blob = squeeze(pds.label_text([("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 12), ("^IMAGE", '"D.IMG"'), img_block("IMAGE")]).encode(), form)[1]
        (d / f"L.LBL{suffix}").write_bytes(blob)
    elif kind.startswith("compressed file"):
        un = pds.block("OBJECT", "UNCOMPRESSED_FILE", ("FILE_NAME", '"U.IMG"'), ("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 12), ("FILE_RECORDS", 1), ("^IMAGE", '"U.IMG"'), img_block("IMAGE"))
        co = pds.block("OBJECT", "COMPRESSED_FILE", ("FILE_NAME", f'"C.IMG{suffix}"'), ("RECORD_TYPE", "UNDEFINED"), ("ENCODING_TYPE", '"ZIP"'), ("INTERCHANGE_FORMAT", "BINARY"), ("UNCOMPRESSED_FILE_NAME", '"U.IMG"'))
        st = [un, co] if kind.endswith("last") else [co, un]
        (d / f"C.IMG{suffix}").write_bytes(squeeze(img_bytes(), form)[1])
        want, name = U2(), "IMAGE"
    elif kind == "fits":
        raw = fits_bytes()
        st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880), ("^IMAGE_HEADER", '("D.FIT", 1)'), ("^IMAGE", '("D.FIT", 2)'),
              pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 16))]
        files["D.FIT"], want, name = raw, Arr((2, 3), "i", 2, list(range(6))), "IMAGE"
    elif kind == "fits table":
        from astropy.io import fits
        raw = fits_bytes()
        with fits.open(io.BytesIO(raw)) as h:
            at = h[2].fileinfo()["datLoc"]
        st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880), ("^EVENT_TABLE", f'("D.FIT", {at // 2880 + 1})'), pds.block("OBJECT", "EVENT_TABLE", ("ROWS", 3), ("ROW_BYTES", 12), ("COLUMNS", 2))]
        files["D.FIT"], want, name = raw, Frame(A=[1, -2, 3], B=[0.5, 1.5, 2.5]), "EVENT_TABLE"
    elif kind == "fits alone":
        blob = squeeze(fits_bytes(), form)[1]
        path = d / f"d.fits{suffix}"
        path.write_bytes(blob)
        st, name, want = None, "SCI", Arr((2, 2), "f", 4, [0.0, 1.0, 2.0, 3.0])
    if kind == "label":
        path = d / f"L.LBL{suffix}"
    elif kind != "fits alone":
        path = pds.write_detached(d, "L", st, {f"{k}{suffix}": squeeze(v, form)[1] for k, v in files.items()})
    data, w = pds.quiet_read(path)
    got, w2 = pds.load(data, name)
    check(got, want, f"{kind} in {form}")
    if kind == "fits":
        check(data["IMAGE_HEADER"], Block(KEYP=10), "IMAGE_HEADER")
    if kind == "fits alone":
        check(data["EVENTS"], Frame(A=[1, -2, 3], B=[0.5, 1.5, 2.5]), "EVENTS")
        check(data["SCI_HEADER"], Block(KEYI="word"), "SCI_HEADER")
    ctx.step(1)
    return f"{kind} read"


OTHER = ["spreadsheet by rows", "spreadsheet to end of file", "header by rows", "table counted from the end", "ascii table counted from the end", "text", "description", "format file", "label",
         "compressed file first", "compressed file last", "fits", "fits table", "fits alone"]


def other_cases(deep):
    for kind in OTHER:
        for form in ["plain"] + FORMS:
            if kind.startswith("compressed file") and form == "plain":
                continue
            if kind == "fits alone" and form not in ("plain", "gz", "GZ", "gz-stored", "gz-members", "gz-named"):
                continue  # unlabelled FITS is recognised by file name: .fits.gz only
            if kind.startswith("fits") and form == "zip-two":
                continue  # astropy refuses archives of several files
            yield dict(kind=kind, form=form)


# ------------------------------------------------------------------ buffer boundaries
def pattern(n, start=0):
    """not compressible, position-dependent bytes"""
    i = np.arange(start, start + n, dtype=np.uint64)
    return ((i * 2654435761 % (1 << 32)) >> 13).astype(np.uint8)


def edge_run(c, ctx):
    d = Path(ctx.dir)
    start, size, form = c["start"], c["size"], c["form"]
    body = pattern(size, start)
    if c["soft"]:
        body = (body // 64).astype(np.uint8)
    raw = (pattern(start)).tobytes() + body.tobytes() + pattern(c["tail"], 99).tobytes()
    suffix, blob = squeeze(raw, form)
    if c["kind"] == "image":
        blk = pds.block("OBJECT", "IMAGE", ("LINES", 1), ("LINE_SAMPLES", size), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))
        name = "IMAGE"
    elif c["kind"] == "table":
        blk = pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", size), ("COLUMNS", 1), ("ROW_BYTES", 1), pds.block("OBJECT", "COLUMN", ("NAME", "A"), ("DATA_TYPE", "UNSIGNED_INTEGER"), ("START_BYTE", 1), ("BYTES", 1)))
        name = "TABLE"
    else:
        blk = pds.block("OBJECT", "HEADER", ("BYTES", size))
        name = "HEADER"
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 1), (f"^{name}", f'("D.DAT", {start + 1} <BYTES>)'), blk]
    path = pds.write_detached(d, "L", st, {f"D.DAT{suffix}": blob})
    data, w = pds.quiet_read(path)
    got, w2 = pds.load(data, name)
    if c["kind"] == "image":
        require(isinstance(got, np.ndarray) and got.shape == (1, size), f"image is {getattr(got, 'shape', got)!r}", w2)
        require(np.array_equal(got[0], body), f"pixels differ from number {int((got[0] != body).argmax())} on")
    elif c["kind"] == "table":
        require(hasattr(got, "columns") and len(got) == size, f"table is {type(got)} of {len(got)}", w2)
        require(np.array_equal(np.asarray(got["A"]), body), "rows differ")
    else:
        require(isinstance(got, str), f"header is {type(got)}", w2)
        want = body.tobytes()[:80000].decode("latin-1").replace("\r\n", "\n").replace("\r", "\n")
        require(got == want, f"header of {len(got)} characters differs from stored text")
    ctx.step(size)
    ctx.state((start, size, form))
    return f"{c['kind']} read"


def edge_cases(deep):
    e = [4096, 8192, 65536, 131072]
    around = sorted({v + k for v in e for k in (-1, 0, 1)})
    forms = ["plain", "gz", "bz2", "zip", "zip-stored", "gz-members", "bz2-streams"]
    for kind in ("image", "table", "header"):
        for form in forms:
            for soft in (False, True):
                starts = [0, 1] + around
                sizes = [1, 2] + around
                for s in starts:
                    for n in sizes:
                        near = (s in (0, 1, 4096, 65537)) or n in (1, 4097)
                        if not deep and (not near or soft or kind == "table"):
                            continue
                        yield dict(kind=kind, form=form, soft=soft, start=s, size=n, tail=5)
                if kind != "header":
                    for s, n in ((0, 900001), (899999, 3), (900000, 2), (1, 1100000)):
                        if not soft:
                            yield dict(kind=kind, form=form, soft=soft, start=s, size=n, tail=0 if s else 5)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("kinds", lambda: kind_cases(deep), kind_run, "every object kind x compressed form x pointer form x trailing data x attached/detached x file name given in the label"),
        Space("other", lambda: other_cases(deep), other_run, "objects located by rows or from the file end, whole-file text, labels, format files, FITS, COMPRESSED_FILE labels"),
        Space("boundaries", lambda: edge_cases(deep), edge_run, "object starts and sizes around every decompression and read buffer size"),
    ]
