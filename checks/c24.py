"""C24: text, header and label objects return exactly the labelled text.

Reference model: a header is a byte range (or a line range) of a file; a text object is a whole text file; the label is the label. Every start, length, way of stating them, content and
line ending of the menus, cut out of files with other bytes before and behind, must come back exactly, with line endings as newlines."""
import itertools
import re

from mc import pds
from mc.core import Space, product, require

ASSUMPTIONS = ["headers of at most 80000 bytes (pdr reads no more of one, on purpose)", "TEXT pointers name whole files: a position given with one is listed as a known finding"]

EOLS = {"crlf": b"\r\n", "lf": b"\n", "cr": b"\r", "mixed": None}


def body(kind, eol, lines=3):
    text = {
        "plain": [b"FIRST LINE", b"", b"  third, with = sign  ", b"END", b"after the end"],
        "latin": [b"10 \xb0C \xe9", b"\xff\xfe", b"\x80 x", b"y", b"z"],
        "nulls": [b"a\0b", b"\0\0", b"c", b"d", b"e"],
        "utf8": ["\u00b0\u00e9".encode(), "\u2713 ok".encode(), b"three", "\U0001F680".encode(), b"five"],
        "pvl": [b"OBJECT = X", b"  A = 1", b"END_OBJECT", b"B = (1, 2)", b"END"],
        "blank": [b"   ", b"", b"", b" ", b"x"],
    }[kind][:lines]
    seps = [EOLS[eol]] * len(text) if eol != "mixed" else [[b"\r\n", b"\n", b"\r"][i % 3] for i in range(len(text))]
    return b"".join(t + s for t, s in zip(text, seps))


def canon(text):
    return re.sub("\r\n?", "\n", text)


def filler(n, how):
    if how == "binary":
        return pds.filler(n)
    return (b"other text\r\nX = 1\n" * (n // 17 + 1))[:n]


# ---------------------------------------------------------------------- headers
def run_header(c, ctx):
    """bytes [start, start + length) of a file"""
    raw = body(c["body"], c["eol"], c["lines"])
    n = len(raw) if c["cut"] == "all" else min(int(c["cut"]), len(raw))
    want = canon(raw[:n].decode("latin-1"))
    R = c.get("records") or 0
    start, tail = c["start"], c["tail"]
    name = c["name"]
    blk, st = [("HEADER_TYPE", "X")], []
    if c["length"] == "bytes":
        blk.append(("BYTES", n))
    else:
        if n == 0 or n % R:
            return "trivial: not a whole number of records"
        blk.append(("RECORDS", n // R))
        if c["length"] == "block":
            blk.append(("RECORD_BYTES", R))
        elif c["length"] == "row":
            blk = [("ROWS", n // R), ("ROW_BYTES", R)]
    form = c["form"]
    rec = R if c["length"] in ("label", "block") and R else 10
    if "record" in form and start % rec:
        return "trivial: not on a record boundary"
    st += [("RECORD_TYPE", c["rtype"])]
    if c["length"] != "block" and (c["length"] == "label" or "record" in form):
        st.append(("RECORD_BYTES", rec))
    def make(base):
        p = {"bytes": f'{base + start + 1} <BYTES>', "record": str((base + start) // rec + 1), "records": f"{(base + start) // rec + 1} <RECORDS>", "bare": ""}[form]
        if c["where"] == "attached":
            ptr = p
        else:
            ptr = '"F.DAT"' if not p else f'("F.DAT", {p})'
        return st + [(f"^{name}", ptr), pds.block("OBJECT", name, *blk)]
    payload = filler(start, c["around"]) + raw[:n] + (filler(tail, c["around"]) if n == len(raw) else raw[n:] + filler(tail, c["around"]))
    if form == "bare" and (start or c["where"] == "attached"):
        return "trivial: form has no position"
    if c["where"] == "attached":
        path, _ = pds.write_attached(ctx.dir, "P.DAT", lambda k: make(k * rec), rec, payload)
    else:
        path = pds.write_detached(ctx.dir, "P", make(0), {"F.DAT": payload})
        if c.get("wrap"):
            pds.compress_file(ctx.dir / "F.DAT", c["wrap"])
            path.write_bytes(path.read_bytes().replace(b"F.DAT", f"F.DAT.{c['wrap']}".encode()))
    d, _ = pds.quiet_read(path)
    require(set(d.keys()) == {name, "LABEL"}, "index", d.keys())
    for _ in range(2):
        got, warned = pds.load(d, name, reload=True)
        require(isinstance(got, str), "not text", type(got), warned)
        require(got == want, "text", got[:60], want[:60], len(got), len(want))
        ctx.step()
    return f"{c['length']} {form} {c['where']}"


def header_cases(deep):
    axes = dict(body=["plain", "latin", "nulls", "pvl", "blank"], eol=list(EOLS), lines=[1, 3, 5] if deep else [1, 4], cut=["all", "5", "10", "12", "20", "1", "0"] if deep else ["all", "10", "20", "1", "0"],
                start=[0, 1, 7, 10, 20] if deep else [0, 7, 20], tail=[0, 13], around=["binary", "text"], length=["bytes", "label", "block", "row"], form=["bare", "bytes", "record", "records"],
                where=["detached", "attached"], rtype=["FIXED_LENGTH", "UNDEFINED"], records=[10, 5] if deep else [10])
    for c in product(axes, lambda c: not (c["where"] == "attached" and c["form"] == "bare") and not (c["form"] == "bare" and c["start"])
                     and not (c["length"] != "bytes" and c["cut"] in ("1", "0", "12")) and not (c["form"] == "record" and c["start"] == 7)
                     and not (c["eol"] == "cr" and c["around"] == "text")):
        yield c | dict(name="HEADER")
    for c in product(dict(name=["IMAGE_HEADER", "TABLE_HEADER", "SPECTRUM_HEADER", "IMAGE_HEADER_0", "HEADER_TABLE_HEADER", "HISTORY_HEADER"], start=[0, 7], form=["bytes"], where=["detached", "attached"],
                          body=["plain", "latin"], wrap=[None, "gz", "bz2", "zip"])):
        yield c | dict(eol="crlf", lines=3, cut="all", tail=9, around="binary", length="bytes", rtype="FIXED_LENGTH")


# ----------------------------------------------------------------- line headers
def run_rows(c, ctx):
    lines = []
    raw = b""
    for i, k in enumerate(c["content"]):
        sep = {"crlf": b"\r\n", "lf": b"\n", "mixed": [b"\r\n", b"\n"][i % 2], "cr": b"\r"}[c["eol"]]
        t = {"a": f"LINE {i}, x".encode(), "e": b"", "u": "\u00b0 \u2713".encode(), "l": b"\xb0 bad \xff", "n": b"nul\0s"}[k]
        last = i == len(c["content"]) - 1 and c["open_end"]
        raw += t + (b"" if last else sep)
        lines.append(t.decode("utf-8", errors="replace") + ("" if last else "\n"))
    start, n = c["start"], c["n"]
    want = "".join(lines[start:start + n])
    ptr = {"int": f'("F.TXT", {start + 1})', "bare": '"F.TXT"', "records": f'("F.TXT", {start + 1} <RECORDS>)'}[c["form"]]
    blk = [("HEADER_TYPE", "X"), (c["count"], n)]
    st = [("RECORD_TYPE", "STREAM"), ("^HEADER", ptr), pds.block("OBJECT", "HEADER", *blk)]
    if c["attached"]:  # the position is a line number of the whole file
        st[1] = ("^HEADER", "%%%")
        text = pds.label_text(st)
        path = ctx.dir / "P.DAT"
        at = text.count("\n") + start + 1
        path.write_bytes(text.replace("%%%", str(at) if c["form"] == "int" else f"{at} <RECORDS>").encode() + raw)
    else:
        path = pds.write_detached(ctx.dir, "P", st, {"F.TXT": raw})
    d, _ = pds.quiet_read(path)
    got, warned = pds.load(d, "HEADER")
    require(isinstance(got, str), "not text", type(got), warned)
    require(got == want, "text", got, want)
    return f"rows {c['form']}"


def rows_cases(deep):
    for m in range(1, 6 if deep else 5):
        for content in itertools.product("aeuln", repeat=m) if m < (5 if deep else 4) else [tuple("aeula"[:m]), tuple("lnaaa"[:m])]:
            for eol in ("crlf", "lf", "mixed", "cr"):
                for open_end in (False, True):
                    if open_end and content[-1] == "e":
                        continue
                    for start in range(m):
                        for n in range(1, m - start + 2):
                            for form in ("int", "bare", "records") if start == 0 else ("int", "records"):
                                for attached in (False, True) if form != "bare" and eol != "cr" else (False,):
                                    yield dict(attached=attached, content="".join(content), eol=eol, open_end=open_end, start=start, n=n, form=form, count="RECORDS")


# ------------------------------------------------------------------------- text
def run_text(c, ctx):
    name = c["name"]
    files, wants = {}, []
    raw = body(c["body"], c["eol"], c["lines"]) * c["times"]
    fn = c["file"]
    files[fn] = raw
    try:
        want = canon(raw.decode("utf-8"))
    except UnicodeDecodeError:
        want = None
    ptr = {"bare": f'"{fn}"', "tuple": f'("{fn}", 1)', "byte": f'("{fn}", 1 <BYTES>)', "upper": f'"{fn.upper()}"', "lower": f'"{fn.lower()}"', "list": f'("{fn}")'}[c["form"]]
    st = [("RECORD_TYPE", c["rtype"])] + ([("RECORD_BYTES", 20)] if c["rtype"] == "FIXED_LENGTH" else []) + [(f"^{name}", ptr)]
    if c["block"]:
        st.append(pds.block("OBJECT", name, ("NOTE", '"a note"'), ("PUBLICATION_DATE", "2001-01-01")))
    path = pds.write_detached(ctx.dir, "P", st, files)
    if c.get("wrap"):
        pds.compress_file(ctx.dir / fn, c["wrap"])
        path.write_bytes(path.read_bytes().replace(fn.encode(), f"{fn}.{c['wrap']}".encode()))
    d, _ = pds.quiet_read(path)
    require(set(d.keys()) == {name, "LABEL"}, "index", d.keys())
    for _ in range(2):
        got, warned = pds.load(d, name, reload=True)
        if want is None:
            require(warned and not isinstance(got, str) or got == d.metaget_(name), "invalid text was not refused", got, warned)
        else:
            require(isinstance(got, str), "not text", type(got), warned)
            require(got == want, "text", got[:80], want[:80], len(got), len(want))
        ctx.step()
    return "refused" if want is None else "text"


def text_cases(deep):
    names = ["TEXT", "DESCRIPTION", "DATA_SET_MAP_PROJECTION_CATALOG", "MAP_PROJECTION_CATALOG", "IMAGE_MAP_PROJECTION_DESC", "TABLE_DESC", "TEXT_0"]
    base = dict(body="plain", eol="crlf", lines=5, times=1, file="A.TXT", form="bare", rtype="STREAM", block=True, name="TEXT", wrap=None)
    for c in product(dict(name=names, body=["plain", "utf8", "latin", "nulls", "pvl", "blank"], eol=list(EOLS), lines=[1, 2, 5] if deep else [1, 5], block=[False, True])):
        yield base | c
    for c in product(dict(form=["bare", "tuple", "byte", "upper", "lower", "list"], rtype=["STREAM", "FIXED_LENGTH", "UNDEFINED"], file=["A.TXT", "a.txt", "Readme.asc", "NOTES", "x.cat", "t.lbl.txt"], body=["plain", "utf8"], block=[False, True])):
        yield base | c
    for c in product(dict(times=[1, 100, 5000] + ([50000] if deep else []), eol=list(EOLS), body=["plain", "utf8"], wrap=[None, "gz", "bz2", "zip"])):
        yield base | c


# ------------------------------------------------------------------------ label
def run_label(c, ctx):
    eol = {"crlf": "\r\n", "lf": "\n"}[c["eol"]]
    notes = [("NOTE", '"n%d %s"' % (i, "x" * c["width"])) for i in range(c["notes"])]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 64), *notes]
    pix = bytes(range(6))
    image = pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))
    if c["where"] == "attached":
        make = lambda n: st + [("^IMAGE", n + 1), image]
        path, n = pds.write_attached(ctx.dir, "P.IMG", make, 64, pix + b"\r\nEND\r\n" * 5, eol)
        want = pds.label_text(make(n), eol)
    else:
        path = pds.write_detached(ctx.dir, "P", st + [("^IMAGE", '"P.IMG"'), image], {"P.IMG": pix}, eol)
        want = pds.label_text(st + [("^IMAGE", '"P.IMG"'), image], eol)
        if c["after"]:
            path.write_bytes(path.read_bytes() + b"NOT = LABEL\r\nEND\r\n")
    if c["open"] == "gz":
        path = pds.compress_file(path, "gz") if c["where"] == "attached" else path
    d, _ = pds.quiet_read(path)
    require(set(d.keys()) == {"IMAGE", "LABEL"}, "index", d.keys())
    for _ in range(2):
        got, warned = pds.load(d, "LABEL", reload=True)
        require(isinstance(got, str), "not text", type(got), warned)
        require(got.rstrip() == canon(want).rstrip(), "label", got[-60:], want[-60:])
        require(d.IMAGE.tolist() == [[0, 1, 2], [3, 4, 5]] if "IMAGE" in vars(d) else True, "image")
        ctx.step()
    return c["where"]


def label_cases(deep):
    for c in product(dict(eol=["crlf", "lf"], notes=[0, 1, 30, 700] + ([1500, 5000] if deep else []), width=[1, 60], where=["attached", "detached"], after=[False, True], open=["plain", "gz"])):
        yield c


# --------------------------------------------------------------------- probes
PROBES = {"text-with-byte-position": '("A.TXT", 13 <BYTES>)', "text-with-record-position": '("A.TXT", 2)', "text-in-a-set-of-files": '{"A.TXT", "B.TXT"}', "text-in-a-sequence-of-files": '("A.TXT", "B.TXT")'}


def run_probe(c, ctx):
    if "files" in c["probe"]:
        st = [("RECORD_TYPE", "STREAM"), ("^TEXT", PROBES[c["probe"]]), pds.block("OBJECT", "TEXT", ("NOTE", '"x"'))]
        d, _ = pds.quiet_read(pds.write_detached(ctx.dir, "P", st, {"A.TXT": b"FIRST\r\n", "B.TXT": b"SECOND\n"}))
        got, warned = pds.load(d, "TEXT")
        flat = [got] if isinstance(got, str) else list(got)
        require(all(any(w in g for g in flat if isinstance(g, str)) for w in ("FIRST\n", "SECOND\n")), "text", got, warned)
        return "ok"
    raw = b"FIRST LINE\r\nSECOND LINE\r\n"
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 12), ("^TEXT", PROBES[c["probe"]]), pds.block("OBJECT", "TEXT", ("NOTE", '"x"'))]
    d, _ = pds.quiet_read(pds.write_detached(ctx.dir, "P", st, {"A.TXT": raw}))
    got, warned = pds.load(d, "TEXT")
    require(got == "SECOND LINE\n", "text", got)
    return "ok"


# --------------------------------------------------------------------- refusals
def run_refuse(c, ctx):
    """what has no known length, or cannot be found or read as text, is refused with a warning, and only that"""
    name, files, raw = c["name"], {}, b"A\r\nB\r\nC\r\n"
    blk = {"none": [], "unk": [("BYTES", '"UNK"')], "bare": [("BYTES", "UNK")], "ok": [("BYTES", 6)], "records": [("RECORDS", 2)]}[c["length"]]
    fn = c["file"]
    if c["there"]:
        files[fn] = raw
    files["OTHER.TXT"] = b"other\n"
    ptr = {"name": f'"{fn}"', "byte": f'("{fn}", 4 <BYTES>)', "line": f'("{fn}", 2)'}[c["form"]]
    st = [("RECORD_TYPE", c["rtype"])] + ([("RECORD_BYTES", 3)] if c["rtype"] == "FIXED_LENGTH" else [])
    st += [(f"^{name}", ptr), ("^OTHER_TEXT", '"OTHER.TXT"'), ("^IMAGE", '"OTHER.TXT"'), pds.block("OBJECT", "OTHER_TEXT", ("NOTE", '"y"')),
           pds.block("OBJECT", "IMAGE", ("LINES", 1), ("LINE_SAMPLES", 6), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))]
    st.append(pds.block("OBJECT", name, ("HEADER_TYPE", "X"), *blk))
    d, _ = pds.quiet_read(pds.write_detached(ctx.dir, "P", st, files))
    require(set(d.keys()) == {name, "OTHER_TEXT", "IMAGE", "LABEL"}, "index", d.keys())
    header = "HEADER" in name
    pdf = not header and fn.lower().endswith(".pdf")
    refused = not c["there"] or pdf or header and c["length"] in ("none", "unk", "bare")
    for _ in range(2):
        got, warned = pds.load(d, name, reload=True)
        if refused:
            require(not isinstance(got, str) and len(warned) >= 1, "not refused with a warning", got, warned)
            require(got is None or dict(got) == dict(d.metaget_(name)), "something else came back", got)
        else:
            start = {"name": 0, "byte": 3, "line": 3}[c["form"]]
            want = raw if not header else raw[start:start + 6]
            require(got == canon(want.decode()), "text", got, warned)
        require(pds.load(d, "OTHER_TEXT", reload=True)[0] == "other\n", "neighbour")
        require(pds.load(d, "IMAGE", reload=True)[0].tolist() == [list(b"other\n")], "neighbour")
        ctx.step()
    return "refused" if refused else "read"


def refuse_cases(deep):
    for c in product(dict(name=["HEADER", "TABLE_HEADER", "IMAGE_HEADER"], length=["none", "unk", "bare", "ok", "records"], form=["name", "byte", "line"], rtype=["FIXED_LENGTH", "STREAM", "UNDEFINED"], file=["A.TXT", "A.PDF"], there=[True, False])):
        if c["length"] == "ok" and c["form"] == "line" and c["rtype"] != "FIXED_LENGTH" or c["length"] == "records" and (c["rtype"] == "UNDEFINED" or c["form"] == "byte" and c["rtype"] == "STREAM"):
            continue  # no meaning is specified
        yield c
    for c in product(dict(name=["TEXT", "TEXT_DESC", "DESCRIPTION"], file=["A.TXT", "A.PDF", "a.pdf", "A.Pdf", "PDF", "pdf.txt"], form=["name"], rtype=["FIXED_LENGTH", "STREAM", "UNDEFINED"], there=[True, False])):
        yield c | dict(length="none")


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("headers", header_cases(deep), run_header, "contents x line endings x start x length x ways of stating them x placement"),
        Space("line-headers", rows_cases(deep), run_rows, "stream files: first line x line count x contents x line endings"),
        Space("text", text_cases(deep), run_text, "text files: names, contents, encodings, pointer forms, compression"),
        Space("label", label_cases(deep), run_label, "LABEL of attached and detached labels of every size class"),
        Space("refusals", refuse_cases(deep), run_refuse, "headers of unknown length, absent files, PDF files, beside readable neighbours"),
        Space("probes", [dict(probe=p) for p in PROBES], run_probe, "texts that begin inside a file", key=lambda c: c["probe"]),
    ]
