"""C06: ASCII tables and spreadsheets decode to the values in the text.

Reference model: each row is written from a list of typed field values; the DataFrame must have exactly those rows and columns, numbers numeric
and equal, text equal to the stripped field text, blank fields null, whatever the separators, padding, terminators, start position and neighbours."""
import itertools
import math

from mc import pds, tables as T
from mc.core import Space, deviations, product, require

ASSUMPTIONS = ["character fields hold text that does not itself read as a number or as a null marker (pandas infers types from the text)",
               "columns of fixed-width tables are listed in increasing START_BYTE order"]

WORDS = ["abc", "Mars 3", "x", "de-f", "Q!z", "it's"]
MENU = {
    "int": (["12", "-7", "0", "+345", "99999"], "ASCII_INTEGER", 6),
    "real": (["1.5", "-2.25", "0.0", "3.5E2", "-1.25e-03"], "ASCII_REAL", 9),
    "real2": (["7.", "-.5", "1E3", "6.02e23", "0.125"], "REAL", 8),
    "char": (WORDS, "CHARACTER", 7),
    "long": (["a longer field", "b", "two words", "zz"], "CHARACTER", 14),
    "date": (["2001-01-01", "1999-12-31", "2020-02-29"], "DATE", 10),
    "time": (["2001-01-01T01:02:03", "1999-12-31T23:59:59.125", "2020-02-29T00:00:00"], "TIME", 23),
}


def value(kind, i, blank):
    if blank:
        return ""
    return MENU[kind][0][i % len(MENU[kind][0])]


def grid(c):
    rows = []
    for r in range(c["rows"]):
        row = []
        for j, k in enumerate(c["fields"]):
            row.append(value(k, r * len(c["fields"]) + j * 2 + r, c.get("blank") == (r, j) or r in c.get("blankrows", ())))
        rows.append(row)
    return rows


def fixed_row(c, row):
    """(bytes, [(start, width)]) of one fixed-width row"""
    out, spans = "", []
    for j, (k, v) in enumerate(zip(c["fields"], row)):
        w = MENU[k][2] + c.get("wide", 0)
        text = v.rjust(w) if (MENU[k][1] not in ("CHARACTER",)) == (c.get("just", 0) == 0) else v.ljust(w)
        quoted = c.get("quote") and MENU[k][1] in ("CHARACTER", "DATE", "TIME")
        if j:
            out += c["sep"]
        if quoted:
            out += '"'
        spans.append((len(out), w))
        out += text
        if quoted:
            out += '"'
    return out + " " * c.get("rpad", 0), spans


def expect(df, c, rows, what):
    import pandas as pd
    require(isinstance(df, pd.DataFrame), f"{what} is not a table", type(df), df)
    names = T.check_names(list(df.columns), list(c.get("names") or [f"F{j}" for j in range(len(c["fields"]))]), what)
    require(len(df) == len(rows), f"{what} has {len(df)} rows, label says {len(rows)}", df.to_dict("list"))
    for j, k in enumerate(c["fields"]):
        col = df.iloc[:, j].tolist()
        for r, got in enumerate(col):
            want = rows[r][j]
            if want == "":
                require(got is None or (isinstance(got, float) and math.isnan(got)) or got == "", f"blank field {names[j]} row {r} is {got!r}")
            elif k in ("int", "real", "real2"):
                require(isinstance(got, (int, float)) and not isinstance(got, bool) and float(got) == float(want), f"{what}[{names[j]}][{r}] is {got!r}, text is {want!r}")
                if k == "int" and not any(x[j] == "" for x in rows):
                    require(isinstance(got, int), f"integer field {names[j]} is {got!r}")
            else:
                require(got == want, f"{what}[{names[j]}][{r}] is {got!r}, text is {want!r}")


def place(c, body, eol, ptrname, nrec_bytes):
    """file content around the table and its pointer text; returns content, pointer"""
    head = c.get("head", "none")
    if head[:4] == "rows":
        n = int(head[4:] or 2)
        h = (b"head one" + eol + b"h,e,a,d" + eol) * n
        h = eol.join(h.split(eol)[:n]) + eol
        head = "rows"
    else:
        h = {"none": b"", "rec": b"", "bytes": b"HEADER, 1, 2" + eol}[head]
    if head == "rec":
        h = b"H" * (nrec_bytes - len(eol)) + eol
        h *= 2
    ptr = f'"{c.get("fn", "T.TAB")}"'
    if head == "bytes":
        ptr = f"({ptr}, {len(h) + 1} <BYTES>)"
    elif head == "rows":
        ptr = f"({ptr}, {n + 1})"
    elif head == "rec":
        ptr = f"({ptr}, 3)"
    tail = {"none": b"", "same": body, "text": b"other, text, 1, 2, 3" + eol, "noeol": b"trail"}[c.get("tail", "none")]
    return h + body + tail, ptr


def run_fixed(c, ctx):
    rows = grid(c)
    eol = c["eol"].encode()
    made = [fixed_row(c, r) for r in rows]
    pre, suf = c.get("prefix", 0), c.get("suffix", 0)
    if suf:  # row suffixes end with the line terminator here; the terminator need not be all of them
        more = b"?" * (suf - len(eol)) if c["sfill"] else b" " * (suf - len(eol))
    else:
        more = b""
    row_bytes = pre + len(made[0][0]) + len(more) + len(eol)
    body = b"".join(b"#!9.Zq"[:pre] + m[0].encode() + more + eol for m in made)
    if c.get("lasteol") == 0:
        body = body[: -len(eol)]
    content, ptr = place(c, body, eol, None, row_bytes)
    cols = []
    names = c.get("names") or [f"F{j}" for j in range(len(c["fields"]))]
    for n, k, (s, w) in zip(names, c["fields"], made[0][1]):
        cols.append(pds.block("OBJECT", "COLUMN", ("NAME", n), ("DATA_TYPE", MENU[k][1]), ("START_BYTE", s + 1), ("BYTES", w)))
    st = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", len(rows)), ("COLUMNS", len(cols)), ("ROW_BYTES", row_bytes - suf - pre)]
    if pre:
        st.append(("ROW_PREFIX_BYTES", pre))
    if c.get("suffix"):
        st.append(("ROW_SUFFIX_BYTES", c["suffix"]))
    name = c.get("name", "TABLE")
    top = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", row_bytes)] if not c.get("stream") else [("RECORD_TYPE", "STREAM")]
    top += [(f"^{name}", ptr), pds.block("OBJECT", name, *st, *cols)]
    path = pds.write_detached(ctx.dir, "t", top, {"T.TAB": content})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, name)
    expect(df, c, rows, name)
    require(not warned, "loading a well-formed table warned", warned)
    ctx.step(len(rows) * len(cols))
    return f"fixed sep={c['sep']!r}"


DELIM = {"COMMA": ",", "SEMICOLON": ";", "TAB": "\t", "VERTICAL_BAR": "|"}


def run_items(c, ctx):
    """multi-item ASCII columns, with or without separators between items and neighbours"""
    w, n, sep = 6, c["n"], c["sep"]
    nums = lambda r: [MENU[c["kind"]][0][(r * 3 + i) % 5] for i in range(n)]
    eol = c["eol"].encode()
    body, cells = b"", []
    for r in range(3):
        items = [v.rjust(9 if c["kind"] == "real" else w) for v in nums(r)]
        before = [WORDS[r].ljust(7)] if c["before"] else []
        after = [str(r * 11).rjust(4)] if c["after"] else []
        body += sep.join(before + items + after).encode() + eol
        cells.append([WORDS[r]] * c["before"] + nums(r) + [str(r * 11)] * c["after"])
    iw = 9 if c["kind"] == "real" else w
    at = 1
    cols, labels = [], []
    if c["before"]:
        cols.append(pds.block("OBJECT", "COLUMN", ("NAME", "B"), ("DATA_TYPE", "CHARACTER"), ("START_BYTE", 1), ("BYTES", 7)))
        at += 7 + len(sep)
        labels.append("B")
    st = [("NAME", "I"), ("DATA_TYPE", MENU[c["kind"]][1]), ("START_BYTE", at), ("BYTES", iw * n + len(sep) * (n - 1)), ("ITEMS", n), ("ITEM_BYTES", iw)]
    if sep:
        st.append(("ITEM_OFFSET", iw + len(sep)))
    cols.append(pds.block("OBJECT", "COLUMN", *st))
    labels += ["I"] * n
    at += iw * n + len(sep) * n
    if c["after"]:
        cols.append(pds.block("OBJECT", "COLUMN", ("NAME", "Z"), ("DATA_TYPE", "ASCII_INTEGER"), ("START_BYTE", at), ("BYTES", 4)))
        labels.append("Z")
    rb = len(body) // 3
    path = pds.write_detached(ctx.dir, "t", [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", rb), ("^TABLE", '"T.TAB"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 3), ("ROW_BYTES", rb), *cols)], {"T.TAB": body})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, "TABLE")
    require(hasattr(df, "columns"), "not a table", df)
    names = T.check_names(list(df.columns), labels, "TABLE")
    require(len(df) == 3, "row count", len(df))
    for j in range(len(names)):
        for r, got in enumerate(df.iloc[:, j].tolist()):
            want = cells[r][j]
            ok = got == want if labels[j] == "B" else isinstance(got, (int, float)) and float(got) == float(want)
            require(ok, f"{names[j]}[{r}] is {got!r}, text is {want!r}")
            ctx.step()
    return f"items {n}"


def run_delim(c, ctx):
    rows = grid(c)
    eol = c["eol"].encode()
    d = DELIM[c["delim"] or "COMMA"]

    def cell(k, v):
        if k in ("char", "long") and c.get("quote"):
            if c["quote"] == "delim" and v:
                v = v + d + "y"
            return '"' + v + '"', v
        return c.get("padchar", " ") * c.get("lead", 0) + v + c.get("padchar", " ") * c.get("trailsp", 0), v

    cells = [[cell(k, v) for k, v in zip(c["fields"], r)] for r in rows]
    rows = [[x[1] for x in r] for r in cells]
    body = b"".join(d.join(x[0] for x in r).encode() + eol for r in cells)
    content, ptr = place(c, body, eol, None, 64)
    cols = []
    for j, k in enumerate(c["fields"]):
        cols.append(pds.block("OBJECT", "FIELD", ("NAME", f"F{j}"), ("DATA_TYPE", MENU[k][1]), ("BYTES", MENU[k][2] + 4)))
    st = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", len(rows)), ("FIELDS", len(cols)), ("ROW_BYTES", 200)]
    if c["delim"]:
        st.append(("FIELD_DELIMITER", f'"{c["delim"]}"'))
    if c.get("length") == "bytes":
        st.append(("BYTES", len(body)))
    elif c.get("length") == "records":
        st = [("RECORDS", v) if k == "ROWS" else (k, v) for k, v in st if k != "ROW_BYTES"]
    elif c.get("length") == "none":
        st = [s for s in st if s[0] not in ("ROWS", "ROW_BYTES")]
    name = c.get("name", "SPREADSHEET")
    top = [("RECORD_TYPE", "STREAM"), (f"^{name}", ptr), pds.block("OBJECT", name, *st, *cols)]
    if c.get("attached"):  # the position is a line number of the whole file
        top[0:2] = [("RECORD_TYPE", "STREAM"), (f"^{name}", "%%%")]
        text = pds.label_text(top, c["eol"])
        at = text.count("\n") + c["gap"] + 1
        path = ctx.dir / "t.TAB"
        path.write_bytes(text.replace("%%%", f"{at}{c['unit']}").encode() + (b"gap" + eol) * c["gap"] + content)
    else:
        path = pds.write_detached(ctx.dir, "t", top, {"T.TAB": content})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, name)
    expect(df, c, rows, name)
    require(not warned, "loading a well-formed spreadsheet warned", warned)
    ctx.step(len(rows) * len(cols))
    return f"delim {c['delim']}"


def run_struct(c, ctx):
    """fixed-width tables with repeated containers, format files and scaling; or columns that lie apart"""
    sep, eol = c["sep"], c["eol"].encode()
    els, at = [], 0   # (name, kind, start, width)
    cols, labels, scaled, files = [], [], {}, {}

    def column(name, k, start, extra=(), more=0):
        w = MENU[k][2] + more
        return pds.block("OBJECT", "COLUMN", ("NAME", name), ("DATA_TYPE", MENU[k][1]), ("START_BYTE", start), ("BYTES", w), *extra)

    body = []
    for j, part in enumerate(c["parts"]):
        if part == "cont":
            inner, w = [], 0
            for name, k in c["inner"]:
                inner.append((name, k, w + 1))
                w += MENU[k][2] + len(sep)
            cont = [column(n, k, st) for n, k, st in inner]
            if c["file"] == "inner":
                files["IN.FMT"] = T.fmt_text(cont).encode()
                cont = [("^STRUCTURE", '"IN.FMT"')]
            width = w - (0 if c["wide"] else len(sep))
            reps = c["reps"]
            if not c["wide"] and reps > 1:
                width = w  # repetitions are a separator apart
            body.append(pds.block("OBJECT", "CONTAINER", ("NAME", "K"), ("START_BYTE", at + 1), ("BYTES", width), ("REPETITIONS", reps), *cont))
            for i in range(reps):
                for n, k, st in inner:
                    labels.append((n, k, at + i * w + st - 1))
            at += reps * w
        else:
            extra = []
            if c["scale"] and part in ("int", "real"):
                extra = {"factor": [("SCALING_FACTOR", 2)], "offset": [("OFFSET", -5)], "both": [("SCALING_FACTOR", 0.5), ("OFFSET", 3)]}[c["scale"]]
                scaled[f"F{j}"] = {"factor": (2, 0), "offset": (1, -5), "both": (0.5, 3)}[c["scale"]]
            at += c["gap"] if j else 0
            # (bytes between a column and a container are a known finding of C05: the column includes its separator)
            body.append(column(f"F{j}", part, at + 1, extra, len(sep) if c["parts"][j + 1:j + 2] == ("cont",) else 0))
            labels.append((f"F{j}", part, at))
            at += MENU[part][2] + len(sep)
    total = at - len(sep)
    rows = []
    text = b""
    for r in range(c["rows"]):
        line, cells = [" "] * total, []
        for i, (n, k, start) in enumerate(labels):
            v = value(k, r * 3 + i, False)
            w = MENU[k][2]
            line[start:start + w] = v.ljust(w) if k in ("char", "long") else v.rjust(w)
            if sep and start + w < total:
                line[start + w:start + w + len(sep)] = sep
            cells.append(v)
        rows.append(cells)
        text += "".join(line).encode() + eol
    rb = total + len(eol)
    if c["file"] == "all":
        files["ALL.FMT"] = T.fmt_text(body).encode()
        body = [("^STRUCTURE", '"ALL.FMT"')]
    elif c["file"] == "tail" and len(body) > 1:
        files["TAIL.FMT"] = T.fmt_text(body[1:]).encode()
        body = body[:1] + [("^STRUCTURE", '"TAIL.FMT"')]
    st = ([("INTERCHANGE_FORMAT", "ASCII")] if c["name"] == "TABLE" else []) + [("ROWS", c["rows"]), ("COLUMNS", len(labels)), ("ROW_BYTES", rb)]
    name = c["name"]
    path = pds.write_detached(ctx.dir, "t", [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", rb), (f"^{name}", '"T.TAB"'), pds.block("OBJECT", name, *st, *body)], {"T.TAB": text, **files})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, name)
    require(hasattr(df, "columns"), "not a table", df, warned)
    names = T.check_names(list(df.columns), [n for n, _, _ in labels], name)
    require(len(df) == c["rows"], "row count", len(df))
    for i, (n, k, _) in enumerate(labels):
        f, o = scaled.get(n, (1, 0))
        for r, got in enumerate(df.iloc[:, i].tolist()):
            want = rows[r][i]
            if k in ("int", "real", "real2"):
                require(isinstance(got, (int, float)) and math.isclose(float(got), float(want) * f + o, rel_tol=1e-12), f"{names[i]}[{r}] is {got!r}, text is {want!r} scaled by {f, o}")
            else:
                require(got == want, f"{names[i]}[{r}] is {got!r}, text is {want!r}")
            ctx.step()
    require(not warned, "loading a well-formed table warned", warned)
    return f"{'+'.join(c['parts'])}"


def run_refuse(c, ctx):
    """a delimiter pdr does not know"""
    d = c["mark"]
    body = b"".join(d.join(["1", "abc", "2.5"]).encode() + b"\r\n" for _ in range(3))
    cols = [pds.block("OBJECT", "FIELD", ("NAME", f"F{j}"), ("DATA_TYPE", t), ("BYTES", 8)) for j, t in enumerate(("ASCII_INTEGER", "CHARACTER", "ASCII_REAL"))]
    name = c["name"]
    path = pds.write_detached(ctx.dir, "t", [("RECORD_TYPE", "STREAM"), (f"^{name}", '"T.TAB"'), pds.block(
        "OBJECT", name, ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 3), ("FIELDS", 3), ("ROW_BYTES", 80), ("FIELD_DELIMITER", c["word"]), *cols)], {"T.TAB": body})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, name)
    require(not hasattr(df, "columns") and warned, "a spreadsheet of an unknown delimiter was read", df)
    ctx.step()
    return "refused"


PROBES = {  # (columns: type, start, bytes), lines, expected
    "comma-in-text-between-blanks": ([("ASCII_INTEGER", 1, 3), ("CHARACTER", 5, 6)], ["  1 a, b  ", "  2 c, d  "], [[1, 2], ["a, b", "c, d"]]),
    "one-column-of-longer-lines": ([("CHARACTER", 5, 6)], ["  1 abc   ", "  2 def   "], [["abc", "def"]]),
    "only-blank-rows": ([("ASCII_INTEGER", 1, 3), ("CHARACTER", 5, 6)], [" " * 10] * 2, [["", ""], ["", ""]]),
}


def run_probe(c, ctx):
    cols, lines, want = PROBES[c["probe"]]
    n = len(lines[0]) + 2
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", n), ("^TABLE", '"T.TAB"'),
          pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", len(lines)), ("COLUMNS", len(cols)), ("ROW_BYTES", n),
                    *[pds.block("OBJECT", "COLUMN", ("NAME", f"F{j}"), ("DATA_TYPE", t), ("START_BYTE", s), ("BYTES", b)) for j, (t, s, b) in enumerate(cols)])]
    d, _ = pds.quiet_read(pds.write_detached(ctx.dir, "P", st, {"T.TAB": "".join(x + "\r\n" for x in lines).encode()}))
    v = pds.load(d, "TABLE")[0]
    require(hasattr(v, "columns") and len(v) == len(lines), "rows", v)
    for j, col in enumerate(want):
        got = v.iloc[:, j].tolist()
        require(len(got) == len(col) and all(g == w or w == "" and (g is None or g != g) for g, w in zip(got, col)), "column", got, col)
    return "ok"


def spaces(tier):
    deep = tier == "thorough"
    kinds = list(MENU)

    def fixed():
        for n in (1, 2, 3):
            for fs in itertools.product(kinds if n < 3 else kinds[:5], repeat=n):
                for c in product(dict(sep=(",", " ", "", ", ", "  "), eol=("\r\n", "\n"))):
                    if n == 3 and not deep and c["eol"] == "\n":
                        continue
                    yield dict(c, fields=fs, rows=3)

    def framing():
        lists = [("int", "char"), ("char", "real", "int"), ("long", "int"), ("date", "real")]
        for c in product(dict(fields=lists, sep=(",", " ", ""), quote=(0, 1), eol=("\r\n", "\n"), head=("none", "rec", "bytes"),
                              tail=("none", "same", "text", "noeol"), rows=(1, 2, 5), wide=(0, 2), just=(0, 1), lasteol=(1, 0))):
            if c["lasteol"] == 0 and c["tail"] != "none":
                continue
            if c["quote"] and c["sep"] == "":
                continue
            if not deep and c["wide"] and c["just"]:
                continue
            yield c

    def rowfix():
        lists = [("int", "char"), ("char", "real", "int"), ("real",)]
        for c in product(dict(fields=lists, sep=(" ", "", ",") if not deep else (" ", "", "  ", ","), eol=("\r\n", "\n"), head=("none", "bytes", "rec"), tail=("none", "same", "noeol"), rows=(1, 2, 5),
                              prefix=(0, 1, 6) if not deep else (0, 1, 4, 6), suffix=(0, 1, 2, 5) if not deep else (0, 1, 2, 3, 5, 9), sfill=(0, 1))):
            if (c["suffix"] or 9) < len(c["eol"]) or (c["sfill"] and c["suffix"] <= len(c["eol"])):
                continue
            yield c

    def labels():
        for c in product(dict(fields=[("int", "char"), ("char", "real", "int")], sep=(",", " "), eol=("\r\n", "\n"), head=("none", "bytes", "rows1", "rows", "rows3", "rows7"), stream=(0, 1),
                              tail=("none", "same"), name=("TABLE", "ASCII_TABLE", "RAW_TABLE", "A_SPREADSHEET"), rows=(1, 3))):
            if c["head"][:4] == "rows" and not (c["stream"] and ("ASCII" in c["name"] or "SPREAD" in c["name"])):
                continue
            yield c

    def items():
        for c in product(dict(kind=("int", "real"), n=(1, 2, 3, 12), sep=(",", " ", "", ", "), eol=("\r\n", "\n"), before=(0, 1), after=(0, 1))):
            yield c

    def blanks():
        for fs in (("int", "real"), ("char", "int", "real"), ("real", "char"), ("int", "char", "int")):
            for sep, eol, r, j in itertools.product((",", " ", ", "), ("\r\n", "\n"), range(3), range(3)):
                if j < len(fs):
                    yield dict(fields=fs, rows=3, sep=sep, eol=eol, blank=(r, j))

    def names():
        for ns in itertools.product(("A", "B", "A_0"), repeat=3):
            yield dict(fields=("int", "char", "real"), names=ns, rows=2, sep=",", eol="\r\n")

    def blankrows():
        for fs in (("int", "real"), ("char", "int", "real"), ("int", "char"), ("int",), ("char",), ("real",), ("date", "time")):
            for n in (2, 3, 4):
                for k in range(1, n):
                    for br in itertools.combinations(range(n), k):
                        for c in product(dict(sep=(",", " ", "", ", "), eol=("\r\n", "\n"), head=("none", "bytes", "rec"), tail=("none", "text", "same"))):
                            if len(fs) == 1 and c["sep"] != "," or c["tail"] != "none" and c["head"] == "bytes":
                                continue
                            yield c | dict(fields=fs, rows=n, blankrows=br)

    def probes():
        for p in PROBES:
            yield dict(probe=p)

    def delim():
        for n in (1, 2, 3):
            for fs in itertools.product(kinds if n < 3 else kinds[:5], repeat=n):
                for c in product(dict(delim=("",) + tuple(DELIM), eol=("\r\n", "\n"))):
                    if n == 3 and not deep and c["eol"] == "\n":
                        continue
                    yield dict(c, fields=fs, rows=3)

    def delimframe():
        lists = [("int", "char"), ("char", "real", "int"), ("long", "int"), ("real", "real")]
        for c in product(dict(fields=lists, delim=("", "SEMICOLON", "TAB"), quote=(0, 1, "delim"), eol=("\r\n", "\n"), head=("none", "bytes", "rows1", "rows", "rows3"),
                              tail=("none", "same", "text"), rows=(1, 2, 5), lead=(0, 2), trailsp=(0, 1), length=("rows", "bytes", "none"), padchar=(" ", "\t"))):
            if c["padchar"] == "\t" and (c["delim"] == "TAB" or c["lead"] + c["trailsp"] == 0 or c["length"] == "none" or c["rows"] == 1 or c["head"] != "none"):
                continue
            if c["length"] == "none" and c["tail"] != "none":
                continue
            if c["head"] == "bytes" and c["length"] == "rows":
                continue
            if c["head"][:4] == "rows" and c["length"] == "bytes":
                continue
            yield c

    def attached():
        for c in product(dict(fields=[("int", "char"), ("char", "real", "int")], delim=("", "SEMICOLON"), eol=("\r\n", "\n"), rows=(1, 3), length=("rows", "records", "none"), name=("SPREADSHEET", "ASCII_TABLE"), gap=(0, 1, 2),
                              unit=("", " <RECORDS>"))):
            yield dict(c, attached=1)

    def structs():
        base = dict(sep=",", eol="\r\n", parts=("int", "cont"), inner=(("A", "int"), ("B", "char")), reps=2, wide=1, file="", gap=0, scale="", rows=3, name="TABLE")
        for c in product(dict(sep=(",", " ", ""), eol=("\r\n", "\n"), parts=[("int", "cont"), ("char", "cont", "real"), ("real", "int", "cont")],
                              inner=[(("A", "int"),), (("A", "int"), ("B", "char")), (("A", "char"), ("B", "real"), ("C", "int"))], reps=(1, 2, 3), wide=(0, 1), file=("", "inner", "all", "tail"))):
            if not deep and c["eol"] == "\n" and c["file"] or c["reps"] > 1 and not c["wide"]:
                continue
            yield base | c
        for c in product(dict(sep=(",", " ", ""), parts=[("int",), ("real", "char"), ("int", "real", "char"), ("char", "int", "int"), ("date", "real2", "time")], file=("", "all", "tail"), gap=(0, 1, 4), scale=("", "factor", "offset", "both"), rows=(1, 3), name=("TABLE", "ASCII_TABLE", "X_SPREADSHEET"))):
            if not deep and c["name"] != "TABLE" and c["gap"]:
                continue
            yield base | c

    def refusals():
        for c in product(dict(name=("SPREADSHEET", "ASCII_TABLE"), mark=("~", ";", ":"), word=('"~"', '"COLON"', "SPACE", '"UNK"', 7))):
            yield c

    return [
        Space("structures", structs, run_struct, "containers, format files, gaps and scaling of fixed-width text tables"),
        Space("delimiters", refusals, run_refuse, "field delimiters pdr does not know"),
        Space("fixed", fixed, run_fixed, "field lists x separator x terminator"),
        Space("framing", framing, run_fixed, "start position x trailing text x quoting x justification"),
        Space("row-fixes", rowfix, run_fixed, "row prefix and suffix widths x separator x placement"),
        Space("labels", labels, run_fixed, "object names x record types x pointer forms"),
        Space("items", items, run_items, "multi-item ASCII columns x separators x neighbours"),
        Space("blanks", blanks, run_fixed, "one blank field at every position"),
        Space("names", names, run_fixed, "repeated column names"),
        Space("blank-rows", blankrows, run_fixed, "every proper subset of a table's rows blank"),
        Space("probes", probes, run_probe, "inputs pdr is known to misread", key=lambda c: c["probe"]),
        Space("delimited", delim, run_delim, "spreadsheet field lists x delimiter x terminator"),
        Space("delimited-framing", delimframe, run_delim, "start position x trailing text x quoting x padding x length form"),
        Space("attached", attached, run_delim, "spreadsheets behind an attached label, at line numbers"),
    ]
