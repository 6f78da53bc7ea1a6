"""C07: bit columns decode to exactly the labelled bits.

Reference model: the column's bytes as one bit string - first byte first for MSB types, last byte first for LSB types - and each bit field
its START_BIT..START_BIT+BITS-1 slice. Rows carry every byte value (1-byte columns) or every walking-bit and boundary pattern."""
import itertools

from mc import pds, tables as T
from mc.core import Space, product, require

ASSUMPTIONS = ["LSB bit strings count START_BIT from the most significant bit of the little-endian integer the bytes form (pdr's convention)"]


def patterns(nb):
    if nb == 1:
        return [bytes([v]) for v in range(256)]
    n = 8 * nb
    vals = [0, (1 << n) - 1, int("5a" * nb, 16), int("0123456789abcdef"[: 2 * nb], 16)]
    vals += [1 << i for i in range(n)] + [((1 << n) - 1) ^ (1 << i) for i in range(n)]
    return [v.to_bytes(nb, "big") for v in vals]


def run(c, ctx):
    nb = c["nb"]
    order = c.get("order", ">")
    el = dict(k="bits", name="W", type=c["type"], nb=nb, gap=0, fields=[(f"B{i}", *f) for i, f in enumerate(c["fields"])],
              bdt=c.get("bdt", "MSB_UNSIGNED_INTEGER" if order == ">" else "LSB_UNSIGNED_INTEGER"))
    wrap = c.get("wrap", "plain")
    if wrap == "plain":
        els = [el]
    elif wrap == "between":
        els = [dict(k="col", name="A", type="MSB_INTEGER", nb=2, gap=0), el, dict(k="col", name="Z", type="LSB_INTEGER", nb=2, gap=1)]
    elif wrap == "two":
        other = dict(el, name="V", fields=[("X", 1, 3), ("Y", 5, 2)])
        els = [el, dict(k="col", name="A", type="MSB_INTEGER", nb=2, gap=0), other]
    elif wrap == "samename":
        els = [el, dict(el, fields=[("X", 1, 1)])]
    else:
        els = [dict(k="col", name="A", type="MSB_INTEGER", nb=2, gap=0),
               dict(k="cont", name="K", els=[el, dict(k="col", name="Q", type="UNSIGNED_INTEGER", nb=1, gap=0)], reps=2, gap=0)]
    cols = list(T.leaves(els))
    pats = patterns(nb)
    width = T.span(els)
    raw = bytearray()
    for r, pat in enumerate(pats):
        row = bytearray(pds.filler(width, r))
        turn = 0
        for name, typ, n, off, e in cols:
            row[off:off + n] = pats[(r + 5 * turn) % len(pats)] if e["k"] == "bits" else T.cell_bytes(typ, n, r)
            turn += e["k"] == "bits"
        raw += row
    path = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", len(pats)), ("ROW_BYTES", width), *T.statements(els, {}))], {"T.DAT": bytes(raw)})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, "TABLE")
    require(hasattr(df, "columns"), "not a table", df, warned)
    names = T.check_names(list(df.columns), [x[0] for x in cols], "TABLE")
    require(len(df) == len(pats), "row count", len(df))
    for j, (name, typ, n, off, e) in enumerate(cols):
        got = df.iloc[:, j].tolist()
        for r in range(len(pats)):
            cell = bytes(raw[r * width + off: r * width + off + n])
            if e["k"] == "bits":
                s = "".join(f"{x:08b}" for x in (cell if order == ">" else cell[::-1]))
                want = []
                for f in e["fields"]:
                    for i in range(f[3] if len(f) > 3 else 1):
                        a = f[1] - 1 + i * f[2]
                        want.append(s[a:a + f[2]])
                require(isinstance(got[r], list) and got[r] == want, f"{names[j]} row {r} ({cell.hex()}) is {got[r]!r}, labelled bits are {want!r}")
                ctx.step(len(want))
            else:
                require(T.eq_cell(typ, got[r], cell), f"neighbour {names[j]} row {r} is {got[r]!r}", cell)
    return f"{nb} bytes {c['type']}"


def placed(c, ctx):
    """the same bit column given in other legal places: format files, behind row prefixes, without optional parts"""
    nb, order, how = c["nb"], c["order"], c["how"]
    typ = {">": "MSB_BIT_STRING", "<": "LSB_BIT_STRING"}[order]
    bdt = {">": "MSB_UNSIGNED_INTEGER", "<": "LSB_UNSIGNED_INTEGER"}[order]
    bits = []
    for i, f in enumerate(c["fields"]):
        b = [("NAME", f"B{i}"), ("BIT_DATA_TYPE", bdt), ("START_BIT", f[1 - 1]), ("BITS", f[1])]
        if len(f) > 2:
            b = b[:3] + ([("BITS", f[1] * f[2])] if c["bits"] else []) + [("ITEMS", f[2]), ("ITEM_BITS", f[1])]
        if not c["bits"] and len(f) == 2:
            b = b[::-1]
        bits.append(pds.block("OBJECT", "BIT_COLUMN", *b))
    files = {}
    at = 3
    wide = [("NAME", "W"), ("DATA_TYPE", typ), ("START_BYTE", at), ("BYTES", nb)]
    if how == "first":
        wide = bits + wide
    elif how == "mixed":
        wide = bits[:1] + wide[:2] + bits[1:] + wide[2:]
    elif how == "bitfile":
        files["B.FMT"] = T.fmt_text(bits)
        wide.append(("^STRUCTURE", '"B.FMT"'))
    elif how == "spaced":
        wide = [(k, f'"{v.replace("_", " ")}"' if k == "DATA_TYPE" else v) for k, v in wide] + bits
    else:
        wide += bits
    col = pds.block("OBJECT", "COLUMN", *wide)
    a = pds.block("OBJECT", "COLUMN", ("NAME", "A"), ("DATA_TYPE", "MSB_INTEGER"), ("START_BYTE", 1), ("BYTES", 2))
    z = pds.block("OBJECT", "COLUMN", ("NAME", "Z"), ("DATA_TYPE", "LSB_INTEGER"), ("START_BYTE", at + nb + 1), ("BYTES", 2))
    if how == "file":
        files["A.FMT"] = T.fmt_text([a, col, z])
        cols = [("^STRUCTURE", '"A.FMT"')]
    elif how == "part":
        files["A.FMT"] = T.fmt_text([col])
        cols = [a, ("^STRUCTURE", '"A.FMT"'), z]
    elif how == "files":
        files["A.FMT"] = T.fmt_text([a, ("^STRUCTURE", '"C.FMT"'), z])
        files["C.FMT"] = T.fmt_text([pds.block("OBJECT", "COLUMN", *wide[:-len(bits)], ("^STRUCTURE", '"B.FMT"'))])
        files["B.FMT"] = T.fmt_text(bits)
        cols = [("^STRUCTURE", '"A.FMT"')]
    else:
        cols = [a, col, z]
    pats = patterns(nb)
    width = 2 + nb + 1 + 2
    pre, suf = c["prefix"], c["suffix"]
    raw = b""
    for r, p in enumerate(pats):
        raw += pds.filler(pre, r) + T.cell_bytes("MSB_INTEGER", 2, r) + p + b"?" + T.cell_bytes("LSB_INTEGER", 2, r + 3) + pds.filler(suf, r + 1)
    extra = [("ROW_PREFIX_BYTES", pre)] * (pre > 0) + [("ROW_SUFFIX_BYTES", suf)] * (suf > 0)
    path = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", len(pats)), ("ROW_BYTES", width), *extra, *cols)],
                              {"T.DAT": raw, **{k: v.encode() for k, v in files.items()}})
    d, _ = pds.quiet_read(path)
    df, warned = pds.load(d, "TABLE")
    require(hasattr(df, "columns"), "not a table", df, warned)
    require(list(df.columns) == ["A", "W", "Z"] and len(df) == len(pats), "columns", list(df.columns), len(df))
    for r, p in enumerate(pats):
        s = "".join(f"{x:08b}" for x in (p if order == ">" else p[::-1]))
        want = [s[f[0] - 1 + i * f[1]:f[0] - 1 + (i + 1) * f[1]] for f in c["fields"] for i in range(f[2] if len(f) > 2 else 1)]
        require(df["W"].iloc[r] == want, f"row {r} ({p.hex()}) is {df['W'].iloc[r]!r}, labelled bits are {want!r}")
        require(T.eq_cell("MSB_INTEGER", df["A"].iloc[r].item(), T.cell_bytes("MSB_INTEGER", 2, r)) and T.eq_cell("LSB_INTEGER", df["Z"].iloc[r].item(), T.cell_bytes("LSB_INTEGER", 2, r + 3)), f"row {r}: neighbours", df.iloc[r])
        ctx.step(len(want))
    return how


def refuse(c, ctx):
    """a column of another type with bit columns of no usable type is refused with a warning"""
    col = [("NAME", "W"), ("DATA_TYPE", c["type"]), ("START_BYTE", 1), ("BYTES", 2), pds.block("OBJECT", "BIT_COLUMN", ("NAME", "B"), *c["bdt"], ("START_BIT", 1), ("BITS", 3))]
    path = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), ("^OTHER_TABLE", '"T.DAT"'), pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2), ("ROW_BYTES", 2), pds.block("OBJECT", "COLUMN", *col)),
                                             pds.block("OBJECT", "OTHER_TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2), ("ROW_BYTES", 2), pds.block("OBJECT", "COLUMN", *col[:1], ("DATA_TYPE", "MSB_INTEGER"), *col[2:4]))],
                              {"T.DAT": b"\x12\x34\x56\x78"})
    d, _ = pds.quiet_read(path)
    df, warned = pds.load(d, "TABLE")
    require(not hasattr(df, "columns") and any("bit columns" in str(w) for w in warned), "not refused", df, warned)
    require(pds.load(d, "OTHER_TABLE")[0]["W"].tolist() == [0x1234, 0x5678], "neighbour")
    return "refused"


def spaces(tier):
    deep = tier == "thorough"

    def single():
        """every (start, length) of one field"""
        for nb in (1, 2, 3, 4) + ((5, 8) if deep else ()):
            for typ, order in (("MSB_BIT_STRING", ">"), ("LSB_BIT_STRING", "<")):
                n = nb * 8
                for s in range(1, n + 1):
                    for l in range(1, n - s + 2):
                        if nb > 2 and not deep and not (s in (1, 2, 8, 9, 16, 17, 24, n) or l in (1, 8, 16, n - s + 1)):
                            continue
                        yield dict(nb=nb, type=typ, order=order, fields=[(s, l)])

    def partitions():
        """every division of the word into up to 3 adjacent fields, and with gaps"""
        for nb in (1, 2) + ((3, 4) if deep else ()):
            n = nb * 8
            for typ, order in (("MSB_BIT_STRING", ">"), ("LSB_BIT_STRING", "<")):
                for cuts in itertools.chain(*(itertools.combinations(range(1, n), k) for k in (0, 1, 2))):
                    e = (0,) + cuts + (n,)
                    fs = [(a + 1, b - a) for a, b in zip(e, e[1:])]
                    yield dict(nb=nb, type=typ, order=order, fields=fs)
                    if len(fs) == 3:
                        yield dict(nb=nb, type=typ, order=order, fields=[fs[2], fs[0]])  # not in bit order, gap in the middle

    def widths():
        for nb, (typ, order), wrap in itertools.product((1, 2, 3, 4, 5, 6, 7, 8), (("MSB_BIT_STRING", ">"), ("LSB_BIT_STRING", "<")), ("plain", "between", "two", "samename", "container")):
            n = nb * 8
            for fs in ([(1, n)], [(1, 1), (n, 1)], [(1, 3), (4, n - 3)], [(i + 1, 1) for i in range(n)], [(1, 2, 3)], [(1, 2), (3, 1, 4), (7, n - 6)], [(2, n // 2, 1)]):
                yield dict(nb=nb, type=typ, order=order, wrap=wrap, fields=fs)

    def types():
        """columns labelled with ordinary integer types: BIT_DATA_TYPE decides the order"""
        for nb, typ, (bdt, order), wrap in itertools.product(
            (1, 2, 4), ("UNSIGNED_INTEGER", "MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER", "MSB_INTEGER", "CHARACTER", "MSB_BIT_STRING"),
            (("MSB_UNSIGNED_INTEGER", ">"), ("LSB_UNSIGNED_INTEGER", "<"), ("UNSIGNED_INTEGER", ">"), ("PC_UNSIGNED_INTEGER", "<"), ("BOOLEAN", ">")), ("plain", "container"),
        ):
            if typ == "MSB_BIT_STRING":
                order = ">"
            yield dict(nb=nb, type=typ, bdt=bdt, order=order, wrap=wrap, fields=[(1, 3), (4, nb * 8 - 3)])

    def places():
        for c in product(dict(how=("plain", "first", "mixed", "spaced", "bitfile", "file", "part", "files"), nb=(1, 2, 3, 4), order=(">", "<"), prefix=(0, 3), suffix=(0, 2), bits=(0, 1))):
            n = c["nb"] * 8
            for fs in ([(1, n)], [(1, 3), (4, n - 3)], [(1, 2, 3), (7, n - 6)], [(2, 1), (4, 2, 2)]):
                yield c | dict(fields=fs)

    def bad():
        for t in ("MSB_UNSIGNED_INTEGER", "LSB_INTEGER", "CHARACTER", "UNSIGNED_INTEGER", "IEEE_REAL"):
            for b in ([], [("BIT_DATA_TYPE", "ODD")], [("BIT_DATA_TYPE", '"N/A"')], [("BIT_DATA_TYPE", '"BINARY CODED"')]):
                yield dict(type=t, bdt=b)

    return [
        Space("places", places, placed, "format files, row prefixes and suffixes, statement orders"),
        Space("refusals", bad, refuse, "non-bit columns with bit columns of no usable type"),
        Space("single-field", single, run, "every start and length of one field x column width x byte order"),
        Space("partitions", partitions, run, "every division of the word into up to three fields"),
        Space("widths", widths, run, "column widths 1-8 x field shapes incl. multi-item fields x table position"),
        Space("types", types, run, "integer-labelled columns x BIT_DATA_TYPE"),
    ]
