"""C05: binary PDS3 tables decode to the rows and columns the label describes.

Reference model: mc/tables.py lays every column, item and container repetition out from the PDS3 definition and encodes each cell itself;
the DataFrame must have exactly those rows, columns (repeated names numbered in order) and cell values."""
import itertools
from fractions import Fraction

from mc import pds, tables as T
from mc.core import Space, product, require

ASSUMPTIONS = ["columns are listed in increasing START_BYTE order and do not overlap", "CONTAINERs are named; repeated item columns have one type"]


def run(c, ctx):
    els = c["els"]
    raw, cells = T.make_rows(els, c["rows"], c.get("prefix", 0), c.get("suffix", 0), c.get("pad", 0))
    files = {}
    st = T.statements(els, files, dict(rot=c.get("rot", 0)))
    name = c.get("name", "TABLE")
    body = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", c["rows"]), ("COLUMNS", len(list(T.leaves(els)))), ("ROW_BYTES", T.span(els) + c.get("pad", 0))]
    if c.get("tabname"):
        body.append(("NAME", c["tabname"]))
    if c.get("prefix"):
        body.append(("ROW_PREFIX_BYTES", c["prefix"]))
    if c.get("suffix"):
        body.append(("ROW_SUFFIX_BYTES", c["suffix"]))
    off = c.get("offset", 0)
    ptr = '"T.DAT"' if not off else f'("T.DAT", {off + 1} <BYTES>)'
    files = {k: v.encode() for k, v in files.items()}
    files["T.DAT"] = pds.filler(off) + raw + pds.filler(c.get("tail", 0))
    path = pds.write_detached(ctx.dir, "t", [("RECORD_BYTES", 64), (f"^{name}", ptr), pds.block("OBJECT", name, *body, *st)], files)
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, name)
    ctx.step(T.check_frame(df, els, cells, name))
    require(not warned, "loading a well-formed table warned", warned)
    return c.get("sig", len(els))


def run_scaled(c, ctx):
    """columns with SCALING_FACTOR / OFFSET next to columns without; value = stored * factor + offset"""
    els = []
    for i, (t, nb, sf, off) in enumerate(c["cols"]):
        extra = ([("SCALING_FACTOR", sf)] if sf is not None else []) + ([("OFFSET", off)] if off is not None else [])
        els.append(dict(k="col", name=f"C{i}", type=t, nb=nb, gap=0, extra=extra))
    raw, cells = T.make_rows(els, 7)
    path = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 7), ("ROW_BYTES", T.span(els)), *T.statements(els, {}))], {"T.DAT": raw})
    data, _ = pds.quiet_read(path)
    df, warned = pds.load(data, "TABLE")
    require(list(df.columns) == [e["name"] for e in els], "columns differ", list(df.columns))
    for i, (t, nb, sf, off) in enumerate(c["cols"]):
        for r, got in enumerate(df[f"C{i}"].tolist()):
            v = T.cell_value(t, cells[r][i])
            if sf is None and off is None:
                require(T.eq_cell(t, got, cells[r][i]), f"unscaled column C{i} ({t}) changed: row {r} is {got!r}", v)
            else:
                want = Fraction(v) * Fraction(str(sf if sf is not None else 1)) + Fraction(str(off if off is not None else 0))
                require(abs(Fraction(float(got)) - want) <= abs(want) * Fraction(1, 10**(6 if nb == 4 and "REAL" in t else 12)) + Fraction(1, 10**9),
                        f"C{i} ({t} {nb}, factor {sf}, offset {off}) row {r} is {got!r}", float(want), v)
            ctx.step()
    return "scaled"


BAD_COLUMNS = {
    "unknown-type": [("DATA_TYPE", "MARTIAN_NUMBER"), ("BYTES", 4)],
    "int3": [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 3)], "uint5": [("DATA_TYPE", "LSB_UNSIGNED_INTEGER"), ("BYTES", 5)], "int6": [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 6)], "int7": [("DATA_TYPE", "LSB_INTEGER"), ("BYTES", 7)],
    "int9": [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 9)], "real3": [("DATA_TYPE", "IEEE_REAL"), ("BYTES", 3)], "real5": [("DATA_TYPE", "PC_REAL"), ("BYTES", 5)], "real7": [("DATA_TYPE", "IEEE_REAL"), ("BYTES", 7)],
    "overlap-items": [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 8), ("ITEMS", 3), ("ITEM_BYTES", 4), ("ITEM_OFFSET", 2)],
    "no-bytes": [("DATA_TYPE", "MSB_INTEGER")],
}


def run_refused(c, ctx):
    """a column whose definition cannot be decoded: the table is refused with a warning, never decoded to anything else"""
    bad = BAD_COLUMNS[c["bad"]]
    size = dict(bad).get("BYTES", 4)
    sb, blocks = 1, []
    for i in range(c["n"]):
        name = ("NAME", f"C{i}")
        if i == c["at"]:
            blocks.append(pds.block("OBJECT", "COLUMN", name, ("START_BYTE", sb), *bad))
            sb += size
        else:
            blocks.append(pds.block("OBJECT", "COLUMN", name, ("DATA_TYPE", c["type"]), ("START_BYTE", sb), ("BYTES", c["nb"])))
            sb += c["nb"]
    st = [("^TABLE", '"T.DAT"'), ("^IMAGE", '"I.IMG"'), pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", c["rows"]), ("COLUMNS", c["n"]), ("ROW_BYTES", sb - 1), *blocks),
          pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))]
    path = pds.write_detached(ctx.dir, "t", st, {"T.DAT": pds.filler(c["rows"] * (sb - 1)), "I.IMG": bytes([1, 2, 3, 4])})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "TABLE")
    require(type(got).__name__ == "MultiDict" and got.get("ROWS") == c["rows"], f"an undecodable column gave {type(got).__name__}", got)
    require(any("TABLE" in w for w in warned), "refusing a table did not warn about it", warned)
    image, warned = pds.load(data, "IMAGE")
    require(image.tolist() == [[1, 2], [3, 4]] and not warned, "another object of the product was affected", image, warned)
    ctx.step(2)
    return c["bad"]


def col(name, t, nb, gap=0):
    return dict(k="col", name=name, type=t, nb=nb, gap=gap)


def items(name, t, nb, n, pad=0, gap=0, **kw):
    return dict(k="items", name=name, type=t, nb=nb, n=n, pad=pad, gap=gap, **kw)


def cont(name, els, reps, tail=0, gap=0, file=0):
    return dict(k="cont", name=name, els=els, reps=reps, tail=tail, gap=gap, file=file)


def alltypes():
    for t, (k, _) in T.TYPES.items():
        for nb in {"u": (1, 2, 4, 8), "i": (1, 2, 4, 8), "f": (4, 8), "vax": (4,), "ibm": (4, 8), "c": (1, 3, 8), "e": (1, 3, 8), "b": (1,), "v": (1, 2, 3, 4)}[k]:
            yield t, nb


def words(t, nb):
    """the extreme stored words of a type"""
    kind, order = T.TYPES[t]
    flip = lambda hexes: [h if order != "<" else bytes.fromhex(h)[::-1].hex() for h in hexes]
    if kind in "ui":
        return flip(["00" * nb, "ff" * nb, "7f" + "ff" * (nb - 1), "80" + "00" * (nb - 1), "00" * (nb - 1) + "01", "ff" * (nb - 1) + "fe"])
    if kind == "f":
        return flip(["00000000", "80000000", "7f7fffff", "ff7fffff", "00000001", "00800000", "7f800000", "ff800000", "7fc00000"] if nb == 4 else
                    ["0" * 16, "8" + "0" * 15, "7fefffffffffffff", "ffefffffffffffff", "0" * 15 + "1", "0010000000000000", "7ff0" + "0" * 12, "fff0" + "0" * 12, "7ff8" + "0" * 12])
    if kind == "ibm":
        # largest and smallest magnitudes, the neighbours of the IEEE single limits, unnormalised words, one, zero
        return [w + "00" * (nb - 4) for w in ("7fffffff", "ffffffff", "00100000", "80100000", "60ffffff", "61100000", "e1100000", "21400000", "21200000", "213fffff", "41010000", "41100000", "00000000")]
    if kind == "vax":
        # (the external vax package reads the topmost exponent as NaN and keeps unnormalised zeros: not this repository's code)
        return ["7f7fffff", "7fffffff", "80010000", "80810000", "00000000", "80400000", "80c00000", "80000000"]
    if kind == "b":
        return ["00", "01", "02", "7f", "80", "ff"]
    return None


def spaces(tier):
    deep = tier == "thorough"

    def plain():
        """all ordered lists of up to 3 columns over a type menu"""
        menu = [("MSB_INTEGER", 2), ("PC_REAL", 4), ("CHARACTER", 3), ("UNSIGNED_INTEGER", 1), ("LSB_UNSIGNED_INTEGER", 4), ("VAX_REAL", 4), ("IBM_REAL", 4),
                ("BOOLEAN", 1), ("EBCDIC_CHARACTER", 3), ("MSB_BIT_STRING", 2), ("IEEE_REAL", 8)]
        for n in (1, 2, 3):
            for ts in itertools.product(menu if n < 3 or deep else menu[:7], repeat=n):
                for gaps in (((0,) * n), (2,) + (0,) * (n - 1), (0,) * (n - 1) + (1,), (1,) * n):
                    for pad in (0, 3):
                        if n == 3 and not deep and gaps not in ((0, 0, 0), (0, 0, 1)):
                            continue
                        yield dict(els=[col(f"C{i}", t, nb, g) for i, ((t, nb), g) in enumerate(zip(ts, gaps))], rows=2, pad=pad, tail=5, sig=f"{n}col")

    def types():
        for (t, nb), rows, tail, off in itertools.product(alltypes(), (1, 2, 9), (0, 7), (0, 64, 5)):
            yield dict(els=[col("A", "MSB_UNSIGNED_INTEGER", 1), col("X", t, nb), col("B", "LSB_INTEGER", 2)], rows=rows, tail=tail, offset=off, sig=t)
            yield dict(els=[col("X", t, nb)], rows=rows, tail=tail, offset=off, sig=t + "1")

    def extremes():
        for t, nb in alltypes():
            menu = words(t, nb)
            for n in (1, 2, 3) if menu else ():
                for ws in itertools.product(menu if n < 3 or deep else menu[:7], repeat=n):
                    e = dict(col("X", t, nb), words=ws)
                    yield dict(els=[e], rows=n, sig=t + "1")
                    if n == 2:
                        yield dict(els=[col("A", "MSB_UNSIGNED_INTEGER", 1), e, col("B", "IBM_REAL", 4), dict(col("Y", t, nb), words=ws[::-1])], rows=n, sig=t)

    def frame():
        """row framing: prefix/suffix/pad/offset/trailing x shape"""
        shapes = {
            "cols": [col("A", "MSB_INTEGER", 2), col("B", "PC_REAL", 4, 1)],
            "items": [col("A", "MSB_INTEGER", 2), items("I", "PC_REAL", 4, 3), col("B", "CHARACTER", 2)],
            "cont": [col("A", "MSB_INTEGER", 2), cont("K", [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2)], 2), col("B", "CHARACTER", 2)],
            "contlast": [col("A", "MSB_INTEGER", 2), cont("K", [col("P", "UNSIGNED_INTEGER", 1), items("Q", "LSB_INTEGER", 2, 2)], 3)],
        }
        for c in product(dict(shape=list(shapes), prefix=(0, 1, 4), suffix=(0, 1, 4), pad=(0, 3), offset=(0, 64, 5), tail=(0, 200), rows=(1, 3), tabname=("", "TAB"))):
            s = c.pop("shape")
            yield dict(c, els=shapes[s], sig=s)

    def itemspace():
        for (t, nb), n, pad, gap, before, after, nobytes, trail in itertools.product(
            [("MSB_INTEGER", 2), ("PC_REAL", 8), ("UNSIGNED_INTEGER", 1), ("CHARACTER", 3)], (1, 2, 3, 11), (0, 1, 2), (0, 2), (0, 1), (0, 1, 2), (0, 1), (0, 1),
        ):
            if trail and not pad:
                continue
            if nobytes and pad:
                continue  # BYTES is only optional without padding between items
            e = [col("A", "LSB_INTEGER", 2)] * before
            e = e + [items("I", t, nb, n, pad, gap, nobytes=nobytes, notrail=trail)]
            if after == 1:
                e = e + [col("Z", "IEEE_REAL", 4)]
            elif after == 2:
                e = e + [items("J", "LSB_UNSIGNED_INTEGER", 2, 2, 1, 1)]
            yield dict(els=e, rows=2, pad=0, tail=3, sig=f"items{n}")

    # Shapes pdr is known to misread (see the probes space and known_findings.txt) stay out of the exhaustive spaces:
    # a container that no column precedes, a gap before a container, and most repeated nestings.
    def containers():
        """every arrangement of containers: position, repetitions, inner shape, gaps, external files, nesting"""
        inner = {
            "one": [col("P", "UNSIGNED_INTEGER", 1)],
            "two": [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2)],
            "gap": [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2, 1)],
            "lead": [col("P", "MSB_INTEGER", 2, 1)],
            "items": [col("P", "UNSIGNED_INTEGER", 1), items("Q", "MSB_INTEGER", 2, 2)],
        }
        for i, reps, tail, gap, file, before, after in itertools.product(inner, (1, 2, 3, 12), (0, 2), (0,), (0, 1), (1, 2), (0, 1, 2)):
            e = [col(f"A{j}", "LSB_INTEGER", 2) for j in range(before)]
            e += [cont("K", inner[i], reps, tail, gap, file)]
            e += [col(f"Z{j}", "IEEE_REAL", 4, j) for j in range(after)]
            yield dict(els=e, rows=2, tail=3, sig=f"cont {i}")

    def twocont():
        a = [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2)]
        b = [col("R", "PC_REAL", 4)]
        same = [col("P", "UNSIGNED_INTEGER", 1)]
        for second, r1, r2, g1, g2, mid, before, after, tab in itertools.product((b, same), (1, 2), (1, 2, 3), (0,), (0,), (0, 1), (1,), (0, 1), ("", "TAB")):
            e = [col("A", "LSB_INTEGER", 2)] * before + [cont("K", a, r1, 0, g1)] + [col("M", "LSB_INTEGER", 2)] * mid
            e += [cont("L", second, r2, 0, g2)] + [col("Z", "IEEE_REAL", 4)] * after
            yield dict(els=e, rows=2, tabname=tab, sig="two containers")

    def nest(r1, r2, pos, tail1, tail2, gap, before, after):
        inn = cont("IN", [col("X", "UNSIGNED_INTEGER", 1), col("Y", "LSB_INTEGER", 2)], r2, tail2, gap)
        body = {"only": [inn], "first": [inn, col("Q", "MSB_INTEGER", 2)], "last": [col("P", "MSB_INTEGER", 2), inn], "mid": [col("P", "MSB_INTEGER", 2), inn, col("Q", "MSB_INTEGER", 2)]}[pos]
        e = [col("A", "LSB_INTEGER", 2)] * before + [cont("OUT", body, r1, tail1)] + [col("Z", "IEEE_REAL", 4)] * after
        return dict(els=e, rows=2, tail=3, sig=f"nested {pos}")

    def nested():
        for r1, r2, pos, tail1, tail2, after in itertools.product((1, 2, 3), (1, 2, 3), ("only", "mid", "last"), (0, 1), (0, 1), (0, 1)):
            if r1 > 1 and (pos != "only" or tail1):
                continue
            yield nest(r1, r2, pos, tail1, tail2, 0, 1, after)

    def probes():
        """one representative of each container shape pdr misreads (known findings)"""
        two = [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2)]
        z = [col("Z", "IEEE_REAL", 4)]
        a = [col("A", "LSB_INTEGER", 2)]
        p = lambda name, els: dict(els=els, rows=2, tail=3, sig=name, probe=name)
        yield p("container-first-then-column", [cont("K", two, 1)] + z)
        yield p("repeated-container-first", [cont("K", two, 2)])
        yield p("gap-before-container", a + [cont("K", two, 2, 0, 2)] + z)
        yield dict(nest(1, 1, "first", 0, 0, 0, 1, 1), probe="nested-container-then-column")
        yield dict(nest(2, 2, "last", 0, 0, 0, 1, 1), probe="repeated-outer-container-with-column")
        yield dict(nest(2, 2, "only", 1, 0, 0, 1, 1), probe="repeated-outer-container-with-padding")

    def scaled():
        pairs = [(None, None), (2, None), (None, 5), (0.5, None), (10, -3), (0.25, 1.5), (1, 0), (1.0, 0.0), (300, None), (None, 70000)]
        for t, nb in [("MSB_INTEGER", 2), ("UNSIGNED_INTEGER", 1), ("LSB_UNSIGNED_INTEGER", 2), ("MSB_INTEGER", 4), ("IEEE_REAL", 8), ("PC_REAL", 4), ("LSB_INTEGER", 1)]:
            for p, q in itertools.product(pairs, pairs[:6]):
                yield dict(cols=[(t, nb, *p), ("CHARACTER", 3, None, None), ("LSB_INTEGER", 2, *q)])
                yield dict(cols=[("MSB_INTEGER", 2, *q), (t, nb, *p)])

    def names():
        for ns in itertools.product(("A", "B", "A_0", "RESERVED"), repeat=3):
            yield dict(els=[col(n, "MSB_INTEGER", 2) for n in ns], rows=2, sig="names")

    def structures():
        inner = [col("P", "UNSIGNED_INTEGER", 1), col("Q", "LSB_INTEGER", 2, 1)]
        for before, after, twice, rot in itertools.product((0, 1), (0, 1), (0, 1), range(6)):
            e = [col("A", "LSB_INTEGER", 2)] * before + [dict(k="file", name="FA", els=inner)]
            if twice:
                e += [dict(k="file", name="FB", els=[items("R", "PC_REAL", 4, 2)])]
            e += [col("Z", "IEEE_REAL", 4)] * after
            yield dict(els=e, rows=2, tail=3, rot=rot, sig="structure files")

    return [
        Space("columns", plain, run, "ordered column lists x gaps x row padding"),
        Space("types", types, run, "every type and width x rows x offset x trailing bytes"),
        Space("extremes", extremes, run, "every sequence of up to 3 extreme stored words of every type (limits, signed zeros, subnormals, infinities, NaN, unnormalised)"),
        Space("framing", frame, run, "row prefix/suffix/padding x offset x trailing x table shape"),
        Space("items", itemspace, run, "multi-item columns: items x item padding x neighbours"),
        Space("containers", containers, run, "one container: position x repetitions x inner shape x padding x external file"),
        Space("two-containers", twocont, run, "two containers: repetitions x gaps x neighbours x names"),
        Space("nested", nested, run, "containers inside containers"),
        Space("structures", structures, run, "columns supplied by ^STRUCTURE files"),
        Space("scaled", scaled, run_scaled, "SCALING_FACTOR/OFFSET on any subset of columns x types x factor menu"),
        Space("refusals", product(dict(bad=tuple(BAD_COLUMNS), n=(1, 2, 3), at=(0, 1, 2), type=("MSB_INTEGER", "CHARACTER", "PC_REAL"), nb=(4, 8), rows=(1, 3)),
                                  lambda c: c["at"] < c["n"] and (c["n"] > 1 or (c["type"] == "MSB_INTEGER" and c["nb"] == 4))),
              run_refused, "columns that cannot be decoded (unknown types, impossible widths, overlapping items, missing sizes) x position x neighbours"),
        Space("probes", probes, run, "container shapes pdr is known to misread", key=lambda c: c["probe"]),
        Space("names", names, run, "repeated, numbered-looking and RESERVED names"),
    ]
