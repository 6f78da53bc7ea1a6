"""C08: numeric formats map to the right type and value for every bit-pattern class.

Type names: the PDS3 Standards Reference table of data types, written down independently, against every byte width.
Values: a table column and an image per type and width holding every sign x exponent x fraction-class pattern (floats), every value
(8- and 16-bit integers), walking and boundary patterns (wider integers), every byte (booleans, EBCDIC); the oracle is exact
rational arithmetic over the stored bytes."""
import itertools
import math
import struct
from fractions import Fraction

import numpy as np

from mc import pds, tables as T
from mc.core import Fail, Space, product, require

ASSUMPTIONS = ["numpy's native dtypes implement IEEE 754 and two's complement",
               "VAX reserved operands (sign 1, exponent 0) have no value and are only required not to disturb their neighbours"]

INT_BASES = {"INTEGER": (">", "i"), "UNSIGNED_INTEGER": (">", "u"), "SIGNED_INTEGER": (">", "i")}
NAMES = {}
for pre, order in (("", ">"), ("MSB_", ">"), ("LSB_", "<"), ("MAC_", ">"), ("SUN_", ">"), ("PC_", "<"), ("VAX_", "<")):
    for base, (_, kind) in INT_BASES.items():
        NAMES[pre + base] = (kind, order)
for n, o in (("IEEE_REAL", ">"), ("REAL", ">"), ("FLOAT", ">"), ("MAC_REAL", ">"), ("SUN_REAL", ">"), ("PC_REAL", "<")):
    NAMES[n] = ("f", o)
NAMES.update({"VAX_REAL": ("vax", "<"), "IBM_REAL": ("ibm", ">"), "BOOLEAN": ("i", ">")})
for n in ("CHARACTER", "DATE", "TIME", "ASCII_REAL", "ASCII_INTEGER"):
    NAMES[n] = ("S", "")
for n in ("MSB_BIT_STRING", "LSB_BIT_STRING", "VOID", "BCD", "BINARY_CODED_DECIMAL", "EBCDIC", "EBCDIC_CHARACTER"):
    NAMES[n] = ("V", "")
# names of the standard that pdr has no decoder for: must be refused
UNKNOWN = ["COMPLEX", "IEEE_COMPLEX", "MSB_COMPLEX", "PC_COMPLEX", "VAX_COMPLEX", "VAX_DOUBLE", "VAXG_REAL", "VAXG_COMPLEX", "IBM_COMPLEX",
           "OBJECT", "POINTER", "N/A", "REAL4", "INT", ""]
LEGAL = {"i": (1, 2, 4, 8), "u": (1, 2, 4, 8), "f": (4, 8), "vax": (4,), "ibm": (4, 8)}


def want_dtype(name, nb):
    kind, order = NAMES[name]
    if kind in "SV":
        return np.dtype(f"{kind}{nb}")
    if nb not in LEGAL[kind]:
        return None
    return np.dtype(f"{order}{'u' if kind in ('vax', 'ibm') else kind}{nb}")


def run_name(c, ctx):
    from pdr.datatypes import sample_types
    name, nb = c["name"], c["nb"]
    spelled = name.replace("_", " ") if c["spaces"] else name
    want = want_dtype(name, nb) if name in NAMES else None
    try:
        got = sample_types(spelled, nb, c["np"])
    except (NotImplementedError, KeyError, ValueError, TypeError):
        require(want is None, f"refused {spelled} {nb}, which is a supported type")
        return "refused"
    require(want is not None, f"{spelled} of {nb} bytes mapped to {got!r}; there is no such number format")
    if c["np"]:
        dt = np.dtype(got)
        require(dt == want, f"{spelled} {nb} is {dt.str}, must be {want.str}")
    elif NAMES[name][0] in "iuf":
        # struct code: same size, order and kind
        require(struct.calcsize(got) == nb, f"struct code {got} of {spelled} {nb} has size {struct.calcsize(got)}")
        for raw in (bytes([0x81] + [2] * (nb - 1)), bytes([1] * (nb - 1) + [0x90])):
            a, b = struct.unpack(got, raw)[0], np.frombuffer(raw, want)[0].item()
            require(a == b, f"struct code {got} of {spelled} {nb} reads {raw.hex()} as {a}, is {b}")
    return want.kind


def patterns(kind, order, nb, part=None, norm=False):
    """stored cells; `part` selects a slice of exponents"""
    bits = 8 * nb
    if kind in "iu":
        if nb == 1:
            return [bytes([v]) for v in range(256)]
        if nb == 2:
            return [struct.pack(">H", v) for v in range(65536)]
        top = (1 << bits) - 1
        vals = {0, top, int("0123456789abcdef"[:2 * nb], 16)}
        for i in range(bits):
            vals |= {1 << i, top ^ (1 << i), (1 << i) - 1, top ^ ((1 << i) - 1)}
        for i, j in itertools.combinations(range(nb), 2):
            vals.add((0xC5 << (8 * i)) | (0x3A << (8 * j)))
        return [v.to_bytes(nb, "big") for v in sorted(vals)]
    ebits = {("f", 4): 8, ("f", 8): 11, ("vax", 4): 8}.get((kind, nb), 7)
    fbits = bits - 1 - ebits
    full = (1 << fbits) - 1
    fracs = [0, 1, full, full ^ 1, 1 << (fbits - 1), (1 << (fbits - 1)) - 1, 0x5555555555555555 & full, 0x123456789ABCDEF & full]
    if kind == "ibm":
        # unnormalised fractions (leading hex digit zero) as well
        fracs += [1 << (fbits - 4), (1 << (fbits - 4)) - 1, 1 << (fbits - 5)]
    if norm:
        # the values of one exponent only: the column's range decides the width pdr returns
        fracs = [f for f in fracs if f >> (fbits - 4)]
    exps = range(1 << ebits)
    if part is not None:
        exps = exps[part[0]:part[1]]
    out = []
    for e in exps:
        for s in (0, 1):
            for f in fracs:
                v = (s << (bits - 1)) | (e << fbits) | f
                raw = v.to_bytes(nb, "big")
                if kind == "vax":
                    raw = raw[1::-1] + raw[3:1:-1]  # 16-bit words, each little-endian
                elif order == "<":
                    raw = raw[::-1]
                out.append(raw)
    return out


def check_value(kind, order, raw, got, where):
    nb = len(raw)
    if kind in "iu":
        want = int.from_bytes(raw, "big" if order == ">" else "little", signed=kind == "i")
        require(got == want and isinstance(got, (int, np.integer)), f"{where}: stored {raw.hex()} = {want}, got {got!r}")
    elif kind == "f":
        want = np.frombuffer(raw, f"{order}f{nb}")[0].item()
        same = (got != got) if want != want else (got == want and math.copysign(1, got) == math.copysign(1, want))
        require(same, f"{where}: stored {raw.hex()} = {want!r}, got {got!r}")
    elif kind == "vax":
        hi = struct.unpack("<H", raw[:2])[0]
        e = (hi >> 7) & 0xFF
        if e in (0, 255) and raw not in (b"\0\0\0\0", b"\0\x80\0\0") or raw == b"\0\x80\0\0":
            return  # reserved operands have no value; dirty zeros and the top exponent are the known findings in `probes`
        want = pds.vax32_value(raw)
        ok = Fraction(got) == want if math.isfinite(got) else False
        if abs(want) < Fraction(2) ** -126:  # below float32's normal range: correctly rounded
            ok = got == float(np.float32(float(want)))
        require(ok, f"{where}: stored {raw.hex()} = {float(want)!r}, got {got!r}")
    else:
        want = pds.ibm_value(raw)
        if nb == 4:
            ok = math.isfinite(got) and Fraction(got) == want
        else:  # 56-bit fraction does not fit a double: correctly rounded
            ok = got == float(want)
        require(ok, f"{where}: stored {raw.hex()} = {float(want)!r}, got {got!r}")


def run_values(c, ctx):
    typ, nb = c["type"], c["nb"]
    kind, order = NAMES[typ]
    pats = patterns(kind, order, nb, c.get("part"), c.get("norm"))
    if c.get("only"):
        pats = [pats[i] for i in c["only"]]
    if c.get("turn"):
        pats = pats[::-1]
    n = len(pats)
    if c["use"] == "image":
        samples = next(k for k in (16, 8, 4, 2, 1) if n % k == 0)
        st = [("LINES", n // samples), ("LINE_SAMPLES", samples), ("SAMPLE_TYPE", typ), ("SAMPLE_BITS", nb * 8)]
        p = pds.write_detached(ctx.dir, "i", [("^IMAGE", '"I.DAT"'), pds.block("OBJECT", "IMAGE", *st)], {"I.DAT": b"".join(pats)})
        data, _ = pds.quiet_read(p)
        got, warned = pds.load(data, "IMAGE")
        require(isinstance(got, np.ndarray) and got.shape == (n // samples, samples), "no image", got, warned)
        if kind in "iuf":
            require(got.dtype.kind == kind and got.dtype.itemsize == nb, f"image of {typ} {nb} has dtype {got.dtype}")
        for i, (g, raw) in enumerate(zip(got.reshape(-1).tolist(), pats)):
            check_value(kind, order, raw, g, f"pixel {i}")
            ctx.step(1)
        return f"image {kind}{nb}"
    nbr = [dict(k="col", name="A", type="LSB_INTEGER", nb=2, gap=0), dict(k="col", name="T", type="CHARACTER", nb=3, gap=0)]
    main = dict(k="col", name="V", type=typ, nb=nb, gap=0)
    if c["use"] == "items":
        main = dict(k="items", name="V", type=typ, nb=nb, n=2, pad=0, gap=0)
    if c["use"] == "container":
        main = dict(k="cont", name="K", els=[main, dict(k="col", name="Q", type="MSB_INTEGER", nb=1, gap=0)], reps=2, gap=0, tail=0)
    els = [main] if c["use"] == "alone" else [nbr[0], main, nbr[1]]
    cols = list(T.leaves(els))
    width = T.span(els)
    raw = bytearray()
    for r in range(n):
        row = bytearray(width)
        k = 0
        for name, t, size, off, e in cols:
            if e["name"] == "V":
                row[off:off + size] = pats[(r + 7 * k) % n]
                k += 1
            else:
                row[off:off + size] = T.cell_bytes(t, size, r % 97)
        raw += row
    p = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", n), ("ROW_BYTES", width), *T.statements(els, {}))], {"T.DAT": bytes(raw)})
    data, _ = pds.quiet_read(p)
    df, warned = pds.load(data, "TABLE")
    require(hasattr(df, "columns"), "no table", df, warned)
    names = T.check_names(list(df.columns), [x[0] for x in cols], "TABLE")
    require(len(df) == n, f"{len(df)} rows, label says {n}")
    for j, (name, t, size, off, e) in enumerate(cols):
        series = df.iloc[:, j]
        if e["name"] == "V" and kind in "iuf":
            require(series.dtype.kind == kind and series.dtype.itemsize == nb, f"column of {typ} {nb} has dtype {series.dtype}")
        for r, g in enumerate(series.tolist()):
            cell = bytes(raw[r * width + off:r * width + off + size])
            if e["name"] == "V":
                check_value(kind, order, cell, g, f"{names[j]} row {r}")
            else:
                require(T.eq_cell(t, g, cell), f"neighbour {names[j]} row {r} is {g!r}, stored {cell!r}")
        ctx.step(n)
    return f"{c['use']} {kind}{nb}"


def run_bytes(c, ctx):
    """BOOLEAN and EBCDIC columns over every byte value"""
    typ, nb = c["type"], c["nb"]
    main = dict(k="items", name="V", type=typ, nb=nb, n=2, pad=0, gap=0) if c["use"] == "items" else dict(k="col", name="V", type=typ, nb=nb, gap=0)
    nbr = [dict(k="col", name="A", type="LSB_INTEGER", nb=2, gap=0), dict(k="col", name="T", type="CHARACTER", nb=3, gap=0)]
    els = [main] if c["use"] == "alone" else [nbr[0], main, nbr[1]]
    cols, width, n = list(T.leaves(els)), T.span(els), 256
    raw = bytearray()
    for r in range(n):
        row = bytearray(width)
        for k, (name, t, size, off, e) in enumerate(cols):
            if e["name"] != "V":
                row[off:off + size] = T.cell_bytes(t, size, r)
            elif typ == "BOOLEAN":
                row[off:off + size] = ((r << (8 * ((r + k) % size))) & ((1 << (8 * size)) - 1)).to_bytes(size, "big")
            else:
                row[off:off + size] = bytes((r + 37 * (i + 3 * k)) % 256 for i in range(size))
        raw += row
    p = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", n), ("ROW_BYTES", width), *T.statements(els, {}))], {"T.DAT": bytes(raw)})
    data, _ = pds.quiet_read(p)
    df, warned = pds.load(data, "TABLE")
    require(hasattr(df, "columns"), "no table", df, warned)
    names = T.check_names(list(df.columns), [x[0] for x in cols], "TABLE")
    for j, (name, t, size, off, e) in enumerate(cols):
        for r, g in enumerate(df.iloc[:, j].tolist()):
            cell = bytes(raw[r * width + off:r * width + off + size])
            if e["name"] != "V":
                require(T.eq_cell(t, g, cell), f"neighbour {names[j]} row {r} is {g!r}, stored {cell!r}")
            elif typ == "BOOLEAN":
                require(g is True or g is False, f"boolean column holds {g!r}")
                require(g == any(cell), f"{names[j]} row {r} is {g!r}, stored {cell.hex()}")
            else:
                require(isinstance(g, str) and g == EBCDIC(cell), f"{names[j]} row {r} is {g!r}, stored {cell.hex()}")
        ctx.step(n)
    return f"{typ} {nb}"


def EBCDIC(raw):
    return raw.decode("cp500")


def run_refuse(c, ctx):
    """an unsupported number format must not come back as numbers"""
    typ, nb = c["type"], c["nb"]
    raw = bytes((11 + 7 * i) % 256 for i in range(4 * (nb + 2)))
    if c["use"] == "image":
        st = [("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", typ or '""'), ("SAMPLE_BITS", nb * 8)]
        stm, name = pds.block("OBJECT", "IMAGE", *st), "IMAGE"
    else:
        els = [dict(k="col", name="A", type="MSB_INTEGER", nb=2, gap=0), dict(k="col", name="V", type=typ or '""', nb=nb, gap=0)]
        stm, name = pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 4), ("ROW_BYTES", nb + 2), *T.statements(els, {})), "TABLE"
    p = pds.write_detached(ctx.dir, "t", [(f"^{name}", '"T.DAT"'), stm], {"T.DAT": raw})
    data, _ = pds.quiet_read(p)
    got, warned = pds.load(data, name)
    if isinstance(got, np.ndarray) or hasattr(got, "columns"):
        raise Fail(f"{name} of {nb}-byte {typ} was read as if supported: {str(got)[:120]}")
    require(warned, "refused without a warning")
    return "refused"


def run_probe(c, ctx):
    raws = [bytes.fromhex(x) for x in c["raws"]]
    els = [dict(k="col", name="V", type="VAX_REAL", nb=4, gap=0)]
    p = pds.write_detached(ctx.dir, "t", [("^TABLE", '"T.DAT"'), pds.block(
        "OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", len(raws)), ("ROW_BYTES", 4), *T.statements(els, {}))], {"T.DAT": b"".join(raws)})
    data, _ = pds.quiet_read(p)
    df, _ = pds.load(data, "TABLE")
    for raw, g in zip(raws, df["V"].tolist()):
        want = pds.vax32_value(raw)
        require(math.isfinite(g) and Fraction(g) == want, f"stored {raw.hex()} = {float(want)!r}, got {g!r}")
    return "ok"


def spaces(tier):
    deep = tier == "thorough"

    def names():
        yield from product(dict(name=list(NAMES) + UNKNOWN, nb=list(range(1, 17 if deep else 11)), np=[True, False], spaces=[False, True]))

    def values():
        for typ, (kind, order) in NAMES.items():
            if kind not in LEGAL or typ == "BOOLEAN":
                continue
            for nb in LEGAL[kind]:
                uses = ["alone", "between", "items", "container"]
                uses.append("image")
                for use in uses:
                    if kind in ("ibm", "vax", "f"):
                        nexp = {("f", 4): 256, ("f", 8): 2048, ("vax", 4): 256}.get((kind, nb), 128)
                        step = 128 if kind == "f" else 8
                        for a in range(0, nexp, step):
                            yield dict(type=typ, nb=nb, use=use, part=[a, a + step])
                        if kind == "ibm":
                            for e in range(nexp):
                                yield dict(type=typ, nb=nb, use=use, part=[e, e + 1], norm=True)
                        if nexp < 500:
                            for turn in (False, True):
                                yield dict(type=typ, nb=nb, use=use, turn=turn)
                    elif nb == 2 and not deep and typ not in ("MSB_INTEGER", "LSB_INTEGER", "MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"):
                        yield dict(type=typ, nb=nb, use=use, only=list(range(0, 65536, 251)) + [0x7FFF, 0x8000, 65535])
                    else:
                        for turn in (False, True):
                            yield dict(type=typ, nb=nb, use=use, turn=turn)

    def bytecols():
        yield from product(dict(type=["BOOLEAN"], nb=[1, 2, 4], use=["alone", "between", "items"]))
        yield from product(dict(type=["EBCDIC_CHARACTER", "EBCDIC"], nb=[1, 2, 5], use=["alone", "between", "items"]))

    def refuse():
        for typ, (kind, _) in NAMES.items():
            if kind in LEGAL:
                for nb in range(1, 13):
                    if nb not in LEGAL[kind]:
                        yield from product(dict(type=[typ], nb=[nb], use=["image", "table"]))
        for typ in UNKNOWN:
            yield from product(dict(type=[typ], nb=[1, 2, 4, 8, 16], use=["image", "table"]))

    def probes():
        yield dict(probe="vax-top-exponent", raws=["807f0000", "ff7fffff", "80ff0000", "ffff0100"])
        yield dict(probe="vax-dirty-zero", raws=["01000000", "7f00ffff", "00000100"])

    return [
        Space("probes", probes, run_probe, "VAX patterns the vax package does not implement", key=lambda c: c["probe"]),
        Space("type-names", names, run_name, "every PDS3 type name x byte width x numpy/struct form"),
        Space("bit-patterns", values, run_values, "every type x width x place (column alone, between, items, container, image): all exponents x fraction classes x signs, all 8/16-bit values"),
        Space("byte-columns", bytecols, run_bytes, "boolean and EBCDIC columns over every byte value"),
        Space("refusals", refuse, run_refuse, "unsupported type/width pairs through the public reader"),
    ]
