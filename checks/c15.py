"""C15: scaling and masking are exact, non-destructive and history independent.

Every sample type, with values at the edges of its range and around every special constant, is combined with every scaling factor, offset, special constant (labelled in every form, or implied by the
sample type) of the menus and written as a product; get_scaled() is compared element by element with exact (integer, or correctly rounded) arithmetic on the values written. Call histories over a product
with several differently scaled objects are explored exhaustively to a depth: every call must answer as the first one did and leave the loaded objects as they were."""
import itertools
import math
import struct
import warnings
from fractions import Fraction

import numpy as np

from mc import pds, pds4w
from mc.core import Fail, Space, deviations, product, require, sequences, short

TECHNIQUE = "exhaustive enumeration of sample types x values x scaling parameters x special constants, and of get_scaled call histories to a bound, on the real Data class against exact rational arithmetic"
ASSUMPTIONS = ["results not representable in 64 bits, and results with inplace=True on the loaded object afterwards, are unspecified", "floating results are exact to 4 units in the last place of the result type",
               "8-bit unsigned images have no implied special constants (documented); PDS4 special constants are masked where scaling applies"]


def f32(h):
    return struct.unpack(">f", bytes.fromhex(h))[0]


# implied constants, from the PDS3 Standards Reference (N/A, UNK, NULL) and ISIS
IMPLIED = {
    "u1": [], "i1": [], "u8": [],
    "i2": [-32768, 32767, -32767, -32766, -32765, -32764],
    "u2": [0, 65533, 65534, 2, 1, 65535],
    "i4": [-(2**31), 2**31 - 1], "i8": [-(2**31), 2**31 - 1],
    "u4": [4294967293, 4294967294, 0xFF7FFFFB, 0xFF7FFFFC, 0xFF7FFFFD, 0xFF7FFFFE, 0xFF7FFFFF],
    "f4": [f32("FF7FFFFB"), -1e32, 1e32, f32("FF7FFFFC"), f32("FF7FFFFD"), f32("FF7FFFFE"), f32("FF7FFFFF")],
    "f8": [-3.4028226550889044521e38],
}
TYPES = {"u": "UNSIGNED_INTEGER", "i": "INTEGER", "f": "REAL"}
PREFIX = {">": "MSB_", "<": "LSB_"}


def sample_type(dt, order):
    if dt[0] == "f":
        return {">": "IEEE_REAL", "<": "PC_REAL"}[order]
    return PREFIX[order] + TYPES[dt[0]]


def values(dt):
    """ordinary values: no implied constant among them"""
    if dt[0] == "f":
        out = [0.0, 1.0, -1.0, 0.1, 1.5e10, -3e-12, 3e38, -2.5e37, 65504.0, 1 / 3]
        return [float(np.float32(x)) for x in out] if dt == "f4" else out + [1e300, -1e-300]
    bits = 8 * int(dt[1])
    lo, hi = (0, 2**bits - 1) if dt[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    out = {0, 1, 5, 100, 127, 128, 200, 255, 300, 40000, 60000, 2**31 + 5, 2**40, lo, lo + 1, hi, hi - 1, lo + 10, hi - 10, hi // 2, hi // 3, -1, -100, -129, -20000}
    return [v for v in sorted(out) if lo <= v <= hi and v not in IMPLIED[dt]]


def exact(v, s, o):
    if isinstance(v, float) and not math.isfinite(v):
        return v
    return Fraction(v) * Fraction(s) + Fraction(o)


def compare(got, want, mask, what, terms=None):
    """got: array; want: flat list of exact results; mask: flat list"""
    require(isinstance(got, np.ndarray), f"{what}: not an array", type(got))
    require(got.size == len(want), f"{what}: size", got.shape, len(want))
    gm = np.ma.getmaskarray(got).ravel().tolist()
    require(gm == mask, f"{what}: mask differs", gm, mask, want)
    integral = got.dtype.kind in "iu"
    flat = np.ma.getdata(got).ravel()
    eps = 0 if integral else np.finfo(got.dtype).eps
    for k, (g, w) in enumerate(zip(flat.tolist(), want)):
        if mask[k]:
            continue
        if isinstance(w, float):  # non-finite
            require(g == w or (g != g and w != w), f"{what}: element {k}", g, w)
        elif integral:
            require(g == w, f"{what}: element {k}", g, str(w), got.dtype)
        else:
            size = max(abs(w), terms[k] if terms else 0)
            if not math.isfinite(g) or abs(Fraction(g) - w) > 4 * Fraction(float(eps)) * size + Fraction(float(np.finfo(got.dtype).tiny)):
                require(float(abs(w)) > np.finfo(got.dtype).max if not math.isfinite(g) else False, f"{what}: element {k}", g, float(w), got.dtype)


def check_scaled(got, vals, s, o, const, what, nonfinite=True):
    """s, o: scalars or per element lists"""
    n = len(vals)
    ss = s if isinstance(s, list) else [s] * n
    oo = o if isinstance(o, list) else [o] * n
    mask = [(v in const) or (nonfinite and isinstance(v, float) and not math.isfinite(v)) for v in vals]
    want = [v if m else exact(v, a, b) for v, a, b, m in zip(vals, ss, oo, mask)]
    compare(got, want, mask, what, [0 if m else abs(Fraction(v) * Fraction(a)) + abs(Fraction(b)) if math.isfinite(v) else 0 for v, a, b, m in zip(vals, ss, oo, mask)])


def image(dt, order, shape, params, name="IMAGE", bst=None):
    b, l, s = shape
    st = [("LINES", l), ("LINE_SAMPLES", s), ("SAMPLE_TYPE", sample_type(dt, order)), ("SAMPLE_BITS", 8 * int(dt[1]))]
    if b > 1:
        st += [("BANDS", b), ("BAND_STORAGE_TYPE", bst or "BAND_SEQUENTIAL")]
    return pds.block("OBJECT", name, *st, *params)


def one(ctx, dt, order, vals, params, gz=False):
    raw = np.array(vals, order + dt).tobytes()
    stmts = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 8), ("^IMAGE", '"D.IMG"'), image(dt, order, (1, 1, len(vals)), params)]
    p = pds.write_detached(ctx.dir, "D", stmts, {"D.IMG": raw})
    if gz:
        pds.compress_file(ctx.dir / "D.IMG", "gz")
    d, _ = pds.quiet_read(p)
    img = pds.load(d, "IMAGE")[0]
    require(img.shape == (1, len(vals)), "shape", img.shape)
    return d


def scaled(d, name="IMAGE", **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return d.get_scaled(name, **kw)


# ------------------------------------------------------------------ scaling
FACTOR = {"absent": (None, 1), "one": ("1", 1), "onef": ("1.0", 1.0), "two": ("2", 2), "neg": ("-1", -1), "thou": ("1000", 1000), "m300": ("-300", -300), "big": ("65537", 65537),
          "half": ("0.5", 0.5), "tiny": ("1.0E-5", 1e-5), "negf": ("-2.5", -2.5), "huge": ("1.0E10", 1e10), "unit": ("0.25 <mV>", 0.25), "uniti": ("3 <m>", 3), "na": ('"N/A"', 1), "null": ('"NULL"', 1), "nau": ("N/A", 1)}
OFFSET = {"absent": (None, 0), "zero": ("0", 0), "one": ("1", 1), "neg": ("-1", -1), "p100": ("100", 100), "m32768": ("-32768", -32768), "p65535": ("65535", 65535), "p2e31": ("2147483648", 2**31),
          "quarter": ("0.25", 0.25), "million": ("1.0E6", 1e6), "unit": ("7 <m>", 7), "unitf": ("-0.5 <V>", -0.5), "na": ('"N/A"', 0), "null": ('"null"', 0)}


def fits64(vals, s, o):
    if isinstance(s, float) or isinstance(o, float) or any(isinstance(v, float) for v in vals):
        return True
    allv = list(vals) + [v * s for v in vals] + [v * s + o for v in vals] + [s, o]
    return min(allv) >= -(2**63) and max(allv) < 2**63 or min(allv) >= 0 and max(allv) < 2**64


def run_scale(c, ctx):
    dt, order = c["dt"], c["order"]
    (ft, s), (ot, o) = FACTOR[c["factor"]], OFFSET[c["offset"]]
    params = [("SCALING_FACTOR", ft)] * (ft is not None) + [("OFFSET", ot)] * (ot is not None)
    vals = values(dt)
    if c["vals"] == "mid":
        vals = [v for v in vals if abs(v) < 2**31]
    if c["vals"] == "small":
        vals = [v for v in vals if abs(v) < 128]
    if not fits64(vals, s, o):
        # all values together exceed 64 bits: each value alone may not
        vals = [v for v in vals if fits64([v], s, o) and abs(v) < 2**31]
        if not fits64(vals, s, o):
            vals = [v for v in vals if v >= 0]
            if not fits64(vals, s, o):
                return "trivial: not representable"
    if dt == "f8" and s == 1e10:
        vals = [v for v in vals if abs(v) < 1e290]
    d = one(ctx, dt, order, vals, params, c.get("gz"))
    raw = d.IMAGE.copy()
    kw = {}
    if c["call"] == "f32":
        kw["float_dtype"] = np.dtype("f4")
    if c["call"] == "inplace":
        kw["inplace"] = True
    before = d.IMAGE
    got = scaled(d, **kw)
    check_scaled(got, vals, s, o, IMPLIED[dt] if dt[0] != "f" or dt == "f8" else [float(np.float32(x)) for x in IMPLIED[dt]], "get_scaled")
    ctx.step(len(vals))
    if s == 1 and o == 0 and not np.ma.isMaskedArray(got):
        require(got.dtype == before.dtype and (got == before).all(), "not the identity", got, before)
    if c["call"] != "inplace":
        require(d.IMAGE is before and before.tobytes() == raw.tobytes() and before.dtype == raw.dtype, "loaded object modified", before, raw)
        again = scaled(d, **kw)
        require(again.dtype == got.dtype and np.ma.getdata(again).tobytes() == np.ma.getdata(got).tobytes(), "second call differs", again, got)
        ctx.step(2)
    return f"{got.dtype.kind}{got.dtype.itemsize}"


# ------------------------------------------------------------------ special constants
ISIS = [f"{a}{b}{c}{d}" for a in ("CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", "") for b in ("HIGH_", "LOW_", "") for c in ("INST_", "REPR_", "") for d in ("NULL", "SATURATION", "SAT")]
NAMES = ["INVALID_CONSTANT", "MISSING_CONSTANT", "INFINITY_CONSTANT", "NOT_APPLICABLE_CONSTANT", "NULL_CONSTANT", "UNKNOWN_CONSTANT"]
NOTNAMES = ["FILL_CONSTANT", "MAXIMUM", "DERIVED_MINIMUM", "CHECKSUM"]


def const_menu(dt):
    """labelled constant values for a type: (text, value)"""
    if dt[0] == "f":
        out = [("0.0", 0.0), ("-9999.99", -9999.99), ("-1.0E+32", -1e32), ("1.0E32", 1e32), ("-999", -999), ("0.1", 0.1), ("-1.5E38", -1.5e38)]
    else:
        vals = values(dt)
        out = [(str(v), v) for v in (0, 1, vals[-1], vals[0], 200, -999, 40000, 999999)]
    return out


FORMS = {"plain": lambda t: t, "seq": lambda t: f"({t}, {t})", "quantity": lambda t: f"{t} <DN>", "quoted": lambda t: f'"{t}"'}


def data_value(dt, v):
    return float(np.float32(v)) if dt == "f4" else float(v) if dt[0] == "f" else v


def run_special(c, ctx):
    dt, order = c["dt"], c["order"]
    consts, params = [], []
    for name, ix, form in c["consts"]:
        if ix is None:
            params.append((name, form))  # not a number
            continue
        text, v = const_menu(dt)[ix % len(const_menu(dt))]
        params.append((name, FORMS[form](text)))
        if name in NAMES or name in ISIS:
            if form != "quoted":
                consts.append(v)
    base = [v for v in values(dt) if c["scaling"] != "int" or abs(v) < 2**40]
    bits = 8 * int(dt[1])
    rng = (-math.inf, math.inf) if dt[0] == "f" else (0, 2**bits - 1) if dt[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    stored = [v for v in (x for _, x in const_menu(dt)) if rng[0] <= v <= rng[1]]
    vals = [data_value(dt, v) for v in base + stored]
    if c["implied"]:
        vals += [data_value(dt, v) for v in IMPLIED[dt]]
    if c["invalid"] and dt[0] == "f":
        vals += {"nan": [math.nan], "inf": [math.inf], "all": [math.nan, math.inf, -math.inf]}[c["invalid"]]
    s, o, extra = {"none": (1, 0, []), "float": (0.5, 3.0, [("SCALING_FACTOR", 0.5), ("OFFSET", "3.0")]), "int": (2, -1, [("SCALING_FACTOR", 2), ("OFFSET", -1)]), "off": (1, 4.5, [("OFFSET", 4.5)])}[c["scaling"]]
    const = [data_value(dt, v) for v in consts] + [data_value(dt, v) for v in IMPLIED[dt]]
    if not fits64([v for v in vals if v not in const], s, o):
        vals = [v for v in vals if v in const or abs(v) < 2**40]
    if c["all"]:
        vals = [v for v in vals if v in const or v != v] or [v for v in vals]
    d = one(ctx, dt, order, vals, params + extra)
    before, raw = d.IMAGE, d.IMAGE.copy()
    got = scaled(d)
    # without any constant or non-finite element, 8-bit unsigned or not, nothing is masked
    check_scaled(got, vals, s, o, const, "get_scaled")
    require(d.IMAGE is before and before.tobytes() == raw.tobytes(), "loaded object modified")
    ctx.step(len(vals) + 1)
    return "masked" if np.ma.getmaskarray(got).any() else "unmasked"


def special_cases(tier):
    dts = ["u1", "i2", "u2", "i4", "u4", "f4", "f8", "i1"] + (["i8", "u8"] if tier == "thorough" else [])
    forms = list(FORMS)
    for dt in dts:
        n = len(const_menu(dt))
        for scaling, implied, invalid in product_list(["none", "float", "int", "off"], [False, True], [None, "nan", "inf", "all"] if dt[0] == "f" else [None]):
            sets = [[]] + [[("MISSING_CONSTANT", i, f)] for i in range(n) for f in forms] + [[("CORE_NULL", i, "plain"), ("INVALID_CONSTANT", j, "plain")] for i in range(n) for j in range(i + 1, n)]
            if scaling == "float" and not implied:
                sets += [[(nm, 1, "plain")] for nm in NAMES + ISIS + NOTNAMES]
                sets += [[("MISSING_CONSTANT", None, t)] for t in ('"N/A"', "N/A", '"UNK"', "NULL", '"NULL"', "UNK", '""', '"0"', '"1"', "16#FF#")]
                sets = [s for s in sets if s != [("MISSING_CONSTANT", None, "16#FF#")]]
            for st in sets:
                for everything in (False, True):
                    if everything and (not st or len(st) > 1):
                        continue
                    yield dict(dt=dt, order=">" if implied else "<", consts=st, scaling=scaling, implied=implied, invalid=invalid, all=everything)


def product_list(*axes):
    return itertools.product(*axes)


# ------------------------------------------------------------------ bands
def run_bands(c, ctx):
    dt, B, bst = c["dt"], c["bands"], c["bst"]
    vals = [v for v in values(dt) if abs(v) < 60000][:6]
    vals = (vals * 6)[:6]
    L, S = 2, 3
    cube = [[[vals[(b + 2 * l + s) % 6] for s in range(S)] for l in range(L)] for b in range(B)]
    if bst == "BAND_SEQUENTIAL":
        order = [(b, l, s) for b in range(B) for l in range(L) for s in range(S)]
    elif bst == "LINE_INTERLEAVED":
        order = [(b, l, s) for l in range(L) for b in range(B) for s in range(S)]
    else:
        order = [(b, l, s) for l in range(L) for s in range(S) for b in range(B)]
    raw = np.array([cube[b][l][s] for b, l, s in order], "<" + dt).tobytes()
    menu = {"f": ["0.5", "2.0", "-1.25", "10.0"], "i": ["2", "3", "-1", "100"]}

    def param(kind, key):
        if kind == "absent":
            return [], None
        if kind in ("scalar", "iscalar"):
            t = menu["f" if kind == "scalar" else "i"][1]
            return [(key, t)], [float(t) if kind == "scalar" else int(t)] * B
        n = B if kind in ("seq", "iseq") else 1 if kind == "seq1" else B - 1 if kind == "short" else B + 1
        ts = menu["i" if kind == "iseq" else "f"][:n]
        return [(key, "(" + ", ".join(ts) + ")")], ([float(t) if kind != "iseq" else int(t) for t in ts] if n == B else "bad" if n != 1 else [float(ts[0])] * B)

    fs, fv = param(c["factor"], "SCALING_FACTOR")
    os_, ov = param(c["offset"], "OFFSET")
    stmts = [("^IMAGE", '"D.IMG"'), image(dt, "<", (B, L, S), fs + os_, bst=bst)]
    p = pds.write_detached(ctx.dir, "D", stmts, {"D.IMG": raw})
    d, _ = pds.quiet_read(p)
    require(pds.load(d, "IMAGE")[0].shape == (B, L, S), "shape", d.IMAGE.shape)
    before = d.IMAGE.copy()
    kw = {"inplace": True} if c["inplace"] else {}
    if "bad" in (fv, ov):
        try:
            got = scaled(d, **kw)
        except Exception:
            return "refused"
        raise Fail(f"{c}: a sequence that does not match the bands was used")
    got = scaled(d, **kw)
    fv, ov = fv or [1] * B, ov or [0] * B
    flat = [(b, cube[b][l][s]) for b in range(B) for l in range(L) for s in range(S)]
    const = [data_value(dt, v) for v in IMPLIED[dt]]
    require(got.shape == (B, L, S), "shape", got.shape)
    check_scaled(got, [data_value(dt, v) for _, v in flat], [fv[b] for b, _ in flat], [ov[b] for b, _ in flat], const, "get_scaled")
    if not c["inplace"]:
        require(d.IMAGE.tobytes() == before.tobytes(), "loaded object modified")
    ctx.step(len(flat))
    return "ok"


# ------------------------------------------------------------------ PDS4
P4 = {"UnsignedByte": "u1", "SignedByte": "i1", "UnsignedMSB2": ">u2", "SignedMSB2": ">i2", "UnsignedLSB4": "<u4", "SignedLSB4": "<i4", "SignedMSB8": ">i8", "UnsignedLSB8": "<u8", "IEEE754MSBSingle": ">f4", "IEEE754LSBDouble": "<f8"}
P4F = {None: 1, "1": 1, "2": 2, "-3": -3, "1000": 1000, "70000": 70000, "0.5": 0.5, "1.0": 1.0, "1e-5": 1e-5, "-2.5": -2.5}
P4O = {None: 0, "0": 0, "1": 1, "-1": -1, "-32768": -32768, "65535": 65535, "0.25": 0.25, "1e6": 1e6, "5000000000": 5000000000}


def run_pds4(c, ctx):
    dt = P4[c["type"]].lstrip("<>")
    s, o = P4F[c["factor"]], P4O[c["offset"]]
    vals = values(dt)
    if c["vals"] == "low":
        vals = [v for v in vals if abs(v) < 2**31 and v <= 100]
    if c["vals"] == "mid":
        vals = [v for v in vals if abs(v) < 2**31]
    consts, kw = [], {}
    for n, t in c["consts"]:
        v = float(t) if "." in t else int(t)
        kw[n] = t
        if not n.startswith("valid_") and not (isinstance(v, float) and dt[0] != "f"):
            consts.append(v)  # a real constant does not match integer elements (pds4_tools documents this)
        x = data_value(dt, v)
        info = None if dt[0] == "f" else np.iinfo(dt)
        if info is None or (x == int(x) and info.min <= x <= info.max):
            vals = vals + [x if dt[0] == "f" else int(x)]
    if not fits64(vals, s, o):
        vals = [v for v in vals if abs(v) < 2**31]
        if not fits64(vals, s, o):
            return "trivial: not representable"
    raw = np.array(vals, P4[c["type"]]).tobytes()
    p = pds4w.write(ctx.dir, "P", [("P.DAT", [pds4w.array("Array_2D_Image", c["type"], [("Line", 1), ("Sample", len(vals))], lid="ARR", scale=c["factor"], shift=c["offset"], specials=pds4w.specials(**kw))])], {"P.DAT": raw})
    d, _ = pds.quiet_read(p)
    before = d["ARR"]
    copy = before.copy()
    require(copy.ravel().tolist() == vals, "loaded values", copy, vals)
    got = scaled(d, "ARR")
    applied = s != 1 or o != 0
    const = [data_value(dt, v) for v in consts] if applied else []
    if dt[0] == "f":
        check_scaled(got, [float(v) for v in vals], s, o, const, "get_scaled", nonfinite=False)
    else:
        check_scaled(got, vals, s, o, const, "get_scaled")
    require(d["ARR"] is before and before.tobytes() == copy.tobytes() and before.dtype == copy.dtype, "loaded array modified", before, copy)
    again = scaled(d, "ARR")
    require(again.dtype == got.dtype and np.array_equal(np.ma.getdata(again), np.ma.getdata(got)) and np.array_equal(np.ma.getmaskarray(again), np.ma.getmaskarray(got)), "second call differs", again, got)
    ctx.step(len(vals) + 2)
    return f"{got.dtype.kind}{got.dtype.itemsize}"


# ------------------------------------------------------------------ histories
H = {  # name -> dtype, values, params, factor, offset, constants
    "IMAGE": ("u2", [0, 1, 7, 60000, 65533, 300], [("SCALING_FACTOR", 3), ("OFFSET", -10)], 3, -10, [0, 1, 65533]),
    "A_IMAGE": ("f4", [0.5, 2.0, -9999.0, 4.25, 100.0, 1e3], [("SCALING_FACTOR", 0.5), ("OFFSET", "1.0"), ("MISSING_CONSTANT", "-9999.0")], 0.5, 1.0, [-9999.0]),
    "B_IMAGE": ("u1", [0, 5, 255, 128, 9, 77], [], 1, 0, []),
    "C_IMAGE": ("i2", [-32768, 5, 255, -128, 9, 77], [("INVALID_CONSTANT", 9)], 1, 0, [-32768, 9]),
}
EDIT = {"MISSING_CONSTANT": 100.0}


def hist_product(d):
    stmts = [("^" + n, f'"{n[0]}.IMG"') for n in H] + [image(H[n][0], "<", (1, 2, 3), H[n][2], name=n) for n in H]
    return pds.write_detached(d, "H", stmts, {f"{n[0]}.IMG": np.array(H[n][1], "<" + H[n][0]).tobytes() for n in H})


OPS = ["scaled IMAGE", "scaled A_IMAGE", "scaled C_IMAGE", "f32 IMAGE", "f32 A_IMAGE", "get A_IMAGE", "reload A_IMAGE", "find A_IMAGE", "inplace A_IMAGE", "inplace IMAGE", "edit", "dump", "show A_IMAGE", "scaled B_IMAGE",
       "file A_IMAGE"]


def run_history(c, ctx):
    p = hist_product(ctx.dir)
    d, _ = pds.quiet_read(p)
    vals = {n: list(H[n][1]) for n in H}
    consts = {n: list(H[n][5]) for n in H}
    spent = set()
    loaded = set()
    unread = {}
    for k, op in enumerate(c["ops"]):
        verb, _, n = op.partition(" ")
        what = f"step {k} {op}"
        if n and n not in loaded and verb != "reload" and n in unread:
            vals[n] = unread.pop(n)
        if n in spent and verb != "reload":
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if verb in ("scaled", "f32", "inplace"):
                kw = {} if verb == "scaled" else {"float_dtype": np.dtype("f4")} if verb == "f32" else {"inplace": True}
                got = d.get_scaled(n, **kw)
                check_scaled(got, vals[n], H[n][3], H[n][4], consts[n], what)
                if verb == "inplace":
                    spent.add(n)
                loaded.add(n)
            elif verb == "get":
                d[n]
                loaded.add(n)
            elif verb == "reload":
                d.load(n, reload=True)
                loaded.add(n)
                spent.discard(n)
                if n in unread:
                    vals[n] = unread.pop(n)
            elif verb == "find":
                got = d.find_special_constants(n)
                loaded.add(n)
                require({float(np.float32(v)) for v in got.values()} == {float(np.float32(v)) for v in consts[n]}, what, got, consts[n])
            elif verb == "edit":
                d.metadata["A_IMAGE"]["MISSING_CONSTANT"] = 100.0
                d.load_metadata_changes()
                consts["A_IMAGE"] = [100.0]
            elif verb == "file":
                # the file changes; the loaded object does not until reloaded
                unread[n] = [100.0, 2.5, -9999.0, 1e32 if k % 2 else 8.0, 3.0, 1e3]
                (ctx.dir / f"{n[0]}.IMG").write_bytes(np.array(unread[n], "<" + H[n][0]).tobytes())
                if n not in loaded:
                    vals[n] = unread.pop(n)
            elif verb == "dump":
                d.dump_browse(outpath=ctx.dir)
            elif verb == "show":
                d.show(n)
                loaded.add(n)
        # 1e32 is an implied constant of single-precision images
        consts["A_IMAGE"] = [x for x in consts["A_IMAGE"] if x != float(np.float32(1e32))]
        if float(np.float32(1e32)) in [float(np.float32(v)) for v in vals["A_IMAGE"]]:
            vals["A_IMAGE"] = [float(np.float32(v)) for v in vals["A_IMAGE"]]
            consts["A_IMAGE"] = consts["A_IMAGE"] + [float(np.float32(1e32))]
        for m in loaded - spent:
            require(d[m].ravel().tolist() == vals[m] and not np.ma.isMaskedArray(d[m]) and d[m].dtype == np.dtype("<" + H[m][0]), f"{what}: loaded {m} changed", d[m], vals[m])
            ctx.step()
        ctx.state((tuple(sorted(loaded)), tuple(sorted(spent)), str(consts["A_IMAGE"]), str(vals["A_IMAGE"])))
    return f"{len(c['ops'])} ops"


def history_cases(depth):
    for ops in sequences(OPS, depth, 1):
        if not ops[-1].startswith(("file", "edit", "get")):
            yield dict(ops=list(ops))


# ------------------------------------------------------------------ identity elsewhere
def run_identity(c, ctx):
    from mc import products
    prod = products.ALL[c["product"]](ctx.dir, "X")
    d, _ = pds.quiet_read(prod.path)
    n = 0
    for name, want in prod.objs.items():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj = d[name]
            if type(obj) is not np.ndarray:
                try:
                    d.get_scaled(name)
                except TypeError:
                    n += 1
                    continue
                raise Fail(f"get_scaled({name}) of a {type(obj).__name__} did not raise TypeError")
            raw = obj.copy()
            got = d.get_scaled(name)
            if prod.scaled.get(name) is not None:
                require(np.asarray(got).ravel().tolist() == prod.scaled[name], f"scaled {name}", got)
            else:
                require(np.array_equal(np.asarray(got), raw) and got.dtype == raw.dtype, f"get_scaled({name}) changes an object without scaling", got, raw)
            require(d[name] is obj and obj.tobytes() == raw.tobytes(), f"{name} modified")
            n += 2
    ctx.step(n)
    return "ok"


def spaces(tier):
    deep = tier == "thorough"
    dts = ["u1", "i1", "u2", "i2", "u4", "i4", "f4", "f8"] + (["u8", "i8"] if deep else [])
    yield Space("scale", product(dict(dt=dts, order=["<", ">"] if deep else ["<"], factor=list(FACTOR), offset=list(OFFSET), vals=["all", "mid", "small"] if deep else ["all", "small"], call=["plain", "f32", "inplace"] if deep else ["plain", "inplace"])),
                run_scale, "sample type x byte order x SCALING_FACTOR x OFFSET (absent, integer, real, with unit, N/A) x value range x call form")
    yield Space("compressed", product(dict(dt=["u1", "i2", "f4"], order=[">"], factor=["two", "half", "thou"], offset=["absent", "one", "unitf"], vals=["all"], call=["plain", "f32", "inplace"], gz=[True])), run_scale, "the same on arrays backed by a decompressed buffer")
    yield Space("specials", special_cases(tier), run_special, "sample type x labelled constants (name, value, form) x implied constants present x non-finite elements x scaling")
    yield Space("bands", product(dict(dt=["u1", "i2", "u2", "f4"] + (["i4", "u4", "f8"] if deep else []), bands=[2, 3] if deep else [3], bst=["BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED"], factor=["absent", "scalar", "iscalar", "seq", "iseq", "seq1", "short", "long"],
                                      offset=["absent", "scalar", "iscalar", "seq", "iseq", "seq1", "short", "long"], inplace=[False, True])), run_bands, "per-band factors and offsets x storage types")
    csets = [[], [("missing_constant", "100")], [("missing_constant", "-9999"), ("unknown_constant", "1")], [("missing_constant", "70000")], [("invalid_constant", "-1.5")], [("missing_constant", "0.0")], [("valid_maximum", "100"), ("missing_constant", "1")], [("error_constant", "-1")]]
    yield Space("pds4", product(dict(type=list(P4), factor=list(P4F), offset=list(P4O), vals=["all", "mid", "low"] if deep else ["all", "low"], consts=csets if deep else csets[:6])), run_pds4, "PDS4 element type x scaling_factor x value_offset x Special_Constants x value range")
    yield Space("histories", history_cases(3 if deep else 2), run_history, "every sequence of get_scaled (plain, float32, in place), loads, label edits, file changes and dumps over four images")
    yield Space("identity", [dict(product=n) for n in ("detached", "attached", "fits", "labfits", "pds4", "png", "gif")], run_identity, "objects of every product kind")
