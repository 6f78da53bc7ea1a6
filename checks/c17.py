"""C17: every HDU of a FITS file is reachable under one stable name, with its own data and header.

Files are written byte by byte (no astropy) from every HDU list up to a length over kinds and names (absent, repeated, clashing with numbered and header names), loaded in every order; every image type, scaling and shape; every table column
type, alone and in pairs; every sequence of header cards; and the same HDUs through PDS3 and PDS4 labels with every pointer form. Objects, headers and names are compared with the values written."""
import itertools
import math
from collections.abc import Mapping

import numpy as np
import pandas as pd

from mc import fitsw as F, pds, pds4w
from mc.core import Fail, Space, product, require, sequences, short

TECHNIQUE = "exhaustive enumeration of HDU lists, names, image/table/card definitions, pointer forms and access orders on the real code against bytes written independently of astropy"
ASSUMPTIONS = ["astropy's own decoding of one HDU is checked only through pdr's results", "unnamed extensions may get any unique names"]
CHUNK = 8


def same(a, b):
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    return a == b


def check_header(got, hdu, primary, what):
    require(isinstance(got, Mapping), f"{what} is not a mapping", type(got))
    have = [(k, v) for k, v in got.items()]
    want = hdu.expected_header(primary)
    if primary:
        have = [kv for kv in have if kv[0] != "EXTEND"]
    require(len(have) == len(want) and all(a[0] == b[0] and type(a[1]) is type(b[1]) and a[1] == b[1] for a, b in zip(have, want)), f"{what} differs", [x for x in zip(have, want) if x[0] != x[1]] or (have, want))


def check_body(got, hdu, what):
    want = hdu.want
    if isinstance(want, tuple) and want and want[0] == "array":
        _, shape, values = want
        if shape == ():
            require(isinstance(got, np.ndarray) and got.size == 0, f"{what} is not an empty array", got)
            return
        require(isinstance(got, np.ndarray), f"{what} is not an array", type(got), got)
        require(got.shape == tuple(shape), f"{what} has shape {got.shape}", shape)
        flat = got.ravel().tolist()
        require(all(same(a, b) for a, b in zip(flat, values)), f"{what} has values {short(flat)}", values)
        require(not any(isinstance(v, int) for v in values) or got.dtype.kind in "iu" or hdu.floating, f"{what}: integers became {got.dtype}")
        return
    cols = want
    require(isinstance(got, pd.DataFrame), f"{what} is not a table", type(got), got)
    require(list(got.columns) == [c for c, _ in cols], f"{what} has columns {list(got.columns)}", [c for c, _ in cols])
    for i, (c, v) in enumerate(cols):
        have = got.iloc[:, i].tolist()
        have = [list(x.tolist()) if isinstance(x, np.ndarray) else x for x in have]
        if hdu.kind == "table":  # trailing blanks are not significant
            have = [x.rstrip() if isinstance(x, str) else x for x in have]
        require(len(have) == len(v) and all(same(a, b) for a, b in zip(have, v)), f"{what}[{c}] is {short(have)}", v)


def img(n, name=None, ext=True, bitpix=16):
    h = F.image(bitpix, (2, 2), [n, n + 1, n + 2, -n], [("MARK", n, f"hdu {n}")], name, ext)
    h.want, h.floating = ("array", (2, 2), [n, n + 1, n + 2, -n]), False
    return h


def stub(n, name=None, ext=True):
    h = F.image(8, (), (), [("MARK", n)], name, ext)
    h.want, h.floating = ("array", (), []), False
    return h


def btab(n, name=None):
    h = F.bintable([dict(name="V", code="J", values=[n, -n]), dict(name="W", code="A", repeat=2, values=["ab", "cd"])], 2, name, [("MARK", n)])
    h.want = [("V", [n, -n]), ("W", ["ab", "cd"])]
    return h


def atab(n, name=None):
    h = F.table([dict(name="V", form="I5", values=[str(n), str(-n)]), dict(name="W", form="A3", values=["ab", "cd"])], 2, name, [("MARK", n)])
    h.want = [("V", [n, -n]), ("W", ["ab", "cd"])]
    return h


MAKE = dict(img=img, stub=stub, btab=btab, atab=atab)
NAMES = [None, "A", "B", "A_0", "A_1", "A_HEADER", "PRIMARY", "PRIMARY_HEADER", "a b", "low", "HEADER", "IMAGE HEADER", "A_0_HEADER", "index", "metadata"]


def write(ctx, hdus, fn="T.FITS"):
    raw, locs = F.build(hdus)
    (ctx.dir / fn).write_bytes(raw)
    return ctx.dir / fn, locs


def assign(keys, hdus, metadata):
    """match index names to HDUs through the metadata headers' MARK values -> name per HDU"""
    by = {}
    for k in keys:
        require(isinstance(metadata.get(k), Mapping), "an indexed name has no header in the metadata", k)
        by.setdefault(metadata[k].get("MARK"), []).append(k)
    marks = [dict((c[0], c[1]) for c in h.extra).get("MARK") for h in hdus]
    require(sorted(by, key=str) == sorted(marks, key=str) and all(len(v) == 1 for v in by.values()), "index does not list every HDU exactly once", keys, by)
    names = [by[m][0] for m in marks]
    given = ["PRIMARY" if i == 0 else h.name or "" for i, h in enumerate(hdus)]
    counts = {}
    for n, g in zip(names, given):
        if g == "":
            continue
        if g in ("index", "metadata"):  # would replace Data's own attributes
            require(n != g and n.startswith(g), "an HDU took the name of an attribute", n)
            continue
        if given.count(g) == 1:
            taken = [x for x in given if x == g]
            require(n == g or len(taken) > 1, "an HDU with a unique name goes by another", n, g)
        else:
            require(n.startswith(g + "_") and n[len(g) + 1:].isdigit(), "a repeated name is not numbered", n, g)
            num = int(n[len(g) + 1:])
            require(num > counts.get(g, -1), "repeated names are not numbered in file order", names)
            counts[g] = num
    return names


def run_names(c, ctx):
    hdus = [MAKE[k](10 * (i + 1), n) if i else MAKE[k](10 * (i + 1), None, False) for i, (k, n) in enumerate(zip(c["kinds"], [None, *c["names"]]))]
    path, _ = write(ctx, hdus)
    orders = list(itertools.permutations(range(len(hdus)))) if len(hdus) < 4 else [tuple(range(len(hdus))), tuple(reversed(range(len(hdus))))]
    for order in [*orders, "all"]:
        d, _w = pds.quiet_read(path)
        keys = list(d.keys())
        require(len(set(keys)) == len(keys) == len(hdus), "names in the index", keys)
        names = assign(keys, hdus, d.metadata)
        with pds.silent():
            if order == "all":
                d.load("all")
                order = range(len(hdus))
            for i in order:
                check_body(d[names[i]], hdus[i], f"{names[i]}")
                ctx.step()
            for i in order:  # other loads did not replace it
                check_body(d[names[i]], hdus[i], f"{names[i]} after the others")
                check_header(d.metadata[names[i]], hdus[i], i == 0, f"metadata of {names[i]}")
                head = f"{names[i]}_HEADER"
                if head not in names:
                    require(head in d.keys(), "no header object", head, list(d.keys()))
                    check_header(d[head], hdus[i], i == 0, head)
                ctx.step()
        require(list(d.keys())[: len(keys)] == keys, "the index changed", list(d.keys()), keys)
    return "unique" if len(set(c["names"])) == len(c["names"]) else "repeated"


def name_cases(n, kinds, alphabet):
    for names in itertools.product(alphabet, repeat=n):
        for ks in kinds:
            yield dict(kinds=list(ks), names=list(names))


# --------------------------------------------------------------------- images
INTS = {8: [0, 1, 127, 128, 255, 7], 16: [-32768, 32767, 0, 1, -1, 300], 32: [-2**31, 2**31 - 1, 0, 1, -1, 70000], 64: [-2**63, 2**63 - 1, 0, 1, -1, 2**40]}
FLTS = [0.0, -1.5, 0.25, 1e10, float("nan"), 3.0]


def run_image(c, ctx):
    bp, shape = c["bitpix"], tuple(c["shape"])
    n = math.prod(shape)
    base = INTS[bp] if bp > 0 else [np.float32(x).item() for x in FLTS]
    vals = [base[i % 6] for i in range(n)]
    cards, want, floating = [], list(vals), bp < 0
    sc = c["scale"]
    if sc == "unsigned":
        if bp < 0:
            return "trivial: no such convention"
        z = -128 if bp == 8 else 2 ** (bp - 1)
        cards += [("BSCALE", 1), ("BZERO", z)]
        want = [v + z for v in vals]
    elif sc != "none":
        s, z = {"scale": (0.5, None), "zero": (None, 10), "both": (2.0, -4.0), "unit": (1.0, 0.0)}[sc]
        cards += ([("BSCALE", s)] if s is not None else []) + ([("BZERO", z)] if z is not None else [])
        if bp == 64 and sc != "unit":
            vals = [v % 1000 for v in vals]
        want = [v * (s if s is not None else 1) + (z or 0) for v in vals]
        floating = True
        if sc == "unit":
            want, floating = list(vals), bp < 0
        elif bp == 16 or bp == 8 or bp == -32:  # results are float32
            want = [float(np.float32(w)) for w in want]
    if c["blank"] is not None:
        if bp < 0 or sc == "unsigned":
            return "trivial: BLANK does not apply"
        b = vals[c["blank"] % n]
        cards.append(("BLANK", b))
        if sc in ("none", "unit") and bp >= 32:
            vals = [v % 1000 + 1 for v in vals]
            b = vals[c["blank"] % n]
            cards[-1] = ("BLANK", b)
        floating = True
        s, z = {"none": (1, 0), "unit": (1, 0), "scale": (0.5, 0), "zero": (1, 10), "both": (2, -4)}[sc]
        want = [float("nan") if v == b else float(np.float32(v * s + z) if bp < 32 else v * s + z) for v in vals]
    h = F.image(bp, shape, vals, [("MARK", 20), *cards], "SCI" if c["ext"] else None, c["ext"])
    h.want, h.floating = ("array", shape, want), floating
    hdus = [img(10, None, False), h] if c["ext"] else [h, img(10, "SCI")]
    path, locs = write(ctx, hdus)
    d, _ = pds.quiet_read(path)
    name = "SCI" if c["ext"] else "PRIMARY"
    with pds.silent():
        for step in c["history"]:
            if step == "load":
                d.load(name, reload=True)
            elif step == "scaled":
                got = d.get_scaled(name)
                check_body(np.ma.filled(np.ma.masked_array(got), np.nan) if got.dtype.kind == "f" and bp < 0 else np.asarray(got), h, "get_scaled") if not np.ma.is_masked(got) else None
                ctx.step()
            elif step == "dirty":
                d.get_scaled(name, inplace=True)
                obj = d[name]
                if obj.flags.writeable:
                    obj[...] = 99
                d.load(name, reload=True)
            elif step == "purge":
                d.dump_browse(outpath=ctx.dir, purge=True)
            check_body(d[name], h, f"{name} after {step}")
            check_header(d[name + "_HEADER"], h, not c["ext"], f"{name}_HEADER after {step}")
            check_header(d.metadata[name], h, not c["ext"], "metadata")
            ctx.step()
    return sc


# --------------------------------------------------------------------- tables
def bcol(kind, name):
    """-> column dict, [(result column suffix, values)]"""
    k = kind
    if k == "L":
        return dict(name=name, code="L", values=[True, False, True]), [("", [True, False, True])]
    if k in "BIJK":
        lo, hi = dict(B=(0, 255), I=(-2**15, 2**15 - 1), J=(-2**31, 2**31 - 1), K=(-2**63, 2**63 - 1))[k]
        return dict(name=name, code=k, values=[lo, hi, 5]), [("", [lo, hi, 5])]
    if k in ("uI", "uJ", "uK"):
        c = k[1]
        z = dict(I=2**15, J=2**31, K=2**63)[c]
        return dict(name=name, code=c, values=[-z, z - 1, 5], zero=z), [("", [0, 2 * z - 1, 5 + z])]
    if k == "sB":
        return dict(name=name, code="B", values=[0, 255, 130], zero=-128), [("", [-128, 127, 2])]
    if k == "E":
        return dict(name=name, code="E", values=[0.5, -2.25, float("nan")]), [("", [0.5, -2.25, float("nan")])]
    if k == "D":
        return dict(name=name, code="D", values=[0.1, -1e300, float("nan")]), [("", [0.1, -1e300, float("nan")])]
    if k == "C":
        return dict(name=name, code="C", values=[1 + 2j, -0.5j, 0j]), [("", [1 + 2j, -0.5j, 0j])]
    if k == "A":
        return dict(name=name, code="A", repeat=3, values=["abc", "d", ""]), [("", ["abc", "d", ""])]
    if k == "A1":
        return dict(name=name, code="A", values=["x", "y", "z"]), [("", ["x", "y", "z"])]
    if k == "Iscal":
        return dict(name=name, code="I", values=[4, -6, 100], scal=0.5, zero=1.0), [("", [3.0, -2.0, 51.0])]
    if k == "Escal":
        return dict(name=name, code="E", values=[4.0, -6.0, 100.0], scal=2.0), [("", [8.0, -12.0, 200.0])]
    if k == "2I":
        return dict(name=name, code="I", repeat=2, values=[[1, 2], [3, 4], [-5, 6]]), [("_0", [1, 3, -5]), ("_1", [2, 4, 6])]
    if k == "2L":
        return dict(name=name, code="L", repeat=2, values=[[True, False], [False, True], [True, True]]), [("_0", [True, False, True]), ("_1", [False, True, True])]
    if k == "2uI":
        return dict(name=name, code="I", repeat=2, zero=2**15, values=[[1, 2], [3, 4], [-5, 6]]), [("_0", [x + 2**15 for x in (1, 3, -5)]), ("_1", [x + 2**15 for x in (2, 4, 6)])]
    if k == "2Escal":
        return dict(name=name, code="E", repeat=2, scal=2.0, values=[[1.0, 2.0], [3.0, 4.0], [-5.0, 6.0]]), [("_0", [2.0, 6.0, -10.0]), ("_1", [4.0, 8.0, 12.0])]
    if k == "dimI":
        v = [list(range(i, i + 6)) for i in (0, 10, -3)]
        return dict(name=name, code="I", repeat=6, values=v, dim="(3,2)"), [(f"_{j}", [r[j] for r in v]) for j in range(6)]
    if k == "dimA":
        return dict(name=name, code="A", repeat=4, values=["abcd", "efgh", "ijkl"], dim="(2,2)"), [("_0", ["ab", "ef", "ij"]), ("_1", ["cd", "gh", "kl"])]
    raise KeyError(k)


BKINDS = ["L", "B", "I", "J", "K", "uI", "uJ", "uK", "sB", "E", "D", "C", "A", "A1", "Iscal", "Escal", "2I", "2L", "2uI", "2Escal", "dimI", "dimA"]


def run_bintable(c, ctx):
    cols, want = [], []
    names = c["names"]
    for k, n in zip(c["cols"], names):
        col, res = bcol(k, n)
        col["values"] = col["values"][: c["rows"]]
        cols.append(col)
        want.append((n, res))
    dup = {n for n in names if names.count(n) > 1}
    flat, seen = [], {}
    for n, res in want:
        if n in dup:
            seen[n] = seen.get(n, -1) + 1
            n = f"{n}_{seen[n]}"
        flat += [(n + suffix, v[: c["rows"]]) for suffix, v in res]
    clash = len({n for n, _ in flat}) < len(flat) or any(f"{n}_{i}" in names for n in names for i in range(3))
    h = F.bintable(cols, c["rows"], "T", [("MARK", 20)])
    h.want = flat
    path, _ = write(ctx, [stub(10, None, False), h])
    d, _ = pds.quiet_read(path)
    with pds.silent():
        for step in c["history"]:
            if step == "load":
                d.load("T", reload=True)
            got = d["T"]
            if clash:  # names may be anything unique, but the columns must all be there in order
                require(isinstance(got, pd.DataFrame) and len(set(got.columns)) == len(flat) == len(got.columns), "column names are not unique", list(got.columns), [n for n, _ in flat])
                h.want = [(g, v) for g, (_, v) in zip(got.columns, flat)]
            check_body(got, h, f"table after {step}")
            if len(dup) == 0:
                check_header(d["T_HEADER"], h, False, f"T_HEADER after {step}")
            ctx.step()
    return "clash" if clash else "repeated names" if dup else f"{len(cols)} columns"


def bin_cases(deep):
    for rows in (3, 1, 0):
        for k in BKINDS:
            if rows or k != "dimA":  # numpy keeps no shape of strings without rows
                yield dict(cols=[k], names=["V"], rows=rows, history=["get", "load"])
    for a, b in itertools.product(BKINDS, repeat=2):
        yield dict(cols=[a, b], names=["V", "W"], rows=3, history=["get"])
        if deep:
            for rows in (0, 1) if "dimA" not in (a, b) else (1,):
                yield dict(cols=[a, b], names=["V", "W"], rows=rows, history=["get"])
    small = ["I", "A", "2I", "uI", "L"] if not deep else ["I", "A", "2I", "uI", "L", "E", "dimA", "Iscal"]
    for ks in itertools.product(small, repeat=3):
        yield dict(cols=list(ks), names=["V", "W", "X"], rows=3, history=["get"])
    for names in [["V", "V"], ["V", "V_0"], ["V", "V_1"], ["V", "V", "V"], ["V", "V", "V_0"], ["V_0", "V", "V"], ["V", "V_1", "V"], ["V", "W", "V"], ["V", "V", "W"], ["V", "W", "V", "W"]]:
        for ks in itertools.product(["I", "2I", "A"], repeat=len(names)):
            yield dict(cols=list(ks), names=names, rows=3, history=["get", "load"])


def run_varlen(c, ctx):
    vals = [list(v) for v in c["values"]]
    h = F.varlen("V", c["code"], vals)
    h.extra, h.want = [("MARK", 20)], [("V", vals)]
    h.name = "T"
    path, _ = write(ctx, [stub(10, None, False), h])
    d, _ = pds.quiet_read(path)
    with pds.silent():
        check_body(d["T"], h, "T")
    ctx.step()
    return "ok"


ACOLS = {
    "I": ("I6", ["12", "-7", "999999"], [12, -7, 999999]), "I12": ("I12", ["2147483648", "-1", "5"], [2147483648, -1, 5]), "F": ("F7.2", ["1.50", "-3.25", "0.00"], [1.5, -3.25, 0.0]),
    "E": ("E10.3", ["1.500E+02", "-2.5E-01", "0.0"], [150.0, -0.25, 0.0]), "D": ("D12.4", ["1.25D+10", "-2.5D-01", "0.0"], [1.25e10, -0.25, 0.0]), "A": ("A5", ["ab", "c d", "hello"], ["ab", "c d", "hello"]),
    "A1": ("A1", ["x", "y", "z"], ["x", "y", "z"]),
}


def run_ascii(c, ctx):
    cols, want = [], []
    for i, (k, s) in enumerate(zip(c["cols"], c["scal"])):
        form, text, vals = ACOLS[k]
        col = dict(name=f"V{i}", form=form, values=text[: c["rows"]])
        vals = list(vals[: c["rows"]])
        if s and k[0] != "A":
            col |= dict(scal=2.0, zero=1.0)
            vals = [2.0 * v + 1.0 for v in vals]
        cols.append(col)
        want.append((col["name"], vals))
    h = F.table(cols, c["rows"], "T", [("MARK", 20)], pad=c["pad"])
    h.want = want
    path, _ = write(ctx, [stub(10, None, False), h])
    d, _ = pds.quiet_read(path)
    with pds.silent():
        for _ in range(2):
            check_body(d["T"], h, "T")
            check_header(d["T_HEADER"], h, False, "T_HEADER")
            d.load("T", reload=True)
            ctx.step()
    return "scaled" if any(c["scal"]) else "plain"


def ascii_cases(deep):
    for rows in (3, 1):  # astropy cannot read text columns of ASCII tables without rows
        for n in (1, 2, 3) if deep else (1, 2):
            for ks in itertools.product(ACOLS, repeat=n):
                if n == 3 and len(set(ks)) < 3:
                    continue
                for sc in itertools.product((False, True), repeat=n) if n < 3 else [(False,) * 3, (True, False, False)]:
                    if any(s and k[0] == "A" for k, s in zip(ks, sc)):
                        continue
                    for pad in (1, 0) if rows == 3 else (1,):
                        yield dict(cols=list(ks), scal=list(sc), rows=rows, pad=pad)


# -------------------------------------------------------------------- headers
CARDS = [("INTV", 5), ("INTC", -5, "with comment"), ("FLT", 1.5), ("BOOL", False), ("STR", "text"), ("QUOTE", "it's"), ("EMPTY", ""), ("UNDEF", None), ("COMMENT", "first"), ("HISTORY", "step one"),
         ("COMMENT", "second / with slash"), ("SLASH", "a / b", "c / d"), ("", "blank key"), ("INTV", 6), ("LOWCASE", "MiXed"), ("BIG", 2**62), ("MARK", 20)]


def run_cards(c, ctx):
    h = img(20, "SCI")
    h.extra = [tuple(CARDS[i]) for i in c["cards"]]
    p = img(10, None, False)
    if c["primary"]:
        p.extra = list(h.extra)
    path, _ = write(ctx, [p, h])
    d, _ = pds.quiet_read(path)
    with pds.silent():
        check_header(d.metadata["SCI"], h, False, "metadata")
        d.load("SCI")
        check_header(d["SCI_HEADER"], h, False, "SCI_HEADER")
        d.load("PRIMARY")
        check_header(d["PRIMARY_HEADER"], p, True, "PRIMARY_HEADER")
        check_body(d["SCI"], h, "SCI")
    for key in {CARDS[i][0] for i in c["cards"]} - {"", "COMMENT", "HISTORY", "MARK"}:
        block = (p if c["primary"] else h).expected_header(False)
        want = next(v for k, v in block if k == key)
        require(d.metaget_(key) == want, f"metaget({key})", d.metaget_(key), want)
        ctx.step()
    return "ok"


BAD = {"nonstd": "BADKEY  = 'unterminated", "lower": "lowkey  =                    5", "noeq": "JUSTAKEY without a value", "latin": "KEY     =   1.0.0 / not a number"}


def run_bad(c, ctx):
    """an illegal card does not make the HDU or the other cards unreachable"""
    h = img(20, "SCI")
    h.extra = [("BEFORE", 1), BAD[c["bad"]].ljust(80), ("AFTER", 2), ("MARK", 20)]
    path, _ = write(ctx, [img(10, None, False), h, btab(30, "LAST")])
    d, _ = pds.quiet_read(path)
    with pds.silent():
        order = ["PRIMARY", "SCI", "LAST"]
        for n in (order if c["order"] else reversed(order)):
            d.load(n)
        check_body(d["SCI"], h, "SCI")
        for blk, what in ((d["SCI_HEADER"], "SCI_HEADER"), (d.metadata["SCI"], "metadata")):
            for k, v in (("BEFORE", 1), ("AFTER", 2), ("MARK", 20), ("NAXIS1", 2), ("EXTNAME", "SCI")):
                require(blk.get(k) == v, f"{what}[{k}]", blk.get(k), v)
            ctx.step()
        require(d["LAST_HEADER"].get("MARK") == 30 and d["PRIMARY_HEADER"].get("MARK") == 10, "headers of other HDUs")
    return "ok"


# ------------------------------------------------------------------- labelled
def pointer(form, fn, off):
    """off: 0-based byte offset of a FITS block"""
    if form == "record":
        return f'("{fn}", {off // F.BLOCK + 1})'
    if form == "bytes":
        return f'("{fn}", {off + 1} <BYTES>)'
    if form == "recunits":
        return f'("{fn}", {off // F.BLOCK + 1} <RECORDS>)'
    if form == "tight":
        return f'("{fn}",{off + 1}<BYTES>)'
    if form == "lines":
        return f'(\r\n    "{fn}",\r\n    {off // F.BLOCK + 1})'
    if form == "file":
        return f'"{fn}"'
    raise KeyError(form)


def run_pds3(c, ctx):
    kinds = c["kinds"]
    hdus = [MAKE[k](10 * (i + 1), f"E{i}") if i else MAKE[k](10, None, False) for i, k in enumerate(kinds)]
    _, locs = write(ctx, hdus, "PROD.FIT")
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880)]
    names = []
    blocks = []
    for i, h in enumerate(hdus):
        if kinds[i] != "stub" and not (c["skip"] and i == 0):
            base = f"P{i}_IMAGE" if h.kind == "image" else f"P{i}_TABLE"
            if c["heads"]:
                hname = f"{base}_HEADER" if c["heads"] == "same" else f"H{i}_HEADER"
                st.append((f"^{hname}", pointer("file" if i == 0 and c["form"] == "record" else c["form"], "PROD.FIT", locs[i][0])))
                blocks.append(pds.block("OBJECT", hname, ("BYTES", locs[i][1] - locs[i][0])))
                names.append((hname, i, "header"))
            st.append((f"^{base}", pointer(c["form"], "PROD.FIT", locs[i][1])))
            blocks.append(pds.block("OBJECT", base, ("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 16)) if h.kind == "image" else
                          pds.block("OBJECT", base, ("ROWS", 2), ("COLUMNS", 2), ("ROW_BYTES", 6)))
            names.append((base, i, "data"))
    if not names:
        return "trivial: nothing labelled"
    path = pds.write_detached(ctx.dir, "PROD", st + blocks, {})
    for order in itertools.permutations(range(len(names))) if len(names) < 4 else [range(len(names)), range(len(names) - 1, -1, -1)]:
        d, _ = pds.quiet_read(path)
        require(list(d.keys())[1:] == [n for n, _, _ in names] or sorted(d.keys()) == sorted(["LABEL"] + [n for n, _, _ in names]), "index", list(d.keys()), names)
        with pds.silent() as warned:
            for j in order:
                d.load(names[j][0]) if names[j][0] not in d.__dict__ else None
            bad = [str(w.message) for w in warned if w.category is not ResourceWarning]
            require(not bad, "warnings", bad[:3])
        for n, i, part in names:
            if part == "data":
                check_body(d[n], hdus[i], n)
                check_header(d[n + "_HEADER"], hdus[i], i == 0, n + "_HEADER")
            else:
                check_header(d[n], hdus[i], i == 0, n)
            ctx.step()
    return c["form"]


def run_cross(c, ctx):
    """a label that calls another HDU's header <name>_HEADER: the labelled pointer decides, whatever was loaded first"""
    hdus = [img(10, None, False), img(20, "E1"), img(30, "E2")]
    _, locs = write(ctx, hdus, "PROD.FIT")
    a, b = c["header"], c["data"]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880), ("^IMAGE_HEADER", pointer("bytes", "PROD.FIT", locs[a][0])), ("^IMAGE", pointer("bytes", "PROD.FIT", locs[b][1])),
          pds.block("OBJECT", "IMAGE_HEADER", ("BYTES", 2880)), pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 16))]
    path = pds.write_detached(ctx.dir, "PROD", st, {})
    d, _ = pds.quiet_read(path)
    with pds.silent():
        for op in c["ops"]:
            {"I": lambda: d["IMAGE"], "H": lambda: d["IMAGE_HEADER"], "rI": lambda: d.load("IMAGE", reload=True), "rH": lambda: d.load("IMAGE_HEADER", reload=True)}[op]()
            ctx.step()
        check_body(d["IMAGE"], hdus[b], "IMAGE")
        check_header(d["IMAGE_HEADER"], hdus[a], a == 0, "IMAGE_HEADER")
    return "same HDU" if a == b else "other HDU"


def run_pds4(c, ctx):
    kinds = c["kinds"]
    hdus = [MAKE[k](10 * (i + 1), f"E{i}") if i else MAKE[k](10, None, False) for i, k in enumerate(kinds)]
    _, locs = write(ctx, hdus, "prod.fits")
    structs, names = [], []
    for i, h in enumerate(hdus):
        if c["heads"]:
            structs.append(pds4w.header(locs[i][1] - locs[i][0], locs[i][0], name=f"head {i}", lid=None, std="FITS 3.0"))
            names.append((f"head_{i}", i, "header"))
        if kinds[i] == "stub":
            continue
        if h.kind == "image":
            structs.append(pds4w.array("Array_2D_Image", "SignedMSB2", [("Line", 2), ("Sample", 2)], locs[i][1], name=f"data {i}"))
        elif h.kind == "bintable":
            structs.append(pds4w.table("Binary", 2, [pds4w.bfield(1, "V", "SignedMSB4", 1, 4), pds4w.bfield(2, "W", "ASCII_String", 5, 2)], 6, locs[i][1], name=f"data {i}"))
        else:
            structs.append(pds4w.table("Character", 2, [pds4w.bfield(1, "V", "ASCII_Integer", 1, 5, kind="Character"), pds4w.bfield(2, "W", "ASCII_String", 7, 3, kind="Character")], 9, locs[i][1], name=f"data {i}"))
        names.append((f"data_{i}", i, "data"))
    if not structs:
        return "trivial: nothing labelled"
    path = pds4w.write(ctx.dir, "prod", [("prod.fits", structs)], {})
    for order in itertools.permutations(range(len(names))) if len(names) < 4 else [range(len(names)), range(len(names) - 1, -1, -1)]:
        d, _ = pds.quiet_read(path)
        require(sorted(k for k in d.keys() if k != "label") == sorted(n for n, _, _ in names), "index", list(d.keys()), names)
        with pds.silent():
            for j in order:
                d.load(names[j][0]) if names[j][0] not in d.__dict__ else None
        for n, i, part in names:
            if part == "header":
                check_header(d[n], hdus[i], i == 0, n)
            else:
                check_body(d[n], hdus[i], n)
                if not c["heads"]:
                    check_header(d[n + "_HEADER"], hdus[i], i == 0, n + "_HEADER")
            ctx.step()
    return "ok"


def spaces(tier):
    deep = tier == "thorough"
    kinds3 = [list(k) for k in itertools.product(["img", "stub"], ["img", "btab", "atab"], ["img", "btab"])]
    short_names = NAMES[:7] + ["HEADER", "PRIMARY_HEADER"]
    hist = [["get", "load"], ["scaled", "get"], ["dirty"], ["get", "load", "load", "scaled"]] + ([["purge", "load"], ["get", "purge"], ["scaled", "load", "dirty", "scaled"]] if deep else [["get", "purge"]])
    lists = [list(k) for n in (1, 2, 3) for k in itertools.product(["img", "stub", "btab", "atab"], repeat=n) if k[0] in ("img", "stub")]
    out = [
        Space("names1", name_cases(1, list(itertools.product(["img", "stub"], MAKE)), NAMES), run_names, "one extension of every kind under every name"),
        Space("names2", name_cases(2, [["img", "img", "btab"], ["stub", "btab", "img"], ["stub", "atab", "atab"]] if not deep else kinds3, NAMES), run_names, "two extensions, every pair of names, every access order"),
        Space("names3", name_cases(3, [["img", "img", "btab", "img"]] if not deep else [["img", "img", "btab", "img"], ["stub", "img", "img", "atab"]], short_names if not deep else NAMES), run_names, "three extensions, every triple of names"),
        Space("images", product(dict(bitpix=[8, 16, 32, 64, -32, -64], shape=[[2, 3], [6], [1, 2, 3], [2, 1, 3], [2, 2, 2, 2]] if deep else [[2, 3], [6], [2, 1, 3]], scale=["none", "unsigned", "scale", "zero", "both", "unit"], blank=[None, 1, 5],
                                     ext=[False, True], history=hist), lambda c: len(c["shape"]) < 4 or "purge" not in c["history"]), run_image, "image type x shape x BSCALE/BZERO/BLANK x history"),
        Space("bintables", bin_cases(deep), run_bintable, "binary table columns alone, in pairs, in triples, repeated names, row counts"),
        Space("varlen", product(dict(code=["B", "I", "J", "D"], values=[v for v in itertools.product([(), (1,), (1, 2), (3, 4, 5)], repeat=3)])), run_varlen, "variable-length columns"),
        Space("ascii", ascii_cases(deep), run_ascii, "ASCII table columns x scaling x rows x spacing"),
        Space("cards", [dict(cards=list(cs), primary=p) for cs in itertools.chain(sequences(range(len(CARDS)), 2, 0), itertools.product(range(len(CARDS)), repeat=3) if deep else []) for p in (False, True)], run_cards, "every sequence of up to two (thorough: three) cards of the menu"),
        Space("bad cards", product(dict(bad=list(BAD), order=[True, False])), run_bad, "illegal cards"),
        Space("pds3", product(dict(kinds=lists, form=["record", "bytes", "recunits", "tight", "lines"], heads=["", "same", "other"], skip=[False, True])), run_pds3, "PDS3 labels over HDU lists x pointer forms x labelled headers x access orders"),
        Space("cross", product(dict(header=[0, 1, 2], data=[0, 1, 2], ops=[list(o) for o in sequences(["I", "H", "rI", "rH"], 3, 1)])), run_cross, "a labelled header of this or another HDU x histories"),
        Space("pds4", product(dict(kinds=lists, heads=[True, False])), run_pds4, "PDS4 labels over HDU lists x labelled headers x access orders"),
    ]
    return out
