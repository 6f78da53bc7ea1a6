"""C18: PDS4 arrays, tables and labels decode as their XML describes.

Every array class, data type, shape, axis listing order and bit mask; every field type at every position; every record layout of nested groups (binary, character, delimited) up to the bound; every
delimited token; uniformly sampled fields; every small XML tree; every sequence of structures over files and file areas with every access order and in-place edits before reloads; against values laid out by the check itself."""
import itertools
import math
import struct
from datetime import datetime

import numpy as np
import pandas as pd
from multidict import MultiDict

from mc import pds, pds4w as P
from mc.core import Fail, Space, product, require, sequences, short

TECHNIQUE = "exhaustive enumeration of PDS4 labels (structures, types, record layouts, XML trees) and access histories on the real code against an independent writer"
ASSUMPTIONS = ["numpy stores byte strings without trailing NULs", "Python's xml parser"]

INT = {f"Signed{e}{n}": p + c for e, p in (("MSB", ">"), ("LSB", "<")) for n, c in ((2, "h"), (4, "i"), (8, "q"))}
TYPES = dict(INT)
TYPES.update({k.replace("Signed", "Unsigned"): v.upper() for k, v in INT.items()})
TYPES.update(SignedByte="b", UnsignedByte="B", IEEE754MSBSingle=">f", IEEE754MSBDouble=">d", IEEE754LSBSingle="<f", IEEE754LSBDouble="<d",
             ComplexMSB8=">ff", ComplexMSB16=">dd", ComplexLSB8="<ff", ComplexLSB16="<dd")
FLOATS = [0.0, -1.5, 3.25, 1e10, float("inf"), -0.0, 2.0 ** -20, -7.0]


def size(t):
    return struct.calcsize(TYPES[t])


def values(t, n, salt=0):
    """n values of a type: extremes first"""
    f = TYPES[t]
    if f[-1] in "fd":
        base = FLOATS
        if len(f) == 3:
            return [complex(base[(i + salt) % 8], base[(2 * i + salt) % 8] if base[(2 * i + salt) % 8] != float("inf") else 1.0) if base[(i + salt) % 8] != float("inf") else complex(2.0, i) for i in range(n)]
        return [base[(i + salt) % 8] for i in range(n)]
    b = 8 * size(t)
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if f[-1].islower() else (0, (1 << b) - 1)
    base = [lo, hi, 1, hi - 1, lo + 1, 0x12 if b == 8 else 0x1234, 5, 100]
    return [base[(i + salt) % 8] for i in range(n)]


def pack(t, vals):
    f = TYPES[t]
    if len(f) == 3:
        return b"".join(struct.pack(f, v.real, v.imag) for v in vals)
    return b"".join(struct.pack(f if len(f) > 1 else "=" + f, v) for v in vals)


def same(a, b):
    if isinstance(b, (float, complex)):
        return a == b or (a != a and b != b)
    return a == b


def check_values(got, want, what):
    got = list(got)
    require(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), f"{what}: values", short(got), short(want))


def load(ctx, areas, files, keys=None):
    path = P.write(ctx.dir, "p", areas, files)
    return path, pds.quiet_read(path)[0]


# ---------------------------------------------------------------------- arrays
ARRAYS = ["Array", "Array_1D", "Array_2D", "Array_2D_Image", "Array_2D_Map", "Array_2D_Spectrum", "Array_3D", "Array_3D_Image", "Array_3D_Movie", "Array_3D_Spectrum"]
SHAPES = [s for n in (1, 2, 3, 4) for s in itertools.product((1, 2, 3), repeat=n)]


def fits_tag(tag, shape):
    return tag == "Array" or f"_{len(shape)}D" in tag


def run_array(c, ctx):
    t, shape, off = c["type"], tuple(c["shape"]), c["offset"]
    vals = values(t, math.prod(shape), c.get("salt", 0))
    axes = [(f"axis{i}", n) for i, n in enumerate(shape)]
    x = P.array(c["tag"], t, axes, off, name="A")
    if c.get("listing"):  # Axis_Array elements in another document order
        parts = [P.el("Axis_Array", P.el("axis_name", n), P.el("elements", k), P.el("sequence_number", i + 1)) for i, (n, k) in enumerate(axes)]
        require(all(p in x for p in parts), "harness")
        joined = "".join(parts)
        x = x.replace(joined, "".join(parts[i] for i in c["listing"]))
    want = vals
    if c.get("mask") is not None:
        bits = 8 * size(t)
        m = int(c["mask"] * (bits // 8), 2)
        sp = P.specials(missing_constant=vals[c["special"]]) if isinstance(c["special"], int) else P.specials(missing_constant=77) if c["special"] == "other" else ""
        x = x.replace("</" + c["tag"] + ">", P.el("Object_Statistics", P.el("bit_mask", f"{m:0{bits}b}")) + sp + "</" + c["tag"] + ">")
        f = TYPES[t]

        def masked(v):
            u = (v & ((1 << bits) - 1)) & m
            return u - (1 << bits) if f[-1].islower() and u >> (bits - 1) else u
        keep = vals[c["special"]] if isinstance(c["special"], int) else None
        want = [v if v == keep else masked(v) for v in vals]
    raw = b"\xaa" * off + pack(t, vals) + b"\xbb" * c.get("tail", 0)
    path, d = load(ctx, [("a.dat", [x])], {"a.dat": raw})
    require(list(d.keys()) == ["A", "label"], "index", d.keys())
    for _ in range(2):
        a = d["A"]
        require(type(a) is np.ndarray and a.shape == shape, "shape", getattr(a, "shape", a), shape)
        kind = {"b": "i", "h": "i", "i": "i", "q": "i"}.get(TYPES[t][-1], "u") if TYPES[t][-1] not in "fd" else "c" if len(TYPES[t]) == 3 else "f"
        require(a.dtype.kind == kind and a.dtype.itemsize == size(t), "dtype", a.dtype, t)
        check_values(a.ravel().tolist(), want, t)
        if a.flags.writeable:
            a[...] = 0  # a later reload reads the file again
        d.load("A", reload=True)
        ctx.step()
    return "ok"


# ---------------------------------------------------------------- record trees
# item: ("f", type, gap) | ("g", reps, name, gap, tail, [items])
class Tree:
    """record layout: XML, leaf list and writer"""

    def __init__(self, kind, items, names=None):
        self.kind, self.items, self.leaves, self.names = kind, items, [], names
        self.xml, self.length, self.nf, self.ng = self.build(items, (), "")

    def width(self, t):
        if self.kind == "Binary":
            return size(t)
        return {"ASCII_Integer": 4, "ASCII_Real": 6, "ASCII_String": 3}[t]

    def build(self, items, parents, path):
        out, pos, nf, ng = [], 1, 0, 0
        for it in items:
            if it[0] == "f":
                _, t, gap = it
                nf += 1
                i = len(self.leaves)
                name = self.names[i] if self.names else f"F{i}"
                pos += gap
                w = self.width(t)
                self.leaves.append(dict(name=name, type=t, parents=parents, at=pos - 1, width=w, prefix=path))
                out.append(P.bfield(nf, name, t, None if self.kind == "Delimited" else pos, None if self.kind == "Delimited" else w, kind=self.kind))
                pos += w
            else:
                _, reps, gname, gap, tail, body = it
                ng += 1
                pos += gap
                mark = len(self.leaves)
                inner, length, f2, g2 = self.build(body, parents + ((reps, None, None),), path + (f"{gname}, " if gname else ""))
                length += tail
                for leaf in self.leaves[mark:]:
                    ps = list(leaf["parents"])
                    ps[len(parents)] = (reps, pos - 1, length)
                    leaf["parents"] = tuple(ps)
                x = P.bgroup(ng, reps, None if self.kind == "Delimited" else pos, None if self.kind == "Delimited" else reps * length, inner, groups=g2, name=gname, kind=self.kind)
                out.append(x)
                pos += reps * length
        return out, pos - 1, nf, ng

    def positions(self, leaf):
        for idx in itertools.product(*(range(p[0]) for p in leaf["parents"])):
            yield idx, leaf["at"] + sum(p[1] + p[2] * i for p, i in zip(leaf["parents"], idx))


def sibling_groups(items):
    yield [it[2] for it in items if it[0] == "g"]
    for it in items:
        if it[0] == "g":
            yield from sibling_groups(it[5])


def cell(tree, leaf, n):
    t = leaf["type"]
    if tree.kind == "Binary":
        b = 8 * size(t)
        v = (n * 37 + 5) % (1 << min(b, 16)) if TYPES[t][-1] not in "fd" else n + 0.5
        if TYPES[t][-1] in "bhiq" and v >= 1 << (b - 1):
            v -= 1 << b
        return v, pack(t, [v])
    if t == "ASCII_Integer":
        v = n * 7 % 1000 * (-1 if n % 3 == 2 and n * 7 % 1000 < 1000 else 1)
        return v, f"{v:>4}".encode()
    if t == "ASCII_Real":
        v = (n % 100) + 0.25
        return v, f"{v:6.2f}".encode()
    return f"s{n % 100}", f"s{n % 100:<2}".encode()


def check_table(df, tree, want, what):
    """want: leaf index -> list of columns (lists of values)"""
    require(isinstance(df, pd.DataFrame), f"{what} is not a table", type(df))
    cols = list(df.columns)
    require(len(set(cols)) == len(cols), f"{what}: column names are not unique", cols)
    n = sum(len(w) for w in want)
    require(len(cols) == n, f"{what}: number of columns", cols, n)
    at = 0
    names = [l["name"] for l in tree.leaves]
    # groups of the same name, or names of fields that look like other columns', get distinguishing numbers
    clash = any(x.count(g) > 1 for x in sibling_groups(tree.items) for g in x if g) or any(a != b and b.startswith(a + "_") for a in names for b in names)
    for leaf, columns in zip(tree.leaves, want):
        for j, vals in enumerate(columns):
            c = cols[at]
            got = [g.strip() if isinstance(g, str) else g for g in df[c].tolist()]
            require(len(got) == len(vals) and all((pd.isna(g) if w is None else same(g, w)) for g, w in zip(got, vals)), f"{what}: column {c}", got, vals)
            full = leaf["prefix"] + leaf["name"]
            if names.count(leaf["name"]) == 1 and not clash:
                require(c == (full if not leaf["parents"] else f"{full}_{j}"), f"{what}: name of column", c, full, j)
            else:
                require(leaf["name"] in str(c), f"{what}: name of column", c, full)
            at += 1


def run_tree(c, ctx):
    tree = Tree(c["kind"], c["items"], c.get("names"))
    if any(len(l["parents"]) > 2 for l in tree.leaves):
        return "trivial: too deep"
    off, recs, gap = c["offset"], c["records"], c["pad"]
    rl = tree.length + gap + (2 if tree.kind == "Character" else 0)
    rows, want, n = [], [[[] for _ in tree.positions(l)] for l in tree.leaves], 0
    for r in range(recs):
        if tree.kind == "Delimited":
            toks = []

            def walk(items, idx):
                nonlocal n
                for it in items:
                    if it[0] == "f":
                        leaf = tree.leaves[walk.k]
                        j = 0
                        for p, i in zip(leaf["parents"], idx):
                            j = j * p[0] + i
                        v, raw = cell(tree, leaf, n)
                        n += 1
                        want[walk.k][j].append(v)
                        toks.append(raw.strip())
                        walk.k += 1
                    else:
                        k0 = walk.k
                        for i in range(it[1]):
                            walk.k = k0
                            walk(it[5], idx + (i,))
            walk.k = 0
            walk(c["items"], ())
            rows.append(b",".join(toks) + b"\r\n")
            continue
        row = bytearray((b"\xee" if tree.kind == "Binary" else b"#") * (tree.length + gap))
        for k, leaf in enumerate(tree.leaves):
            for j, (_, p) in enumerate(tree.positions(leaf)):
                v, raw = cell(tree, leaf, n)
                n += 1
                require(len(raw) == leaf["width"], "harness", raw, leaf)
                row[p: p + leaf["width"]] = raw
                want[k][j].append(v)
        rows.append(bytes(row) + (b"\r\n" if tree.kind == "Character" else b""))
    raw = b"\xaa" * off + b"".join(rows) + b"\xbb" * 5
    x = P.table(tree.kind, recs, tree.xml, None if tree.kind == "Delimited" else rl, off, name="T", groups=tree.ng)
    path, d = load(ctx, [("t.dat", [x])], {"t.dat": raw})
    with pds.silent() as w:
        df = d["T"]
    check_table(df, tree, want, "table")
    ctx.step()
    return f"{max([0] + [len(l['parents']) for l in tree.leaves])} levels"


def trees(types, depth, gaps, reps, width, tails):
    """all item lists"""
    fields = [["f", t, g] for t in types for g in gaps]
    if depth == 0:
        pool = fields
    else:
        inner = list(trees(types, depth - 1, gaps, reps, min(width, 2), tails))
        pool = fields + [["g", r, None, g, tl, body] for r in reps for g in gaps for tl in tails for body in inner]
    for n in range(1, width + 1):
        yield from (list(t) for t in itertools.product(pool, repeat=n))


def named(items, kinds, k=None):
    """give every group a name according to kinds (cyclic)"""
    k = k if k is not None else itertools.cycle(kinds)
    return [it if it[0] == "f" else [*it[:2], next(k), it[3], it[4], named(it[5], kinds, k)] for it in items]


def tree_cases(kind, types, depth, gaps, reps, width, tails, offsets=(0,), records=(2,), pads=(0,), names=(None,)):
    for t in trees(types, depth, gaps, reps, width, tails):
        for nm in names:
            for o in offsets:
                for r in records:
                    for p in pads:
                        yield dict(kind=kind, items=named(t, nm) if nm else t, offset=o, records=r, pad=p)


NAMES = ["A", "B", "GROUP_1", "A_0", "X GROUP1 Y"]


def name_cases(kind, t):
    shapes = [[["f", t, 0], ["f", t, 0]], [["g", 2, None, 0, 0, [["f", t, 0]]], ["f", t, 0]], [["f", t, 0], ["g", 2, None, 0, 0, [["f", t, 0]]]],
              [["g", 2, None, 0, 0, [["f", t, 0]]], ["g", 2, None, 0, 0, [["f", t, 0]]]], [["g", 2, "G", 0, 0, [["f", t, 0]]], ["g", 2, "H", 0, 0, [["f", t, 0]]]],
              [["g", 2, "G", 0, 0, [["f", t, 0]]], ["g", 2, None, 0, 0, [["f", t, 0]]]], [["g", 2, None, 0, 0, [["g", 2, "G", 0, 0, [["f", t, 0]]]]], ["f", t, 0]],
              [["g", 2, None, 0, 0, [["f", t, 0], ["f", t, 0]]], ["f", t, 0]]]
    for s in shapes:
        n = len(Tree(kind, s).leaves)
        for names in itertools.product(NAMES, repeat=n):
            yield dict(kind=kind, items=s, offset=0, records=2, pad=0, names=list(names))


# --------------------------------------------------------------- single fields
def text_cells():
    """type -> [(text, value)] of character fields"""
    return {
        "ASCII_Integer": [("0", 0), ("-12", -12), ("+7", 7), ("  42", 42), ("007", 7), ("9223372036854775807", 2 ** 63 - 1), ("-9223372036854775808", -2 ** 63)],
        "ASCII_NonNegative_Integer": [("0", 0), ("18446744073709551615", 2 ** 64 - 1), ("12 ", 12)],
        "ASCII_Real": [("0", 0.0), ("-1.5", -1.5), ("1e3", 1000.0), ("2.5E-3", 0.0025), (".5", 0.5), ("+3.", 3.0), ("  7 ", 7.0)],
        "ASCII_Boolean": [("true", True), ("false", False), ("1", True), ("0", False), ("true ", True), (" false", False)],
        "ASCII_Numeric_Base2": [("0", 0), ("101", 5), ("11111111", 255), (" 10", 2)],
        "ASCII_Numeric_Base8": [("0", 0), ("17", 15), ("777", 511)],
        "ASCII_Numeric_Base16": [("0", 0), ("ff", 255), ("FF", 255), ("1A2b3C4d5E6f", 0x1A2B3C4D5E6F)],
        "ASCII_String": [("abc", "abc"), ("a b", "a b"), ("x", "x"), ("1", "1"), ("", ""), ("true", "true"), ("@", "@")],
        "UTF8_String": [("é", "é"), ("aé ü", "aé ü"), ("日本", "日本")],
        "ASCII_Date_Time_YMD_UTC": [("2020-01-02T03:04:05.678Z", "2020-01-02T03:04:05.678Z"), ("1999-12-31", "1999-12-31")],
        "ASCII_Date_DOY": [("2020-061", "2020-061")],
        "ASCII_Time": [("03:04:05", "03:04:05")],
        "ASCII_LID": [("urn:nasa:pds:a", "urn:nasa:pds:a")],
        "ASCII_AnyURI": [("http://a.b/c?d=e", "http://a.b/c?d=e")],
        "ASCII_File_Name": [("a.dat", "a.dat")],
        "ASCII_MD5_Checksum": [("0123456789abcdef0123456789abcdef",) * 2],
    }


def run_text(c, ctx):
    kind, t = c["kind"], c["type"]
    cells = [text_cells()[t][i] for i in c["cells"]]
    toks = [x[0].encode() for x in cells]
    w = max([1] + [len(x) for x in toks])
    lead, tail = c["lead"], c["tail"]
    delim, dname = {"crlf": (b"\r\n", "Carriage-Return Line-Feed"), "lf": (b"\n", "Line-Feed")}[c["delim"]]
    if kind == "Delimited":
        fd = {"Comma": b",", "Horizontal Tab": b"\t", "Semicolon": b";", "Vertical Bar": b"|"}[c["fdelim"]]
        q = (lambda x: b'"' + x + b'"') if c["quote"] else (lambda x: x)
        rows = [fd.join([b"L"] * lead + [q(x)] + [b"R"] * tail) + delim for x in toks]
        fields = [P.bfield(i + 1, f"L{i}", "ASCII_String", None, None, kind=kind) for i in range(lead)]
        fields.append(P.bfield(lead + 1, "V", t, None, None, kind=kind))
        fields += [P.bfield(lead + 2 + i, f"R{i}", "ASCII_String", None, None, kind=kind) for i in range(tail)]
        x = P.table(kind, len(rows), fields, None, 0, name="T", delim=dname, fdelim=c["fdelim"])
    else:
        rows = [b"L" * lead + (x.ljust(w) if not c["right"] else x.rjust(w)) + b"R" * tail + (delim if kind == "Character" else b"") for x in toks]
        x = P.table(kind, len(rows), [P.bfield(1, "V", t, lead + 1, w, kind=kind)], len(rows[0]), 0, name="T", delim=dname)
    path, d = load(ctx, [("t.dat", [x])], {"t.dat": b"".join(rows)})
    with pds.silent():
        df = d["T"]
    got = [g.strip() if isinstance(g, str) else g for g in df["V"].tolist()]
    want = [x[1] for x in cells]
    require(len(got) == len(want) and all(type(g) is type(v) and g == v or (not isinstance(v, (str, bool)) and g == v and not isinstance(g, (str, bool))) for g, v in zip(got, want)), f"{t} values", got, want)
    ctx.step()
    return "ok"


def text_cases(deep):
    for t, cells in text_cells().items():
        combos = [[i] for i in range(len(cells))] + [list(p) for p in itertools.product(range(len(cells)), repeat=2)]
        if deep:
            combos += [list(p) for p in itertools.product(range(len(cells)), repeat=3)]
        for cs in combos:
            for lead, tail in ((0, 0), (2, 1)):
                for right in (False, True):
                    yield dict(kind="Character", type=t, cells=cs, lead=lead, tail=tail, right=right, delim="crlf")
                    yield dict(kind="Binary", type=t, cells=cs, lead=lead, tail=tail, right=right, delim="crlf")
                yield dict(kind="Character", type=t, cells=cs, lead=lead, tail=tail, right=False, delim="lf")
                if t == "UTF8_String" and False:
                    continue
                for fd in ("Comma", "Horizontal Tab", "Semicolon", "Vertical Bar"):
                    for quote in (False, True):
                        for dl in ("crlf", "lf"):
                            if not deep and (dl == "lf") != (fd == "Semicolon"):
                                continue
                            yield dict(kind="Delimited", type=t, cells=cs, lead=lead, tail=tail, fdelim=fd, quote=quote, delim=dl)


# ------------------------------------------------------------------- delimited
STR_TOKENS = ["", "a", '""', '"a"', '","', '",a"', '"a,"', '"a,b"', '",,"', 'a"b', '" "', '"a,b,c"']
INT_TOKENS = ["", "5", '"6"', " 7", '""']


def parse(tok):
    return tok[1:-1] if len(tok) > 1 and tok[0] == '"' else tok


def run_delimited(c, ctx):
    recs = c["records"]
    types = c["types"]
    fields = [P.bfield(i + 1, f"V{i}", t, None, None, kind="Delimited") for i, t in enumerate(types)]
    body = b"".join(",".join(r).encode() + b"\r\n" for r in recs)
    extra = {}
    if c["bound"] == "object":
        extra = dict(length=len(body))
    elif c["bound"] == "record":
        extra = dict(maxlen=max(len(",".join(r)) + 2 for r in recs))
    x = P.table("Delimited", len(recs), fields, None, 3, name="T", **extra)
    path, d = load(ctx, [("t.csv", [x])], {"t.csv": b"###" + body + (b"junk,junk,junk,junk,junk,junk\r\n" if c["junk"] else b"")})
    with pds.silent():
        df = d["T"]
    require(list(df.columns) == [f"V{i}" for i in range(len(types))], "columns", list(df.columns))
    for i, t in enumerate(types):
        got = df[f"V{i}"].tolist()
        for g, r in zip(got, recs, strict=True):
            p = parse(r[i])
            if t == "ASCII_String":
                ok = isinstance(g, str) and g.strip() == p.strip()
            elif p.strip() == "":
                ok = pd.isna(g)
            elif t == "ASCII_Boolean":
                ok = g is True if p == "true" else g is False
            else:
                ok = not isinstance(g, str) and g == float(p)
            require(ok, f"value of a {t} token", r[i], g)
    ctx.step()
    return "missing" if any(t != "ASCII_String" and parse(r[i]).strip() == "" for r in recs for i, t in enumerate(types)) else "complete"


def delimited_cases(deep):
    for n in (1, 2, 3):
        for toks in itertools.product(STR_TOKENS, repeat=n):
            if n == 1 and toks == ("",):
                continue  # an empty record
            for b in (("none", "object", "record") if n < 3 else ("none",)):
                yield dict(types=["ASCII_String"] * n, records=[list(toks)], bound=b, junk=b == "object")
    for a, b in itertools.product(itertools.product(STR_TOKENS, repeat=2), repeat=2):
        yield dict(types=["ASCII_String"] * 2, records=[list(a), list(b)], bound="none", junk=False)
    for t in ("ASCII_Integer", "ASCII_Real", "ASCII_NonNegative_Integer", "ASCII_Boolean"):
        toks = INT_TOKENS if t != "ASCII_Boolean" else ["", "true", "false", '"true"', '""']
        for col in itertools.product(toks, repeat=3):
            for s in ("a", '"b,c"') if not deep else STR_TOKENS:
                yield dict(types=[t, "ASCII_String"], records=[[x, s] for x in col], bound="none", junk=False)
                if s == "a":
                    yield dict(types=["ASCII_String", t], records=[[s, x] for x in col], bound="record", junk=False)
    for col in itertools.product(["", "5"], repeat=4):
        for t2 in ("ASCII_Integer", "ASCII_Real"):
            yield dict(types=["ASCII_Integer", t2], records=[[col[0], col[1]], [col[2], col[3]]], bound="none", junk=False)


# ------------------------------------------------------------ uniformly sampled
def run_uniform(c, ctx):
    n, first, step = c["records"], c["first"], c["interval"]
    kind = c["scale"]
    if kind in ("none", "Linear"):
        want = [first + step * i for i in range(n)]
    elif kind == "Logarithmic":
        want = [first * step ** i for i in range(n)]
    else:
        want = [math.log(c["base"] ** first + i * step, c["base"]) for i in range(n)]
    us = P.el("Uniformly_Sampled", P.el("sampling_parameter_name", "US"), P.el("sampling_parameter_interval", step), P.el("sampling_parameter_unit", "s"),
              P.el("first_sampling_parameter_value", first), P.el("last_sampling_parameter_value", want[-1]),
              P.el("sampling_parameter_scale", kind) if kind != "none" else "", P.el("sampling_parameter_base", c["base"]) if kind == "Exponential" else "")
    x = P.table("Binary", n, [P.bfield(1, "V", "UnsignedByte", 1, 1)], 1, 0, name="T", usampled=us)
    path, d = load(ctx, [("t.dat", [x])], {"t.dat": bytes(range(n))})
    with pds.silent():
        df = d["T"]
    require(sorted(map(str, df.columns)) == ["US", "V"], "columns", list(df.columns))
    require(df["V"].tolist() == list(range(n)), "values", df["V"].tolist())
    require(np.allclose(df["US"].to_numpy(float), want, rtol=1e-9, atol=1e-12), "sampled values", df["US"].tolist(), want)
    ctx.step()
    return "ok"


# --------------------------------------------------------------------- metadata
# node: [tag, text, attribute?, [children]]
def xml(node):
    tag, text, attr, kids = node
    return f"<{tag}{' unit=%sm%s' % (chr(34), chr(34)) if attr else ''}>{text.replace('&', '&amp;')}{''.join(map(xml, kids))}</{tag}>"


def check_node(got, node, where):
    tag, text, attr, kids = node
    if not kids:
        if text.strip() == "":
            require(got is None or got == "" or (isinstance(got, MultiDict) and len(got) == 0), f"{where}: value of an empty element", got)
        else:
            require(isinstance(got, (str, int, float)) and str(got).split() == text.split() and (len(text.strip().splitlines()) > 1 or got == " ".join(text.split())), f"{where}: text", got, text)
        return
    require(isinstance(got, MultiDict), f"{where} is not a block", got)
    tags = list(dict.fromkeys(k[0] for k in kids))
    require([k for k in dict.fromkeys(got.keys()) if k != "_text"] == tags, f"{where}: children", list(got.keys()), tags)
    for t in tags:
        mine = [k for k in kids if k[0] == t]
        vals = got.getall(t)
        require(len(vals) == len(mine), f"{where}/{t}: number of elements", vals)
        for v, k in zip(vals, mine):
            check_node(v, k, f"{where}/{t}")


def run_label(c, ctx):
    node = c["tree"]
    ns = 'xmlns:x="http://x.org/x"'
    inner = xml(node)
    path = ctx.dir / "p.xml"
    text = P.label([("a.dat", [P.array("Array", "UnsignedByte", [("a", 1)], name="A")])], extra=inner)
    path.write_bytes(text.replace("<Product_Observational ", f"<Product_Observational {ns} ", 1).encode("utf-8"))
    (ctx.dir / "a.dat").write_bytes(b"\x05")
    d, _ = pds.quiet_read(path)
    top = d.metadata["Product_Observational"]
    check_node(top[node[0]], node, node[0])
    require(list(dict.fromkeys(top.keys())) == ["Identification_Area", node[0], "File_Area_Observational"], "top level", list(top.keys()))
    ctx.step()
    return "nested" if node[3] else "leaf"


TEXTS = ["", "v", " a  b ", "1.50", "007", "line 1\n line 2", "é & ü", "NULL", "1e5"]


def label_trees(deep):
    leaves = [[t, x, a, []] for t in ("a", "b", "x:a") for x in ("1", "") for a in (False, True)]
    for x in TEXTS:
        for a in (False, True):
            yield ["Observation_Area", x, False, []] if not a else ["Observation_Area", "", True, [["a", x, a, []], ["b", "w", False, []]]]
            yield ["Observation_Area", "", False, [["a", x, a, []]]]
    for n in (1, 2, 3):
        for kids in itertools.product(leaves if n < 3 else leaves[::3] if not deep else leaves, repeat=n):
            yield ["Observation_Area", "", n == 2, list(kids)]
    small = [["a", "1", False, []], ["b", "2", True, []], ["a", "", False, []]]
    groups = [["g", "", False, list(k)] for n in (1, 2) for k in itertools.product(small, repeat=n)] + [["a", "", True, list(k)] for k in itertools.product(small, repeat=2)]
    for kids in itertools.product(groups + small, repeat=2):
        yield ["Observation_Area", "", False, list(kids)]
    if deep:
        for kids in itertools.product(groups[:8] + small, repeat=3):
            yield ["Observation_Area", "", False, list(kids)]


# ------------------------------------------------------------------ collections
KINDS = ["array", "bin", "chr", "csv", "head"]
AREAS = ["File_Area_Observational", "File_Area_Observational_Supplemental", "File_Area_Ancillary", "File_Area_Browse"]


def make(kind, i, off):
    """-> xml, bytes, checker"""
    v = [10 * i + 1, 10 * i + 2, 10 * i + 3]
    name = f"N{i}"
    if kind == "array":
        def chk(o, what):
            require(isinstance(o, np.ndarray) and o.tolist() == [v], f"{what}", o, v)
        return P.array("Array_2D_Image", "UnsignedByte", [("Line", 1), ("Sample", 3)], off, name=name), bytes(v), chk
    if kind == "head":
        t = f"HEAD {i}\r\n".encode()

        def chk(o, what):
            require((o if isinstance(o, bytes) else str(o).encode()).split() == t.split(), what, o, t)
        return P.header(len(t), off, name=name), t, chk

    def chk(o, what):
        require(isinstance(o, pd.DataFrame) and list(o.columns) == ["V"] and o["V"].tolist() == v, what, o, v)
    if kind == "bin":
        return P.table("Binary", 3, [P.bfield(1, "V", "UnsignedByte", 1, 1)], 1, off, name=name), bytes(v), chk
    if kind == "chr":
        return P.table("Character", 3, [P.bfield(1, "V", "ASCII_Integer", 1, 3, kind="Character")], 5, off, name=name), b"".join(b"%3d\r\n" % x for x in v), chk
    body = b"".join(b"%d\r\n" % x for x in v)
    return P.table("Delimited", 3, [P.bfield(1, "V", "ASCII_Integer", None, None, kind="Delimited")], None, off, name=name, length=len(body)), body, chk


def run_many(c, ctx):
    kinds, split = c["kinds"], c["split"]
    areas, files, checks, cur, data = [], {}, [], [], b"\xaa" * c["lead"]
    for i, k in enumerate(kinds):
        x, raw, chk = make(k, i, len(data))
        data += raw + b"\xbb" * c["gap"]
        cur.append(x)
        checks.append(chk)
        if split >> i & 1 or i == len(kinds) - 1:
            areas.append((AREAS[len(areas) % 4] if c["mixed"] else AREAS[0], f"f{len(areas)}.dat", cur))
            files[f"f{len(areas) - 1}.dat"] = data
            cur, data = [], b"\xaa" * c["lead"]
    path, d = load(ctx, areas, files)
    require(list(d.keys()) == [f"N{i}" for i in range(len(kinds))] + ["label"], "index", d.keys())
    for order in itertools.permutations(range(len(kinds))):
        d, _ = pds.quiet_read(path)
        with pds.silent():
            for i in order:
                checks[i](d[f"N{i}"], f"N{i}")
                ctx.step()
            for i in order:
                o = d[f"N{i}"]
                if isinstance(o, np.ndarray) and o.flags.writeable:
                    o[...] = 99
                elif isinstance(o, pd.DataFrame):
                    o.loc[:, "V"] = 99
                d.load(f"N{i}", reload=True)
                checks[i](d[f"N{i}"], f"reloaded N{i}")
            for i in order:
                checks[i](d[f"N{i}"], f"N{i} at the end")
        require(type(d["label"]).__name__ == "Label", "label")
    return "ok"


def spaces(tier):
    deep = tier == "thorough"
    arrays = [dict(tag=t, type="SignedMSB2", shape=list(s), offset=o, tail=3) for t in ARRAYS for s in SHAPES if fits_tag(t, s) for o in ((0, 5) if deep or len(s) < 4 else (5,))]
    arrays += [dict(tag="Array_2D_Image", type=t, shape=list(s), offset=o, salt=k) for t in TYPES for s in ((1, 1), (1, 8), (8, 1), (3, 5), (2, 4)) for o in (0, 1, 3, 8) for k in range(8 if deep else 2)]
    arrays += [dict(tag=f"Array_{n}D" if n < 4 else "Array", type="UnsignedLSB2", shape=list(s), offset=2, listing=list(p)) for n in (2, 3, 4) for s in (tuple(range(2, 2 + n)), tuple(range(1 + n, 1, -1))) for p in itertools.permutations(range(n))]
    ints = [t for t in TYPES if TYPES[t][-1] not in "fd"]
    arrays += [dict(tag="Array_2D_Image", type=t, shape=[2, 4], offset=1, mask=m, special=s) for t in ints for m in ("00001111", "11110000", "11111111", "00000001", "01111111") for s in ("none", "other", 0, 3)]
    out = [
        Space("arrays", arrays, run_array, "array classes x shapes x types x offsets; axis listing orders; bit masks"),
        Space("fields", list(tree_cases("Binary", list(TYPES), 0, [0, 1], [], 2, [], offsets=(0, 3), records=(3,), pads=(0, 2))), run_tree, "one or two binary fields of all types, with gaps"),
        Space("text", text_cases(deep), run_text, "character fields of all types in binary, character and delimited tables"),
        Space("delimited", delimited_cases(deep), run_delimited, "delimited tokens: all records over the token alphabets"),
        Space("names", itertools.chain(name_cases("Binary", "UnsignedByte"), name_cases("Delimited", "ASCII_Integer")), run_tree, "all field names in flat and grouped records"),
        Space("uniform", product(dict(records=[1, 2, 5], scale=["none", "Linear", "Logarithmic", "Exponential"], first=[1, 0.5, 3], interval=[1, 2, 0.25, 10], base=[2, 10])), run_uniform, "uniformly sampled fields"),
        Space("labels", (dict(tree=t) for t in label_trees(deep)), run_label, "metadata of every small XML tree"),
        Space("many", (dict(kinds=list(k), split=s, mixed=m, lead=l, gap=g) for n in (1, 2, 3) for k in itertools.product(KINDS, repeat=n) for s in range(1 << (n - 1)) for m, l, g in (((False, 0, 0), (True, 4, 3)) if n < 3 or deep else ((True, 4, 3),))), run_many, "sequences of structures over files and areas, every access order, edit and reload"),
    ]
    for kind, types in (("Binary", ["UnsignedByte", "SignedMSB2"]), ("Character", ["ASCII_Integer", "ASCII_String"]), ("Delimited", ["ASCII_Integer", "ASCII_String"])):
        d = kind == "Delimited"
        out.append(Space(f"groups1-{kind}", tree_cases(kind, types, 1, [0] if d else [0, 1], [1, 2, 3], 2, [0] if d else [0, 1], records=(2,), offsets=(0,) if not deep else (0, 3), names=(None, ["G"])) if deep or d else tree_cases(kind, types[:1] if kind == "Character" else types, 1, [0, 1], [1, 2], 2, [0] if kind == "Character" else [0, 1], names=(None,)), run_tree, "records of fields and groups"))
        out.append(Space(f"groups2-{kind}", tree_cases(kind, types[:1], 2, [0] if d else [0, 1], [2, 3], 1, [0] if d else [0, 1], offsets=(3,), pads=(0,), names=(None, ["G", None, "H"])), run_tree, "nested groups"))
        out.append(Space(f"groups2w-{kind}", tree_cases(kind, types[:1], 2, [0], [1, 2] if not deep else [1, 2, 3], 2, [0], names=(None,)), run_tree, "nested groups among other fields"))
    return out
