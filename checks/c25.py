"""C25: ARRAY, HISTOGRAM and similar small objects decode to the labelled elements.

Reference model: a tree of ELEMENTs, COLLECTIONs and ARRAYs laid out by its own START_BYTEs and BYTES. Every tree to the depth bound, element type, axis shape, gap, place in the file and wrapper is written with an independent encoder
and must come back as the labelled shape with every stored value in order, or be refused."""
import itertools
import math

import numpy as np

from mc import pds
from mc.core import Fail, Space, product, require

ASSUMPTIONS = ["VAX and IBM reals inside structured ARRAYs are refused (checked to be)", "an ARRAY inside an ARRAY or COLLECTION appears as numbered fields or a nested field: values and order are compared, not those names"]

TYPES = [(t, n) for t, (k, o) in pds.ALL_IMAGE_TYPES.items() for n in pds.WIDTHS[k]]
CORE = [("MSB_INTEGER", 2), ("PC_REAL", 4), ("UNSIGNED_INTEGER", 1), ("LSB_UNSIGNED_INTEGER", 4)]


class Layout:
    """counts elements so that stored values differ"""
    def __init__(self):
        self.n = 0

    def element(self, t, nb):
        kind, order = pds.ALL_IMAGE_TYPES[t]
        v = pds.pixel_value(kind, nb, self.n)
        self.n += 1
        return pds.encode_value(kind, order, nb, v), v


def size(node):
    if node[0] == "el":
        return node[2]
    if node[0] in ("arr", "prim"):
        return math.prod(node[1]) * (size(node[2]) if node[0] == "arr" else node[3])
    return sum(g + size(x) for g, x in node[1]) + node[2]


def store(node, lay):
    """-> bytes, flat values"""
    if node[0] == "el":
        b, v = lay.element(node[1], node[2])
        return b, [v]
    if node[0] in ("arr", "prim"):
        inner = node[2] if node[0] == "arr" else ("el", node[2], node[3])
        parts = [store(inner, lay) for _ in range(math.prod(node[1]))]
        return b"".join(p[0] for p in parts), [v for p in parts for v in p[1]]
    out, vals = b"", []
    for g, x in node[1]:
        b, v = store(x, lay)
        out += pds.filler(g, lay.n) + b
        vals += v
    return out + pds.filler(node[2]), vals


def axes(shape):
    return [("AXES", len(shape)), ("AXIS_ITEMS", str(shape[0]) if len(shape) == 1 else "(" + ", ".join(map(str, shape)) + ")")]


def definition(node, name, o, start=None, top=False):
    """label statements of a node"""
    at = [("START_BYTE", start)] if start is not None and o["starts"] else []
    nm = [("NAME", name)] if o["names"] or not top else []
    if node[0] == "el":
        return pds.block("OBJECT", "ELEMENT", ("NAME", name), *at, ("BYTES", node[2]), ("DATA_TYPE", node[1]))
    if node[0] == "prim":
        return pds.block("OBJECT", "ARRAY", *nm, *at, *axes(node[1]), *([("INTERCHANGE_FORMAT", "BINARY")] if top or o["formats"] else []), ("DATA_TYPE", node[2]), ("BYTES", node[3]))
    if node[0] == "arr":
        return pds.block("OBJECT", "ARRAY", *nm, *at, *axes(node[1]), *([("INTERCHANGE_FORMAT", "BINARY")] if top or o["formats"] else []),
                         definition(node[2], name + "X", o, 1))
    parts, pos = [], 1
    for i, (g, x) in enumerate(node[1]):
        parts.append(definition(x, f"{name}{chr(65 + i)}", o, pos + g))
        pos += g + size(x)
    return pds.block("OBJECT", "COLLECTION", *nm, *at, ("BYTES", size(node)), *parts)


def flatten(x):
    """values of a (possibly structured) array in storage order, without zero-width placeholders"""
    if isinstance(x, np.ndarray) and x.dtype.names is None:
        return [] if x.dtype.itemsize == 0 else x.ravel().tolist()
    if isinstance(x, np.ndarray):
        return [v for r in x.ravel() for v in flatten(r)]
    if isinstance(x, np.void):
        if x.dtype.names is None:
            return [] if x.dtype.itemsize == 0 else [x]
        return [v for n in x.dtype.names for v in flatten(x[n])]
    return [x.item() if hasattr(x, "item") else x]


def outsource(d, how):
    """move part of a definition into format files: what each ARRAY holds ("inner"), the statements of each ELEMENT ("element"), or what each COLLECTION holds ("collection"), or all"""
    files, n = {}, [0]

    def walk(b):
        kind, name, body = b
        body = [walk(s) if len(s) == 3 else s for s in body]
        objs = [s for s in body if len(s) == 3]
        move = []
        if name == "ARRAY" and "inner" in how or name == "COLLECTION" and "collection" in how:
            move = objs
        elif name == "ELEMENT" and "element" in how:
            move = [s for s in body if s[0] in ("BYTES", "DATA_TYPE")]
        if move:
            n[0] += 1
            fn = f"S{n[0]}.FMT"
            files[fn] = "".join(x + "\r\n" for x in pds.render(move)).encode() + b"END\r\n"
            at = body.index(move[0])
            body = [s for s in body[:at] if s not in move] + [("^STRUCTURE", f'"{fn}"')] + [s for s in body[at:] if s not in move]
        return (kind, name, body)
    return walk(d), files


def run_tree(c, ctx):
    node = c["node"]
    o = dict(names=c["names"], starts=c["starts"], formats=c["formats"])
    lay = Layout()
    raw, values = store(node, lay)
    d = definition(node, "ARR", o, None, True)
    files = {}
    if c["file"]:
        d, files = outsource(d, c["file"])
    R = 8
    head = pds.filler(c["start"])
    ptr = {"bare": '"F.DAT"', "byte": f'("F.DAT", {c["start"] + 1} <BYTES>)', "rec": f'("F.DAT", {c["start"] // R + 1})'}[c["form"]]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", R), (f"^{c['name']}", ptr), pds.block("OBJECT", c["name"], *d[2])]
    path = pds.write_detached(ctx.dir, "P", st, {"F.DAT": head + raw[:len(raw) - c["short"]] + pds.filler(c["tail"]), **files})
    if c["wrap"]:
        pds.compress_file(ctx.dir / "F.DAT", c["wrap"])
        path.write_bytes(path.read_bytes().replace(b"F.DAT", f"F.DAT.{c['wrap']}".encode()))
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, c["name"])
    if c["short"]:
        require(not isinstance(got, np.ndarray) and warned, "an array that the file does not hold was returned", got)
        return "short"
    if not isinstance(got, np.ndarray) and warned and c.get("refusable"):
        return "refused"
    require(isinstance(got, np.ndarray), "not an array", got, warned)
    require(got.shape == tuple(node[1]), "shape", got.shape, node[1])
    flat = flatten(got)
    require(len(flat) == len(values), "number of values", len(flat), len(values), got.dtype)
    for i, (a, b) in enumerate(zip(flat, values)):
        require(a == b, f"value {i}", a, b, flat, values)
    ctx.step(len(values))
    if node[0] == "prim":
        kind, order = pds.ALL_IMAGE_TYPES[node[2]]
        require(kind == "ibm" or got.dtype.kind == {"vax": "f"}.get(kind, kind) and got.dtype.itemsize == node[3], "dtype", got.dtype)
    elif node[2][0] == "el":
        require(got.dtype.names == ("ARRX",), "element name", got.dtype.names)
    elif node[2][0] == "coll" and all(x[0] == "el" for _, x in node[2][1]):
        require(got.dtype.names == tuple(f"ARRX{chr(65 + i)}" for i in range(len(node[2][1]))), "element names", got.dtype.names)
    return node[0] if node[0] == "prim" else f"array of {node[2][0]}"


BASE = dict(name="ARRAY", names=True, starts=True, formats=True, start=0, tail=0, form="bare", wrap=None, short=0, file=[])


def prim_cases(deep):
    shapes = [(1,), (3,), (7,), (2, 3), (3, 2), (1, 4), (2, 1, 3), (2, 2, 2)]
    for t, n in TYPES:
        for s in shapes if deep else shapes[1:6]:
            yield BASE | dict(node=["prim", list(s), t, n])
            yield BASE | dict(node=["arr", list(s), ["el", t, n]], refusable=t in ("VAX_REAL", "IBM_REAL"))
    for s, form, start, tail, wrap, name, names in itertools.product(shapes, ["bare", "byte", "rec"], [0, 1, 8, 16], [0, 5], [None, "gz", "bz2", "zip"], ["ARRAY", "DATA_ARRAY", "ARRAY_0"], [True, False]):
        if (form == "bare" and start) or (form == "rec" and start % 8):
            continue
        if not deep and (s not in shapes[1:4] or (wrap and name != "ARRAY")):
            continue
        for node in (["prim", list(s), "MSB_INTEGER", 2], ["arr", list(s), ["coll", [[0, ["el", "PC_REAL", 4]], [1, ["el", "UNSIGNED_INTEGER", 1]]], 2]]):
            yield BASE | dict(node=node, form=form, start=start, tail=tail, wrap=wrap, name=name, names=names)
            if not tail:
                for k in (1, 2, size(node)):
                    yield BASE | dict(node=node, form=form, start=start, tail=tail, wrap=wrap, name=name, names=names, short=min(k, size(node)))


def tree_cases(deep):
    """every tree to the bound"""
    els = [["el", *t] for t in CORE]
    inner_shapes = [[2], [3]] + ([[2, 2], [1]] if deep else [])
    prims = [["prim", s, *t] for s in inner_shapes for t in (CORE[:3] if deep else CORE[:2])]
    earrs = [["arr", s, e] for s in inner_shapes if len(s) == 1 for e in (els[:3] if deep else els[:2])]
    for names, starts, formats in itertools.product([True, False], repeat=3):
        if not deep and [names, starts, formats].count(False) > 1:
            continue
        o = BASE | dict(names=names, starts=starts, formats=formats)
        for outer in ([2], [2, 3]):
            gaps = [0, 1, 3] if starts else [0]
            # collections of one to three elements
            for n in (1, 2, 3, 4) if deep else (1, 2, 3):
                for es in itertools.product(els if n < 3 else els[:3], repeat=n):
                    for gs in itertools.product(gaps if n < 4 else gaps[:2], repeat=n):
                        for pad in gaps:
                            yield o | dict(node=["arr", outer, ["coll", [[g, list(e)] for g, e in zip(gs, es)], pad]])
            # with a primitive array at any place
            for n in (1, 2, 3):
                for at in range(n):
                    for p in prims:
                        for es in itertools.product(els[:2], repeat=n - 1):
                            for gs in itertools.product(gaps[:2], repeat=n):
                                xs = list(es)
                                xs.insert(at, p)
                                for pad in gaps[:2]:
                                    yield o | dict(node=["arr", outer, ["coll", [[g, x] for g, x in zip(gs, xs)], pad]])
            # arrays of arrays
            for p in prims:
                yield o | dict(node=["arr", outer, p])
            for a in earrs:
                yield o | dict(node=["arr", outer, a], refusable=not starts)
            # with an array of elements at any place
            for n in (1, 2, 3):
                for at in range(n):
                    for a in earrs:
                        for es in itertools.product(els[:2], repeat=n - 1):
                            for gs in itertools.product(gaps[:2], repeat=n):
                                xs = list(es)
                                xs.insert(at, a)
                                yield o | dict(node=["arr", outer, ["coll", [[g, x] for g, x in zip(gs, xs)], 0]], refusable=not starts or at < n - 1)


# ------------------------------------------------------------------------ ascii
NUMBERS = ["0", "1", "-2", "+3", "40", "1.5", "-2.25", ".5", "-.25", "1.", "1.5E+03", "-2.5e-01", "2.5D-01", "1E2", "123456789", "0.1", "1e-10", "-1.0E+10", "9007199254740993", "-9007199254740995"]
SEPS = {"space": " ", "spaces": "   ", "comma": ",", "commaspace": ", ", "lf": "\n", "crlf": "\r\n", "tab": "\t", "commacrlf": ",\r\n"}


def run_ascii(c, ctx):
    nums = [NUMBERS[i] for i in c["nums"]]
    if c["dtype"] == "ASCII_INTEGER" and any(not n.lstrip("+-").isdigit() for n in nums):
        return "trivial: not integers"
    sep = SEPS[c["sep"]]
    text = c["lead"] + sep.join(nums) + c["end"]
    values = [int(n) if c["dtype"] == "ASCII_INTEGER" else float(n.replace("D", "E")) for n in nums]
    shape = tuple(c["shape"])
    head = {"none": "", "text": "SOME 12 OTHER 3.5 TEXT\r\n", "nums": "1 2 3\r\n"}[c["head"]]
    tail = {"none": "", "nums": "7 8 9\r\n", "text": "END 5\r\n"}[c["tail"]]
    ptr = '"F.TAB"' if not head else f'("F.TAB", {len(head) + 1} <BYTES>)'
    blk = axes(shape)
    if c["format"]:
        blk.append(("INTERCHANGE_FORMAT", "ASCII"))
    if c["dtype"]:
        blk += [("DATA_TYPE", c["dtype"]), ("BYTES", c["nb"])]
    elif c["sub"]:
        blk.append(pds.block("OBJECT", "ELEMENT", ("NAME", "X"), ("BYTES", 8), ("DATA_TYPE", "ASCII_REAL")))
    path = pds.write_detached(ctx.dir, "P", [("RECORD_TYPE", "STREAM"), ("^ARRAY", ptr), pds.block("OBJECT", "ARRAY", ("NAME", "A"), *blk)], {"F.TAB": (head + text + tail).encode()})
    if c["wrap"]:
        pds.compress_file(ctx.dir / "F.TAB", c["wrap"])
        path.write_bytes(path.read_bytes().replace(b"F.TAB", f"F.TAB.{c['wrap']}".encode()))
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "ARRAY")
    if math.prod(shape) > len(nums) and not tail:
        require(not isinstance(got, np.ndarray) and warned, "an array that the file does not hold was returned", got)
        return "short"
    require(isinstance(got, np.ndarray), "not an array", got, warned)
    require(got.shape == shape, "shape", got.shape, shape)
    flat = got.ravel().tolist()
    for a, b in zip(flat, values):
        if c["dtype"] in ("PC_REAL", "IEEE_REAL") and c["nb"] == 4:
            b = float(np.float32(b))
        elif c["dtype"] == "MSB_INTEGER":
            b = int(b)
        require(a == b, "value", a, b, flat, values)
    ctx.step(len(flat))
    return f"ascii {c['dtype']}"


def file_cases(deep):
    """format files for parts of the definition"""
    prims = [["prim", [3], "MSB_INTEGER", 2], ["prim", [2, 2], "PC_REAL", 4]]
    e = [["el", *t] for t in CORE]
    nodes = [["arr", o, x] for o in ([2], [2, 3]) for x in e + prims + [["arr", [2], e[0]]]]
    for o in ([2], [2, 3]):
        for xs in [list(p) for n in (1, 2, 3) for p in itertools.product(e[:3], repeat=n)] + [[e[0], prims[0]], [prims[0], e[0]], [e[0], prims[0], e[1]], [e[0], ["arr", [2], e[1]]]]:
            for g in (0, 2):
                for pad in (0, 1):
                    nodes.append(["arr", o, ["coll", [[g, x] for x in xs], pad]])
    for node, how, form, wrap in itertools.product(nodes, [["element"], ["collection"], ["element", "collection"], ["inner"], ["inner", "element", "collection"]], ["bare", "byte"], [None, "gz"]):
        yield BASE | dict(node=node, file=how, form=form, start=3 if form == "byte" else 0, wrap=wrap, refusable="inner" in how or "arr" in str(node[2]))


def refuse_cases(deep):
    for kind, shape, start, tail in itertools.product(["two elements", "element and collection", "bit element", "ascii histogram", "no type", "no bytes", "no items", "text items"], ([1], [2], [2, 3]), (0, 4), (0, 9)):
        yield dict(kind=kind, shape=shape, start=start, tail=tail)


def run_refuse(c, ctx):
    k, n = c["kind"], math.prod(c["shape"])
    el = lambda nm: pds.block("OBJECT", "ELEMENT", ("NAME", nm), ("START_BYTE", 1), ("BYTES", 2), ("DATA_TYPE", "MSB_INTEGER"))
    name, ax, fmt = "ARRAY", axes(c["shape"]), [("INTERCHANGE_FORMAT", "BINARY")]
    raw = pds.filler(c["start"]) + bytes(range(1, 2 * n + 1)) + pds.filler(c["tail"])
    prim = [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 2)]
    if k == "two elements":
        inner = [pds.block("OBJECT", "ARRAY", *axes([2]), el("A")), el("B")]
    elif k == "element and collection":
        inner = [el("A"), pds.block("OBJECT", "COLLECTION", ("NAME", "C"), ("BYTES", 2), el("B"))]
    elif k == "bit element":
        inner = [pds.block("OBJECT", "ELEMENT", ("NAME", "A"), ("START_BYTE", 1), ("BYTES", 2), ("DATA_TYPE", "MSB_BIT_STRING"), pds.block("OBJECT", "BIT_ELEMENT", ("NAME", "B"), ("START_BIT", 1), ("BITS", 3), ("BIT_DATA_TYPE", "UNSIGNED_INTEGER")))]
    elif k == "ascii histogram":
        name, ax, fmt, inner = "HISTOGRAM", [("ITEMS", n)], [("INTERCHANGE_FORMAT", "ASCII")], prim
        raw = b" 1 2 3 4" * n
    elif k == "no type":
        inner = prim[1:]
    elif k == "no bytes":
        inner = prim[:1]
    elif k == "no items":
        ax, inner = [("AXES", len(c["shape"]))], prim
    else:
        ax, inner = [("AXES", 1), ("AXIS_ITEMS", '"UNK"')], prim
    ptr = '"F.DAT"' if not c["start"] else f'("F.DAT", {c["start"] + 1} <BYTES>)'
    path = pds.write_detached(ctx.dir, "P", [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 8), (f"^{name}", ptr), pds.block("OBJECT", name, ("NAME", "X"), *ax, *fmt, *inner)], {"F.DAT": raw})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, name)
    require(not isinstance(got, np.ndarray) and not hasattr(got, "columns"), "what the label does not define was returned", got)
    require(warned, "refused without a warning")
    ctx.step()
    return k


def ascii_cases(deep):
    base = dict(lead="", end="\r\n", head="none", tail="none", wrap=None, format=True, dtype=None, nb=8, sub=False, sep="space")
    k = len(NUMBERS)
    for sep in SEPS:
        for i in range(k):
            for j in range(k):
                yield base | dict(nums=[i, j], shape=[2], sep=sep)
    for nums in itertools.product(range(5, 13), repeat=3) if deep else itertools.product((1, 2, 7, 10), repeat=3):
        for sep in SEPS:
            yield base | dict(nums=list(nums), shape=[3], sep=sep)
    for shape in ([1], [6], [2, 3], [3, 2], [1, 2, 3], [7], [2, 4]):
        for head, tail, wrap, fmt, sub, sep, lead, end in itertools.product(["none", "text", "nums"], ["none", "nums", "text"], [None, "gz", "bz2", "zip"] if deep else [None, "gz"], [True, False], [False, True], ["space", "commaspace", "crlf"], ["", "  "], ["\r\n", ""]):
            if tail != "none" and not end or (math.prod(shape) > 6 and tail == "nums"):
                continue
            n = min(6, math.prod(shape))
            yield base | dict(nums=[1, 2, 4, 10, 7, 5][:n], shape=shape, head=head, tail=tail if math.prod(shape) <= 6 else "none", wrap=wrap, format=fmt, sub=sub, sep=sep, lead=lead, end=end)
    for dtype, nb in (("ASCII_REAL", 8), ("ASCII_INTEGER", 8), ("PC_REAL", 4), ("IEEE_REAL", 8), ("MSB_INTEGER", 4)):
        for nums in itertools.product([0, 1, 2, 3, 4, 14] + ([18, 19] if dtype == "ASCII_INTEGER" else []) if "INT" in dtype else range(k), repeat=2):
            yield base | dict(nums=list(nums), shape=[2], dtype=dtype, nb=nb)


# -------------------------------------------------------------------- histogram
def run_hist(c, ctx):
    kind, order = pds.ALL_IMAGE_TYPES[c["type"]]
    n, nb = c["items"], c["nb"]
    values = [pds.pixel_value(kind, nb, i) for i in range(n)]
    raw = b"".join(pds.encode_value(kind, order, nb, v) for v in values)
    R = 8
    ptr = {"bare": '"F.DAT"', "byte": f'("F.DAT", {c["start"] + 1} <BYTES>)', "rec": f'("F.DAT", {c["start"] // R + 1})'}[c["form"]]
    blk = [("DATA_TYPE", c["type"])]
    if n > 1 or c["say"]:
        blk.append(("ITEMS", n))
    blk += {"both": [("ITEM_BYTES", nb), ("BYTES", nb * n)], "item": [("ITEM_BYTES", nb)], "bytes": [("BYTES", nb)]}[c["width"]]
    if c["binary"]:
        blk.append(("INTERCHANGE_FORMAT", "BINARY"))
    name = c["name"]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", R), (f"^{name}", ptr), pds.block("OBJECT", name, *blk)]
    path = pds.write_detached(ctx.dir, "P", st, {"F.DAT": pds.filler(c["start"]) + raw + pds.filler(c["tail"])})
    if c["wrap"]:
        pds.compress_file(ctx.dir / "F.DAT", c["wrap"])
        path.write_bytes(path.read_bytes().replace(b"F.DAT", f"F.DAT.{c['wrap']}".encode()))
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, name)
    require(hasattr(got, "columns"), "not a table", got, warned)
    require(got.shape == (1, n), "shape", got.shape, n)
    require(list(got.columns) == ([name] if n == 1 else [f"{name}_{i}" for i in range(n)]), "names", list(got.columns))
    flat = [v.item() for v in got.iloc[0].astype(object)] if False else [got.iloc[0, i].item() for i in range(n)]
    require(flat == values, "values", flat, values)
    ctx.step(n)
    return f"{n} items"


def hist_cases(deep):
    for t, nb in TYPES:
        for n in (1, 2, 3, 7) + ((256,) if deep else ()):
            for width in ("both", "item", "bytes"):
                for say in (True, False) if n == 1 else (True,):
                    if width == "item" and not say and n == 1:
                        continue  # ITEM_BYTES alone does not say how long it is
                    for start, form in ((0, "bare"), (3, "byte"), (8, "rec")):
                        for tail in (0, 5):
                            for wrap in (None, "gz", "zip") if deep or n == 3 else (None,):
                                for name in ("HISTOGRAM", "IMAGE_HISTOGRAM") if n == 3 else ("HISTOGRAM",):
                                    yield dict(type=t, nb=nb, items=n, width=width, say=say, start=start, form=form, tail=tail, wrap=wrap, name=name, binary=start == 0)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("arrays", prim_cases(deep), run_tree, "element types x shapes; placement, names, compression, short files"),
        Space("trees", tree_cases(deep), run_tree, "every COLLECTION/ARRAY/ELEMENT tree to the bound x gaps x optional keywords"),
        Space("ascii", ascii_cases(deep), run_ascii, "number spellings x separators x shapes x placement"),
        Space("format files", file_cases(deep), run_tree, "parts of definitions in format files"),
        Space("refusals", refuse_cases(deep), run_refuse, "definitions pdr cannot represent"),
        Space("histograms", hist_cases(deep), run_hist, "types x items x width statements x placement"),
    ]
