"""C22: every object definition gets its own unique, stable name bound to its own data.

Every sequence of pointers over a name alphabet (repeated names, names that already look numbered) in every layout (definitions in every order that keeps equal names in order, in FILE objects, mixed levels) with stray keywords, surplus
and missing definitions, and all label orders; the index, the blocks and the objects are compared with the data each definition was written for. PDS4 labels with every combination of names and local identifiers likewise."""
import itertools

import numpy as np

from mc import pds, pds4w, tables as T
from mc.core import Fail, Space, product, require, short

TECHNIQUE = "exhaustive enumeration of pointer/definition multisets, label layouts and PDS4 identifier combinations on the real code against the data written for each definition"
ASSUMPTIONS = ["n-th pointer of a name belongs to the n-th definition of that name, within one FILE object or at the top level"]
NAMES = ["IMAGE", "IMAGE_0", "IMAGE_1", "TABLE", "A_IMAGE"]


def content(name, i):
    """-> bytes, block statements, check(got, what) of the i-th object"""
    if "TABLE" in name:
        vals = [10 * i + 1, 10 * i + 2, 10 * i + 3]
        blk = pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3), ("COLUMNS", 1), ("ROW_BYTES", 1), ("NOTE_NUMBER", i),
                        pds.block("OBJECT", "COLUMN", ("NAME", "V"), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"), ("START_BYTE", 1), ("BYTES", 1)))

        def chk(got, what):
            require(hasattr(got, "columns") and list(got.columns) == ["V"] and got["V"].tolist() == vals, f"{what} is not the table written for it", got, vals)
    else:
        vals = [10 * i + 1, 10 * i + 2, 10 * i + 3]
        shape = (1, 3) if i % 2 else (3, 1)
        blk = pds.block("OBJECT", name, ("LINES", shape[0]), ("LINE_SAMPLES", shape[1]), ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8), ("NOTE_NUMBER", i))

        def chk(got, what):
            require(isinstance(got, np.ndarray) and got.shape == shape and got.ravel().tolist() == vals, f"{what} is not the image written for it", got, vals)
    return bytes(vals), blk, chk


def stable_orders(names):
    """orders of the definitions that keep equal names in order"""
    out = []
    for p in itertools.permutations(range(len(names))):
        if all(p.index(a) < p.index(b) for a in range(len(names)) for b in range(a + 1, len(names)) if names[a] == names[b]):
            out.append(list(p))
    return out


def layout(names, kind, order, pointers, blocks):
    n = len(names)
    file = lambda i, *body: pds.block("OBJECT", "FILE", ("FILE_NUMBER", i), *body)
    if kind == "flat":
        return pointers + [blocks[i] for i in order]
    if kind == "pairs":
        return [x for i in range(n) for x in (pointers[i], blocks[i])]
    if kind == "blocks first":
        return [blocks[i] for i in order] + pointers
    if kind == "files":
        return [file(i, pointers[i], blocks[i]) for i in order]
    if kind == "one file":
        return [file(0, *pointers, *[blocks[i] for i in order])]
    if kind == "first outside":
        return [pointers[0]] + [file(i, pointers[i], blocks[i]) for i in range(1, n)] + [blocks[0]]
    if kind == "first outside, files last":
        return [pointers[0], blocks[0]] + [file(i, pointers[i], blocks[i]) for i in range(1, n)]
    if kind == "last outside":
        return [file(i, pointers[i], blocks[i]) for i in range(n - 1)] + [pointers[-1], blocks[-1]]
    raise KeyError(kind)


def position(names, kind, order):
    """order of the pointers in the label"""
    return list(order) if kind == "files" else list(range(len(names)))


def expected_names(keys, names, seq):
    """check the index and return the key of each object"""
    objs = [k for k in keys if k != "LABEL"]
    require(len(set(keys)) == len(keys), "a name is listed twice", keys)
    require(len(objs) == len(names), "not every object is listed once", keys, names)
    out = {}
    for n in dict.fromkeys(names):
        members = [i for i in seq if names[i] == n]
        if len(members) == 1:
            require(n in objs, "an object with a unique name goes by another", n, keys)
            out[members[0]] = n
    rest = [k for k in objs if k not in out.values()]
    for n in dict.fromkeys(names):
        members = [i for i in seq if names[i] == n]
        if len(members) == 1:
            continue
        mine = sorted((int(k[len(n) + 1:]), k) for k in rest if k.startswith(n + "_") and k[len(n) + 1:].isdigit())
        require(len(mine) == len(members), "repeated objects are not numbered", n, keys)
        for i, (_, k) in zip(members, mine):
            out[i] = k
    return out


def run_pds3(c, ctx):
    names = c["names"]
    parts = [content(n, i + 1) for i, n in enumerate(names)]
    data, offs = b"", []
    for raw, _, _ in parts:
        offs.append(len(data) + 1)
        data += raw + b"\xee"
    pointers = [(f"^{n}", f'("D.DAT", {o} <BYTES>)') for n, o in zip(names, offs)]
    blocks = [p[1] for p in parts]
    st = layout(names, c["layout"], c["order"], pointers, blocks)
    extra = c["extra"]
    if extra == "keyword":  # a statement in a group shares the objects' name
        st = [pds.block("GROUP", "PARAMS", (names[0], 5))] + st
    elif extra == "keyword after":
        st = st + [pds.block("GROUP", "PARAMS", (names[0], 5))]
    elif extra == "surplus":  # one definition more than pointers
        st = st + [pds.block("OBJECT", names[-1], ("NOTE_NUMBER", 99))]
    elif extra == "bare":  # the last definition is missing
        st = [s for s in st if s is not blocks[-1]]
    path = pds.write_detached(ctx.dir, "P", [("RECORD_TYPE", "UNDEFINED")] + st, {"D.DAT": data})
    d, _ = pds.quiet_read(path)
    keys = list(d.keys())
    seq = position(names, c["layout"], c["order"])
    key = expected_names(keys, names, seq)
    ctx.step()
    for go in ([range(len(names)), range(len(names) - 1, -1, -1)]):
        d, _ = pds.quiet_read(path)
        for i in go:
            missing = extra == "bare" and i == len(names) - 1
            with pds.silent() as w:
                got = d[key[i]]
            if missing:
                require(w, "an object without definition loads silently", key[i], got)
                continue
            parts[i][2](got, key[i])
            blk = d.metablock_(key[i])
            require(blk is not None and blk.get("NOTE_NUMBER") == i + 1, "metadata block of another object", key[i], blk)
            where = d.metaget_("^" + key[i])
            require(isinstance(where, (tuple, list)) and where[1]["value"] == offs[i], "pointer of another object", key[i], where)
            ctx.step()
    require(list(d.keys()) == keys, "the index changed")
    return "repeated" if len(set(names)) < len(names) else "unique"


TEXTS = ["DESCRIPTION", "X_DESCRIPTION", "CATALOG", "X_CATALOG", "TEXT", "README_TEXT", "IMAGE_DESCRIPTION", "NOTE", "SOFTWARE"]


def run_texts(c, ctx):
    """pointers to text files: no definitions, a file each"""
    names = c["names"]
    files = {f"T{i}.TXT": f"text {i} of {n}\r\n".encode() for i, n in enumerate(names)}
    pointers = [(f"^{n}", f'"T{i}.TXT"') for i, n in enumerate(names)]
    st = {"flat": pointers, "files": [pds.block("OBJECT", "FILE", ("FILE_NUMBER", i), p) for i, p in enumerate(pointers)], "keyword": pointers + [(names[0], '"a keyword"')] if "DESCRIPTION" in names[0] else pointers}[c["layout"]]
    path = pds.write_detached(ctx.dir, "P", [("RECORD_TYPE", "STREAM")] + st, files)
    d, _ = pds.quiet_read(path)
    keys = list(d.keys())
    key = expected_names(keys, names, range(len(names)))
    for go in (range(len(names)), range(len(names) - 1, -1, -1)):
        d, _ = pds.quiet_read(path)
        for i in go:
            with pds.silent():
                got = d[key[i]]
            # (pdr reads no files of the other kinds; they are indexed all the same)
            require("TEXT" not in names[i] and "DESCRIPTION" not in names[i] or isinstance(got, str) and got.strip() == f"text {i} of {names[i]}", f"{key[i]} is not the text written for it", got, i)
            require(d.metaget_("^" + key[i]) == f"T{i}.TXT", "pointer of another text", key[i], d.metaget_("^" + key[i]))
            ctx.step()
    require(list(d.keys()) == keys, "the index changed")
    return "repeated" if len(set(names)) < len(names) else "unique"


def pds3_cases(n, layouts, extras, all_orders):
    for names in itertools.product(NAMES, repeat=n):
        for lay in layouts:
            orders = stable_orders(names) if all_orders and lay in ("flat", "files", "one file", "blocks first") else [list(range(n))]
            for o in orders:
                for ex in extras:
                    if ex.startswith("keyword") and (names.count(names[0]) == 1 or lay not in ("flat", "pairs")):
                        continue
                    if ex == "surplus" and lay not in ("flat", "pairs"):
                        continue
                    if ex == "bare" and lay != "flat":
                        continue
                    yield dict(names=list(names), layout=lay, order=o, extra=ex)


# ------------------------------------------------------------------------ PDS4
IDENT = [(None, None), ("one", None), ("two", None), ("a b", None), (None, "one"), ("one", "lid"), ("label", None), (None, "label"), ("load", None), ("index", None), (None, "metadata"), ("2nd", None)]


def run_pds4(c, ctx):
    structs, data, want = [], b"", []
    for i, (k, kind) in enumerate(zip(c["idents"], c["kinds"])):
        name, lid = IDENT[k]
        vals = [10 * i + 1, 10 * i + 2, 10 * i + 3]
        if kind == "array":
            structs.append(pds4w.array("Array_2D_Image", "UnsignedByte", [("Line", 1), ("Sample", 3)], len(data), name=name, lid=lid))
        else:
            structs.append(pds4w.table("Binary", 3, [pds4w.bfield(1, "V", "UnsignedByte", 1, 1)], 1, len(data), name=name, lid=lid))
        want.append(vals)
        data += bytes(vals) + b"\xee"
    areas = [("d.dat", structs)] if not c["split"] else [("d.dat", structs[:1]), ("e.dat", structs[1:])]
    path = pds4w.write(ctx.dir, "p", areas, {"d.dat": data, "e.dat": data})
    d, _ = pds.quiet_read(path)
    keys = list(d.keys())
    require(len(set(keys)) == len(keys), "a name is listed twice", keys)
    objs = [k for k in keys if k != "label"]
    require(len(objs) == len(structs), "not every structure is listed once", keys)
    require(type(d["label"]).__name__ == "Label", "label is not the label", type(d["label"]))
    for k, i in zip(objs, range(len(objs))):
        name, lid = IDENT[c["idents"][i]]
        for go in (0, 1):
            got = d[k]
            flat = got.ravel().tolist() if isinstance(got, np.ndarray) else got["V"].tolist() if hasattr(got, "columns") else None
            require(flat == want[i], "object of another structure", k, flat, want[i])
            d.load(k, reload=True)
        require(all(hasattr(d, a) for a in ("load", "metadata", "index", "metaget")) and callable(d.load), "an attribute of Data was replaced", k)
        unique = [IDENT[x] for x in c["idents"]].count((name, lid)) == 1
        base = lid or name
        if base and [IDENT[x][1] or IDENT[x][0] for x in c["idents"]].count(base) == 1 and base not in ("label", "load", "index", "metadata", "2nd"):
            require(k == base.replace(" ", "_"), "a structure with a unique identifier goes by another name", k, base)
        ctx.step()
    require(list(d.keys()) == keys, "the index changed")
    return "ok"


def pds4_cases(n, kinds):
    for ids in itertools.product(range(len(IDENT)), repeat=n):
        for ks in kinds:
            for split in (False, True):
                if split and n == 1:
                    continue
                yield dict(idents=list(ids), kinds=list(ks), split=split)


def spaces(tier):
    deep = tier == "thorough"
    layouts = ["flat", "pairs", "blocks first", "files", "one file", "first outside", "first outside, files last", "last outside"]
    extras = ["none", "keyword", "keyword after", "surplus", "bare"]
    out = [
        Space("pds3-2", pds3_cases(2, layouts, extras, True), run_pds3, "two objects: all names x layouts x definition orders x extras"),
        Space("pds3-3", pds3_cases(3, layouts, extras if deep else ["none", "surplus"], True), run_pds3, "three objects"),
        Space("texts", [dict(names=list(ns), layout=lay) for k in (1, 2, 3) for ns in itertools.product(TEXTS, repeat=k) for lay in ("flat", "files", "keyword") if k < 3 or deep or len(set(ns)) < 3], run_texts, "one to three pointers to text files: all names x layouts"),
        Space("pds4-1", pds4_cases(1, [["array"], ["table"]]), run_pds4, "one PDS4 structure: all identifiers"),
        Space("pds4-2", pds4_cases(2, [["array", "array"], ["table", "array"]]), run_pds4, "two PDS4 structures: all identifier pairs, one or two file areas"),
    ]
    if deep:
        out.append(Space("pds3-4", pds3_cases(4, ["flat", "pairs", "files", "one file"], ["none"], True), run_pds3, "four objects"))
        out.append(Space("pds4-3", pds4_cases(3, [["array", "table", "array"]]), run_pds4, "three PDS4 structures"))
    return out
