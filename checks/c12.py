"""C12: companion files are found regardless of letter case, compression and search path.

The file system is the state: every placement of a bounded number of candidate files (exact name, off-case, compressed, in each search directory) and decoys is built, each
candidate holding its own identity; the identity pdr reads is compared with an independent model of the documented search order (directories in order; in a directory the exact
name first, else the name in any letter case with or without a compression suffix)."""
import itertools
import os
import warnings

from mc import pds
from mc.core import Space, require, short

TECHNIQUE = "exhaustive enumeration of file-system states (candidate placements x decoys x way of opening) on the real code against a search-order model"
ASSUMPTIONS = ["case-sensitive file system", "where several off-case variants exist in one directory any of them is right (pdr warns)"]


def squeeze(raw, name):
    import bz2
    import gzip
    import io
    import zipfile
    n = name.lower()
    if n.endswith(".gz"):
        return gzip.compress(raw, mtime=0)
    if n.endswith(".bz2"):
        return bz2.compress(raw)
    if n.endswith(".zip"):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("x", raw)
        return b.getvalue()
    return raw


def choose(dirs, wanted, present):
    """model: present = {dir: [names]}; -> set of acceptable (dir, name), whether a warning is due"""
    for d in dirs:
        if wanted in present.get(d, ()):
            return {(d, wanted)}, False
        ok = set()
        for n in present.get(d, ()):
            base = n.lower()
            for ext in (".gz", ".bz2", ".zip"):
                if base.endswith(ext) and base.count(".") > 1:
                    base = base[:-len(ext)]
                    break
            if base == wanted.lower():
                ok.add((d, n))
        if ok:
            return ok, len(ok) > 1
    return set(), False


class Tree:
    def __init__(self, root, ctx):
        self.root, self.ids, self.present, self.ctx = root, {}, {}, ctx

    def put(self, d, name, make):
        """place a file holding its own identity, made by make(id) -> bytes"""
        i = len(self.ids) + 1
        p = os.path.join(self.root, d)
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, name), "wb") as f:
            f.write(squeeze(make(i), name))
        self.ids[i] = (d, name)
        self.present.setdefault(d, []).append(name)
        self.ctx.step()

    def __call__(self, *parts):
        return os.path.join(self.root, *parts)


def label(note, *extra, objs=True, file="PIC.IMG"):
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 4), ("NOTE_ID", note), *extra]
    if objs:
        st += [("^IMAGE", f'"{file}"'), pds.block("OBJECT", "IMAGE", ("LINES", 1), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))]
    return pds.label_text(st).encode()


def img(i):
    return bytes([i, 100 + i])


def read(path, **kw):
    """-> (Data or exception, UserWarning texts)"""
    import pdr
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = pdr.read(path, **kw)
        except Exception as ex:
            out = ex
    return out, [str(x.message) for x in w if x.category is UserWarning]


def image_id(d, tree, want, due, what):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = d["IMAGE"]
    msgs = [str(x.message) for x in w if x.category is UserWarning]
    if not want:
        require(type(v).__name__ == "MultiDict", f"{what}: no candidate exists, got {short(v)}", tree.present)
        require(any("not found" in m for m in msgs), f"{what}: no warning about the missing file", msgs)
        return "missing"
    require(hasattr(v, "tolist"), f"{what}: image not found ({short(v)})", tree.present, msgs)
    (i, j), = v.tolist()
    require(j == i + 100 and tree.ids.get(i) in want, f"{what}: read {tree.ids.get(i)}, should be {sorted(want)}", tree.present)
    require(bool(msgs) == due, f"{what}: warnings {msgs}", tree.present)
    return "found" if len(want) == 1 else "several"


VARIANTS = ["PIC.IMG", "pic.img", "Pic.Img", "PIC.IMG.gz", "pic.img.BZ2", "PIC.img.zip"]
DECOYS = ["PIC2.IMG", "XPIC.IMG", "PIC.IM", "PIC.IMGX", "PIC.IMG.bak", "PIC_IMG", "PIC.IMG.txt", "PIC", "PIC.IMG.gz.bak", "pic.lbl.img"]
DIRS = ["own", "s1", "s2"]


def data_run(c, ctx):
    t = Tree(str(ctx.dir), ctx)
    os.makedirs(t("own"))
    for d in DIRS:
        os.makedirs(t(d), exist_ok=True)
    with open(t("own", "LAB.LBL"), "wb") as f:
        f.write(label(7, file=c.get("wanted", "PIC.IMG")))
    for d, n in c["files"]:
        t.put(d, n, img)
    if c["decoys"]:
        for d in DIRS + ["own/sub"]:
            for n in (DECOYS if d != "own/sub" else VARIANTS[:2]):
                os.makedirs(t(d), exist_ok=True)
                with open(t(d, n), "wb") as f:
                    f.write(b"\xff\xff")
    for n in c.get("near", ()):
        with open(t("own", n), "wb") as f:
            f.write(b"\xff\xff")
    present = {k: list(v) for k, v in t.present.items()}
    sp = c["search"]
    dirs = ["own"] + ([sp] if isinstance(sp, str) else list(sp))
    arg = t(sp) if isinstance(sp, str) else [t(s) for s in sp]
    d, w = read(t("own", "LAB.LBL"), search_paths=arg)
    require(not isinstance(d, Exception), f"opening failed: {d!r}")
    want, due = choose(dirs, c.get("wanted", "PIC.IMG"), present)
    ctx.state(tuple(map(tuple, c["files"])))
    return "data " + image_id(d, t, want, due, f"search {sp}")


def data_cases(deep):
    spots = [(d, n) for d in DIRS for n in VARIANTS]
    for k in range(0, 4 if deep else 3):
        for files in itertools.combinations(spots, k):
            for search in (["s1", "s2"], ["s2", "s1"], [], "s1"):
                for decoys in (True, False):
                    yield dict(files=[list(x) for x in files], search=search, decoys=decoys)
    if not deep:
        for files in itertools.combinations(spots, 3):
            yield dict(files=[list(x) for x in files], search=["s1", "s2"], decoys=True)


def dotted_cases(deep):
    """names with several dots, and names without any"""
    for wanted in ("PIC.V1.IMG", "pic.v1.2.img", "A.B.C.DAT", "PIC", "PIC.Z.IMG", "PIC.GZ.IMG", "V1.PIC_2"):
        vs = list(dict.fromkeys([wanted, wanted.lower(), wanted.upper(), wanted.swapcase()] + ([wanted + ".gz", wanted.lower() + ".BZ2", wanted.upper() + ".zip"] if "." in wanted else [])))
        near = [wanted + "2", wanted + ".bak", "X" + wanted] + ([wanted.replace(".", "_", 1), wanted.rsplit(".", 1)[0], wanted.split(".", 1)[1]] if "." in wanted else [])
        for k in range(0, 3):
            for files in itertools.combinations([(d, n) for d in ("own", "s1") for n in vs], k):
                yield dict(files=[list(x) for x in files], search=["s1"], decoys=False, wanted=wanted, near=near)


LABELS = ["PIC.LBL", "pic.lbl", "Pic.Lbl", "PIC.LBL.gz", "pic.lbl.bz2"]


def label_run(c, ctx):
    """open by data file; the label must be the one next to it"""
    t = Tree(str(ctx.dir), ctx)
    with_data = c["data"]
    t.put("own", with_data, img)
    for d, n in c["labels"]:
        t.put(d, n, label)
    for d in ("other", "own/sub"):
        os.makedirs(t(d), exist_ok=True)
        with open(t(d, "PIC.LBL"), "wb") as f:
            f.write(label(99))
    for n in ("PIC2.LBL", "XPIC.LBL", "PIC.LB", "PIC.LBL.bak", "PIC.IMG.LBL"):
        with open(t("own", n), "wb") as f:
            f.write(label(98))
    kw = {}
    if c["search"]:
        kw["search_paths"] = [t("other")]
    explicit = c.get("explicit")
    if explicit:
        kw["label_fn"] = t(*explicit)
        want, due = choose([explicit[0]], explicit[1], t.present)
    else:
        want, due = set(), False
        # pdr asks for the stem of the data file plus '.lbl', in any letter case
        want, due = choose(["own"], os.path.splitext(with_data)[0] + ".lbl", {"own": [n for n in t.present["own"] if n != with_data]})
    d, w = read(t("own", c["open"]), **kw)
    if not want:
        if isinstance(d, Exception):
            require(isinstance(d, (ValueError, FileNotFoundError, OSError)), f"opening failed with {d!r}")
        else:
            require(d.metadata.get("NOTE_ID") is None, f"label {d.metadata.get('NOTE_ID')} of {d.labelname} was used", t.present)
        return "label missing"
    require(not isinstance(d, Exception), f"opening failed: {d!r}", t.present)
    note = d.metadata.get("NOTE_ID")
    require(t.ids.get(note) in want, f"label {t.ids.get(note, note)} was used, should be {sorted(want)}", t.present)
    require(os.path.basename(str(d.labelname)) == t.ids[note][1], f"labelname is {d.labelname}")
    require(any("off-case" in x for x in w) == due, f"warnings on opening: {w}", t.present)
    ok, _ = choose(["own"], "PIC.IMG", {"own": [with_data]})
    v = d["IMAGE"]
    require(getattr(v, "tolist", lambda: None)() == [[1, 101]], f"image is {short(v)}", t.present)
    return "label found"


def label_cases(deep):
    spots = [("own", n) for n in LABELS]
    for data in ("PIC.IMG", "pic.img", "Pic.IMG"):
        for opened in {data, "PIC.IMG", "pIC.imG"}:
            for k in range(0, 4):
                for ls in itertools.combinations(spots, k):
                    for search in (False, True):
                        yield dict(data=data, open=opened, labels=[list(x) for x in ls], search=search)
    # explicit labels
    for place in ("own", "lab"):
        for present in LABELS:
            for asked in LABELS:
                if present.lower().endswith((".gz", ".bz2")) and asked != present and asked.lower().endswith((".gz", ".bz2")):
                    continue
                if asked != present and asked.lower().endswith((".gz", ".bz2")):
                    continue
                for rival in ([], [["own", "Pic.LBL"]]):
                    if rival and place == "own" and asked != present:
                        continue
                    yield dict(data="PIC.IMG", open="PIC.IMG", labels=rival + [[place, present]], explicit=[place, asked], search=False)
    # opened by one label, another one given
    for place in ("own", "lab"):
        for asked in LABELS[:4]:
            yield dict(data="PIC.IMG", open="MINE.LBL", labels=[["own", "MINE.LBL"], [place, asked]], explicit=[place, asked], search=False)
    for asked in LABELS[:2]:
        yield dict(data="PIC.IMG", open="PIC.IMG", labels=[["own", "MY.LBL"], ["own", "PIC.LBL"]], explicit=["own", "MY.LBL"], search=False)


FMTS = ["T.FMT", "t.fmt", "T.Fmt", "T.FMT.gz"]
FDECOYS = ["vol", "vol/data", "vol/Label", "vol/data/label", "label"]
LAYOUTS = {  # own directory, LABEL directories, decoys
    "data": ("vol/data/sub", ["vol/label", "vol/LABEL"], FDECOYS),
    "Data": ("vol/Data/sub", ["vol/label", "vol/LABEL"], ["vol", "vol/Data", "vol/Label", "vol/Data/label", "label"]),
    "direct": ("vol/DATA", ["vol/label", "vol/LABEL"], ["vol", "vol/Label", "vol/DATA/label", "label"]),
    "deep": ("vol/data/sub/sub2/sub3", ["vol/label", "vol/LABEL"], ["vol/data/sub", "vol/data/sub/label", "vol/data/label", "vol/Label"]),
    "nested": ("data/vol/DATA/sub", ["data/vol/label", "data/vol/LABEL"], ["label", "LABEL", "data/label", "data/LABEL", "data", "data/vol"]),
    "none": ("vol/dat/sub", [], ["label", "LABEL", "vol/label", "vol/LABEL", "vol/dat/label", "vol/dat", "vol"]),
    "database": ("vol/database/sub", [], ["label", "LABEL", "vol/label", "vol/LABEL", "vol/database/LABEL", "vol"]),
}


def fmt(i):
    return ("\r\n".join(pds.render([pds.block("OBJECT", "COLUMN", ("NAME", f"COL{i}"), ("DATA_TYPE", "UNSIGNED_INTEGER"), ("START_BYTE", 1), ("BYTES", 1))])) + "\r\nEND\r\n").encode()


def fmt_run(c, ctx):
    t = Tree(str(ctx.dir), ctx)
    own, labels, decoys = LAYOUTS[c["layout"]]
    where = {"own": own, "s1": "s1", "label": labels[0] if labels else None, "LABEL": labels[1] if labels else None}
    for d, n in c["files"]:
        t.put(where[d], n, fmt)
    for d in decoys:
        os.makedirs(t(d), exist_ok=True)
        with open(t(d, "T.FMT"), "wb") as f:
            f.write(fmt(77))
    os.makedirs(t(own), exist_ok=True)
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 1), ("^TABLE", '"T.DAT"'),
          pds.block("OBJECT", "TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2), ("COLUMNS", 1), ("ROW_BYTES", 1), ("^STRUCTURE", '"T.FMT"'))]
    with open(t(own, "LAB.LBL"), "wb") as f:
        f.write(pds.label_text(st).encode())
    with open(t(own, "T.DAT"), "wb") as f:
        f.write(b"\x05\x06")
    d, _ = read(t(own, "LAB.LBL"), search_paths=[t("s1")])
    require(not isinstance(d, Exception), f"opening failed: {d!r}")
    order = [own, "s1", *labels]
    want, due = choose(order, "T.FMT", t.present)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = d["TABLE"]
    msgs = [str(x.message) for x in w if x.category is UserWarning]
    if not want:
        require(type(v).__name__ == "MultiDict" and any("T.FMT" in m for m in msgs), f"no format file exists, got {short(v)}", msgs)
        return "format missing"
    require(type(v).__name__ == "DataFrame", f"table did not load: {msgs}", t.present)
    i = int(v.columns[0][3:])
    require(v.shape == (2, 1) and t.ids.get(i) in want, f"format file {t.ids.get(i, i)} was used, should be {sorted(want)}", t.present)
    require(v.iloc[:, 0].tolist() == [5, 6], f"table is {v}")
    require(bool(msgs) == due, f"warnings {msgs}", t.present)
    return "format found"


def fmt_cases(deep):
    for layout, (_, labels, _) in LAYOUTS.items():
        spots = [(d, n) for d in ("own", "s1", *(("label", "LABEL") if labels else ())) for n in FMTS]
        for k in range(0, 4 if deep else 3):
            for files in itertools.combinations(spots, k):
                yield dict(files=[list(x) for x in files], layout=layout)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("data-file", lambda: data_cases(deep), data_run, "every placement of up to 3 data-file candidates in 3 directories x search-path order x decoys"),
        Space("dotted", lambda: dotted_cases(deep), data_run, "names with several dots or none, up to 2 candidates in 2 directories, near misses beside them"),
        Space("label-file", lambda: label_cases(deep), label_run, "every set of label candidates x data-file spelling x spelling asked for x explicit label"),
        Space("format-file", lambda: fmt_cases(deep), fmt_run, "every placement of format-file candidates over search and volume LABEL directories x volume layouts (nested, no DATA directory)"),
    ]
