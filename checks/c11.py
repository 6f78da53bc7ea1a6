"""C11: a missing, truncated or corrupt file affects only the objects stored in it.

Fault injector: products of several files are written to a scratch directory, then every assignment of faults (absent, empty, a directory in its place, cut at every length, raw
and compressed) to their files is made, and every object is accessed in several orders. The oracle knows the bytes of each file an object needs: an object whose bytes survive must be
exactly right and load without a warning; any other must fall back to its label block with a warning (PDS4: raise), or, if it is row- or stream-like and its file just ends early,
be an intact leading part. Histories then repair or damage files between accesses."""
import itertools
import os
import shutil
import warnings

import numpy as np

from mc import pds, products as P
from mc.core import Space, require, short

TECHNIQUE = "exhaustive fault injection (fault kind x file subset x every truncation length x access order x repair history) on the real code against a byte-ownership oracle"
ASSUMPTIONS = ["the label itself is intact; unreadable is modelled by a directory in place of the file because checks run as root",
               "for formats with their own container (FITS) an object in a cut file may also fail although its own bytes survive"]

IMG2 = list(range(1, 13))
COMP = {".gz": "gzip", ".bz2": "bz2"}


def compress(raw, ext):
    import bz2
    import gzip
    return gzip.compress(raw, mtime=0) if ext == ".gz" else bz2.compress(raw)


class Obj:
    def __init__(self, want, file, start, end, kind, extra=()):
        self.want, self.file, self.start, self.end, self.kind, self.extra = want, file, start, end, kind, extra


def multi(d):
    """detached label, five data files and a format file"""
    head, text = b"HEAD ONE\r\nHEAD TWO\r\n", b"some words\r\nand more\r\n"
    img = P.img_bytes() + bytes(IMG2)
    dat = P.tab_bytes() + P.tab_bytes()
    tab = P.asc_bytes()
    csv = b"".join(f'"{a}",{b}\r\n'.encode() for a, b in P.ASC)
    fmt = "\r\n".join(pds.render([P.pds.block("OBJECT", "COLUMN", ("NAME", n), ("DATA_TYPE", t), ("START_BYTE", s), ("BYTES", b))
                                  for n, t, s, b in [("A", "MSB_INTEGER", 1, 4), ("B", "IEEE_REAL", 5, 4), ("C", "CHARACTER", 9, 2)]])) + "\r\nEND\r\n"
    files = {"M.IMG": img, "M.DAT": dat, "M.TAB": tab, "M.CSV": csv, "M.TXT": head + text, "M.FMT": fmt.encode()}
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 1), ("NOTE", "M"),
          ("^IMAGE", '("M.IMG", 1)'), ("^BIL_IMAGE", '("M.IMG", 13)'), ("^TABLE", '("M.DAT", 1)'), ("^FMT_TABLE", '("M.DAT", 31)'), ("^ASCII_TABLE", '"M.TAB"'), ("^SPREADSHEET", '"M.CSV"'),
          ("^IMAGE_HEADER", '"M.TXT"'), ("^NOTES_TEXT", '"M.TXT"'),
          P.img_block("IMAGE"),
          P.pds.block("OBJECT", "BIL_IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("BANDS", 2), ("BAND_STORAGE_TYPE", "LINE_INTERLEAVED"), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8)),
          P.tab_block("TABLE"),
          P.pds.block("OBJECT", "FMT_TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3), ("COLUMNS", 3), ("ROW_BYTES", 10), ("^STRUCTURE", '"M.FMT"')),
          P.asc_block("ASCII_TABLE"),
          P.pds.block("OBJECT", "SPREADSHEET", ("ROWS", 3), ("FIELDS", 2), ("ROW_BYTES", 20), ("FIELD_DELIMITER", "COMMA"),
                      P.pds.block("OBJECT", "FIELD", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("BYTES", 4)), P.pds.block("OBJECT", "FIELD", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER"), ("BYTES", 5))),
          P.pds.block("OBJECT", "IMAGE_HEADER", ("BYTES", len(head)), ("HEADER_TYPE", "X"))]
    path = pds.write_detached(d, "M", st, files)
    # BIL: line, band, sample on disk
    bil = np.array(IMG2, "u1").reshape(2, 2, 3).swapaxes(0, 1).reshape(-1).tolist()
    objs = {"LABEL": Obj(P.Text("NOTE = M", True), None, 0, 0, "text"),
            "IMAGE": Obj(P.U2(), "M.IMG", 0, 12, "array"), "BIL_IMAGE": Obj(P.Arr((2, 2, 3), "u", 1, bil), "M.IMG", 12, 24, "array"),
            "TABLE": Obj(P.TABF, "M.DAT", 0, 30, "table"), "FMT_TABLE": Obj(P.TABF, "M.DAT", 30, 60, "table", ("M.FMT",)),
            "ASCII_TABLE": Obj(P.ASCF, "M.TAB", 0, 36, "ascii"), "SPREADSHEET": Obj(P.ASCF, "M.CSV", 0, len(csv), "ascii"),
            "IMAGE_HEADER": Obj(P.Text(head.decode()), "M.TXT", 0, len(head), "text"), "NOTES_TEXT": Obj(P.Text((head + text).decode()), "M.TXT", 0, len(head + text), "text")}
    return path, objs, files


def attached(d):
    p = P.attached(d)
    raw = open(p.path, "rb").read()
    n = len(raw) - 30 - 64 - 64
    head = p.objs["IMAGE_HEADER"].text
    objs = {"LABEL": Obj(p.objs["LABEL"], None, 0, 0, "text"), "IMAGE_HEADER": Obj(p.objs["IMAGE_HEADER"], "ATT.IMG", n, n + len(head), "text"),
            "IMAGE": Obj(p.objs["IMAGE"], "ATT.IMG", n + 64, n + 76, "array"), "TABLE": Obj(p.objs["TABLE"], "ATT.IMG", n + 128, n + 158, "table")}
    return p.path, objs, {"ATT.IMG": raw}


def stream(d):
    """a delimited table counted in lines, with a header line; no byte sizes in its label"""
    head = b"word,number\r\n"
    csv = head + b"".join(f'"{a}",{b}\r\n'.encode() for a, b in P.ASC)
    st = [("RECORD_TYPE", "STREAM"), ("NOTE", "S"), ("^SPREADSHEET", '("S.CSV", 2)'), ("^IMAGE", '"S.IMG"'), P.img_block("IMAGE"),
          P.pds.block("OBJECT", "SPREADSHEET", ("ROWS", 3), ("FIELDS", 2), ("FIELD_DELIMITER", "COMMA"),
                      P.pds.block("OBJECT", "FIELD", ("NAME", "W"), ("DATA_TYPE", "CHARACTER")), P.pds.block("OBJECT", "FIELD", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER")))]
    path = pds.write_detached(d, "S", st, {"S.CSV": csv, "S.IMG": P.img_bytes()})
    return path, {"LABEL": Obj(P.Text("NOTE = S", True), None, 0, 0, "text"), "IMAGE": Obj(P.U2(), "S.IMG", 0, 12, "array"),
                  "SPREADSHEET": Obj(P.ASCF, "S.CSV", len(head), len(csv), "lines")}, {"S.CSV": csv, "S.IMG": P.img_bytes()}


def labfits(d):
    p = P.fits_labelled(d)
    raw = open(os.path.join(d, "LFI.FIT"), "rb").read()
    objs = {"LABEL": Obj(p.objs["LABEL"], None, 0, 0, "text")}
    for n in ("IMAGE", "SCI_IMAGE", "EVENT_TABLE"):
        objs[n] = Obj(p.objs[n], "LFI.FIT", 0, len(raw), "container")
    return p.path, objs, {"LFI.FIT": raw}


def pds4(d):
    p = P.pds4(d)
    files = {f: open(os.path.join(d, f), "rb").read() for f in p.files}
    h = len(files["P4.dat"]) - 12 - 24
    objs = {"label": Obj(p.objs["label"], None, 0, 0, "text"), "Head": Obj(p.objs["Head"], "P4.dat", 0, h, "pds4text"), "IMG": Obj(p.objs["IMG"], "P4.dat", h, h + 12, "pds4"),
            "TAB": Obj(p.objs["TAB"], "P4.dat", h + 12, h + 36, "pds4"), "CSV_T": Obj(p.objs["CSV_T"], "P4.csv", 0, len(files["P4.csv"]), "pds4ascii")}
    return p.path, objs, files


PRODUCTS = dict(multi=multi, stream=stream, attached=attached, labfits=labfits, pds4=pds4)


def inject(d, name, raw, fault, comp=""):
    """put the file into the state `fault`: ok, gone, empty, dir, or a number of bytes kept (of the compressed stream if comp)"""
    p = os.path.join(d, name)
    for q in (p, p + ".gz", p + ".bz2"):
        if os.path.isdir(q):
            shutil.rmtree(q)
        elif os.path.exists(q):
            os.remove(q)
    if fault == "gone":
        return
    if fault == "dir":
        os.mkdir(p)
        return
    if comp:
        raw = compress(raw, comp)
    if fault == "empty":
        raw = b""
    elif isinstance(fault, int):
        raw = raw[:fault]
    with open(p + comp, "wb") as f:
        f.write(raw)


def leading(got, want, what, rows, textual=False):
    """got must be the table `want` cut to some number of rows: all complete rows right"""
    import pandas as pd
    require(isinstance(got, pd.DataFrame), f"{what} is {short(got)}")
    require(len(got) <= len(next(iter(want.cols.values()))) and len(got) >= rows, f"{what} has {len(got)} rows, file holds {rows} complete ones", got)
    cut = P.Frame(**{k: v[:rows] for k, v in want.cols.items()})
    have = got.iloc[:rows]
    if textual:  # a partial last row may make a column text
        require(list(have.columns) == list(cut.cols), f"{what} has columns {list(have.columns)}")
        for k, v in cut.cols.items():
            have_v = [x.decode() if isinstance(x, bytes) else x for x in have[k]]
            ok = all((a == b) if isinstance(b, str) else float(a) == b for a, b in zip(have_v, v))
            require(ok, f"{what}[{k}] is {short(have_v)}", v)
        return
    P.check(have, cut, what)


class Run:
    def __init__(self, product, ctx, fault, comp=""):
        self.path, self.objs, self.raw = PRODUCTS[product](ctx.dir)
        self.d, self.ctx, self.comp = str(ctx.dir), ctx, comp
        self.faults = {}
        for n in self.raw:
            self.set(n, fault.get(n, "ok"))
        self.pds4 = product == "pds4"
        self.data, w = pds.quiet_read(self.path)
        self.meta = repr(self.data.metadata)
        self.seen = {}

    def set(self, n, fault):
        inject(self.d, n, self.raw[n], fault, self.comp if n != "M.FMT" else "")
        self.faults[n] = fault
        self.ctx.step()

    def blob(self, n):
        f = self.faults[n]
        return self.raw[n] if f == "ok" else b"" if f == "empty" else self.raw[n][:f] if isinstance(f, int) else None

    def status(self, name):
        """ok | fail | (partial, bytes surviving in the object)"""
        o = self.objs[name]
        if o.file is None:
            return "ok"
        if any(self.faults[x] != "ok" for x in o.extra):
            return "fail"
        f = self.faults[o.file]
        if f == "ok":
            return "ok"
        if self.comp and f not in ("gone", "dir"):
            return "broken stream"
        b = self.blob(o.file)
        if b is None:
            return "fail"
        if o.kind != "container" and len(b) >= o.end:
            return "ok"
        return "short"

    def access(self, name, how):
        d = self.data
        fresh = name not in self.seen or how == "reload"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if how == "reload":
                    d.load(name, reload=True)
                    got = getattr(d, name)
                elif how == "attr":
                    got = getattr(d, name)
                else:
                    got = d[name]
                exc = None
            except Exception as ex:
                got, exc = None, ex
        warned = [str(x.message) for x in w if x.category is UserWarning]
        self.ctx.step()
        if not fresh:
            require(exc is None and got is self.seen[name], f"second access of {name} gave {short(got)} / {exc!r}")
            return
        self.judge(name, got, exc, warned)
        if exc is None:
            self.seen[name] = got

    def judge(self, name, got, exc, warned):
        o, st, what = self.objs[name], self.status(name), name
        full = f"{name} with {self.faults}"
        if st == "ok":
            require(exc is None, f"{full} raised {exc!r} although its bytes are intact")
            require(not warned, f"{full} warned although its bytes are intact", warned)
            P.check(got, o.want, full)
            return
        if self.pds4 and exc is not None:
            return  # PDS4 objects raise
        require(exc is None, f"{full} raised {exc!r}")
        block = self.data.metaget_(name)
        if warned and (got is block or (got == block if block is not None and type(got) is type(block) else False)):
            return
        if not warned and block is None and got is None:
            require(False, f"{full} is None without a warning")
        require(st != "fail", f"{full} gave {short(got)} (warnings: {warned}) although its file cannot be read")
        require(not self.pds4 or o.kind in ("pds4text", "pds4ascii"), f"{full} gave {short(got)}", warned)
        # short file or broken stream, loaded all the same: must be an intact leading part
        if st == "broken stream":
            # what could be decompressed may still be enough, or enough for some rows, but must be right
            if o.kind in ("table", "ascii", "lines"):
                leading(got, o.want, full, len(got) - (o.kind == "ascii" and len(got) < 3), True)
            else:
                P.check(got, o.want, full)
            return
        b = self.blob(o.file)
        have = b[o.start:o.end]
        if o.kind == "table":
            rows = len(have) // 10
            require(len(got) == rows, f"{full} has {len(got)} rows, file holds {rows} complete ones", got)
            leading(got, o.want, full, rows)
        elif o.kind in ("ascii", "pds4ascii"):
            leading(got, o.want, full, have.count(b"\n"), True)
        elif o.kind == "lines":
            n = have.count(b"\n") + (not have.endswith(b"\n"))
            require(n == 3, f"{full} gave {short(got)} without a warning although {3 - n} of its 3 lines are gone")
            leading(got, o.want, full, have.count(b"\n"), True)
        elif o.kind in ("text", "pds4text"):
            t = got.decode("latin1") if isinstance(got, bytes) else got
            require(isinstance(t, str) and P.canon(t) == P.canon(have.decode("latin1")), f"{full} is {short(got)}", have)
        elif o.kind == "container":
            # astropy may still deliver what it can; it must be right
            P.check(got, o.want, full)
        else:
            require(False, f"{full} gave {short(got)} although the file ends early")

    def finish(self):
        require(repr(self.data.metadata) == self.meta, "metadata changed")


def run(c, ctx):
    r = Run(c["product"], ctx, c["faults"], c.get("comp", ""))
    names = list(r.objs)
    if c.get("order") == "reverse":
        names.reverse()
    if c.get("order") == "all":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r.data.load("all")
            except Exception as ex:
                require(r.pds4, f"load('all') raised {ex!r}")
        if not r.pds4:
            require(r.data.unloaded() == (), f"load('all') left {r.data.unloaded()}")
    for n in names:
        if c.get("order") == "all" and n in r.data.__dict__:
            got = r.data.__dict__[n]
            r.judge(n, got, None, ["loaded by load_all"] if r.status(n) != "ok" else [])
            r.seen[n] = got
        else:
            r.access(n, "item")
    for n in names:
        if n in r.seen:
            r.access(n, "attr")
    r.finish()
    ctx.state((c["product"], tuple(sorted((n, r.status(n)) for n in r.objs))))
    return f"{c['product']} {len([f for f in c['faults'].values() if f != 'ok'])} faults"


def history(c, ctx):
    r = Run(c["product"], ctx, c["faults"], c.get("comp", ""))
    for op in c["ops"]:
        if op[0] == "set":
            r.set(op[1], op[2])
        elif op[0] == "reload":
            r.access(op[1], "reload")
        else:
            r.access(op[1], "item")
        r.finish()
    return f"{c['product']} history"


FILES = {"multi": ["M.IMG", "M.DAT", "M.TAB", "M.CSV", "M.TXT", "M.FMT"], "stream": ["S.CSV", "S.IMG"], "labfits": ["LFI.FIT"], "pds4": ["P4.dat", "P4.csv"], "attached": ["ATT.IMG"]}
SIZE = {"M.IMG": 24, "M.DAT": 60, "M.TAB": 36, "M.CSV": 31, "M.TXT": 42, "P4.dat": 51, "P4.csv": 16, "S.CSV": 44, "S.IMG": 12}


def spaces(tier):
    deep = tier == "thorough"
    kinds = ("ok", "gone", "empty", "dir")

    def subsets():
        for p in ("multi", "stream", "labfits", "pds4"):
            fs = FILES[p]
            for combo in itertools.product(kinds, repeat=len(fs)):
                f = {n: k for n, k in zip(fs, combo) if k != "ok"}
                if p == "multi" and f.get("M.FMT") == "empty":
                    continue  # an empty format file defines no columns: nothing to hold the table to
                nf = len(f)
                orders = ("forward", "reverse", "all") if deep or nf <= 2 or p != "multi" else ("forward",)
                if p == "multi" and not deep and nf > 3 and len(set(f.values())) > 2:
                    continue
                for order in orders:
                    yield dict(product=p, faults=f, order=order)

    def cuts():
        for p in ("multi", "stream", "pds4"):
            for n in FILES[p]:
                if n == "M.FMT":
                    continue
                for k in range(0, SIZE[n] + 1):
                    for order in ("forward", "reverse", "all"):
                        yield dict(product=p, faults={n: k}, order=order)
        for k in range(-158, 1):
            yield dict(product="attached", faults={"ATT.IMG": ["end", k]}, order="forward")
        for k in list(range(0, 20160 + 1, 97 if not deep else 13)) + [2879, 2880, 2881, 2892, 5759, 5760, 5761, 8640]:
            yield dict(product="labfits", faults={"LFI.FIT": k}, order="forward")

    def run_cut(c, ctx):
        c = dict(c)
        f = {}
        for n, k in c["faults"].items():
            if isinstance(k, list):
                tmp = ctx.dir / "probe"
                tmp.mkdir()
                size = len(PRODUCTS["attached"](tmp)[2]["ATT.IMG"])
                shutil.rmtree(tmp)
                k = size + k[1]
            f[n] = k
        c["faults"] = f
        return run(c, ctx)

    def compressed():
        for n in FILES["multi"][:4]:
            for comp in (".gz", ".bz2"):
                raw_len = 90 if comp == ".bz2" else 60
                for k in range(0, raw_len, 1 if deep else 3):
                    yield dict(product="multi", faults={n: k}, order="forward", comp=comp)
                for k in ("gone", "dir"):
                    yield dict(product="multi", faults={n: k}, order="forward", comp=comp)

    def run_comp(c, ctx):
        (n, k), = c["faults"].items()
        if isinstance(k, int):
            tmp = ctx.dir / "probe"
            tmp.mkdir()
            size = len(compress(multi(tmp)[2][n], c["comp"]))
            shutil.rmtree(tmp)
            if k >= size - 8:
                return "trivial: cut behind the stream"
        return run(c, ctx)

    def repairs():
        """damage and repair between accesses"""
        target = {"multi": [("IMAGE", "M.IMG"), ("TABLE", "M.DAT"), ("FMT_TABLE", "M.FMT"), ("ASCII_TABLE", "M.TAB"), ("IMAGE_HEADER", "M.TXT")], "labfits": [("SCI_IMAGE", "LFI.FIT")], "pds4": [("IMG", "P4.dat"), ("CSV_T", "P4.csv")]}
        for p, pairs in target.items():
            for name, file in pairs:
                alphabet = [("get", name), ("reload", name)] + [("set", file, k) for k in ("ok", "gone", "dir")] + [("get", o) for o in ("BIL_IMAGE",) if p == "multi"]
                for n in (2, 3, 4) if deep else (2, 3):
                    for h in itertools.product(alphabet, repeat=n):
                        for first in ("ok", "gone", "dir"):
                            yield dict(product=p, faults={file: first}, ops=[list(x) for x in h])

    return [
        Space("subsets", subsets, run, "every assignment of {ok, gone, empty, dir} to the files of a product, x access order"),
        Space("cuts", cuts, run_cut, "every truncation length of every file, x access order"),
        Space("compressed-cuts", compressed, run_comp, "truncation lengths of compressed files"),
        Space("repairs", repairs, history, "every history of damage, repair, access and reload to the length bound"),
    ]
