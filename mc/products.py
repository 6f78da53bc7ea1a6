"""Small complete products of every kind, with the values each object must have.

A builder writes one product into a directory and returns a Product: `objs` maps every name in the index to its expected value; `derived` maps names that appear only when another
object is loaded ({name: parent}); `missing` names objects whose file is deliberately absent (pdr falls back to the label's block)."""
from __future__ import annotations

import io
import struct
from pathlib import Path

import numpy as np

from mc import pds, pds4w, tables as T
from mc.core import Fail, require, short


class Product:
    def __init__(self, path, objs, **kw):
        self.path, self.objs = path, objs
        self.derived = kw.pop("derived", {})
        self.missing = kw.pop("missing", {})
        self.ignored = kw.pop("ignored", ())  # names load("all") leaves alone
        self.scaled = kw.pop("scaled", {})  # name -> expected get_scaled result
        self.files = kw.pop("files", {})  # data file -> objects stored in it
        self.meta = kw.pop("meta", {})
        self.preloaded = kw.pop("preloaded", ())  # loaded by opening
        assert not kw

    @property
    def names(self):
        return list(self.objs)


class Arr:
    """expected array"""

    def __init__(self, shape, kind, itemsize, values, mask=None):
        self.shape, self.kind, self.itemsize, self.values, self.mask = tuple(shape), kind, itemsize, list(values), mask


class Frame:
    """expected table: ordered columns of python values"""

    def __init__(self, **cols):
        self.cols = cols


class Text:
    def __init__(self, text, contains=False):
        self.text, self.contains = text, contains


class Block:
    """expected metadata block: must equal this nested dict (subset of keys)"""

    def __init__(self, **kv):
        self.kv = kv


def canon(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def check(got, want, what):
    """raise Fail unless got is the expected value"""
    import pandas as pd
    from collections.abc import Mapping
    if isinstance(want, Arr):
        pds.check_array(got, want.shape, want.values, want.kind, want.itemsize, what)
    elif isinstance(want, Frame):
        require(isinstance(got, pd.DataFrame), f"{what} is not a table", type(got), got)
        require(list(got.columns) == list(want.cols), f"{what} has columns {list(got.columns)}", list(want.cols))
        for k, v in want.cols.items():
            have = got[k].tolist()
            have = [x.decode() if isinstance(x, bytes) else x for x in have]
            require(have == list(v), f"{what}[{k}] is {short(have)}", v)
    elif isinstance(want, Text):
        require(isinstance(got, str), f"{what} is not text", type(got), got)
        g = canon(got)
        require(want.text in g if want.contains else g == canon(want.text), f"{what} differs from stored text", got)
    elif isinstance(want, Block):
        require(isinstance(got, Mapping), f"{what} is not a block", type(got), got)
        for k, v in want.kv.items():
            require(got.get(k) == v, f"{what}[{k}] is {got.get(k)!r}", v)
    elif want is None:
        require(got is None, f"{what} is {got!r}, should be None")
    elif callable(want):
        want(got, what)
    else:
        require(got == want, f"{what} is {short(got)}", want)


# ---------------------------------------------------------------- building blocks
PIX = [300, 21, 30000, 40, 12, 7]  # none of them a special constant
TAB = [(1, 2.5, "aa"), (-5, 0.25, "bb"), (70000, -1.0, "cc")]


def img_bytes(vals=PIX):
    return struct.pack(f">{len(vals)}H", *vals)


def img_block(name, *extra):
    return pds.block("OBJECT", name, ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER"), ("SAMPLE_BITS", 16), *extra)


def tab_bytes(rows=TAB):
    return b"".join(struct.pack(">if2s", a, b, c.encode()) for a, b, c in rows)


def tab_block(name):
    return pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3), ("COLUMNS", 3), ("ROW_BYTES", 10),
                     pds.block("OBJECT", "COLUMN", ("NAME", "A"), ("DATA_TYPE", "MSB_INTEGER"), ("START_BYTE", 1), ("BYTES", 4)),
                     pds.block("OBJECT", "COLUMN", ("NAME", "B"), ("DATA_TYPE", "IEEE_REAL"), ("START_BYTE", 5), ("BYTES", 4)),
                     pds.block("OBJECT", "COLUMN", ("NAME", "C"), ("DATA_TYPE", "CHARACTER"), ("START_BYTE", 9), ("BYTES", 2)))


TABF = Frame(A=[r[0] for r in TAB], B=[r[1] for r in TAB], C=[r[2] for r in TAB])
ASC = [("ab", 12), ("cd", -7), ("ef", 300)]


def asc_bytes():
    return b"".join(f"{a:<4},{b:>5}\r\n".encode() for a, b in ASC)


def asc_block(name):
    return pds.block("OBJECT", name, ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 3), ("COLUMNS", 2), ("ROW_BYTES", 12),
                     pds.block("OBJECT", "COLUMN", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("START_BYTE", 1), ("BYTES", 4)),
                     pds.block("OBJECT", "COLUMN", ("NAME", "N"), ("DATA_TYPE", "ASCII_INTEGER"), ("START_BYTE", 6), ("BYTES", 5)))


ASCF = Frame(W=[r[0] for r in ASC], N=[r[1] for r in ASC])
U2 = lambda vals=PIX, shape=(2, 3): Arr(shape, "u", 2, vals)


# ---------------------------------------------------------------- products
def detached(d, stem="DET", present=True, salt=0):
    """detached PDS3 label over several files, one of them absent"""
    pix = [(v + salt) % 65536 for v in PIX]
    pix2 = [v ^ 1 for v in pix]
    text = f"some words {salt}\r\nand more\r\n"
    n = stem
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 12), ("NOTE", f'"N{salt}"'),
          ("^IMAGE", f'("{n}1.IMG", 1)'), ("^SECOND_IMAGE", f'("{n}1.IMG", 13 <BYTES>)'), ("^TABLE", f'"{n}.DAT"'), ("^ASCII_TABLE", f'"{n}.TAB"'),
          ("^GONE_TABLE", f'"{n}GONE.TAB"'), ("^NOTES_TEXT", f'"{n}.TXT"'), ("^INSTRUMENT_DESC", f'"{n}.TXT"'),
          img_block("IMAGE", ("SCALING_FACTOR", 2), ("OFFSET", 1)), img_block("SECOND_IMAGE"), tab_block("TABLE"), asc_block("ASCII_TABLE"),
          pds.block("OBJECT", "GONE_TABLE", ("ROWS", 3), ("ROW_BYTES", 12), ("COLUMNS", 1))]
    files = {f"{n}1.IMG": img_bytes(pix) + img_bytes(pix2), f"{n}.DAT": tab_bytes(), f"{n}.TAB": asc_bytes(), f"{n}.TXT": text.encode()}
    path = pds.write_detached(d, stem, st, files)
    scaled = Arr((2, 3), "f", None, [v * 2 + 1 for v in pix])
    objs = {"LABEL": Text(f'NOTE = "N{salt}"', True), "IMAGE": U2(pix), "SECOND_IMAGE": U2(pix2), "TABLE": TABF, "ASCII_TABLE": ASCF,
            "GONE_TABLE": Block(ROWS=3, ROW_BYTES=12, COLUMNS=1), "NOTES_TEXT": Text(text), "INSTRUMENT_DESC": Text(text)}
    return Product(path, objs, missing={"GONE_TABLE"}, ignored=("INSTRUMENT_DESC",), scaled={"IMAGE": [v * 2 + 1 for v in pix], "SECOND_IMAGE": None},
                   files={f"{n}1.IMG": ["IMAGE", "SECOND_IMAGE"], f"{n}.DAT": ["TABLE"], f"{n}.TAB": ["ASCII_TABLE"], f"{n}.TXT": ["NOTES_TEXT", "INSTRUMENT_DESC"]}, meta={"NOTE": f"N{salt}", "RECORD_BYTES": 12})


def attached(d, stem="ATT", salt=0):
    """attached label, header, table and image in one file"""
    pix = [(v + salt) % 65536 for v in PIX]
    head = b"HEAD LINE ONE " + str(salt).encode() + b"\r\nHEAD TWO\r\n"
    rb = 64

    def stmts(n):
        return [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", rb), ("NOTE", f'"A{salt}"'), ("^IMAGE_HEADER", n + 1), ("^IMAGE", n + 2), ("^TABLE", f"{(n + 2) * rb + 1} <BYTES>"),
                pds.block("OBJECT", "IMAGE_HEADER", ("BYTES", len(head)), ("HEADER_TYPE", "X")), img_block("IMAGE"), tab_block("TABLE")]
    path, _ = pds.write_attached(d, f"{stem}.IMG", stmts, rb, head.ljust(rb) + img_bytes(pix).ljust(rb, b"\0") + tab_bytes())
    objs = {"LABEL": Text(f'NOTE = "A{salt}"', True), "IMAGE_HEADER": Text(head.decode()), "IMAGE": U2(pix), "TABLE": TABF}
    return Product(path, objs, scaled={"IMAGE": None}, files={f"{stem}.IMG": ["IMAGE_HEADER", "IMAGE", "TABLE"]}, meta={"NOTE": f"A{salt}", "RECORD_BYTES": rb})


def fits_bytes(salt=0):
    from astropy.io import fits
    prim = fits.PrimaryHDU(np.arange(6, dtype=">i2").reshape(2, 3) + salt)
    prim.header["KEYP"] = 10 + salt
    im = fits.ImageHDU(np.arange(4, dtype=">f4").reshape(2, 2) + salt, name="SCI")
    im.header["KEYI"] = "word"
    tab = fits.BinTableHDU.from_columns([fits.Column("A", "J", array=np.array([1, -2, 3])), fits.Column("B", "D", array=np.array([0.5, 1.5, 2.5]))], name="EVENTS")
    buf = io.BytesIO()
    fits.HDUList([prim, im, tab]).writeto(buf)
    return buf.getvalue()


def fits_primary(d, stem="FIT", salt=0):
    path = Path(d) / f"{stem}.fits"
    path.write_bytes(fits_bytes(salt))
    objs = {"PRIMARY": Arr((2, 3), "i", 2, [i + salt for i in range(6)]), "SCI": Arr((2, 2), "f", 4, [float(i + salt) for i in range(4)]), "EVENTS": Frame(A=[1, -2, 3], B=[0.5, 1.5, 2.5]),
            "PRIMARY_HEADER": Block(KEYP=10 + salt, NAXIS=2), "SCI_HEADER": Block(KEYI="word", NAXIS=2), "EVENTS_HEADER": Block(TTYPE1="A", NAXIS2=3)}
    return Product(path, objs, derived={"PRIMARY_HEADER": "PRIMARY", "SCI_HEADER": "SCI", "EVENTS_HEADER": "EVENTS"}, scaled={"PRIMARY": None, "SCI": None},
                   files={f"{stem}.fits": []}, meta={"KEYI": "word", "KEYP": 10 + salt})


def fits_labelled(d, stem="LFI", salt=0):
    """PDS3 label over a FITS file"""
    raw = fits_bytes(salt)
    from astropy.io import fits
    with fits.open(io.BytesIO(raw)) as h:
        locs = [x.fileinfo()["datLoc"] for x in h]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880), ("NOTE", f'"F{salt}"'), ("^IMAGE", f'("{stem}.FIT", {locs[0] // 2880 + 1})'),
          ("^SCI_IMAGE", f'("{stem}.FIT", {locs[1] + 1} <BYTES>)'), ("^EVENT_TABLE", f'("{stem}.FIT", {locs[2] // 2880 + 1})'),
          pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 16)),
          pds.block("OBJECT", "SCI_IMAGE", ("LINES", 2), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE", "IEEE_REAL"), ("SAMPLE_BITS", 32)),
          pds.block("OBJECT", "EVENT_TABLE", ("ROWS", 3), ("ROW_BYTES", 12), ("COLUMNS", 2))]
    path = pds.write_detached(d, stem, st, {f"{stem}.FIT": raw})
    objs = {"LABEL": Text(f'NOTE = "F{salt}"', True), "IMAGE": Arr((2, 3), "i", 2, [i + salt for i in range(6)]), "SCI_IMAGE": Arr((2, 2), "f", 4, [float(i + salt) for i in range(4)]),
            "EVENT_TABLE": Frame(A=[1, -2, 3], B=[0.5, 1.5, 2.5]), "IMAGE_HEADER": Block(KEYP=10 + salt), "SCI_IMAGE_HEADER": Block(KEYI="word"), "EVENT_TABLE_HEADER": Block(TTYPE1="A")}
    return Product(path, objs, derived={"IMAGE_HEADER": "IMAGE", "SCI_IMAGE_HEADER": "SCI_IMAGE", "EVENT_TABLE_HEADER": "EVENT_TABLE"}, scaled={"IMAGE": None, "SCI_IMAGE": None},
                   files={f"{stem}.FIT": ["IMAGE", "SCI_IMAGE", "EVENT_TABLE"]}, meta={"NOTE": f"F{salt}"})


def pds4(d, stem="P4", salt=0):
    a = [(v + salt) % 65536 for v in PIX]
    tab = b"".join(struct.pack(">if", x, y) for x, y, _ in TAB)
    head = b"header text %d\r\n" % salt
    areas = [(f"{stem}.dat", [pds4w.header(len(head), 0, name="Head"),
                              pds4w.array("Array_2D_Image", "UnsignedMSB2", [("Line", 2), ("Sample", 3)], len(head), lid="IMG", scale=2, shift=1),
                              pds4w.table("Binary", 3, [pds4w.bfield(1, "A", "SignedMSB4", 1, 4), pds4w.bfield(2, "B", "IEEE754MSBSingle", 5, 4)], 8, len(head) + 12, name="TAB")]),
             (f"{stem}.csv", [pds4w.table("Delimited", 3, [pds4w.bfield(1, "W", "ASCII_String", None, None, kind="Delimited"), pds4w.bfield(2, "N", "ASCII_Integer", None, None, kind="Delimited")], name="CSV T")])]
    path = pds4w.write(d, stem, areas, {f"{stem}.dat": head + img_bytes(a) + tab, f"{stem}.csv": b"".join(f"{w},{n}\r\n".encode() for w, n in ASC)}, lid=f"urn:nasa:pds:b:d:p{salt}")

    def label(got, what):
        require(type(got).__name__ == "Label", f"{what} is {got!r}")
    objs = {"Head": lambda got, what: require(got is not None and "header text" in (got.decode() if isinstance(got, bytes) else str(got)), f"{what} is {got!r}"),
            "IMG": U2(a), "TAB": Frame(A=[r[0] for r in TAB], B=[r[1] for r in TAB]), "CSV_T": Frame(W=[r[0] for r in ASC], N=[r[1] for r in ASC]), "label": label}
    return Product(path, objs, scaled={"IMG": [v * 2 + 1 for v in a]}, preloaded=("label",), files={f"{stem}.dat": ["Head", "IMG", "TAB"], f"{stem}.csv": ["CSV_T"]}, meta={"logical_identifier": f"urn:nasa:pds:b:d:p{salt}"})


def png(d, stem="PNG", salt=0):
    from PIL import Image
    v = [(i * 7 + salt) % 256 for i in range(6)]
    path = Path(d) / f"{stem}.png"
    Image.fromarray(np.array(v, "u1").reshape(2, 3)).save(path)
    return Product(path, {"IMAGE": Arr((2, 3), "u", 1, v)}, scaled={"IMAGE": None}, meta={"mode": "L"})


def gif(d, stem="GIF", salt=0):
    from PIL import Image
    path = Path(d) / f"{stem}.gif"
    frames, want = [], {}
    for i, color in enumerate([(255, 0, 0), (0, 255, 0), (0, 0, 255)]):
        color = tuple(c - salt if c else 0 for c in color)
        frames.append(Image.new("RGB", (3, 2), color))
        want[f"FRAME_{i}"] = Arr((3, 2, 3), "u", 1, sum(([c] * 6 for c in color), []))
    frames[0].save(path, save_all=True, append_images=frames[1:], duration=50, loop=0)
    return Product(path, want, scaled={k: None for k in want}, meta={"n_frames": 3})


ALL = dict(detached=detached, attached=attached, fits=fits_primary, labfits=fits_labelled, pds4=pds4, png=png, gif=gif)
