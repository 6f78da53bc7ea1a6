"""FITS writer that does not use astropy: every byte of the file is written here, so expected values do not depend on the library under pdr."""
from __future__ import annotations

import math
import struct

BLOCK = 2880


def fmt(v):
    """FITS value field"""
    if v is None:
        return ""
    if isinstance(v, bool):
        return f"{'T' if v else 'F':>20}"
    if isinstance(v, int):
        return f"{v:>20}"
    if isinstance(v, float):
        return f"{v!r:>20}".upper()
    return "'" + f"{str(v).replace(chr(39), chr(39) * 2):<8}" + "'"


def card(key, value=None, comment=None, raw=None):
    if raw is not None:
        return raw.ljust(80)[:80]
    if key in ("COMMENT", "HISTORY", ""):
        return f"{key:<8}{value}".ljust(80)
    s = f"{key:<8}= {fmt(value)}"
    if comment:
        s = f"{s:<30} / {comment}"
    assert len(s) <= 80, s
    return s.ljust(80)


class HDU:
    """kind: 'image', 'bintable', 'table' (ASCII). cards: [(key, value[, comment])] in header order, as stored (structural ones first)"""

    def __init__(self, kind, structural, data=b"", cards=(), name=None, fill=b"\0"):
        self.kind, self.structural, self.data, self.extra, self.name, self.fill = kind, list(structural), data, list(cards), name, fill

    def cards(self, primary):
        first = ("SIMPLE", True) if primary else ("XTENSION", {"image": "IMAGE", "bintable": "BINTABLE", "table": "TABLE"}[self.kind])
        return [first, *self.structural, *([("EXTNAME", self.name)] if self.name is not None else []), *self.extra]

    def header(self, primary):
        text = "".join(c if isinstance(c, str) else card(*c) for c in self.cards(primary)) + "END".ljust(80)
        return text.ljust(math.ceil(len(text) / BLOCK) * BLOCK).encode("ascii")

    def body(self):
        return self.data + self.fill * (-len(self.data) % BLOCK)

    def expected_header(self, primary):
        """[(key, value, comment)] in order, as pdr documents them (comments as separate keys)"""
        out = []
        for c in self.cards(primary):
            if isinstance(c, str):
                continue
            c = tuple(c) + (None,) * (3 - len(c))
            if c[0] == "":
                continue
            out.append((c[0], c[1].rstrip() if isinstance(c[1], str) else c[1]))
            if c[2]:
                out.append((c[0] + "_comment", c[2]))
        return out


CODE = {8: "B", 16: "h", 32: "i", 64: "q", -32: "f", -64: "d"}


def image(bitpix=16, shape=(2, 3), values=(), cards=(), name=None, ext=False):
    """shape: numpy order (slowest first); () means no data. ext: add PCOUNT/GCOUNT"""
    st = [("BITPIX", bitpix), ("NAXIS", len(shape))] + [(f"NAXIS{i + 1}", n) for i, n in enumerate(reversed(shape))]
    if ext:
        st += [("PCOUNT", 0), ("GCOUNT", 1)]
    return HDU("image", st, struct.pack(f">{len(values)}{CODE[bitpix]}", *values), cards, name)


WIDTH = dict(L=1, X=0, B=1, I=2, J=4, K=8, A=1, E=4, D=8, C=8, M=16)
PACK = dict(B="B", I="h", J="i", K="q", E="f", D="d")


def cell(code, repeat, v):
    if code == "A":
        return v.encode().ljust(repeat, b"\0")[:repeat] if isinstance(v, str) else v
    vs = v if isinstance(v, (list, tuple)) else [v]
    assert len(vs) == repeat
    if code == "L":
        return b"".join(b"T" if x else b"F" for x in vs)
    if code in "CM":
        return b"".join(struct.pack(">2" + ("f" if code == "C" else "d"), x.real, x.imag) for x in vs)
    return struct.pack(f">{repeat}{PACK[code]}", *vs)


def bintable(columns, nrows, name=None, cards=()):
    """columns: [dict(name, code, repeat=1, values=[per row], scal, zero, null, dim, unit)]"""
    rows = []
    for r in range(nrows):
        rows.append(b"".join(cell(c["code"], c.get("repeat", 1), c["values"][r]) for c in columns))
    width = sum(WIDTH[c["code"]] * c.get("repeat", 1) for c in columns)
    st = [("BITPIX", 8), ("NAXIS", 2), ("NAXIS1", width), ("NAXIS2", nrows), ("PCOUNT", 0), ("GCOUNT", 1), ("TFIELDS", len(columns))]
    for i, c in enumerate(columns, 1):
        if c.get("name") is not None:
            st.append((f"TTYPE{i}", c["name"]))
        rep = c.get("repeat", 1)
        st.append((f"TFORM{i}", (str(rep) if rep != 1 or c.get("explicit") else "") + c["code"]))
        for key, kw in (("scal", "TSCAL"), ("zero", "TZERO"), ("null", "TNULL"), ("dim", "TDIM"), ("unit", "TUNIT")):
            if c.get(key) is not None:
                st.append((f"{kw}{i}", c[key]))
    return HDU("bintable", st, b"".join(rows), cards, name)


def table(columns, nrows, name=None, cards=(), pad=1):
    """ASCII table. columns: [dict(name, form, values=[text per row], scal, zero, null)]; values are the field's text"""
    st, pos, layout = [], 1, []
    for i, c in enumerate(columns, 1):
        w = int(c["form"][1:].split(".")[0])
        layout.append((pos, w))
        st += [(f"TTYPE{i}", c["name"]), (f"TBCOL{i}", pos), (f"TFORM{i}", c["form"])]
        for key, kw in (("scal", "TSCAL"), ("zero", "TZERO"), ("null", "TNULL")):
            if c.get(key) is not None:
                st.append((f"{kw}{i}", c[key]))
        pos += w + pad
    width = pos - 1 - pad if columns else 0
    rows = []
    for r in range(nrows):
        line = [" "] * width
        for (p, w), c in zip(layout, columns):
            t = c["values"][r]
            t = t.ljust(w) if c["form"][0] == "A" else t.rjust(w)
            line[p - 1:p - 1 + w] = list(t)
        rows.append("".join(line).encode())
    head = [("BITPIX", 8), ("NAXIS", 2), ("NAXIS1", width), ("NAXIS2", nrows), ("PCOUNT", 0), ("GCOUNT", 1), ("TFIELDS", len(columns))]
    return HDU("table", head + st, b"".join(rows), cards, name, fill=b" ")


def build(hdus):
    """-> bytes, [(header offset, data offset, data length)]"""
    out, locs = b"", []
    for i, h in enumerate(hdus):
        hd = h.header(i == 0)
        locs.append((len(out), len(out) + len(hd), len(h.data)))
        out += hd + h.body()
    return out, locs


def varlen(name, code, values):
    """table of one variable-length column (P descriptor)"""
    heap, rows = b"", b""
    for v in values:
        rows += struct.pack(">ii", len(v), len(heap))
        heap += b"".join(cell(code, 1, x) for x in v)
    st = [("BITPIX", 8), ("NAXIS", 2), ("NAXIS1", 8), ("NAXIS2", len(values)), ("PCOUNT", len(heap)), ("GCOUNT", 1), ("TFIELDS", 1), ("TTYPE1", name), ("TFORM1", f"1P{code}({max(map(len, values), default=0)})")]
    return HDU("bintable", st, rows + heap)
