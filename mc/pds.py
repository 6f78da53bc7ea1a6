"""PDS3 product writer and independent value encoders used by the reference models."""
from __future__ import annotations

import bz2
import gzip
import io
import math
import struct
import warnings
import zipfile
from fractions import Fraction
from pathlib import Path

import numpy as np

from mc.core import Fail, require, short


# ------------------------------------------------------------------ labels
def block(kind, name, *stmts):
    return (kind, name, list(stmts))


def render(stmts, indent=0):
    """stmts: list of (key, value-text) or (OBJECT|GROUP, name, [stmts])"""
    out = []
    pad = "  " * indent
    for s in stmts:
        if len(s) == 3:
            kind, name, body = s
            out.append(f"{pad}{kind} = {name}")
            out += render(body, indent + 1)
            out.append(f"{pad}END_{kind} = {name}")
        else:
            out.append(f"{pad}{s[0]} = {s[1]}")
    return out


def label_text(stmts, eol="\r\n"):
    return eol.join(["PDS_VERSION_ID = PDS3"] + render(stmts) + ["END"]) + eol


def write_detached(d, stem, stmts, files, eol="\r\n", suffix=".LBL"):
    """write label + data files; returns label path"""
    for name, content in files.items():
        (Path(d) / name).write_bytes(content)
    p = Path(d) / f"{stem}{suffix}"
    p.write_bytes(label_text(stmts, eol).encode())
    return p


def write_attached(d, name, make_stmts, record_bytes, payload, eol="\r\n"):
    """
    make_stmts(label_records) -> statements; the label is padded with blanks to a whole number of
    records and followed by the payload
    """
    n = 1
    while True:
        text = label_text(make_stmts(n), eol).encode()
        need = -(-len(text) // record_bytes)
        if need <= n:
            break
        n = need
    p = Path(d) / name
    p.write_bytes(text.ljust(n * record_bytes, b" ") + payload)
    return p, n


def compress_file(path, kind):
    """replace path by path.gz / path.bz2 / path.zip; returns new path"""
    path = Path(path)
    raw = path.read_bytes()
    new = path.with_name(path.name + {"gz": ".gz", "bz2": ".bz2", "zip": ".zip"}[kind])
    if kind == "gz":
        new.write_bytes(gzip.compress(raw, 6, mtime=0))
    elif kind == "bz2":
        new.write_bytes(bz2.compress(raw))
    else:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(path.name, raw)
        new.write_bytes(buf.getvalue())
    path.unlink()
    return new


# ------------------------------------------------------------------ VAX / IBM
def vax32_bytes(value):
    """VAX F_floating encoding, from its definition"""
    if value == 0:
        return b"\0\0\0\0"
    s = 1 if value < 0 else 0
    m, e = math.frexp(abs(value))  # 0.5 <= m < 1
    frac = int(m * 2**24) - 2**23
    assert (frac + 2**23) / 2**24 == m
    hi = (s << 15) | ((e + 128) << 7) | (frac >> 16)
    return struct.pack("<HH", hi, frac & 0xFFFF)


def vax32_value(raw):
    hi, lo = struct.unpack("<HH", raw)
    s, e, frac = hi >> 15, (hi >> 7) & 0xFF, ((hi & 0x7F) << 16) | lo
    if e == 0:
        return Fraction(0)
    return (-1) ** s * Fraction(2**23 + frac, 2**24) * Fraction(2) ** (e - 128)


def ibm_value(raw):
    """IBM S/360 hexadecimal float (4 or 8 bytes, big endian) as an exact fraction"""
    n = int.from_bytes(raw, "big")
    bits = len(raw) * 8
    s, e = n >> (bits - 1), (n >> (bits - 8)) & 0x7F
    frac = n & ((1 << (bits - 8)) - 1)
    return (-1) ** s * Fraction(frac, 1 << (bits - 8)) * Fraction(16) ** (e - 64)


def ibm_bytes(value, nb):
    """IBM S/360 encoding of an exactly representable value, from its definition"""
    x, e, bits = abs(Fraction(value)), 64, nb * 8 - 8
    while x >= 1:
        x, e = x / 16, e + 1
    while 0 < x < Fraction(1, 16):
        x, e = x * 16, e - 1
    frac = x * (1 << bits)
    assert frac.denominator == 1
    return (((value < 0) << (nb * 8 - 1)) | ((e if x else 0) << bits) | int(frac)).to_bytes(nb, "big")


# ------------------------------------------------------------------ sample types
_INT = {"u": ("BHIQ", False), "i": ("bhiq", True)}


def _int_code(order, kind, nbytes):
    return order + dict(zip((1, 2, 4, 8), _INT[kind][0]))[nbytes]


# name -> (kind, order); kind: u, i, f, vax
IMAGE_TYPES = {
    "UNSIGNED_INTEGER": ("u", ">"), "MSB_UNSIGNED_INTEGER": ("u", ">"), "SUN_UNSIGNED_INTEGER": ("u", ">"),
    "MAC_UNSIGNED_INTEGER": ("u", ">"), "LSB_UNSIGNED_INTEGER": ("u", "<"), "PC_UNSIGNED_INTEGER": ("u", "<"),
    "VAX_UNSIGNED_INTEGER": ("u", "<"),
    "INTEGER": ("i", ">"), "MSB_INTEGER": ("i", ">"), "SUN_INTEGER": ("i", ">"), "MAC_INTEGER": ("i", ">"),
    "LSB_INTEGER": ("i", "<"), "PC_INTEGER": ("i", "<"), "VAX_INTEGER": ("i", "<"),
    "MSB_SIGNED_INTEGER": ("i", ">"), "LSB_SIGNED_INTEGER": ("i", "<"),
    "IEEE_REAL": ("f", ">"), "REAL": ("f", ">"), "FLOAT": ("f", ">"), "SUN_REAL": ("f", ">"), "MAC_REAL": ("f", ">"),
    "PC_REAL": ("f", "<"), "VAX_REAL": ("vax", "<"),
}
WIDTHS = {"u": (1, 2, 4, 8), "i": (1, 2, 4, 8), "f": (4, 8), "vax": (4,), "ibm": (4, 8)}
ALL_IMAGE_TYPES = {**IMAGE_TYPES, "IBM_REAL": ("ibm", ">")}


def encode_value(kind, order, nbytes, v):
    if kind in "ui":
        return struct.pack(_int_code(order, kind, nbytes), v)
    if kind == "f":
        return struct.pack(order + {4: "f", 8: "d"}[nbytes], v)
    if kind == "ibm":
        return ibm_bytes(v, nbytes)
    return vax32_bytes(v)


def value_menu(kind, nbytes):
    """values that differ in every byte, cover extremes and sign"""
    bits = 8 * nbytes
    if kind == "u":
        top = (1 << bits) - 1
        pat = int.from_bytes(bytes(range(1, nbytes + 1)), "big")
        return [pat, top, 0, 1, top - 1, 1 << (bits - 1), pat ^ top]
    if kind == "i":
        hi = (1 << (bits - 1)) - 1
        pat = int.from_bytes(bytes(range(1, nbytes + 1)), "big")
        return [pat, -hi - 1, hi, -1, 0, 1, -pat]
    if kind == "f":
        base = [1.5, -2.25, 0.0, 3.0517578125e-05, -65504.0, 1e10 if nbytes == 8 else 9999998976.0, 1.0]
        return base
    return [1.5, -2.25, 0.0, 3.0517578125e-05, -65504.0, 9999998976.0, 1.0]


def pixel_value(kind, nbytes, i):
    """value of the i-th stored item: distinct for neighbouring i"""
    menu = value_menu(kind, nbytes)
    v, turn = menu[i % 7], i // 7
    if kind == "ibm":  # exact in 20 bits
        return [1.5, -2.25, 0.0, 3.0517578125e-05, -65504.0, 9999220736.0, 1.0][i % 7] * (1 + turn % 8)
    if turn == 0:
        return v
    if kind == "u":
        return (v + 13 * turn) % (1 << (8 * nbytes))
    if kind == "i":
        m = 1 << (8 * nbytes)
        w = (v + 13 * turn) % m
        return w - m if w >= m // 2 else w
    return v + turn * 0.5 if abs(v) < 1e5 else float(np.float32(v + turn * 1024.0))


def filler(n, start=0):
    """bytes that are not pixels: a recognisable pattern"""
    return bytes((0xA1 + 7 * (start + i)) % 256 for i in range(n))


# ------------------------------------------------------------------ reading
EXTRA = None  # function of the path giving keyword arguments every quiet_read adds (C23)
OPENED = None  # list collecting every Data opened with quiet_read


def quiet_read(path, **kw):
    """pdr.read with warnings captured; returns (data, [warning messages])"""
    import pdr

    if EXTRA is not None:
        kw = {**EXTRA(path), **kw}
    with warnings.catch_warnings(record=True) as w:
        always()
        data = pdr.read(str(path), **kw)
    if OPENED is not None:
        OPENED.append(data)
    return data, [f"{x.category.__name__}: {x.message}" for x in w]


def always():
    """record every warning but ResourceWarnings, which come when the garbage collector runs, whatever case is running then"""
    warnings.simplefilter("always")
    warnings.simplefilter("ignore", ResourceWarning)


def silent():
    """context manager recording warnings instead of printing them"""
    class Silent:
        def __enter__(self):
            self.cm = warnings.catch_warnings(record=True)
            w = self.cm.__enter__()
            always()
            return w

        def __exit__(self, *a):
            return self.cm.__exit__(*a)
    return Silent()


def load(data, name, **kw):
    with warnings.catch_warnings(record=True) as w:
        always()
        data.load(name, **kw)
    return getattr(data, name), [f"{x.category.__name__}: {x.message}" for x in w]


def same_scalar(a, b):
    try:
        if a == b:
            return True
        return a != a and b != b
    except Exception:
        return False


def check_array(got, shape, values, kind=None, itemsize=None, what="array"):
    """values: flat list in C order"""
    require(isinstance(got, np.ndarray), f"{what} is not an array", type(got), got)
    require(got.shape == tuple(shape), f"{what} has shape {got.shape}, label says {tuple(shape)}")
    if kind is not None:
        require(got.dtype.kind == kind and got.dtype.itemsize == itemsize,
                f"{what} has dtype {got.dtype}, label says {kind}{itemsize}")
    flat = got.reshape(-1).tolist()
    if flat != list(values):
        for i, (a, b) in enumerate(zip(flat, values)):
            if not same_scalar(a, b):
                raise Fail(f"{what}[{np.unravel_index(i, shape)}] is {a!r}, stored value is {b!r}; "
                           f"got {short(flat, 120)} expected {short(list(values), 120)}")
