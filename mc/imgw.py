"""Writers of desktop image formats that don't use pillow: BMP, PNG, TIFF, GIF."""
from __future__ import annotations

import struct
import zlib


def _rows(px, w):
    return [px[i: i + w] for i in range(0, len(px), w)]


def _bits(vals, depth):
    """pack values of `depth` bits, padded to a byte"""
    acc = "".join(f"{v:0{depth}b}" for v in vals)
    acc += "0" * (-len(acc) % 8)
    return bytes(int(acc[i: i + 8], 2) for i in range(0, len(acc), 8))


# ------------------------------------------------------------------------- BMP
def bmp(w, h, px, kind="rgb", palette=None, top_down=False):
    """px: row-major list of (r, g, b) or palette indices"""
    rows = []
    for r in _rows(px, w):
        if kind == "rgb":
            b = b"".join(bytes((p[2], p[1], p[0])) for p in r)
        else:
            b = bytes(r)
        rows.append(b + b"\0" * (-len(b) % 4))
    body = b"".join(rows if top_down else rows[::-1])
    pal = b"" if kind == "rgb" else b"".join(bytes((p[2], p[1], p[0], 0)) for p in palette)
    off = 54 + len(pal)
    head = b"BM" + struct.pack("<IHHI", off + len(body), 0, 0, off)
    head += struct.pack("<IiiHHIIiiII", 40, w, -h if top_down else h, 1, 24 if kind == "rgb" else 8, 0, len(body), 2835, 2835, len(palette) if pal else 0, 0)
    return head + pal + body


# ------------------------------------------------------------------------- PNG
def _chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def png(w, h, px, color, depth=8, palette=None, filt=0, trns=None):
    """color: 0 gray, 2 rgb, 3 palette, 4 gray+alpha, 6 rgba; px: ints or tuples"""
    n = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    bpp = max(1, n * depth // 8)
    raw, prev = b"", None
    for r in _rows(px, w):
        flat = [v for p in r for v in (p if isinstance(p, (tuple, list)) else (p,))]
        line = _bits(flat, depth) if depth < 8 else b"".join(struct.pack(">H" if depth == 16 else "B", v) for v in flat)
        if filt == 1:  # Sub
            out = bytes((line[i] - (line[i - bpp] if i >= bpp else 0)) & 255 for i in range(len(line)))
        elif filt == 2:  # Up
            up = prev or bytes(len(line))
            out = bytes((a - b) & 255 for a, b in zip(line, up))
        else:
            out = line
        raw += bytes([filt]) + out
        prev = line
    b = b"\x89PNG\r\n\x1a\n" + _chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, color, 0, 0, 0))
    if palette:
        b += _chunk(b"PLTE", b"".join(bytes(p) for p in palette))
    if trns is not None:
        b += _chunk(b"tRNS", trns)
    return b + _chunk(b"IDAT", zlib.compress(raw)) + _chunk(b"IEND", b"")


# ------------------------------------------------------------------------ TIFF
def tiff(w, h, px, kind, order="<", palette=None, strips=1, compress=False, extra=(), pages=None):
    """kind: bit, u8, u16, i16, i32, f32, rgb, rgba, pal; extra: (tag, type, values)"""
    o = order
    fmt = {"u8": "B", "u16": "H", "i16": "h", "i32": "i", "f32": "f", "rgb": "B", "rgba": "B", "pal": "B"}
    n = {"rgb": 3, "rgba": 4}.get(kind, 1)
    bits = {"bit": 1, "u16": 16, "i16": 16, "i32": 32, "f32": 32}.get(kind, 8)

    def line(r):
        if kind == "bit":
            return _bits([int(bool(p)) for p in r], 1)
        flat = [v for p in r for v in (p if isinstance(p, (tuple, list)) else (p,))]
        return struct.pack(f"{o}{len(flat)}{fmt[kind]}", *flat)
    rows = [line(r) for r in _rows(px, w)]
    per = -(-h // strips)
    chunks = [b"".join(rows[i: i + per]) for i in range(0, h, per)]
    if compress:
        chunks = [zlib.compress(c) for c in chunks]
    data, offs, pos = b"", [], 8
    for c in chunks:
        offs.append(pos + len(data))
        data += c + b"\0" * (len(c) % 2)
    tags = [(256, 4, [w]), (257, 4, [h]), (258, 3, [bits] * n), (259, 3, [8 if compress else 1]), (262, 3, [{"rgb": 2, "rgba": 2, "pal": 3}.get(kind, 1)]),
            (273, 4, offs), (277, 3, [n]), (278, 4, [per]), (279, 4, [len(c) for c in chunks])]
    if kind == "rgba":
        tags.append((338, 3, [2]))
    if kind in ("i16", "i32"):
        tags.append((339, 3, [2]))
    if kind == "f32":
        tags.append((339, 3, [3]))
    if kind == "pal":
        tags.append((320, 3, [p[c] * 257 for c in range(3) for p in palette]))
    tags += list(extra)
    tags.sort()
    ifd, spill = struct.pack(o + "H", len(tags)), b""
    base = 8 + len(data) + 2 + 12 * len(tags) + 4
    for t, ty, vals in tags:
        if ty == 2:
            raw, cnt = vals, len(vals)
        else:
            f = {1: "B", 3: "H", 4: "I", 12: "d"}[ty]
            raw, cnt = struct.pack(f"{o}{len(vals)}{f}", *vals), len(vals)
        ifd += struct.pack(o + "HHI", t, ty, cnt)
        if len(raw) <= 4:
            ifd += raw + b"\0" * (4 - len(raw))
        else:
            ifd += struct.pack(o + "I", base + len(spill))
            spill += raw + b"\0" * (len(raw) % 2)
    ifd += struct.pack(o + "I", 0)
    return (b"II*\0" if o == "<" else b"MM\0*") + struct.pack(o + "I", 8 + len(data)) + data + ifd + spill


# ------------------------------------------------------------------------- GIF
def _lzw(vals, mincode):
    """uncompressed-style LZW: a clear code before every literal pair keeps the code size constant"""
    clear, end, size = 1 << mincode, (1 << mincode) + 1, mincode + 1
    codes = []
    for i, v in enumerate(vals):
        if i % max(1, (1 << mincode) - 2) == 0:
            codes.append(clear)
        codes.append(v)
    codes.append(end)
    acc = n = 0
    out = bytearray()
    for c in codes:
        acc |= c << n
        n += size
        while n >= 8:
            out.append(acc & 255)
            acc >>= 8
            n -= 8
    if n:
        out.append(acc & 255)
    b = bytes([mincode])
    for i in range(0, len(out), 255):
        blk = bytes(out[i: i + 255])
        b += bytes([len(blk)]) + blk
    return b + b"\0"


def gif(w, h, frames, palette):
    """frames: list of dict(px, [at, size, palette, disposal]); palette: 4 or 8 colors (global)"""
    bits = (len(palette) - 1).bit_length()
    b = b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80 | 0x70 | (bits - 1), 0, 0) + b"".join(bytes(p) for p in palette)
    if len(frames) > 1:
        b += b"!\xff\x0bNETSCAPE2.0\x03\x01\0\0\0"
    for f in frames:
        b += b"!\xf9\x04" + struct.pack("<BHB", f.get("disposal", 0) << 2, 10, 0) + b"\0"
        x, y = f.get("at", (0, 0))
        fw, fh = f.get("size", (w, h))
        pal = f.get("palette")
        b += b"," + struct.pack("<HHHHB", x, y, fw, fh, (0x80 | (bits - 1)) if pal else 0)
        if pal:
            b += b"".join(bytes(p) for p in pal)
        b += _lzw(f["px"], max(2, bits))
    return b + b";"
