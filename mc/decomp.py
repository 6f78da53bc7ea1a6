"""Independent encoders for the two bit-level image encodings pdr decodes
itself: MSSS camera .DAT files (MSL MAHLI/MARDI/Mastcam EDRs) and MGS MOC
standard data products (.IMQ).  The code tables are frozen in
data/decomp.json; every other rule is written from the format descriptions."""
from __future__ import annotations
import json
import struct
from pathlib import Path
import numpy as np

CODES = json.loads((Path(__file__).parent / "data" / "decomp.json").read_text())
MSL = CODES["msl"]
PRED = [{int(k): v for k, v in t.items()} for t in CODES["pred"]]
VLC = CODES["vlc"]
TRANS = CODES["trans"]


# ------------------------------------------------------------------ MSL .DAT
def msl_header(width, height, *, kind="raw", bits=8, thumbnail=False, cols=0, rows=0, jpeg_bands=3, words=None):
    w = [0] * 16
    w[0] = 0x08000000 if thumbnail else 0x00A0F0CA
    w[5] = ((cols // 8) & 0xFF) << 24 | ((rows // 8) & 0xFF) << 16 | ((width // 8) & 0xFF) << 8 | ((height // 8) & 0xFF)
    w[8] = {"raw": 0, "pred": 0x100, "jpeg": 0x5A | (0x100 if jpeg_bands == 3 else 0)}[kind]
    w[9] = 255 if bits == 16 else 0
    w[15] = 0x1010CC28
    for k, v in (words or {}).items():
        w[int(k)] = v
    return struct.pack(">16I", *w)


def msl_raw(image):
    return np.asarray(image).astype("<u2" if image.dtype.itemsize == 2 else "u1").astype(">u2" if image.dtype.itemsize == 2 else "u1").tobytes()


def _pack_msb(bits):
    bits += "0" * (-len(bits) % 8)
    return int(bits, 2).to_bytes(len(bits) // 8, "big") if bits else b""


def msl_pred(image):
    """-> (bytes, list of the end offset of each 8-row strip)"""
    out, ends = b"", []
    h, w = image.shape
    for y in range(0, h, 8):
        strip = image[y:y + 8].astype(int)
        for dy, dx in ((0, 0), (0, 1), (1, 0), (1, 1)):
            plane = strip[dy::2, dx::2].ravel()
            prev, bits = 0, []
            for v in plane:
                bits.append(MSL[(v - prev) % 256])
                prev = v
            body = _pack_msb("".join(bits))
            out += b"\xff\xff\x00\x00" + body + b"\0" * (-len(body) % 4)
        ends.append(len(out))
    return out, ends


def codeword_image(height, width, values=range(256)):
    """an image whose residuals along each row (from 0) step through values"""
    vals = list(values)
    out = np.zeros((height, width), np.uint8)
    k = 0
    for y in range(height):
        p = 0
        for x in range(width):
            p = (p + vals[k % len(vals)]) % 256
            out[y, x] = p
            k += 1
    return out


def msl_plane_image(height, width, values=range(256)):
    """an image whose residuals in every 2x2 phase plane step through values"""
    vals = list(values)
    out = np.zeros((height, width), np.uint8)
    k = 0
    for y in range(0, height, 8):
        for dy, dx in ((0, 0), (0, 1), (1, 0), (1, 1)):
            n, p = 4 * (width // 2), 0
            plane = []
            for _ in range(n):
                p = (p + vals[k % len(vals)]) % 256
                plane.append(p)
                k += 1
            out[y + dy:y + 8:2, dx::2] = np.array(plane, np.uint8).reshape(4, width // 2)
    return out


# ------------------------------------------------------------------ MGS MOC
NONE, XPRED, YPRED = 0, 1, 2


def _pack_lsb(bits):
    bits += "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8][::-1], 2) for i in range(0, len(bits), 8))


def moc_pred(image, comp, table):
    """-> (stream, last bit of each row as a bit position)"""
    code = PRED[table]
    out, bits, ends = b"", "", []
    prev = np.zeros(image.shape[1], int)
    for y, row in enumerate(image.astype(int)):
        if y % 128 == 0 and comp != NONE:
            out += _pack_lsb(bits)
            bits = ""
            if len(out) % 2:
                out += b"\0"
            out += b"\xca\xf0" + bytes(row.tolist())
        else:
            if comp == NONE:
                res = row
            elif comp == XPRED:
                res = np.diff(row, prepend=0) % 256
            else:
                res = (row - prev) % 256
            bits += "".join(code[int(r)] for r in res)
        prev = row
        ends.append(len(out) * 8 + len(bits))
    return out + _pack_lsb(bits), ends


def moc_fragment(data, *, number, down_length, down_total, width16, compression, last, trailer=b"\0", down_offset=0):
    h = struct.pack("<HHHH", 0x0700, number, down_offset, down_length) + b"\1\2\3\4\5"
    h += bytes([2 if last else 0]) + b"\0" * 17 + b"\0" * 5 + b"\x10\x05" + struct.pack("<HHBB", 0, down_total, 0, width16)
    h += bytes(compression) + struct.pack("<H", 0) + b"\0" * 4 + struct.pack("<I", len(data))
    assert len(h) == 62
    return h + data + trailer


def split(data, pieces):
    """pieces: list of cut positions, or a count"""
    cuts = pieces if isinstance(pieces, (list, tuple)) else [len(data) * k // pieces for k in range(1, pieces)]
    cuts = [0, *sorted(c for c in cuts if 0 < c < len(data)), len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]


def moc_pred_file(image, comp, table, pieces=1, eof=True, stream=None):
    h, w = image.shape
    data = moc_pred(image, comp, table)[0] if stream is None else stream
    parts = split(data, pieces)
    return b"".join(moc_fragment(p, number=i, down_length=h // 16, down_total=h // 16, width16=w // 16, compression=[comp, table, 0, 0, 0, 0, 0, 0], last=eof and i == len(parts) - 1) for i, p in enumerate(parts))


# MOC transform ---------------------------------------------------------------
def vlc(table, value):
    n = len(VLC[table])
    k = value + n // 2
    if 0 < k < n - 1:
        return VLC[table][k]
    # escapes: 15 low bits of the value follow
    return (VLC[table][0] if value < 0 else VLC[table][n - 1]) + _le(value & 0x7FFF, 15)


def _le(v, n):
    return "".join(str(v >> k & 1) for k in range(n))


def moc_dct_bits(width16, height16, groups, levels, blocks):
    """groups: level of each block (columns of blocks, top to bottom);
    levels: {level: (min_dc, max_dc, [table of coefficient 1..255])};
    blocks: [(dc, [coefficient 1..n])].  Coefficients in coding order."""
    bits = "".join(_le(g, 3) for g in groups)
    for lv in sorted(levels):
        mn, mx, tabs = levels[lv]
        bits += _le(mn, 16) + _le(mx, 16) + "".join(_le(t, 3) for t in tabs)
        for g, (dc, coefs) in zip(groups, blocks):
            if g == lv:
                bits += _le(dc, 8) + _le(255 - len(coefs), 8)
                bits += "".join(vlc(tabs[i], c) for i, c in enumerate(coefs))
    return bits


def moc_dct_image(width16, height16, groups, levels, blocks, spacing):
    """-> float64 levels before truncation, image sized"""
    out = np.zeros((height16 * 16, width16 * 16))
    n = np.arange(16)
    basis = np.array([np.full(16, np.sqrt(0.5))] + [np.cos((2 * n + 1) * k * np.pi / 32) for k in range(1, 16)])
    i = 0
    for x in range(width16):
        for y in range(height16):
            g = groups[i]
            mn, mx, tabs = levels[g]
            dc, coefs = blocks[i]
            v = np.zeros(256)
            v[0] = int(dc * (mx - mn) / 255 + mn)
            v[1:1 + len(coefs)] = np.array(coefs, float) * spacing
            f = v[TRANS].reshape(16, 16)
            out[y * 16:y * 16 + 16, x * 16:x * 16 + 16] = (basis.T @ f @ basis) / 127 + 0.5
            i += 1
    return out
