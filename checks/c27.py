"""C27: in-tree decompression (MSSS camera .DAT, MGS MOC .IMQ)."""
import io
import itertools
import warnings
import numpy as np
from mc import decomp as D
from mc import pds
from mc.core import Fail, Space, product, require, short

TECHNIQUE = "bounded exhaustive enumeration of code streams, fragmentations, truncation points and damage positions, each decoded by the real pdr.read and compared with the image the independent encoder started from"
ASSUMPTIONS = [
    "code tables frozen in mc/data/decomp.json (each checked to be a complete prefix code) are the format's tables",
    "pillow decodes complete JPEG streams correctly",
]
EXPLANATION = "Every enumerated stream is written as a labelled product, opened with pdr.read and decoded by the real code; the result must be the image that was encoded (or, where data is missing, an explicit failure or rows exact up to the damage and zero or absent after it, with a warning)."


# ------------------------------------------------------------------ products
def moc_product(d, body, quality="OK", name="M.IMQ", instrument="MOC-NA", lines=16, samples=16):
    st = [
        ("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2048), ("LABEL_RECORDS", 1), ("^IMAGE", 2),
        ("SPACECRAFT_NAME", "MARS_GLOBAL_SURVEYOR"), ("INSTRUMENT_ID", f'"{instrument}"'), ("FILE_NAME", f'"{name}"'),
        ("DATA_QUALITY_DESC", f'"{quality}"'),
        pds.block("OBJECT", "IMAGE", ("LINES", lines), ("LINE_SAMPLES", samples), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8)),
    ]
    path, n = pds.write_attached(d, name, lambda n: st, 2048, body)
    require(n == 1, "harness: label longer than a record")
    return path


def msl_product(d, content, instrument="MAST_LEFT", stem="X1", height=8, width=8, bands=1, ext=("LBL", "DAT")):
    st = [
        ("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 64), ("FILE_RECORDS", 1), ("^IMAGE", f'"{stem}.IMG"'), ("^MODEL_DESC", '"MODEL.TXT"'),
        ("INSTRUMENT_HOST_NAME", '"MARS SCIENCE LABORATORY"'), ("INSTRUMENT_ID", f'"{instrument}"'), ("DATA_SET_ID", '"MSL-M-MASTCAM-2-EDR-IMG-V1.0"'),
        pds.block("OBJECT", "IMAGE", ("LINES", height), ("LINE_SAMPLES", width), ("BANDS", bands), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8)),
    ]
    pds.write_detached(d, stem, st, {f"{stem}.{ext[1]}": content}, suffix="." + ext[0])
    return d / f"{stem}.{ext[0]}"


def read(path, debug=False):
    """-> (array | None, [warnings], error)"""
    import pdr

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        data = pdr.read(path)
        require("IMAGE" in data.keys(), "IMAGE missing from the index", list(data.keys()))
        got = data["IMAGE"]
    msgs = [str(x.message) for x in w if not issubclass(x.category, (DeprecationWarning, ResourceWarning))]
    if isinstance(got, np.ndarray):
        require(got.dtype.isnative or got.dtype.itemsize == 1, "byte order", got.dtype)
        return got, msgs, None
    return None, msgs, short(got)


def exact(got, want, msgs, error, quiet=True):
    require(got is not None, "not decoded", error, msgs)
    require(got.shape == want.shape, "shape", got.shape, want.shape)
    require(got.dtype.itemsize == want.dtype.itemsize and got.dtype.kind == "u", "dtype", got.dtype)
    bad = np.argwhere(np.asarray(got) != want)
    require(not len(bad), "pixels differ", len(bad), bad[0].tolist() if len(bad) else "", got[tuple(bad[0])] if len(bad) else "", want[tuple(bad[0])] if len(bad) else "")
    if quiet:
        require(not msgs, "warned about an intact product", msgs)


def prefix_ok(got, want, done, what):
    """rows [0, done) exact; every later row absent, or zero (the row in which
    the data ends may be exact up to some pixel)"""
    require(got.ndim == 2 and got.shape[1] == want.shape[1], what + ": width", got.shape)
    require(got.shape[0] >= done, what + ": complete rows dropped", got.shape, done)
    require(got.shape[0] <= want.shape[0], what + ": extra rows", got.shape, want.shape)
    require(np.array_equal(got[:done], want[:done]), what + ": complete rows differ")
    rest = got[done:]
    if len(rest):
        row = rest[0]
        k = 0
        while k < len(row) and row[k] == want[done][k]:
            k += 1
        require(not row[k:].any(), what + ": invented pixels", done, k, row[k:k + 8].tolist())
        require(not rest[1:].any(), what + ": invented rows", done + 1)


# ------------------------------------------------------------------ contents
def content(kind, h, w, allowed=range(256), comp=None):
    if kind == "zeros":
        out = np.zeros((h, w), np.uint8)
    elif kind == "full":
        out = np.full((h, w), 255, np.uint8)
    elif kind == "ramp":
        out = (np.arange(h)[:, None] * 3 + np.arange(w)[None] * 2).astype(np.uint8)
    elif kind == "codes":
        out = D.codeword_image(h, w)
    elif kind == "codesback":
        out = D.codeword_image(h, w, range(255, -1, -1))
    elif kind == "hash":
        i = np.arange(h * w, dtype=np.uint64)
        out = ((i * 2654435761 >> 7) ^ (i * 40503 >> 3)).astype(np.uint8).reshape(h, w)
    elif kind == "checker":
        out = (np.indices((h, w)).sum(0) % 2 * 255).astype(np.uint8)
    else:
        raise KeyError(kind)
    return out


def moc_content(kind, h, w, comp, table):
    """an image every row of which the table can code"""
    allowed = sorted(D.PRED[table])
    img = content(kind, h, w)
    if len(allowed) == 256:
        return img
    # quantise the residuals onto the allowed set
    near = np.array([min(allowed, key=lambda a: (abs(a - v), a)) for v in range(256)])
    out = img.astype(int)
    for y in range(h):
        if comp != D.NONE and y % 128 == 0:
            continue
        if comp == D.NONE:
            out[y] = near[out[y]]
        elif comp == D.XPRED:
            out[y] = np.cumsum(near[np.diff(out[y], prepend=0) % 256]) % 256
        else:
            out[y] = (out[y - 1] + near[(out[y] - out[y - 1]) % 256]) % 256
    return out.astype(np.uint8)


def columns_codes(h, w):
    """vertical residuals step through all values"""
    return D.codeword_image(w, h).T.copy()


# ------------------------------------------------------------------ MOC predictive
COMPS = {"none": D.NONE, "x": D.XPRED, "y": D.YPRED}


def pieces_of(p, n):
    return {"1": 1, "2": 2, "3": 3, "first byte": [1], "last byte": [n - 1], "odd": list(range(7, n, 61)), "bytes": list(range(1, min(n, 24)))}[p]


def run_moc(c, ctx):
    comp = COMPS[c["comp"]]
    h, w = c["size"][0] * 16, c["size"][1] * 16
    img = moc_content(c["content"], h, w, comp, c["table"]) if c["content"] != "columns" else moc_content("hash", h, w, comp, c["table"]) if len(D.PRED[c["table"]]) < 256 else columns_codes(h, w)
    stream, _ = D.moc_pred(img, comp, c["table"])
    body = D.moc_pred_file(img, comp, c["table"], pieces_of(c["pieces"], len(stream)), c["eof"])
    if c["after"]:
        body += c["after"]
    path = moc_product(ctx.dir, body, c["quality"], c["name"], c["instrument"], h, w)
    got, msgs, err = read(path)
    quiet = c["eof"] and c["quality"] == "OK"
    exact(got, img, msgs, err, quiet)
    if not quiet:
        require(msgs, "no warning about a marked or unterminated image")
        if c["quality"] != "OK":
            require(any(c["quality"] in m for m in msgs), "quality not mentioned", msgs)
    ctx.step(h * w)
    return f"{c['comp']} {c['table']}"


MOC0 = dict(comp="x", table=5, size=(1, 1), content="codes", pieces="1", eof=True, quality="OK", name="M.IMQ", instrument="MOC-NA", after=b"")


def moc_cases(deep):
    sizes = [(1, 1), (1, 2), (2, 1), (8, 1), (9, 1), (3, 5)] + ([(1, 16), (16, 1), (17, 1), (25, 1), (9, 3), (5, 9), (1, 127), (1, 255), (64, 1)] if deep else [])
    kinds = ["codes", "codesback", "columns", "zeros", "full", "hash"] + (["ramp", "checker"] if deep else [])
    seen = set()

    def out(**kw):
        c = dict(MOC0, **kw)
        k = repr(c)
        if k not in seen:
            seen.add(k)
            return [c]
        return []

    for comp, t, s, k in itertools.product(COMPS, range(8), sizes, kinds):
        yield from out(comp=comp, table=t, size=s, content=k)
    for comp, t, p, e, s in itertools.product(COMPS, (0, 5) if not deep else range(8), ["1", "2", "3", "first byte", "last byte", "odd", "bytes"], [True, False], [(1, 1), (9, 1)]):
        yield from out(comp=comp, table=t, pieces=p, eof=e, size=s)
    for comp, q, e, n, i in itertools.product(COMPS, ["OK", "ERRORS", "N/A"], [True, False], ["M.IMQ", "AB1_02345.IMQ"], ["MOC-NA", "MOC-WA"]):
        yield from out(comp=comp, quality=q, eof=e, name=n, instrument=i, content="hash")
    # fragment lengths and line counts over 16 bits' and 8 bits' ends
    for comp, t, (sz, k), p in itertools.product(COMPS, (0, 5) if not deep else range(8), (((257, 1), "codes"), ((40, 16), "hash")) if not deep else (((257, 1), "codes"), ((257, 2), "hash"), ((40, 16), "hash"), ((600, 1), "codes")), ("1", "2")):
        yield from out(comp=comp, table=t, size=sz, content=k, pieces=p)
    for comp, a, e in itertools.product(COMPS, [b"\0" * 10, b"\0" * 100, b"\0" * 2048, b"\xff" * 3], [True, False]):
        yield from out(comp=comp, after=a, eof=e)


# -------------------------------------------------- truncated predictive streams
def run_moc_trunc(c, ctx):
    comp = COMPS[c["comp"]]
    h, w = c["size"][0] * 16, c["size"][1] * 16
    img = moc_content(c["content"], h, w, comp, c["table"])
    img[img == 0] = 1 if len(D.PRED[c["table"]]) == 256 else 0
    stream, ends = D.moc_pred(img, comp, c["table"])
    n = 0
    for cut in range(c["lo"], min(c["hi"], len(stream))):
        if cut == 0 and c["where"] == "stream":
            continue
        if c["where"] == "stream":
            body = D.moc_pred_file(img, comp, c["table"], 1, True, stream[:cut])
        else:
            body = D.moc_pred_file(img, comp, c["table"], 1, True)[:62 + cut]
        path = moc_product(ctx.dir, body, lines=h, samples=w)
        got, msgs, err = read(path)
        done = sum(e <= cut * 8 for e in ends)
        n += 1
        ctx.step()
        if got is None:
            require(msgs, "failed without a warning", cut)
            continue
        try:
            prefix_ok(got, img, done, "truncated")
        except Fail as e:
            raise Fail(f"{e} (cut after {cut} of {len(stream)} bytes, {done} complete rows)")
        require(msgs, "truncated image returned without a warning", cut, len(stream))
    return f"{c['comp']} {c['where']}" if n else "trivial: past the end"


def moc_trunc_cases(deep):
    for comp, t, s, k, wh in itertools.product(COMPS, (0, 2, 5, 7) if not deep else range(8), [(1, 1)] if not deep else [(1, 1), (1, 2), (2, 1)], ["codes", "ramp"] + (["hash"] if deep else []), ["stream", "file"]):
        for lo in range(0, 900 if not deep else 1300, 50):
            yield dict(comp=comp, table=t, size=s, content=k, where=wh, lo=lo, hi=lo + 50)
    for comp in COMPS:
        # around the second 128-line block
        for lo in range(1900, 2500, 50):
            yield dict(comp=comp, table=5, size=(9, 1), content="ramp" if comp != "none" else "codes", where="stream", lo=lo, hi=lo + 50)


# ------------------------------------------------- damage confined to its block
def run_moc_damage(c, ctx):
    """any change inside a 128-line block leaves the other blocks exact"""
    comp, h, w = COMPS[c["comp"]], c["blocks"] * 128, 48
    base = (np.arange(h)[:, None] // 16 * 5 + np.arange(w)[None]).astype(np.uint8)
    img = base ^ ((np.arange(h)[:, None] % 128 != 0) * (content("hash", h, w) % c.get("noise", 4))).astype(np.uint8)
    stream, _ = D.moc_pred(img, comp, c["table"])
    starts = [i for i in range(0, len(stream) - 1, 2) if stream[i:i + 2] == b"\xca\xf0"]
    require(len(starts) == c["blocks"], "harness: accidental sync marker", starts)
    starts.append(len(stream))
    data = bytearray(stream)
    hit = set()
    for b, at, kind in c["damage"]:
        lo, hi = starts[b] + 2 + w, starts[b + 1]
        p = lo + int((hi - lo - 1) * at)
        hit.add(b)
        if kind == "bit":
            data[p] ^= 0x10
        elif kind == "zero":
            data[p:min(p + 40, hi - 1)] = bytes(min(p + 40, hi - 1) - p)
        elif kind == "ones":
            data[p:min(p + 40, hi - 1)] = b"\xff" * (min(p + 40, hi - 1) - p)
    if kind == "lost":
        # the tail of block b is missing (an even number of bytes)
        cut = (hi - p) // 2 * 2
        del data[hi - cut:hi]
    if sum(data[i:i + 2] == b"\xca\xf0" for i in range(len(data) - 1)) != c["blocks"]:
        return "trivial: damage made a sync marker"
    path = moc_product(ctx.dir, D.moc_pred_file(img, comp, c["table"], 1, True, bytes(data)), lines=h, samples=w)
    got, msgs, err = read(path)
    if got is None:
        require(msgs, "failed without a warning")
        # only the loss of the last block can keep the image from being built
        raise Fail(f"damage in block {sorted(hit)} made the whole image unreadable: {msgs} {err}")
    require(got.shape == img.shape or (max(hit) == c["blocks"] - 1 and got.shape[0] >= 128 * max(hit)), "shape", got.shape)
    for b in range(c["blocks"]):
        if b not in hit:
            require(np.array_equal(got[b * 128:b * 128 + 128], img[b * 128:b * 128 + 128]), f"block {b} changed by damage in {sorted(hit)}")
        else:
            require(np.array_equal(got[b * 128], img[b * 128]), f"intact first row of block {b} changed")
    ctx.step(h * w)
    return f"{c['comp']} {len(hit)} of {c['blocks']} {kind}"


def moc_damage_cases(deep):
    ats = [0, 0.1, 0.5, 0.9, 1] if not deep else [k / 20 for k in range(21)]
    for comp, t in itertools.product(("x", "y"), (5,) if not deep else (2, 5, 6)):
        for kind in ("bit", "zero", "ones", "lost"):
            for blocks in (2, 3):
                for b in range(blocks):
                    for at in ats:
                        yield dict(comp=comp, table=t, blocks=blocks, damage=[[b, at, kind]])
                        yield dict(comp=comp, table=t, blocks=blocks, damage=[[b, at, kind]], noise=255)
            for b1, b2 in ((0, 1), (1, 2), (0, 2)):
                for at1, at2 in itertools.product(ats[:3] if not deep else ats[::5], repeat=2):
                    if kind != "lost":
                        yield dict(comp=comp, table=t, blocks=3 if not deep or b2 == 2 else 4, damage=[[b1, at1, kind], [b2, at2, kind]])


# ------------------------------------------------------------------ MOC transform
def run_dct(c, ctx):
    rng = np.arange(1, 256)
    w16, h16 = c["size"]
    nb = w16 * h16
    parts, wants = [], []
    for f in range(c["frags"]):
        groups = [(c["groups"] * (i + f)) % c["levels"] for i in range(nb)] if c["groups"] else [c["only"] % c["levels"]] * nb
        levels = {}
        for lv in sorted(set(groups)):
            tabs = [(c["table"] + (i * c["mix"])) % 8 for i in range(255)]
            levels[lv] = (c["dc"][0] + 100 * lv, c["dc"][1] + 200 * lv, tabs)
        blocks = []
        for i in range(nb):
            g = groups[i]
            tabs = levels[g][2]
            coefs = []
            for k in range(c["ncoef"]):
                n = len(D.VLC[tabs[k]])
                m = {"zero": 0, "one": (1, -1, 0)[(k + i) % 3], "codes": (k * 7 + i * 31 + c["shift"]) % (n - 2) - (n - 2) // 2 - (n % 2 == 0),
                     "escape": (n // 2 + k, -(n // 2) - k, 0, 0)[k % 4], "extreme": (32767, -32768, -1)[k % 3]}[c["coef"]]
                coefs.append(m)
            blocks.append(((c["dcs"] * (i + 1) + 40 * f) % 256, coefs))
        bits = D.moc_dct_bits(w16, h16, groups, levels, blocks)
        data = D._pack_lsb(bits)
        parts.append((data, levels))
        wants.append(D.moc_dct_image(w16, h16, groups, levels, blocks, c["spacing"]))
    last = len(parts) - 1
    body = b"".join(D.moc_fragment(p, number=i, down_offset=i * h16, down_length=h16, down_total=h16 * c["frags"], width16=w16,
                                   compression=[2 << 2, (c["levels"] - 1) << 5, 0, 0, c["spacing"] & 255, c["spacing"] >> 8, 0, 0], last=i == last) for i, (p, _) in enumerate(parts))
    path = moc_product(ctx.dir, body, lines=h16 * 16 * c["frags"], samples=w16 * 16)
    got, msgs, err = read(path)
    want = np.vstack(wants)
    require(got is not None, "not decoded", err, msgs)
    require(got.shape == want.shape and got.dtype == np.uint8, "shape", got.shape, got.dtype, want.shape)
    lo = np.clip(np.trunc(want - 1e-6 * (1 + abs(want))), 0, 255)
    hi = np.clip(np.trunc(want + 1e-6 * (1 + abs(want))), 0, 255)
    bad = np.argwhere((got < lo) | (got > hi))
    require(not len(bad), "pixels differ", len(bad), bad[:1].tolist(), got[tuple(bad[0])] if len(bad) else "", want[tuple(bad[0])] if len(bad) else "")
    require(not msgs, "warned", msgs)
    ctx.step(nb * c["frags"])
    return f"{c['coef']} {c['levels']} levels"


DCT0 = dict(size=(1, 1), frags=1, groups=0, only=0, levels=1, table=0, mix=0, dc=(5000, 60000), dcs=100, ncoef=255, coef="codes", shift=0, spacing=4)


def dct_cases(deep):
    seen = set()

    def out(**kw):
        c = dict(DCT0, **kw)
        if repr(c) not in seen:
            seen.add(repr(c))
            return [c]
        return []

    for t, co, sp in itertools.product(range(8), ["zero", "one", "codes", "escape", "extreme"], [0, 1, 4, 255, 300] if deep else [1, 300]):
        yield from out(table=t, coef=co, spacing=sp)
    for t in range(8):
        # every codeword of every table is reached by some shift
        for sh in range(0, len(D.VLC[t]), 1 if deep else max(1, len(D.VLC[t]) // 8)):
            yield from out(table=t, shift=sh, spacing=2)
    for n in list(range(0, 256, 1 if deep else 15)) + [1, 2, 254, 255]:
        yield from out(ncoef=n, coef="one", mix=3, table=1)
    for lv, g, o, s in itertools.product(range(1, 9), [0, 1, 3], [0, 3, 7], [(1, 1), (2, 3), (3, 2)]):
        if g and o:
            continue
        yield from out(levels=lv, groups=g, only=o, size=s, coef="one", mix=1, ncoef=9)
    for dc, d in itertools.product([(0, 0), (0, 65535), (65535, 0), (5000, 60000), (65000, 65535)], range(0, 256, 1 if deep else 17)):
        yield from out(dc=dc, dcs=d, ncoef=0)
    for fr, s in itertools.product([1, 2, 3], [(1, 1), (2, 1), (1, 2), (4, 1)]):
        yield from out(frags=fr, size=s, coef="one", ncoef=30, mix=1)


def run_dct_trunc(c, ctx):
    """a fragment cut short: never a silently different picture"""
    w16, h16, ncoef = 2, 2, c["ncoef"]
    tabs = [(i + 1) % 8 for i in range(255)]
    groups = [0, 1, 0, 1] if c["levels"] == 2 else [0] * 4
    levels = {lv: (30000 + 1000 * lv, 50000, tabs) for lv in set(groups)}
    blocks = [(60 + 40 * i, [((k + i) % 5) - 2 for k in range(ncoef)]) for i in range(4)]
    bits = D.moc_dct_bits(w16, h16, groups, levels, blocks)
    data = D._pack_lsb(bits)
    full = np.clip(np.trunc(D.moc_dct_image(w16, h16, groups, levels, blocks, 50)), 0, 255)
    # end of each block in bits
    order, pos = [], 12
    for lv in sorted(levels):
        pos += 32 + 255 * 3
        for i, g in enumerate(groups):
            if g == lv:
                pos += 16 + sum(len(D.vlc(tabs[k], v)) for k, v in enumerate(blocks[i][1]))
                order.append((i, pos))
    require(pos == len(bits), "harness: bit count")
    n = 0
    for cut in range(c["lo"], min(c["hi"], len(data))):
        if cut == 0:
            continue
        second = c["second"]
        fr = lambda d, i, last: D.moc_fragment(d, number=i, down_length=h16, down_total=h16 * (1 + second), width16=w16, compression=[8, (c["levels"] - 1) << 5, 0, 0, 50, 0, 0, 0], last=last)
        body = fr(data[:cut], 0, not second) + (fr(data, 1, True) if second else b"")
        path = moc_product(ctx.dir, body, lines=h16 * 16 * (1 + second), samples=w16 * 16)
        got, msgs, err = read(path)
        n += 1
        ctx.step()
        require(msgs, "truncated fragment decoded without a warning", cut, len(data))
        if got is None:
            continue
        require(got.shape == (h16 * 16 * (1 + second), w16 * 16), "shape", got.shape)
        for i, end in order:
            x, y = i // h16, i % h16
            blk = (slice(y * 16, y * 16 + 16), slice(x * 16, x * 16 + 16))
            if end <= cut * 8:
                require((abs(got[blk].astype(int) - full[blk]) <= 1).all(), "complete block differs", i, cut)
            else:
                require(not got[blk].any(), "invented block", i, cut, end)
        if second:
            require((abs(got[32:].astype(int) - full) <= 1).all(), "fragment after a short one differs", cut)
    return f"second={c['second']}" if n else "trivial: past the end"


def dct_trunc_cases(deep):
    for ncoef, lv, second in itertools.product((0, 5) if not deep else (0, 3, 20, 60), (1, 2), (0, 1)):
        for lo in range(0, 420 if not deep else 900, 20):
            yield dict(ncoef=ncoef, levels=lv, second=second, lo=lo, hi=lo + 20)


# ------------------------------------------------------------------ MSL
INSTRUMENTS = ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]


def msl_image(kind, h, w, dtype=np.uint8):
    if kind == "planes":
        return D.msl_plane_image(h, w)
    if kind == "planesback":
        return D.msl_plane_image(h, w, range(255, -1, -1))
    if dtype == np.uint16:
        return (content(kind, h, w).astype(np.uint16) * 251 + np.arange(w, dtype=np.uint16)[None] * 7 + 3).astype(np.uint16)
    return content(kind, h, w)


def run_msl(c, ctx):
    h, w = c["size"][0] * 8, c["size"][1] * 8
    dtype = np.uint16 if c["bits"] == 16 else np.uint8
    img = msl_image(c["content"], h, w, dtype)
    words = dict(c["words"])
    head = D.msl_header(w, h, kind=c["kind"], bits=c["bits"], words=words, cols=c["origin"][0], rows=c["origin"][1])
    body = D.msl_raw(img) if c["kind"] == "raw" else D.msl_pred(img)[0]
    d = ctx.dir / c["folder"]
    d.mkdir(exist_ok=True)
    path = msl_product(d, head + body + c["after"], c["instrument"], c["stem"], h, w, ext=c["ext"])
    got, msgs, err = read(path)
    exact(got, img, msgs, err)
    ctx.step(h * w)
    return f"{c['kind']} {c['bits']}"


MSL0 = dict(kind="pred", size=(1, 1), bits=8, content="planes", words=[], origin=(0, 0), instrument="MAST_LEFT", after=b"", ext=("LBL", "DAT"), folder=".", stem="X1")
# header words with no meaning for the picture, given values that look like markers
NOISE = [[[k, 0xFFFF0000]] for k in (1, 2, 3, 4, 6, 7, 10, 11, 12, 13, 14)] + [[[1, 0x00FFFF00], [2, 0x00112233]], [[1, 0xFF], [2, 0xFF000000]], [[1, 0xFFFF], [2, 0x00000000]], [[6, 0xFFFFFFFF], [7, 0]], [[1, 0x1010CC28]], [[4, 0xFFD8FFD8]], [[14, 0xFFFFFFFF]], [[14, 0x0000FFFF]]]


def msl_cases(deep):
    seen = set()

    def out(**kw):
        c = dict(MSL0, **kw)
        if repr(c) not in seen:
            seen.add(repr(c))
            return [c]
        return []

    sizes = [(1, 1), (1, 2), (2, 1), (3, 5), (5, 3)] + ([(1, 16), (16, 1), (8, 8), (2, 255), (255, 2), (4, 32)] if deep else [(1, 32)])
    for k, s, ct in itertools.product(["pred", "raw"], sizes, ["planes", "planesback", "zeros", "full", "hash", "ramp", "checker"]):
        yield from out(kind=k, size=s, content=ct)
    for s, ct in itertools.product(sizes, ["zeros", "full", "hash", "ramp"]):
        yield from out(kind="raw", size=s, content=ct, bits=16)
    for k, words, s in itertools.product(["pred", "raw"], NOISE, [(1, 1), (2, 3)]):
        yield from out(kind=k, words=words, size=s, content="hash")
    for k, i, o, a in itertools.product(["pred", "raw"], INSTRUMENTS, [(0, 0), (8, 16), (2040, 2040)], [b"", b"\0\0\0\0", b"\0" * 64]):
        yield from out(kind=k, instrument=i, origin=o, after=a, size=(2, 2), content="hash")
    for k, e, s in itertools.product(["pred", "raw"], [("LBL", "DAT"), ("lbl", "dat")], [(2, 2)]):
        yield from out(kind=k, ext=e, size=s)
    for k, f, st, e in itertools.product(["pred", "raw"], [".", "a.img", "a.lbl.d", "B.IMG.X", "C.LBL", "d.dat", "E.LBLS"], ["X1", "x.img.1", "Y.LBL2"], [("LBL", "DAT"), ("lbl", "dat")]):
        yield from out(kind=k, folder=f, stem=st, ext=e, content="hash")


def run_msl_value(c, ctx):
    """planes made of one residual value after p zeros"""
    v = c["value"]
    for p in range(8):
        img = D.msl_plane_image(8, 8, [0] * p + [v] + [0, 1, 255][: p % 3])
        path = msl_product(ctx.dir, D.msl_header(8, 8, kind="pred") + D.msl_pred(img)[0])
        exact(*(lambda g, m, e: (g, img, m, e))(*read(path)))
        ctx.step()
    return "pred codeword"


def run_thumb(c, ctx):
    """raw thumbnails: the size is found from the data"""
    h0, w0 = c["size"][0] * 8, c["size"][1] * 8
    h, w = h0 + c["dh"], w0 + c["dw"]
    n = h * w * (2 if c["bits"] == 16 else 1)
    pad = c["pad"]
    per = 2 if c["bits"] == 16 else 1
    first = next(((a, b) for a in range(h0, h0 + 8) for b in range(w0, w0 + 8) if a * b * per in (n + pad - 32, n + pad - 56)), None)
    if n + pad == h0 * w0 * per:
        first = (h0, w0)
    if first != (h, w) or n + pad > (h0 + 7) * (w0 + 7) * per:
        return "trivial: ambiguous size"
    img = msl_image(c["content"], h, w, np.uint16 if per == 2 else np.uint8)
    body = D.msl_raw(img) + b"\xaa" * pad
    path = msl_product(ctx.dir, D.msl_header(w0, h0, kind="raw", bits=c["bits"], thumbnail=True) + body, height=h, width=w)
    got, msgs, err = read(path)
    exact(got, img, msgs, err)
    return f"pad {pad}"


def thumb_cases(deep):
    for c in product(dict(size=[(1, 1), (3, 4), (18, 25)] if not deep else [(1, 1), (1, 3), (3, 4), (5, 5), (18, 25)], dh=list(range(8)), dw=list(range(8)), pad=[0, 32, 56], bits=[8, 16], content=["hash"])):
        yield c


def run_msl_trunc(c, ctx):
    h, w = c["size"][0] * 8, c["size"][1] * 8
    dtype = np.uint16 if c["bits"] == 16 else np.uint8
    img = msl_image(c["content"], h, w, dtype)
    img[img == 0] = 1
    head = D.msl_header(w, h, kind=c["kind"], bits=c["bits"])
    body, ends = (D.msl_raw(img), None) if c["kind"] == "raw" else D.msl_pred(img)
    n = 0
    for cut in range(c["lo"], min(c["hi"], len(body))):
        path = msl_product(ctx.dir, head + body[:cut], height=h, width=w)
        got, msgs, err = read(path)
        n += 1
        ctx.step()
        if got is None:
            require(msgs, "failed without a warning", cut)
            require(c["kind"] != "raw", "raw image with missing data not returned", cut, msgs)
            continue
        require(got.shape == img.shape, "shape", got.shape, cut)
        if c["kind"] == "raw":
            k = cut // dtype().itemsize
            flat = got.ravel()
            require(np.array_equal(flat[:k], img.ravel()[:k]), "data before the end differ", cut)
            require(not flat[k + 1:].any(), "missing data not zero", cut)
        else:
            k = 8 * sum(e <= cut for e in ends)
            require(np.array_equal(got[:k], img[:k]), "complete strips differ", cut)
            require(not got[k + 8 if cut not in ends and cut else k:].any(), "missing strips not zero", cut)
            rest = got[k:k + 8]
            require(((rest == 0) | (rest == img[k:k + 8])).all(), "invented pixels", cut)
    return c["kind"] if n else "trivial: past the end"


def msl_trunc_cases(deep):
    for k, b, s, ct in itertools.product(["pred", "raw"], [8, 16], [(2, 1), (1, 2)] + ([(3, 2), (2, 3)] if deep else []), ["planes", "hash"] if not deep else ["planes", "hash", "ramp"]):
        if b == 16 and (k == "pred" or ct == "planes"):
            continue
        for lo in range(0, 400 if not deep else 900, 20):
            yield dict(kind=k, bits=b, size=s, content=ct, lo=lo, hi=lo + 20)


def run_header(c, ctx):
    """a file whose header is missing or cut is refused"""
    img = msl_image("hash", 8, 8)
    head = D.msl_header(8, 8, kind="raw")
    blob = {"cut": head[:c["n"]], "nomagic": head[:60] + b"\0\0\0\0" + D.msl_raw(img) + bytes(c["n"]), "empty": b"", "zeros": bytes(c["n"])}[c["how"]]
    path = msl_product(ctx.dir, blob)
    got, msgs, err = read(path)
    require(got is None, "an image was returned for a file with no valid header", None if got is None else got.shape)
    require(msgs, "failed without a warning")
    require(not any("file descriptor" in m for m in msgs), "the reason of the failure is masked", msgs)
    return c["how"]


def header_cases(deep):
    for n in range(0, 64):
        yield dict(how="cut", n=n)
    for n in (0, 1, 100, 1000, 2000):
        yield dict(how="nomagic", n=n)
        yield dict(how="zeros", n=n)
    yield dict(how="empty", n=0)


def run_jpeg(c, ctx):
    from PIL import Image

    h, w = c["size"][0] * 8, c["size"][1] * 8
    if c["bands"] == 3:
        img = np.stack([content(k, h, w) for k in ("ramp", "hash", "checker")], -1)
        pil = Image.fromarray(img, "RGB")
    else:
        pil = Image.fromarray(content(c["content"], h, w), "L")
    b = io.BytesIO()
    pil.save(b, "JPEG", quality=c["quality"])
    raw = b.getvalue()
    want = np.array(Image.open(io.BytesIO(raw)))
    if c["bands"] == 3:
        want = want.transpose(2, 0, 1)
    head = D.msl_header(w, h, kind="jpeg", jpeg_bands=c["hbands"])
    path = msl_product(ctx.dir, head + c["gap"] + raw + c["after"], height=h, width=w, bands=c["bands"])
    got, msgs, err = read(path)
    exact(got, want, msgs, err)
    return f"{c['bands']} bands"


def jpeg_cases(deep):
    yield from product(dict(size=[(1, 1), (2, 3), (5, 2)] if not deep else [(1, 1), (2, 3), (5, 2), (16, 16), (33, 1)], bands=[1, 3], hbands=[1, 3], quality=[50, 95], gap=[b"", b"\0" * 4], after=[b"", b"\0" * 64], content=["hash", "ramp"]))


# -------------------------------------------------- effect on other readers
def run_neighbour(c, ctx):
    """reading a compressed product leaves the decoding of others alone"""
    from PIL import Image
    import pdr

    img = content("ramp", 64, 64)
    b = io.BytesIO()
    Image.fromarray(img, "L").save(b, "JPEG", quality=90)
    raw = b.getvalue()
    for i, cut in enumerate(range(c["lo"], min(c["hi"], len(raw)), 5)):
        d = ctx.dir / str(i)
        d.mkdir()
        (d / "J.JPG").write_bytes(raw[:cut])

        def outcome():
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    x = pdr.read(d / "J.JPG")
                    a = x["IMAGE"] if "IMAGE" in x.keys() else x[x.keys()[-1]]
                    return type(a).__name__, (a.tobytes() if isinstance(a, np.ndarray) else str(a)), sorted(str(z.message) for z in w if z.category is not ResourceWarning)
                except Exception as e:
                    return type(e).__name__, str(e)

        before = outcome()
        (d / "m").mkdir()
        path = msl_product(d / "m", D.msl_header(64, 64, kind="jpeg", jpeg_bands=1) + raw, height=64, width=64)
        got, msgs, err = read(path)
        exact(got, np.array(Image.open(io.BytesIO(raw))), msgs, err)
        after = outcome()
        require(before == after, "a truncated JPEG reads differently after an MSL product was read", cut, before[0], after[0])
        ctx.step()
    return "jpeg neighbour"


def neighbour_cases(deep):
    for lo in range(0, 1200, 100):
        yield dict(lo=lo, hi=lo + 100)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("moc", lambda: moc_cases(deep), run_moc, "all (method, table, size, content), (fragmentation, end marker), (quality, name, instrument)"),
        Space("moc-cut", lambda: moc_trunc_cases(deep), run_moc_trunc, "every cut position of the stream / file"),
        Space("moc-damage", lambda: moc_damage_cases(deep), run_moc_damage, "damage at grid positions in one or two 128-line blocks"),
        Space("dct", lambda: dct_cases(deep), run_dct, "tables, levels, groups, coefficient patterns, DC ranges, fragments"),
        Space("dct-cut", lambda: dct_trunc_cases(deep), run_dct_trunc, "every cut position of a transform fragment"),
        Space("msl", lambda: msl_cases(deep), run_msl, "methods, sizes, contents, header noise"),
        Space("msl-codewords", lambda: (dict(value=v) for v in range(256)), run_msl_value, "every residual value in every bit alignment"),
        Space("msl-thumb", lambda: thumb_cases(deep), run_thumb, "all thumbnail size offsets"),
        Space("msl-cut", lambda: msl_trunc_cases(deep), run_msl_trunc, "every cut position of the body"),
        Space("msl-header", lambda: header_cases(deep), run_header, "every cut position of the header"),
        Space("msl-jpeg", lambda: jpeg_cases(deep), run_jpeg, "sizes, bands, gaps"),
        Space("msl-neighbour", lambda: neighbour_cases(deep), run_neighbour, "truncated JPEG before and after"),
    ]
