"""C16: browse products show the object and never change it.

Rendering: every small array over a value alphabet per sample type, with every mask pattern and clip setting, is rendered by Data.show / dump_browse and compared pixel by pixel with an independent linear 8-bit
rendering between the documented bounds. Selection: every band count x band option is compared with the band or RGB triple the documentation names. Dumps: every sequence of loads and dumps (scaled options, purge) up to a
bound over every kind of product; the set of files, their contents and the Data object afterwards are compared with the values the product was written from."""
import csv
import itertools
import math
import os
import warnings

import numpy as np

from mc import pds, pds4w, products
from mc.core import Fail, Space, product, require, sequences, short

TECHNIQUE = "exhaustive enumeration of small arrays, masks, band options and dump histories on the real Data class against an independent renderer and the written values"
ASSUMPTIONS = ["pillow writes PNG losslessly and opens what it wrote", "rendered levels are specified to one level (rounding); which constant a constant image becomes is unspecified",
               "two elements closer than a rounding error of the array's type may be rendered alike"]
LIMITS = {"u1": (0, 255), "i1": (-128, 127), "u2": (0, 65535), "i2": (-32768, 32767), "u4": (0, 2**32 - 1), "i4": (-(2**31), 2**31 - 1), "i8": (-(2**62), 2**62), "u8": (0, 2**64 - 1)}
CYAN = (0, 255, 255)


def alphabet(dt, deep):
    if dt[0] == "f":
        out = [0.0, 1.0, -3.5, 1e6, 0.25] + ([1e-5, -2e8] if deep else [])
        return out
    lo, hi = LIMITS[dt]
    out = [lo, hi, 0 if lo else 7, 1, hi // 3] + ([lo + 100, hi - 1] if deep else [])
    if dt[1] == "8":  # neighbours are not distinguishable in the renderer's floating point
        out = [lo, hi, 0 if lo else hi // 7, hi // 3]
    return list(dict.fromkeys(out))


def bounds(vals, clip, dt):
    """documented bounds of the rendering: percentiles of the valid elements, in the array's type; where rounding could fall either way, both"""
    def pct(p):
        v = sorted(vals)
        k = (len(v) - 1) * p / 100
        i = int(math.floor(k))
        x = v[i] + (v[min(i + 1, len(v) - 1)] - v[i]) * (k - i)
        if dt[0] == "f" or dt[1] == "8":
            return [x]
        eps = 1e-9 * max(1, abs(v[0]), abs(v[-1]))
        return sorted({math.trunc(x), math.trunc(x - eps), math.trunc(x + eps)})

    lo, hi = (1, 1) if clip is None else (clip, clip) if not isinstance(clip, (tuple, list)) else clip
    out = []
    for a, b in itertools.product(pct(lo), pct(100 - hi)):
        if clip is None and a == b:
            a, b = min(vals), max(vals)
        out.append((a, b))
    return out


def expect(vals, clip, dt):
    """the possible lists of levels of the valid elements; None where the image is constant"""
    out = []
    for a, b in bounds(vals, clip, dt):
        out.append([(min(max(v, a), b) - a) * 255 / (b - a) for v in vals] if b > a else None)
    return out


def check_levels(got, vals, clip, dt, what):
    wants = expect(vals, clip, dt)
    for want in wants:
        if want is None:
            if len(set(got)) == 1 or clip is not None:
                return
        elif all(abs(g - w) <= 1.01 for g, w in zip(got, want)):
            return
    raise Fail(f"{what}: levels {short(got)}; expected {short([w and [round(x, 1) for x in w] for w in wants])} for {short(vals)}")


def pixels(img):
    return np.asarray(img)


def check_render(img, vals, mask, clip, dt, shape, color, what):
    """vals, mask: flat, in image order"""
    px = pixels(img)
    require(px.dtype == np.uint8, f"{what}: not 8-bit", px.dtype)
    require(px.shape[:2] == tuple(shape[:2]), f"{what}: size", px.shape, shape)
    masked = any(mask)
    if len(shape) == 2 and px.ndim == 3:
        require(px.shape[2] == 3, f"{what}: channels", px.shape)
        flat = [tuple(int(x) for x in p) for p in px.reshape(-1, 3)]
        for p, m in zip(flat, mask):
            require(p == color if m else p[0] == p[1] == p[2], f"{what}: colour of a {'masked' if m else 'valid'} pixel", p)
        flat = [p[0] for p in flat]
    else:
        require(not (masked and color is not None and len(shape) == 2), f"{what}: masked pixels not marked", px)
        flat = [int(x) for x in px.ravel()]
    valid = [v for v, m in zip(vals, mask) if not m]
    got = [g for g, m in zip(flat, mask) if not m]
    if not valid:
        return
    check_levels(got, valid, clip, dt, what)


# ------------------------------------------------------------------ single band
def blank(ctx, n=6):
    st = [("^IMAGE", '"B.IMG"'), pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8))]
    return pds.quiet_read(pds.write_detached(ctx.dir, "B", st, {"B.IMG": bytes(range(n))}))[0]


def show(d, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return d.show("IMAGE", scaled=False, **kw)


def run_render(c, ctx):
    dt, clip, purge = c["dt"], c["clip"], c["purge"]
    clip = tuple(clip) if isinstance(clip, list) else clip
    d = blank(ctx)
    d["IMAGE"]
    n = 0
    for rest in itertools.product(c["alphabet"], repeat=c["n"] - len(c["first"])):
        vals = list(c["first"]) + list(rest)
        for masked in c["masks"]:
            mask = [bool(masked >> i & 1) for i in range(c["n"])]
            shape = (2, c["n"] // 2)
            arr = np.array(vals, c["order"] + dt).reshape(shape)
            if masked >= 0:
                arr = np.ma.masked_array(arr, np.array(mask).reshape(shape))
            else:
                mask = [False] * c["n"]
            true = [float(x) for x in np.ma.getdata(arr).ravel()] if dt[0] == "f" else vals
            held = arr.copy()
            d.IMAGE = arr
            # show takes arrays that are not masked; masked ones reach the renderer through get_scaled
            if masked >= 0:
                img = render_masked(d, arr, image_clip=clip, purge=purge)
            else:
                img = show(d, image_clip=clip, purge=purge)
            check_render(img, true, mask, clip, dt, shape, CYAN, f"{vals} mask {mask}")
            if not purge:
                require(np.ma.getdata(arr).tobytes() == np.ma.getdata(held).tobytes() and arr.dtype == held.dtype, "rendering changed the array", arr, held)
            n += 1
    ctx.step(n)
    return dt


def render_masked(d, arr, **kw):
    """the image dump_browse/show make of a masked array (the result of get_scaled)"""
    orig = type(d).get_scaled
    try:
        type(d).get_scaled = lambda self, *a, **k: arr
        d.IMAGE = np.ma.getdata(arr)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return d.show("IMAGE", scaled=True, **kw)
    finally:
        type(d).get_scaled = orig


def render_cases(tier):
    deep = tier == "thorough"
    for dt in ["u1", "i1", "u2", "i2", "u4", "i4", "f4", "f8"] + (["i8", "u8"] if deep else []):
        al = alphabet(dt, deep)
        for clip in [None, 0, 1, (10, 25), (0, 25), (25, 0)]:
            for purge in (False, True):
                for first in al:
                    yield dict(dt=dt, order="<" if purge else ">", clip=clip, purge=purge, first=[first], alphabet=al, n=4, masks=[-1, 0, 1, 6, 15] if not deep else [-1, 0, 1, 2, 7, 9, 15])
    # a few outliers among many equal elements: the percentile bounds coincide
    for dt in ["u1", "i2", "i4", "f4", "f8"]:
        for base, out in itertools.permutations(alphabet(dt, False), 2):
            for k in (1, 2, 5, 99, 100, 101):
                yield dict(dt=dt, order="<", clip=None, purge=False, first=[out] * k + [base] * (400 - k), alphabet=[base], n=400, masks=[-1, 0])


def run_invalid(c, ctx):
    """non-finite elements of unmasked float arrays do not hide the rest"""
    d = blank(ctx)
    d["IMAGE"]
    vals = [0.0, 10.0, 2.5, 5.0, 7.5, 1.0]
    arr = np.array(vals, c["dt"])
    mask = [False] * 6
    for i, k in zip(c["at"], c["what"]):
        arr[i] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[k]
        mask[i] = True
    if c.get("masked"):
        img = render_masked(d, np.ma.masked_array(arr, mask).reshape(2, 3), image_clip=c["clip"], purge=c["purge"])
    else:
        d.IMAGE = arr.reshape(2, 3)
        img = show(d, image_clip=c["clip"], purge=c["purge"])
    px = pixels(img)
    valid = [v for v, m in zip(vals, mask) if not m]
    flat = px.reshape(6, -1)
    got = [int(flat[i][0] if flat.shape[1] == 1 or flat[i][0] == flat[i][-1] else -99) for i in range(6) if not mask[i]]
    check_levels(got, valid, c["clip"], c["dt"], "next to a non-finite element")
    ctx.step(len(valid))
    return "ok"


# ------------------------------------------------------------------ multiband
def run_bands(c, ctx):
    B, dt, axis = c["bands"], c["dt"], c["axis"]
    dims = [2, 3]
    shape = dims[:]
    shape.insert(axis, B)
    vals = [(7 * k * k + 3 * k) % 251 for k in range(B * 6)]
    if dt in ("i4", "f4"):
        vals = [v * 100000 - 5000000 for v in vals]
    arr = np.array(vals, dt).reshape(shape)
    mask = np.zeros(shape, bool)
    if c["mask"]:
        mask.ravel()[[0, 5, B * 6 - 1]] = True
    d = blank(ctx)
    d["IMAGE"]
    kw = dict(image_clip=c["clip"])
    kw.update({k: tuple(v) if isinstance(v, list) else v for k, v in c["kw"].items()})
    if axis:
        kw["slice_axis"] = axis
    obj = np.ma.masked_array(arr, mask) if c["mask"] else arr
    held = arr.copy()
    cube, cm = np.swapaxes(arr, 0, axis), np.swapaxes(mask, 0, axis)
    if c["mask"]:
        img = render_masked(d, obj, **kw)
    else:
        d.IMAGE = obj
        img = show(d, **kw)
    rgb = kw.get("rgb_channels") or ((0, 1, 2) if B in (3, 4) and not kw.get("override_rgba") else None)
    nocolor = "mask_color" in kw and kw["mask_color"] is None
    color = None if nocolor else kw.get("mask_color", CYAN)

    def one(image, b, what):
        check_render(image, cube[b].ravel().tolist(), (cm[b] if c["mask"] else np.zeros_like(cm[b])).ravel().tolist(), c["clip"], dt, cube[b].shape, color if c["mask"] else CYAN, what)

    if rgb is not None:
        px = pixels(img)
        require(px.ndim == 3 and px.shape[2] == 3, "not an RGB image", px.shape)
        stack = np.stack([cube[k] for k in rgb], -1)
        m = np.stack([cm[k] for k in rgb], -1)
        valid = stack[~m].tolist()
        got = px[~m].tolist()
        check_levels(got, valid, c["clip"], dt, "RGB")
        if color is not None:
            for k in range(3):
                require((px[..., k][m[..., k]] == color[k]).all(), "masked RGB elements not marked", px)
        ctx.step(len(got))
    elif kw.get("band_ix") == "burst":
        require(isinstance(img, list) and len(img) == B, "burst does not give one image per band", img)
        for b in range(B):
            one(img[b], b, f"band {b}")
        ctx.step(B)
    else:
        ix = kw.get("band_ix")
        options = [ix] if ix is not None and -B <= ix < B else sorted({(B - 1) // 2, B // 2, round(B / 2)})
        errs = []
        for b in options:
            try:
                one(img, b, f"band {b}")
                break
            except Fail as ex:
                errs.append(str(ex))
        else:
            raise Fail("; ".join(errs))
        ctx.step()
    require(arr.tobytes() == held.tobytes(), "rendering changed the array")
    return "rgb" if rgb else "band"


def band_cases(tier):
    deep = tier == "thorough"
    kws = [{}, {"band_ix": 0}, {"band_ix": 1}, {"band_ix": -1}, {"band_ix": 99}, {"band_ix": "burst"}, {"override_rgba": True}, {"override_rgba": True, "band_ix": 0}, {"override_rgba": True, "band_ix": "burst"}, {"rgb_channels": [2, 0, 1]}, {"rgb_channels": [0, 0, 1], "band_ix": 1},
           {"mask_color": [9, 8, 7]}, {"mask_color": None}, {"mask_color": [9, 8, 7], "band_ix": "burst"}]
    for B, kw, dt, axis, mask, clip in itertools.product([1, 2, 3, 4, 5], kws, ["u1", "i2", "i4", "f4"] if deep else ["u1", "f4"], [0, 1, 2], [False, True], [None, 0]):
        if "rgb_channels" in kw and max(kw["rgb_channels"]) >= B:
            continue
        yield dict(bands=B, kw=kw, dt=dt, axis=axis, mask=mask, clip=clip)


# ------------------------------------------------------------------ dumps
def tables_product(d, stem, salt=0):
    """tables of one row, of no numbers, text and a 1-D array"""
    import struct
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 4), ("^ONE_TABLE", f'"{stem}.D1"'), ("^WORD_TABLE", f'"{stem}.D2"'), ("^NOTE_TEXT", f'"{stem}.TXT"'), ("^CUBE_IMAGE", f'"{stem}.D3"'),
          pds.block("OBJECT", "ONE_TABLE", ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 1), ("COLUMNS", 2), ("ROW_BYTES", 6), pds.block("OBJECT", "COLUMN", ("NAME", "A"), ("DATA_TYPE", "MSB_INTEGER"), ("START_BYTE", 1), ("BYTES", 2)),
                    pds.block("OBJECT", "COLUMN", ("NAME", "B"), ("DATA_TYPE", "IEEE_REAL"), ("START_BYTE", 3), ("BYTES", 4))),
          pds.block("OBJECT", "WORD_TABLE", ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", 2), ("COLUMNS", 1), ("ROW_BYTES", 10), pds.block("OBJECT", "COLUMN", ("NAME", "W"), ("DATA_TYPE", "CHARACTER"), ("START_BYTE", 1), ("BYTES", 8))),
          pds.block("OBJECT", "CUBE_IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("BANDS", 2), ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL"), ("SAMPLE_TYPE", "MSB_INTEGER"), ("SAMPLE_BITS", 32), ("SCALING_FACTOR", 3), ("OFFSET", -7))]
    cube = [0, 5, 100, 2**20, 7, 7, -9, 0, 1, 2, 3, 4]
    files = {f"{stem}.D1": struct.pack(">hf", -5, 0.1), f"{stem}.D2": b'a,"b    \r\nsee; it \r\n', f"{stem}.TXT": b"one\r\ntwo, three\r\n", f"{stem}.D3": struct.pack(">12i", *cube)}
    path = pds.write_detached(d, stem, st, files)
    f = float(np.float32(0.1))
    return products.Product(path, {"ONE_TABLE": products.Frame(A=[-5], B=[f]), "WORD_TABLE": products.Frame(W=['a,"b', "see; it"]), "NOTE_TEXT": products.Text("one\r\ntwo, three\r\n"), "CUBE_IMAGE": products.Arr((2, 2, 3), "i", 4, cube)},
                            scaled={"CUBE_IMAGE": [v * 3 - 7 for v in cube]})


def pds4_float(d, stem, salt=0):
    """a PDS4 array whose type allows in-place work"""
    a = [0.5, 2.0, -3.25, 100.0, 7.0, 8.5]
    arrays = [pds4w.array("Array_2D_Image", t, [("Line", 2), ("Sample", 3)], lid=n, offset=o) for t, n, o in (("IEEE754LSBDouble", "FL", 0), ("SignedLSB4", "IN", 48))]
    p = pds4w.write(d, stem, [(f"{stem}.DAT", arrays)], {f"{stem}.DAT": np.array(a, "<f8").tobytes() + np.array([1, 2, 3, 2**30, 5, -6], "<i4").tobytes()})
    return products.Product(p, {"FL": products.Arr((2, 3), "f", 8, a), "IN": products.Arr((2, 3), "i", 4, [1, 2, 3, 2**30, 5, -6]), "label": None}, preloaded=("label",))


def fits_float(d, stem, salt=0):
    from astropy.io import fits as af
    a = [0.5, 2.0, -3.25, 100.0, 7.0, 8.5]
    h = af.HDUList([af.PrimaryHDU(np.array(a, ">f4").reshape(2, 3)), af.ImageHDU(np.array(a[::-1], ">f8").reshape(3, 2), name="SCI")])
    p = d / f"{stem}.fits"
    h.writeto(p)
    return products.Product(p, {"PRIMARY": products.Arr((2, 3), "f", 4, a), "SCI": products.Arr((3, 2), "f", 8, a[::-1]), "PRIMARY_HEADER": None, "SCI_HEADER": None}, derived={"PRIMARY_HEADER": "PRIMARY", "SCI_HEADER": "SCI"})


KINDS = dict(products.ALL, tables=tables_product, pds4f=pds4_float, fitsf=fits_float)


def csv_cells(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def same_cell(text, want):
    if isinstance(want, str):
        return text in (want, str(want.encode()))  # binary character columns hold bytes
    if isinstance(want, bool) or want is None:
        return text == str(want)
    if isinstance(want, (int, float)):
        try:
            x = float(text)
        except ValueError:
            return False
        return x == want or abs(x - want) <= 1e-6 * abs(want)
    return text == str(want)


def check_csv(path, want, what):
    rows = csv_cells(path)
    cols = list(want.cols)
    n = len(next(iter(want.cols.values())))
    if n == 1:
        require(len(rows) == len(cols) + 1 and [r[0] for r in rows[1:]] == cols, f"{what}: fields of a one-row table", rows, cols)
        for r, c in zip(rows[1:], cols):
            require(same_cell(r[1], want.cols[c][0]), f"{what}: {c}", r, want.cols[c])
        return
    require(rows[0][1:] == cols and len(rows) == n + 1, f"{what}: header or number of rows", rows[:2], cols, n)
    for k, r in enumerate(rows[1:]):
        for c, cell in zip(cols, r[1:]):
            require(same_cell(cell, want.cols[c][k]), f"{what}: {c}[{k}]", cell, want.cols[c][k])


def img_levels(path, shape, vals, mask, what):
    from PIL import Image
    with Image.open(path) as im:
        im.load()
        dt = "f8" if any(isinstance(v, float) for v in vals) else "i4"
        check_render(im, vals, mask, None, dt, shape, CYAN, what)


def array_model(prod, name, scaled):
    """-> shape, values, mask of the array that is rendered"""
    want = prod.objs[name]
    vals = list(want.values)
    mask = [False] * len(vals)
    if scaled and prod.scaled.get(name) is not None:
        vals = prod.scaled[name]
    shape = want.shape
    if len(shape) == 3:
        B = shape[0]
        k = len(vals) // B
        if B in (3, 4):
            return None
        ix = round(B / 2)
        return shape[1:], vals[ix * k:(ix + 1) * k], mask[:k]
    return shape, vals, mask


def check_files(out, prod, d, present, prefix, mode, what, fits):
    """present: loaded names; the files in out are exactly the documented ones with the documented contents"""
    got = {p.name for p in out.iterdir()}
    want = set()
    for n in present:
        v = prod.objs[n]
        base = f"{prefix}_{n}"
        if isinstance(v, products.Arr) and len(v.shape) > 1:
            tags = {True: [""], False: [""], "both": ["_scaled", "_unscaled"]}[mode]
            if fits and mode in (False, "both"):
                tags = ["_scaled"]
            for t in tags:
                f = f"{base}{t}.png"
                want.add(f)
                require(f in got, f"{what}: no {f}", sorted(got))
                model = array_model(prod, n, mode is True or t == "_scaled")
                if model is not None:
                    img_levels(out / f, *model, f"{what}: {f}")
        elif isinstance(v, products.Frame):
            f = f"{base}.csv"
            want.add(f)
            require(f in got, f"{what}: no {f}", sorted(got))
            check_csv(out / f, v, f"{what}: {f}")
        elif isinstance(v, products.Text):
            f = f"{base}.txt"
            want.add(f)
            require(f in got, f"{what}: no {f}", sorted(got))
            text = (out / f).read_bytes().decode()
            require(v.text in products.canon(text) if v.contains else products.canon(text) == products.canon(v.text), f"{what}: {f}", text)
        elif n == "label" and d.standard == "PDS4":
            f = f"{base}.xml"
            want.add(f)
            require(f in got and "logical_identifier" in (out / f).read_text(), f"{what}: {f}", sorted(got))
        else:
            fs = [f for f in got if f.startswith(base + ".")]
            require(len(fs) <= 1, f"{what}: files of {n}", fs)
            want |= set(fs)
            if fs and isinstance(v, products.Block):
                text = (out / fs[0]).read_text()
                for k, x in v.kv.items():
                    require(k in text and str(x) in text, f"{what}: {fs[0]} lacks {k}", text)
    require(got == want, f"{what}: files written", sorted(got - want), sorted(want - got))


OPS = ["dump", "dump unscaled", "dump both", "purge", "purge unscaled", "purge both", "load all", "load 0", "load -1", "load mid"]


def run_dumps(c, ctx):
    prod = KINDS[c["kind"]](ctx.dir, "Xy")
    d, _ = pds.quiet_read(prod.path)
    loaded = set(prod.preloaded)
    avail = [n for n in prod.objs if n not in prod.derived]
    again = {}
    for k, op in enumerate(c["ops"]):
        verb, _, arg = op.partition(" ")
        what = f"step {k} {op}"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if verb == "load":
                names = avail if arg == "all" else [avail[{"0": 0, "-1": -1, "mid": len(avail) // 2}[arg]]]
                for n in names:
                    d[n]
                    loaded.add(n)
                    for der, par in prod.derived.items():
                        if par == n:
                            loaded.add(der)
            else:
                mode = {"": True, "unscaled": False, "both": "both"}[arg]
                out = ctx.dir / f"out{k}"
                out.mkdir()
                prefix = "pre" if k % 2 else None
                before = {n: d.__dict__.get(n) for n in loaded}
                d.dump_browse(prefix=prefix, outpath=out, scaled=mode, purge=verb == "purge", image_format="png")
                present = [n for n in prod.objs if n in loaded]
                check_files(out, prod, d, present, prefix or prod.path.name.split(".")[0], mode, what, c["kind"] in ("fits", "fitsf"))
                if verb == "purge":
                    for n in loaded:
                        require(n not in d.__dict__, f"{what}: {n} still loaded")
                    loaded = set()
                else:
                    for n in loaded:
                        require(d.__dict__.get(n) is before[n], f"{what}: {n} replaced")
                    # the same dump again writes the same bytes
                    out2 = ctx.dir / f"out{k}b"
                    out2.mkdir()
                    d.dump_browse(prefix=prefix, outpath=out2, scaled=mode, image_format="png")
                    a, b = [{p.name: p.read_bytes() for p in o.iterdir()} for o in (out, out2)]
                    require(a == b, f"{what}: a repeated dump differs", sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n)))
        for n in loaded:
            if prod.objs[n] is not None and n in d.__dict__:
                products.check(d[n], prod.objs[n], f"{what}: {n} afterwards")
                ctx.step()
        require(set(d.unloaded()) == set(d.keys()) - loaded if hasattr(d, "unloaded") else True, f"{what}: unloaded", d.unloaded(), loaded)
        ctx.state((c["kind"], tuple(sorted(loaded))))
    # whatever happened, everything can be had from the file
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in avail:
            if prod.objs[n] is not None:
                products.check(d[n], prod.objs[n], f"finally: {n}")
                ctx.step()
    return c["kind"]


def dump_cases(tier):
    depth = 3 if tier == "thorough" else 2
    for kind in KINDS:
        for ops in sequences(OPS, depth - 1, 1):
            if any(o.startswith(("dump", "purge")) for o in ops):
                yield dict(kind=kind, ops=["load all"] + list(ops))
        for ops in sequences(OPS, 2, 1):
            if ops[-1].startswith(("dump", "purge")):
                yield dict(kind=kind, ops=list(ops))


def run_formats(c, ctx):
    """default format, cwd, huge axis"""
    d = blank(ctx)
    old = os.getcwd()
    os.chdir(ctx.dir)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["what"] == "unloaded":
                d.dump_browse()
                require({p.name for p in ctx.dir.iterdir()} == {"B.IMG", "B.LBL"}, "files written for unloaded objects", list(ctx.dir.iterdir()))
                return "none"
            d["IMAGE"]
            if c["what"] == "wide":
                d.IMAGE = np.arange(70000, dtype="u4").reshape((1, 70000) if c["flip"] else (70000, 1))
                d.dump_browse(scaled=False)
            elif c["what"] == "1d":
                d.IMAGE = np.array([5, 2, 9], "i2")
                d.dump_browse()
            else:
                d.dump_browse(**({"image_format": c["what"]} if c["what"] != "default" else {}))
    finally:
        os.chdir(old)
    new = {p.name for p in ctx.dir.iterdir()} - {"B.IMG", "B.LBL"}
    from PIL import Image
    if c["what"] == "1d":
        require(new == {"B_IMAGE.csv"}, "files", new)
        require([r[0] for r in csv_cells(ctx.dir / "B_IMAGE.csv")[1:]] == ["5", "2", "9"], "1-D array", csv_cells(ctx.dir / "B_IMAGE.csv"))
        return "csv"
    ext = {"default": "jpg", "wide": "jpg"}.get(c["what"], c["what"])
    require(new == {f"B_IMAGE.{ext}"}, "files", new)
    with Image.open(ctx.dir / f"B_IMAGE.{ext}") as im:
        im.load()
        require(max(im.size) <= 65500 if c["what"] == "wide" else im.size == (3, 2), "size", im.size)
    ctx.step()
    return ext


def spaces(tier):
    yield Space("render", render_cases(tier), run_render, "all 2x2 arrays over the value alphabet x type x mask patterns x clip x purge; 400-element arrays with 1-101 outliers")
    yield Space("invalid", product(dict(dt=["f4", "f8"], at=[[0], [3], [5], [0, 5], [2, 3]], what=[["nan", "inf"], ["inf", "nan"], ["-inf", "nan"], ["-inf", "inf"]], clip=[None, 0], purge=[False, True], masked=[False, True])), run_invalid, "placements of non-finite elements")
    yield Space("bands", band_cases(tier), run_bands, "band count x band_ix/override_rgba/rgb_channels/slice_axis/mask_color x mask x type")
    yield Space("dumps", dump_cases(tier), run_dumps, "sequences of loads and dump_browse calls (scaled True/False/both, purge) over every product kind")
    yield Space("formats", [dict(what=w, flip=f) for w in ("default", "png", "tif", "unloaded", "1d") for f in (False,)] + [dict(what="wide", flip=f) for f in (False, True)], run_formats, "file formats, default file names, unloaded objects, 1-D and very long arrays")
