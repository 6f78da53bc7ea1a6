"""C19: desktop-format images decode to their pixels, unlabelled and labelled.

Every format and pixel mode, every small size, every frame count, frame access order, letter case and alias of the extension, opened directly and through PDS3 labels, against pixels written by encoders that share no code with
pillow (BMP, PNG, TIFF, GIF) or lossless pillow encoders (WebP, JPEG 2000, MPO/JPEG up to their loss)."""
import io
import itertools

import numpy as np
from PIL import Image

from mc import imgw as W, pds
from mc.core import Fail, Space, product, require, short

TECHNIQUE = "exhaustive enumeration of image files (formats, modes, sizes, frames, names, label forms) and frame access histories on the real code against independent encoders"
ASSUMPTIONS = ["pillow's decoders; encoders of pillow for WebP, JPEG 2000 and MPO"]
PAL = [(0, 0, 0), (255, 0, 0), (0, 255, 7), (10, 20, 30), (255, 255, 255), (1, 2, 3), (200, 100, 50), (9, 99, 199)]
SIZES = [(1, 1), (1, 3), (3, 1), (2, 3), (5, 4), (8, 2), (9, 3)]


def gray(n, top=255, salt=0):
    base = [0, top, 1, top // 2, top - 1, 7 % (top + 1), 3 % (top + 1)]
    return [base[(i + salt) % 7] for i in range(n)]


def color(n, k=3, salt=0):
    return [tuple((37 * (i + salt) + 61 * c + (255 if (i + c) % 5 == 0 else 0)) % 256 for c in range(k)) for i in range(n)]


def cube(px, w, h):
    a = np.array(px)
    return a.reshape(h, w) if a.ndim == 1 else np.moveaxis(a.reshape(h, w, -1), 2, 0)


def pillow(a, fmt, **kw):
    b = io.BytesIO()
    Image.fromarray(a).save(b, fmt, **kw)
    return b.getvalue()


def make(kind, w, h, salt=0):
    """-> bytes, array, mode"""
    n = w * h
    g, c = gray(n, salt=salt), color(n, salt=salt)
    if kind == "bmp":
        return W.bmp(w, h, c), cube(c, w, h), "RGB"
    if kind == "bmp-td":
        return W.bmp(w, h, c, top_down=True), cube(c, w, h), "RGB"
    if kind == "bmp-pal":
        ix = [i % 8 for i in range(salt, n + salt)]
        return W.bmp(w, h, ix, "pal", PAL + [(0, 0, i) for i in range(248)]), cube([PAL[i] for i in ix], w, h), "P"
    if kind.startswith("png"):
        _, what, depth, filt = kind.split("-")
        depth, filt = int(depth), int(filt)
        if what == "gray":
            v = gray(n, (1 << depth) - 1, salt)
            want = np.array(v).reshape(h, w)
            want = want * (255 // ((1 << depth) - 1)) if depth in (2, 4) else want.astype(bool) if depth == 1 else want
            return W.png(w, h, v, 0, depth, filt=filt), want, {1: "1", 16: "I;16"}.get(depth, "L")
        if what == "rgb":
            return W.png(w, h, c, 2, filt=filt), cube(c, w, h), "RGB"
        if what == "pal":
            ix = [i % 4 for i in range(salt, n + salt)]
            return W.png(w, h, ix, 3, depth, PAL[:4], filt), cube([PAL[i] for i in ix], w, h), "P"
        k, m = {"la": (4, 2), "rgba": (6, 4)}[what]
        c = color(n, m, salt)
        return W.png(w, h, c, k, filt=filt), cube(c, w, h), what.upper()
    if kind.startswith("tif"):
        _, what, order, strips, comp = kind.split("-")
        order, strips = {"le": "<", "be": ">"}[order], min(int(strips), h)
        px, want, mode, pal = {
            "bit": ([i % 3 == 0 for i in range(n)], None, "1", None), "u8": (g, None, "L", None), "u16": (gray(n, 65535, salt), None, "I;16" if order == "<" else "I;16B", None),
            "i32": ([v - 100000 for v in gray(n, 2 ** 31 - 1, salt)], None, "I", None), "f32": ([v + 0.5 for v in g], None, "F", None), "rgb": (c, None, "RGB", None),
            "rgba": (color(n, 4, salt), None, "RGBA", None), "pal": ([i % 8 for i in range(n)], [PAL[i % 8] for i in range(n)], "P", PAL + [(0, 0, i) for i in range(248)])}[what]
        return W.tiff(w, h, px, what, order, pal, strips, comp == "z"), cube(want or px, w, h), mode
    if kind == "gif":
        ix = [i % 8 for i in range(salt, n + salt)]
        return W.gif(w, h, [dict(px=ix)], PAL), cube([PAL[i] for i in ix], w, h), "P"
    a = np.array(c, "u1").reshape(h, w, 3)
    if kind == "webp":
        return pillow(a, "WEBP", lossless=True), cube(c, w, h), "RGB"
    if kind == "jp2":
        return pillow(a, "JPEG2000", irreversible=False), cube(c, w, h), "RGB"
    if kind == "jp2-gray":
        return pillow(np.array(g, "u1").reshape(h, w), "JPEG2000", irreversible=False), cube(g, w, h), "L"
    if kind == "jp2-16":
        v = gray(n, 65535, salt)
        return pillow(np.array(v, "u2").reshape(h, w), "JPEG2000", irreversible=False), cube(v, w, h), "I;16"
    if kind in ("jpg", "jpg-gray"):  # blocks of one color survive
        k = 3 if kind == "jpg" else 1
        cols = color((w // 16 + 1) * (h // 16 + 1), k, salt)
        a = np.array([[cols[(y // 16) * (w // 16 + 1) + x // 16] for x in range(w)] for y in range(h)], "u1")
        a = a if k == 3 else a[..., 0]
        return pillow(a, "JPEG", quality=100, subsampling=0) if k == 3 else pillow(a, "JPEG", quality=100), np.moveaxis(a, 2, 0) if k == 3 else a, "RGB" if k == 3 else "L"
    raise KeyError(kind)


EXT = {"bmp": ["bmp", "BMP"], "png": ["png", "PNG", "Png"], "tif": ["tif", "tiff", "TIF", "TIFF"], "gif": ["gif", "GIF"], "web": ["webp", "WEBP"], "jp2": ["jp2", "JP2", "jpx", "jpf"], "jpg": ["jpg", "jpeg", "JPG", "JPEG"]}
FORMAT = {"bmp": "BMP", "png": "PNG", "tif": "TIFF", "gif": "GIF", "web": "WEBP", "jp2": "JPEG2000", "jpg": "JPEG"}
MIME = {"bmp": "image/bmp", "png": "image/png", "tif": "image/tiff", "gif": "image/gif", "web": "image/webp", "jp2": "image/jp2", "jpg": "image/jpeg"}


def kinds():
    out = ["bmp", "bmp-td", "bmp-pal", "gif", "webp", "jp2", "jp2-gray", "jp2-16", "jpg", "jpg-gray"]
    out += [f"png-gray-{d}-{f}" for d in (1, 2, 4, 8, 16) for f in (0, 1, 2)] + [f"png-{k}-8-{f}" for k in ("rgb", "la", "rgba", "pal") for f in (0, 1, 2)] + ["png-pal-2-0", "png-pal-4-0"]
    out += [f"tif-{k}-{o}-{s}-{z}" for k in ("bit", "u8", "u16", "i32", "f32", "rgb", "rgba", "pal") for o in ("le", "be") for s in (1, 2) for z in ("n", "z") if not (k in ("i32", "f32") and o == "be" and z == "z")]  # pillow misreads the others
    return out


def check_pixels(got, want, kind, what):
    require(isinstance(got, np.ndarray), f"{what} is not an array", type(got))
    require(got.shape == want.shape, f"{what}: shape", got.shape, want.shape)
    tol = 3 if kind.startswith("jpg") else 0
    if tol:
        require(np.abs(got.astype(int) - want.astype(int)).max() <= tol, f"{what}: pixels", got.ravel()[:8], want.ravel()[:8])
        return
    require((np.issubdtype(got.dtype, np.bool_)) == (want.dtype == bool), f"{what}: type", got.dtype)
    require(np.array_equal(got, want), f"{what}: pixels", got.ravel()[:12].tolist(), want.ravel()[:12].tolist())


def run_direct(c, ctx):
    kind, (w, h) = c["kind"], c["size"]
    raw, want, mode = make(kind, w, h, c["salt"])
    f = kind[:3]
    path = ctx.dir / f"{c['stem']}.{c['ext']}"
    path.write_bytes(raw)
    d, _ = pds.quiet_read(path)
    require(d.standard == FORMAT[f], "standard", d.standard)
    require(list(d.keys()) == ["IMAGE"], "index", d.keys())
    for k, v in dict(mode=mode, size=(w, h), width=w, height=h, format=FORMAT[f], mimetype=MIME[f] if c["ext"].lower() not in ("jpx", "jpf") else d.metaget("mimetype")).items():
        require(d.metaget(k) == v or (k == "mode" and mode.startswith("I;16") and str(d.metaget(k)).startswith("I;16")), f"metadata {k}", d.metaget(k), v)
    for _ in range(2):
        a = d["IMAGE"]
        check_pixels(a, want, kind, "IMAGE")
        require(d.get_scaled("IMAGE") is not None and np.array_equal(d.get_scaled("IMAGE"), a), "scaled")
        require(a.flags.writeable, "array is read-only")
        a[...] = 0
        d.load("IMAGE", reload=True)
        ctx.step()
    return "ok"


# ------------------------------------------------------------------- multiframe
def frames_of(c):
    """-> bytes, [arrays], names"""
    w, h, n, f = *c["size"], c["frames"], c["format"]
    if f == "gif":
        fs, canvas, wants = [], None, []
        for i, how in enumerate(c["how"]):
            if how == "full" or i == 0:
                px = [(j + i) % 8 for j in range(w * h)]
                pal = PAL
                fs.append(dict(px=px))
                canvas = np.array([pal[p] for p in px]).reshape(h, w, 3)
            elif how == "local":
                pal = PAL[::-1]
                px = [(j + i) % 8 for j in range(w * h)]
                fs.append(dict(px=px, palette=pal))
                canvas = np.array([pal[p] for p in px]).reshape(h, w, 3)
            else:  # a part drawn over the last frame
                px = [(3 + i + j) % 8 for j in range(2)]
                fs.append(dict(px=px, at=(1, 1), size=(2, 1), disposal=1))
                canvas = canvas.copy()
                canvas[1, 1:3] = [PAL[p] for p in px]
            wants.append(np.moveaxis(canvas, 2, 0))
        return W.gif(w, h, fs, PAL), wants, [f"FRAME_{i}" for i in range(n)]
    arrs = [np.array(color(w * h, 3, 5 * i), "u1").reshape(h, w, 3) for i in range(n)]
    ims = [Image.fromarray(a) for a in arrs]
    b = io.BytesIO()
    if f == "webp":
        ims[0].save(b, "WEBP", save_all=True, append_images=ims[1:], lossless=True, duration=100, minimize_size=False)
        return b.getvalue(), [np.moveaxis(a, 2, 0) for a in arrs], [f"FRAME_{i}" for i in range(n)]
    arrs = [np.full((h, w, 3), [(40 * i + 10) % 256, (90 * i + 50) % 256, 200 - 30 * i], "u1") for i in range(n)]
    ims = [Image.fromarray(a) for a in arrs]
    ims[0].save(b, "MPO", save_all=True, append_images=ims[1:], quality=100)
    return b.getvalue(), [np.moveaxis(a, 2, 0) for a in arrs], ["IMAGE"] + [f"_{i}" for i in range(1, n)]


def run_frames(c, ctx):
    raw, wants, names = frames_of(c)
    f = c["format"]
    path = ctx.dir / f"M.{dict(gif='gif', webp='webp', mpo='jpg')[f]}"
    path.write_bytes(raw)
    n = c["frames"]
    orders = list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(reversed(range(n)))]
    for order in [*orders, "all"]:
        d, _ = pds.quiet_read(path)
        keys = list(d.keys())
        require(len(keys) == n == len(set(keys)), "index", keys)
        require(all(k == w or (f == "mpo" and k.endswith(w)) for k, w in zip(keys, names)), "names", keys, names)
        require(d.metaget("n_frames") == n, "n_frames", d.metaget("n_frames"))
        if order == "all":
            with pds.silent():
                d.load("all")
            order = range(n)
        for i in [*order, *order]:
            a = d[keys[i]]
            want = wants[i]
            if f == "webp" and a.shape[0] == 4:
                require((a[3] == 255).all(), "alpha")
                a = a[:3]
            if f == "mpo":
                require(a.shape == want.shape and np.abs(a.astype(int) - want.astype(int)).max() <= 3, f"frame {i}", a.ravel()[:6], want.ravel()[:6])
            else:
                require(a.shape == want.shape and np.array_equal(a, want), f"frame {i}: pixels", a.shape, want.shape, a.ravel()[:8].tolist(), want.ravel()[:8].tolist())
            ctx.step()
        require(list(d.keys()) == keys, "index changed", list(d.keys()))
    return f


def frame_cases(deep):
    for n in (11, 12) if not deep else (11, 21, 101):
        yield dict(format="gif", size=[4, 3], frames=n, how=["full", "local", "part"] * (n // 3) + ["full"] * (n % 3))
        yield dict(format="webp", size=[4, 3], frames=n)
    for size in ((4, 3), (16, 16)) if not deep else ((4, 3), (16, 16), (3, 2), (17, 5)):
        for n in (2, 3, 4) if deep else (2, 3):
            for how in itertools.product(["full", "local", "part"], repeat=n):
                if how[0] == "full":
                    yield dict(format="gif", size=list(size), frames=n, how=list(how))
            yield dict(format="webp", size=list(size), frames=n)
            if n < 4:  # pillow writes damaged MPO files with more frames
                yield dict(format="mpo", size=list(size), frames=n)


# --------------------------------------------------------------------- labelled
def run_labelled(c, ctx):
    kind, (w, h) = c["kind"], c["size"]
    raw, want, _ = make(kind, w, h)
    if c.get("geo"):
        px = gray(w * h)
        raw, want = W.tiff(w, h, px, "u8", extra=[(34735, 3, [1, 1, 0, 1, 1024, 0, 1, 1])]), cube(px, w, h)
    f = kind[:3]
    fn = f"{c['stem']}.{c['ext']}"
    files = {fn: raw}
    ptr = {"bare": f'"{fn}"', "row": f'("{fn}", 1)', "byte": f'("{fn}", 1 <BYTES>)'}[c["pointer"]]
    st = [("RECORD_TYPE", "UNDEFINED"), (f"^{c['name']}", ptr)]
    block = [("LINES", h), ("LINE_SAMPLES", w), ("SAMPLE_BITS", 8), ("SAMPLE_TYPE", "UNSIGNED_INTEGER")]
    if want.ndim == 3:
        block.append(("BANDS", want.shape[0]))
    if c["scaled"]:
        block += [("SCALING_FACTOR", 2), ("OFFSET", 10)]
    if c["block"]:
        st.append(pds.block("OBJECT", c["name"], *block))
    path = pds.write_detached(ctx.dir, "P", st, files)
    target = path
    if c["open"] == "data":
        (ctx.dir / f"{c['stem']}.LBL").write_bytes(path.read_bytes())
        path.unlink()
        target = ctx.dir / fn
    d, _ = pds.quiet_read(target)
    if c["open"] == "data" and d.standard != "PDS3":
        raise Fail("the label was not found", d.standard)
    require(c["name"] in d.keys(), "index", list(d.keys()))
    for _ in range(2):
        with pds.silent():
            a = d[c["name"]]
            check_pixels(a, want, kind, c["name"])
            s = d.get_scaled(c["name"])
        lab = c["scaled"] and c["block"] and (f == "jp2" or c.get("geo"))
        valid = ~np.ma.getmaskarray(s)  # constants implied by the type
        require(valid.any() and s.shape == want.shape, "get_scaled", s)
        require(np.array_equal(np.asarray(s, float)[valid], (want.astype(float) * 2 + 10 if lab else want.astype(float))[valid]) or kind.startswith("jpg"), "get_scaled", np.asarray(s).ravel()[:5], want.ravel()[:5])
        check_pixels(d[c["name"]], want, kind, f"{c['name']} afterwards")
        with pds.silent():
            d.load(c["name"], reload=True)
        ctx.step()
    return "labelled"


# --------------------------------------------------------------------- metadata
LEAVES = {"text": "t{i}", "attr": None, "both": "b{i}", "none": ""}


def xml_forest(n, depth):
    """ordered forests of n nodes; a leaf is None"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        firsts = [None] if k == 1 else list(xml_forest(k - 1, depth - 1)) if depth > 1 else []
        for f in firsts:
            for rest in xml_forest(n - k, depth):
                yield (f,) + rest


def xml_text(node, names, kinds, ns, parents):
    """-> XML text, expected value of the node: text, a list of pairs, or None for nothing"""
    name, kind = next(names), None
    tag = f"{ns}:{name}" if ns else name
    if node is None:
        kind = next(kinds)
        i = xml_text.n = xml_text.n + 1
        at = f' {ns + ":" if ns else ""}k="v{i}" j="{i}"' if kind in ("attr", "both") else ""
        text = {"text": f"t{i}", "both": f" b{i} ", "attr": "", "none": "  "}[kind]
        want = {"text": f"t{i}", "none": None, "attr": [("k", f"v{i}"), ("j", str(i))]}.get(kind, [("attrib", [("k", f"v{i}"), ("j", str(i))]), ("text", f"b{i}")])
        return f"<{tag}{at}>{text}</{tag}>", (name, want)
    at, pairs = (' p="q"', [("p", "q")]) if parents else ("", [])
    inner = [xml_text(k, names, kinds, ns, parents) for k in node]
    pairs = pairs + [w for _, w in inner if w[1] is not None and w[1] != []]
    return f"<{tag}{at}>\n  {''.join(t for t, _ in inner)}\n</{tag}>", (name, pairs)


def plain(x):
    items = getattr(x, "items", None)
    return [(k, plain(v)) for k, v in items()] if items else x


def run_xmp(c, ctx):
    xml_text.n = 0
    names, ks = itertools.cycle(c["names"]), itertools.cycle(c["kinds"])
    inner = [xml_text(k, names, ks, c["ns"], c["parents"]) for k in c["shape"]]
    xmlns = ' xmlns:x="adobe:ns:meta/" xmlns:r="urn:r"'
    body = f"<x:xmpmeta{xmlns}>{''.join(t for t, _ in inner)}</x:xmpmeta>"
    want = [w for _, w in inner if w[1] is not None and w[1] != []]
    px = gray(6)
    raw = W.tiff(3, 2, px, "u8", c["order"], extra=[(700, 1, list(body.encode())), (270, 2, b"a picture\0"), (305, 2, b"maker 1\0"), (33432, 2, b"(c) nobody\0")])
    (ctx.dir / "X.tif").write_bytes(raw)
    d, _ = pds.quiet_read(ctx.dir / "X.tif")
    md = d.metadata
    got = md.get("XMLPacket")
    require(got is not None and plain(got) == want, f"XMLPacket is {short(plain(got), 300)}", want, body)
    for k, v in (("ImageDescription", "a picture"), ("Software", "maker 1"), ("Copyright", "(c) nobody"), ("ImageWidth", 3), ("ImageLength", 2), ("width", 3), ("format", "TIFF"), ("mimetype", "image/tiff")):
        require(d.metaget_(k) == v, f"metadata {k} is {d.metaget_(k)!r}", v)
    check_pixels(d["IMAGE"], cube(px, 3, 2), "tif", "IMAGE")
    ctx.step()
    # every name in the packet can be asked for
    for n in {k for k, v in want}:
        a = md.metaget_(n)
        require(plain(a) == next(v for k, v in want if k == n) or n in ("k", "j", "p"), f"metaget({n!r}) is {a!r}", want)
    return "xmp"


def xmp_cases(deep):
    for n in range(1, 5 if deep else 4):
        for shape in xml_forest(n, 3):
            leaves = sum(1 for _ in iter_leaves(shape))
            for names in (["a"], ["a", "b"], ["a", "a", "b"], ["a", "b", "b"]):
                for kinds_ in itertools.product(LEAVES, repeat=min(leaves, 3)):
                    for ns in ("", "x", "r"):
                        for parents in (False, True):
                            if parents and leaves == n or (ns and not deep and n == 3 and len(set(kinds_)) > 2):
                                continue
                            if all(k == "none" for k in kinds_):
                                continue  # a packet without content
                            yield dict(shape=shape, names=names, kinds=list(kinds_), ns=ns, parents=parents, order="<" if n % 2 else ">")


def iter_leaves(shape):
    for k in shape:
        if k is None:
            yield k
        else:
            yield from iter_leaves(k)


EXIF = {"Make": (271, "Nikon"), "Model": (272, "D 1"), "Orientation": (274, 3), "Software": (305, "soft"), "DateTime": (306, "2001:02:03 04:05:06"), "Artist": (315, "me"), "unnamed": (65000, 7)}
GPS = {"VersionID": (0, b"\2\3\0\0"), "LatitudeRef": (1, "N"), "LongitudeRef": (3, "W"), "AltitudeRef": (5, b"\1"), "MapDatum": (18, "WGS-84")}


def run_exif(c, ctx):
    ex = Image.Exif()
    for k in c["tags"]:
        ex[EXIF[k][0]] = EXIF[k][1]
    if c["gps"]:
        ex[34853] = {GPS[k][0]: GPS[k][1] for k in c["gps"]}
    kind = c["format"]
    f = {"png": "PNG", "jpg": "JPEG", "webp": "WEBP"}[kind]
    a = np.full((3, 5, 3), (10, 200, 30), "u1")
    b = io.BytesIO()
    Image.fromarray(a).save(b, f, exif=ex.tobytes(), **({"lossless": True} if kind == "webp" else {"quality": 100} if kind == "jpg" else {}))
    (ctx.dir / f"E.{kind}").write_bytes(b.getvalue())
    d, _ = pds.quiet_read(ctx.dir / f"E.{kind}")
    for k in EXIF:
        want = EXIF[k][1] if k in c["tags"] else None
        got = d.metaget_("65000" if k == "unnamed" else k)
        require(got == want, f"{k} is {got!r}", want)
    for k in GPS:
        want = GPS[k][1] if k in c["gps"] else None
        got = d.metaget_(k)
        require(got == want, f"GPS {k} is {got!r}", want)
    require(d["IMAGE"].shape == (3, 3, 5), "shape", d["IMAGE"].shape)
    ctx.step()
    return "exif"


def exif_cases(deep):
    for kind in ("jpg", "png", "webp"):
        for n in range(0, 3 if not deep else 4):
            for tags in itertools.combinations(EXIF, n):
                for m in (0, 1, 2, len(GPS)):
                    for gps in itertools.combinations(GPS, m):
                        if n or m:
                            yield dict(format=kind, tags=list(tags), gps=list(gps))


def labelled_cases(deep):
    ks = ["bmp", "bmp-pal", "gif", "webp", "jp2", "jp2-gray", "jpg", "jpg-gray", "png-gray-8-0", "png-rgb-8-0", "png-pal-8-0", "png-gray-16-0", "tif-u8-le-1-n", "tif-u16-be-2-n", "tif-rgb-le-1-n", "tif-f32-le-1-n"]
    for k in (kinds() if deep else ks):
        for ext in EXT[k[:3]]:
            for ptr in ("bare", "row", "byte"):
                for block in (True, False):
                    for scaled in ((False, True) if block else (False,)):
                        for name in ("IMAGE", "BROWSE_IMAGE"):
                            for op in ("label", "data"):
                                if not deep and (ptr != "bare") + (name != "IMAGE") + (op == "data") + (ext != EXT[k[:3]][0]) > 2:
                                    continue
                                yield dict(kind=k, size=[5, 4] if not k.startswith("jpg") else [20, 18], ext=ext, pointer=ptr, block=block, scaled=scaled, name=name, open=op, stem="D")
    for ext in EXT["tif"]:
        for scaled in (False, True):
            yield dict(kind="tif-u8-le-1-n", geo=True, size=[5, 4], ext=ext, pointer="bare", block=True, scaled=scaled, name="IMAGE", open="label", stem="D")


def direct_cases(deep):
    for k in kinds():
        sizes = [(1, 1), (17, 3), (16, 16), (33, 20)] if k.startswith("jpg") else SIZES if deep or k.split("-")[0] not in ("png", "tif") else SIZES[1:6]
        for s in sizes:
            if k.startswith("jp2") and min(s) < 2:
                continue
            for salt in (0, 3) if deep else (0,):
                for i, ext in enumerate(EXT[k[:3]]):
                    if not deep and i and s != sizes[-1]:
                        continue
                    yield dict(kind=k, size=list(s), ext=ext, salt=salt, stem="I")
        for stem in ("a.b", "x y", "LBL", "img.fits"):
            yield dict(kind=k, size=list(sizes[-1]), ext=EXT[k[:3]][0], salt=1, stem=stem)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("direct", direct_cases(deep), run_direct, "formats x modes x sizes x extensions, opened without a label"),
        Space("frames", frame_cases(deep), run_frames, "multi-frame GIF, WebP, MPO: every access order"),
        Space("xmp", xmp_cases(deep), run_xmp, "every XMP packet tree up to 3 (thorough 4) elements x element names x kinds of leaf x namespaces"),
        Space("exif", exif_cases(deep), run_exif, "EXIF tag and GPS subsets in JPEG, PNG and WebP"),
        Space("labelled", labelled_cases(deep), run_labelled, "the same through PDS3 labels: pointer forms, scaling, opening label or data"),
    ]
