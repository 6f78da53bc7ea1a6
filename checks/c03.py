"""C03: PDS3 images decode to exactly the pixels the label describes.

The writer lays out an image byte by byte from the label parameters (PDS3 Standards Reference, IMAGE object); the model of the
result is the list of values that were laid out. All layout combinations and all sample types are enumerated."""
from mc.core import Space, deviations, product, require
from mc import pds

ASSUMPTIONS = ["numpy's native dtypes implement IEEE 754 and two's complement",
               "line prefix/suffix of multiband images: one prefix and suffix per interleaved line record, as pdr documents"]
BST = {"BSQ": "BAND_SEQUENTIAL", "BIL": "LINE_INTERLEAVED", "BIP": "SAMPLE_INTERLEAVED"}


def layout(c, kind, order, nb):
    """-> (bytes on disk, values in (band, line, sample) order, prefix rows, suffix rows)"""
    B, L, S = c["bands"], c["lines"], c["samples"]
    pre, suf = c["pre"] * nb, c["suf"] * nb
    out, at, n = bytearray(), {}, 0

    def put(b, l, s):
        nonlocal n
        v = pds.pixel_value(kind, nb, n)
        n += 1
        at[b, l, s] = v
        out.extend(pds.encode_value(kind, order, nb, v))

    def pad(k):
        out.extend(pds.filler(k, len(out)))

    if B == 1 or c["bst"] == "BSQ":
        for b in range(B):
            for l in range(L):
                pad(pre)
                for s in range(S):
                    put(b, l, s)
                pad(suf)
    elif c["bst"] == "BIL":
        for l in range(L):
            pad(pre)
            for b in range(B):
                for s in range(S):
                    put(b, l, s)
            pad(suf)
    else:
        for l in range(L):
            for s in range(S):
                for b in range(B):
                    put(b, l, s)
    values = [at[b, l, s] for b in range(B) for l in range(L) for s in range(S)]
    return bytes(out), values


def image_block(c, nb, name="IMAGE"):
    st = [("LINES", c["lines"]), ("LINE_SAMPLES", c["samples"]), ("SAMPLE_TYPE", c["type"]), ("SAMPLE_BITS", nb * 8)]
    if c["bands"] > 1 or c.get("bandkw"):
        st += [("BANDS", c["bands"])]
    if c["bands"] > 1 or c.get("bandkw") == "both":
        st += [("BAND_STORAGE_TYPE", BST[c["bst"]])]
    if c["pre"]:
        st += [("LINE_PREFIX_BYTES", c["pre"] * nb)]
    if c["suf"]:
        st += [("LINE_SUFFIX_BYTES", c["suf"] * nb)]
    if c.get("zeropad"):
        st += [(f"LINE_{k}_BYTES", 0) for k in ("PREFIX", "SUFFIX") if not c["pre" if k == "PREFIX" else "suf"]]
    if c.get("kworder"):
        st = st[::-1]
    return pds.block("OBJECT", name, *st)


def run(c, ctx):
    kind, order = pds.ALL_IMAGE_TYPES[c["type"]]
    nb = c["nb"]
    raw, values = layout(c, kind, order, nb)
    tail = {"none": b"", "one": b"\x7f", "item": pds.filler(nb * 3), "big": pds.filler(len(raw) * 2 + 5)}[c["tail"]]
    R = c.get("rec", 8)
    lead = pds.filler(c["offset"])
    payload = lead + raw + tail
    how = c["how"]
    blk = image_block(c, nb)
    common = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", R)]
    if how == "attached":
        R = 64
        common = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", R)]
        fill = -c["offset"] % R
        payload = pds.filler(fill) + payload
        k = (fill + c["offset"]) // R
        path, n = pds.write_attached(
            ctx.dir, "p.img", lambda n: common + [("LABEL_RECORDS", n), ("^IMAGE", n + 1 + k), blk], R, payload)
    else:
        if c["offset"] == 0:
            ptr = '"P.IMG"'
        elif c["offset"] % R == 0:
            ptr = f'("P.IMG", {c["offset"] // R + 1})'
        else:
            ptr = f'("P.IMG", {c["offset"] + 1} <BYTES>)'
        path = pds.write_detached(ctx.dir, "p", common + [("^IMAGE", ptr), blk], {"P.IMG": payload})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "IMAGE")
    B, L, S = c["bands"], c["lines"], c["samples"]
    shape = (L, S) if B == 1 else (B, L, S)
    pds.check_array(got, shape, values, {"vax": "f", "ibm": None}.get(kind, kind), nb, "IMAGE")
    require(got.flags["C_CONTIGUOUS"], "image is not C-contiguous")
    require(not warned, "loading a well-formed image warned", warned)
    ctx.step(B * L * S)
    return f"{shape}"


def guess(c, ctx):
    """a storage type pdr does not know: it says so, and guesses BAND_SEQUENTIAL"""
    kind, order = pds.ALL_IMAGE_TYPES[c["type"]]
    raw, values = layout(c, kind, order, c["nb"])
    blk = image_block(c, c["nb"])
    blk = (blk[0], blk[1], [("BAND_STORAGE_TYPE", c["word"]) if s[0] == "BAND_STORAGE_TYPE" else s for s in blk[2]])
    path = pds.write_detached(ctx.dir, "p", [("^IMAGE", '"P.IMG"'), blk], {"P.IMG": raw})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "IMAGE")
    require(warned, "no warning for an unknown band storage type")
    pds.check_array(got, (c["bands"], c["lines"], c["samples"]), values, kind, c["nb"], "IMAGE")
    ctx.step(len(values))
    return "guessed"


def refuse(c, ctx):
    """unsupported layouts must be refused with a warning, never misread"""
    kind, order = pds.ALL_IMAGE_TYPES[c["type"]]
    nb = c["nb"]
    raw, values = layout(c, kind, order, nb)
    blk = image_block(c, nb)
    if c["bad"] == "nobst":
        blk = (blk[0], blk[1], [s for s in blk[2] if s[0] != "BAND_STORAGE_TYPE"])
    if c["bad"] == "short":
        raw = raw[: len(raw) - 1]
    if c["bad"] == "oddpad":
        blk[2].append(("LINE_PREFIX_BYTES", 3))
    path = pds.write_detached(ctx.dir, "p", [("RECORD_BYTES", 8), ("^IMAGE", '"P.IMG"'), blk], {"P.IMG": raw})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "IMAGE")
    require(not hasattr(got, "shape"), "an image that cannot be what the label says was returned", got)
    require(len(warned) > 0, "no warning for an unreadable image")
    ctx.step()
    return "refused " + c["bad"]


def spaces(tier):
    deep = tier == "thorough"
    ext = (1, 2, 3)
    types3 = [("UNSIGNED_INTEGER", 1), ("LSB_INTEGER", 2), ("IEEE_REAL", 4)]
    if deep:
        types3 += [("VAX_REAL", 4), ("MSB_UNSIGNED_INTEGER", 2), ("PC_REAL", 8)]

    def layouts():
        for t, nb in types3:
            for c in product(dict(
                how=("detached", "attached"), bands=ext, lines=ext, samples=ext + ((4, 5) if deep else ()), bst=tuple(BST),
                pre=(0, 1, 2), suf=(0, 1, 2), offset=(0, 16, 5), tail=("none", "one", "item", "big"),
            )):
                if c["bands"] == 1 and c["bst"] != "BSQ":
                    continue
                if c["bands"] > 1 and c["bst"] != "BIL" and (c["pre"] or c["suf"]):
                    continue
                if c["how"] == "attached" and c["offset"] == 5:
                    continue
                if not deep and (c["how"] == "attached") and (c["pre"] == 1 or c["suf"] == 1):
                    continue
                yield dict(c, type=t, nb=nb)

    def types():
        for t, (k, o) in pds.ALL_IMAGE_TYPES.items():
            for nb in pds.WIDTHS[k]:
                if t.startswith("VAX_INT") and nb == 8:
                    pass
                for shape in ((1, 3, 5), (2, 2, 4), (3, 1, 3), (1, 1, 1)):
                    for bst in BST if shape[0] > 1 else ("BSQ",):
                        for pre, suf in ((0, 0), (1, 0), (0, 1), (2, 1)):
                            if shape[0] > 1 and bst != "BIL" and (pre or suf):
                                continue
                            for tail in ("none", "big"):
                                yield dict(type=t, nb=nb, bands=shape[0], lines=shape[1], samples=shape[2], bst=bst,
                                           pre=pre, suf=suf, offset=3, tail=tail, how="detached")

    def variants():
        for c in product(dict(
            bandkw=("", "one", "both"), zeropad=(0, 1), kworder=(0, 1), bands=(1, 3), lines=(2,), samples=(3,), bst=tuple(BST),
            pre=(0, 2), suf=(0, 1), offset=(0, 24, 9), tail=("none", "big"), how=("detached",), type=("MSB_INTEGER",), nb=(2,),
        )):
            if c["bands"] > 1 and c["bst"] != "BIL" and (c["pre"] or c["suf"]):
                continue
            yield c

    def bad():
        for c in product(dict(
            bad=("nobst", "short", "oddpad", "bsqpad"), bands=(1, 2, 3), lines=ext, samples=ext, bst=tuple(BST), pre=(0, 1), suf=(0, 1),
            offset=(0,), tail=("none",), how=("detached",), type=("LSB_INTEGER",), nb=(2,),
        )):
            pad = c["pre"] or c["suf"]
            if c["bad"] == "nobst" and c["bands"] == 1 or c["bad"] == "oddpad" and c["pre"]:
                continue
            if c["bad"] == "bsqpad" and not (pad and c["bands"] > 1 and c["bst"] != "BIL"):
                continue
            yield c

    def words():
        for c in product(dict(bands=(2, 3), lines=ext, samples=ext, offset=(0,), bst=("BSQ",), pre=(0,), suf=(0,), tail=("none",), type=("LSB_INTEGER", "MSB_UNSIGNED_INTEGER"), nb=(2,),
                              word=("UNKNOWN", '"BAND SEQUENTIALLY"', '"N/A"', "PIXEL_INTERLEAVED"))):
            yield c

    rule = "product of the listed axes; non-trivial: every case decodes at least one pixel that must equal a stored value"
    return [
        Space("layout", layouts, run, rule), Space("types", types, run, rule),
        Space("keyword-variants", variants, run, rule), Space("refusals", bad, refuse, "unsupported or short layouts"),
        Space("storage-words", words, guess, "storage types pdr does not know"),
    ]
