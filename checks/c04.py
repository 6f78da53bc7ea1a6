"""C04: ISIS qubes, with or without axis planes, decode to the labelled core.

Reference model: an extended cube is laid out item by item, first-named axis fastest, with plane items where the label puts them; the expected
object is the list of core items in (band, line, sample) order."""
import itertools

from mc import pds
from mc.core import Space, product, require

ASSUMPTIONS = ["planes on one axis at a time (pdr refuses more), plane item size a multiple of the core item size"]
ORDERS = {"BSQ": ("SAMPLE", "LINE", "BAND"), "BIP": ("BAND", "SAMPLE", "LINE"), "BIL": ("SAMPLE", "BAND", "LINE")}
LONG = {"BSQ": "BAND_SEQUENTIAL", "BIP": "SAMPLE_INTERLEAVED", "BIL": "LINE_INTERLEAVED"}


def build(c):
    kind, order = pds.ALL_IMAGE_TYPES[c["type"]]
    nb = c["nb"]
    axes = ORDERS[c["order"]]
    core = {"BAND": c["bands"], "LINE": c["lines"], "SAMPLE": c["samples"]}
    # plane thickness in core items along its axis
    pre = {a: 0 for a in axes}
    suf = dict(pre)
    for a, p, s in c["planes"]:
        pre[a], suf[a] = p * c["mult"], s * c["mult"]
    out, at, n = bytearray(), {}, 0
    ext = [range(-pre[a], core[a] + suf[a]) for a in reversed(axes)]  # slowest first
    for idx in itertools.product(*ext):
        pos = dict(zip(reversed(axes), idx))
        if all(0 <= pos[a] < core[a] for a in axes):
            v = pds.pixel_value(kind, nb, n)
            n += 1
            at[pos["BAND"], pos["LINE"], pos["SAMPLE"]] = v
            out += pds.encode_value(kind, order, nb, v)
        else:
            out += pds.filler(nb, len(out))
    values = [at[b, l, s] for b in range(core["BAND"]) for l in range(core["LINE"]) for s in range(core["SAMPLE"])]
    seq = lambda t: "(" + (", " if c.get("sp", 1) else ",").join(str(x) for x in t) + ")"
    top = [("AXES", 3), ("AXIS_NAME", seq(axes))]
    corest = [("CORE_ITEMS", seq(core[a] for a in axes)), ("CORE_ITEM_BYTES", nb), ("CORE_ITEM_TYPE", c["type"])]
    if c.get("bst"):
        top.append(("BAND_STORAGE_TYPE", LONG[c["order"]]))
    for side, d in (("PREFIX", pre), ("SUFFIX", suf)):
        named = [a for a in axes if d[a] or (c.get("zero") and side == "SUFFIX")]
        if named or c.get("zero"):
            top.append((f"{side}_ITEMS", seq(d[a] // c["mult"] for a in axes)))
        for a in named:
            if c.get("seqbytes") and d[a]:
                top.append((f"{a}_{side}_ITEM_BYTES", seq([nb * c["mult"]] * (d[a] // c["mult"]))))
            else:
                top.append((f"{a}_{side}_ITEM_BYTES", nb * c["mult"]))
    if c.get("nested") and c.get("incore"):
        body = top[:1] + top[2:] + [pds.block(c["nested"], "CORE", top[1], *corest)]
    elif c.get("nested"):
        body = top + [pds.block(c["nested"], "CORE", *corest)]
    else:
        body = top[:2] + corest + top[2:]
    return bytes(out), values, body, (c["bands"], c["lines"], c["samples"])


def run(c, ctx):
    raw, values, body, shape = build(c)
    kind = pds.ALL_IMAGE_TYPES[c["type"]][0]
    tail = pds.filler({"none": 0, "big": len(raw) * 8 + 3}[c["tail"]])
    name = c["name"]
    ptr = '"Q.QUB"' if not c["offset"] else f'("Q.QUB", {c["offset"] + 1} <BYTES>)'
    path = pds.write_detached(
        ctx.dir, "q", [("RECORD_BYTES", 512), (f"^{name}", ptr), pds.block("OBJECT", name, *body)],
        {"Q.QUB": pds.filler(c["offset"]) + raw + tail})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, name)
    if shape[0] == 1:
        shape = shape[1:]
    pds.check_array(got, shape, values, {"vax": "f", "ibm": None}.get(kind, kind), c["nb"], name)
    require(got.flags["C_CONTIGUOUS"], "qube is not C-contiguous")
    require(not warned, "loading a well-formed qube warned", warned)
    ctx.step(len(values))
    return f"{c['order']} planes={c['planes']}"


def refuse(c, ctx):
    raw, values, body, shape = build(c)
    if c["bad"] == "short":
        raw = raw[:-1]
    elif c["bad"] == "noaxes":
        body = [s for s in body if s[0] != "AXIS_NAME"]
    elif c["bad"] == "badorder":
        body = [s if s[0] != "AXIS_NAME" else ("AXIS_NAME", "(LINE, SAMPLE, BAND)") for s in body]
    elif c["bad"] == "oddplane":
        body = [s if not s[0].endswith("_SUFFIX_ITEM_BYTES") else (s[0], 3) for s in body]
    elif c["bad"] == "noitems":
        body = [s for s in body if s[0] not in ("PREFIX_ITEMS", "SUFFIX_ITEMS")]
    elif c["bad"] == "unequal":
        body = [s if not s[0].endswith("FIX_ITEM_BYTES") else (s[0], f"({c['nb']}, {2 * c['nb']})") for s in body]
    elif c["bad"] == "planesnoaxes":
        body = [s for s in body if s[0] != "AXIS_NAME"]
    elif c["bad"] == "linefix":
        body = body + [("LINE_PREFIX_BYTES", c["nb"])]
    path = pds.write_detached(
        ctx.dir, "q", [("^QUBE", '"Q.QUB"'), pds.block("OBJECT", "QUBE", *body)], {"Q.QUB": raw})
    data, _ = pds.quiet_read(path)
    got, warned = pds.load(data, "QUBE")
    require(not hasattr(got, "shape"), f"uninterpretable qube ({c['bad']}) was returned as an array", got)
    require(warned, "no warning for an uninterpretable qube")
    ctx.step()
    return c["bad"]


def spaces(tier):
    deep = tier == "thorough"
    ext = (1, 2, 3)
    none = [()]
    one = [((a, p, s),) for a in ("BAND", "LINE", "SAMPLE") for p, s in ((0, 1), (1, 0), (0, 2), (2, 1))]
    base = dict(name="QUBE", offset=0, tail="none", mult=1)
    D = lambda *ds: {k: v for d in ds for k, v in d.items()}

    def layout():
        types = [("UNSIGNED_INTEGER", 1), ("MSB_INTEGER", 2), ("PC_REAL", 4)] + ([("VAX_REAL", 4), ("LSB_UNSIGNED_INTEGER", 4)] if deep else [])
        for t, nb in types:
            for c in product(dict(order=list(ORDERS), bands=ext, lines=ext, samples=ext, planes=none + one, mult=(1, 2), zero=(0, 1), tail=("none", "big"))):
                if not c["planes"] and c["mult"] > 1 and not c["zero"]:
                    continue
                if not deep and c["mult"] == 2 and (c["zero"] or c["tail"] == "none"):
                    continue
                yield D(base, c, dict(type=t, nb=nb))

    def types():
        for t, (k, _) in pds.ALL_IMAGE_TYPES.items():
            for nb in pds.WIDTHS[k]:
                for c in product(dict(order=list(ORDERS), planes=none + [(("BAND", 0, 1),), (("SAMPLE", 1, 1),)], tail=("none", "big"))):
                    yield D(base, dict(bands=2, lines=3, samples=2), c, dict(type=t, nb=nb))

    def variants():
        for c in product(dict(
            order=list(ORDERS), nested=("", "GROUP", "OBJECT"), incore=(0, 1), bst=(0, 1), sp=(0, 1), seqbytes=(0, 1), zero=(0, 1), offset=(0, 512, 33), tail=("none", "big"),
            name=("QUBE", "SPECTRAL_QUBE"), planes=none + [(("BAND", 0, 2),), (("SAMPLE", 0, 1),), (("LINE", 1, 0),)],
        )):
            if c["incore"] and not c["nested"] or not deep and (c["incore"] and c["sp"]):
                continue
            if not deep and c["name"] != "QUBE" and (c["zero"] or c["nested"]):
                continue
            yield D(base, dict(bands=2, lines=3, samples=2, type="LSB_INTEGER", nb=2), c)

    def bad():
        for c in product(dict(order=list(ORDERS), bands=ext, lines=ext, samples=ext, bad=("short", "noaxes", "badorder", "oddplane", "twoaxes"))):
            planes = {"oddplane": (("BAND", 0, 1),), "twoaxes": (("BAND", 0, 1), ("SAMPLE", 1, 0))}.get(c["bad"], ())
            yield D(base, dict(type="MSB_INTEGER", nb=2, planes=planes), c)
        for c in product(dict(order=list(ORDERS), bands=ext, lines=ext, samples=ext, bad=("noitems", "unequal", "planesnoaxes", "linefix"), planes=[((a, 1, 0),) for a in ("BAND", "LINE", "SAMPLE")] + [((a, 0, 2),) for a in ("BAND", "LINE", "SAMPLE")])):
            yield D(base, dict(type="MSB_INTEGER", nb=2), c)

    return [
        Space("layout", layout, run, "axis order x extents x plane axis/side/thickness x plane item size x zero-size planes x trailing data"),
        Space("types", types, run, "every item type and width x order x planes"),
        Space("variants", variants, run, "label styles: nested CORE, redundant storage type, plane bytes as sequences, offsets, names"),
        Space("refusals", bad, refuse, "uninterpretable or short qubes"),
    ]
