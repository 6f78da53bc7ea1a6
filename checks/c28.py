"""C28: tables in image lines' prefixes decode to their rows; the image keeps its pixels.

The writer lays out every line as prefix (one table row and padding), pixels and suffix. All ways pdr documents to describe the table are enumerated: a ^..._STRUCTURE in the IMAGE (the table is then listed as
<image>_LINE_PREFIX_TABLE), a pointer at the image's own position without definition of its own, and a definition of its own; format files with bare columns or a TABLE around them; column lists, sample sizes, suffixes, padding,
positions, names and more than one image."""
from mc import pds, tables as T
from mc.core import Space, deviations, product, require

TECHNIQUE = "exhaustive enumeration of line-prefix layouts and of the ways to describe them on the real code, against a byte-for-byte writer"
ASSUMPTIONS = ["a line prefix table has one row per line, at the start of the line's prefix"]

COL = lambda name, typ, nb, gap=0: dict(k="col", name=name, type=typ, nb=nb, gap=gap)
LISTS = {
    "one": [COL("A", "MSB_UNSIGNED_INTEGER", 2)],
    "wide": [COL("A", "MSB_UNSIGNED_INTEGER", 4), COL("B", "CHARACTER", 4)],
    "gap": [COL("A", "MSB_INTEGER", 2), COL("B", "LSB_INTEGER", 2, 4)],
    "text": [COL("T", "CHARACTER", 8)],
    "mixed": [COL("A", "IEEE_REAL", 4), COL("B", "MSB_UNSIGNED_INTEGER", 1), COL("C", "MSB_UNSIGNED_INTEGER", 1), COL("D", "LSB_UNSIGNED_INTEGER", 2)],
    "items": [dict(k="items", name="I", type="MSB_INTEGER", nb=2, n=2, pad=0, gap=0), COL("B", "MSB_INTEGER", 4)],
    "bits": [dict(k="bits", name="F", type="MSB_BIT_STRING", nb=2, gap=0, fields=[("X", 1, 3), ("Y", 4, 13)]), COL("B", "MSB_INTEGER", 2)],
    "cont": [COL("H", "MSB_UNSIGNED_INTEGER", 4), dict(k="cont", name="K", els=[COL("P", "MSB_INTEGER", 2), COL("Q", "MSB_INTEGER", 2)], reps=2, gap=0)],
}
SAMPLES = {"u8": ("MSB_UNSIGNED_INTEGER", 1), "i16": ("MSB_INTEGER", 2), "l16": ("LSB_UNSIGNED_INTEGER", 2), "f32": ("IEEE_REAL", 4)}
FORMS = ["implied", "implied plain", "implied own", "pointer", "defined", "elsewhere"]
BASE = dict(cols="wide", samp="i16", lines=3, samples=2, tail=0, suf=0, form="implied", fmt="bare", where="file", name="IMAGE", images=1, place="first", comp="", which=0)


def make(c, i):
    """one image with a table in its prefixes -> (bytes, pixel values, table cells)"""
    typ, nb = SAMPLES[c["samp"]]
    kind, order = pds.IMAGE_TYPES[typ]
    els = LISTS[c["cols"]]
    pre = T.span(els) + c["tail"]
    rows, cells = T.make_rows(els, c["lines"], pad=c["tail"], salt=17 * i)
    out, vals = bytearray(), []
    for l in range(c["lines"]):
        out += rows[l * pre:(l + 1) * pre]
        for s in range(c["samples"]):
            vals.append(pds.pixel_value(kind, nb, len(vals) + 31 * i))
            out += pds.encode_value(kind, order, nb, vals[-1])
        out += pds.filler(c["suf"] * nb, 7 * l)
    return bytes(out), vals, cells


def run(c, ctx):
    typ, nb = SAMPLES[c["samp"]]
    kind, order = pds.IMAGE_TYPES[typ]
    els = LISTS[c["cols"]]
    pre, suf = T.span(els) + c["tail"], c["suf"] * nb
    if pre % nb:
        return "trivial: prefix of a fraction of a pixel"
    line = pre + c["samples"] * nb + suf
    files = {}
    columns = T.statements(els, files)
    fmt = columns
    if c["fmt"] != "bare":
        body = [("NAME", "PREFIXES")] if c["fmt"] == "named table" else []
        body += [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", c["lines"]), ("COLUMNS", len(els)), ("ROW_BYTES", pre)] + ([("ROW_SUFFIX_BYTES", line - pre)] if c["fmt"] != "table without suffix" else [])
        fmt = [pds.block("OBJECT", "LINE_PREFIX_TABLE" if c["fmt"] != "other table" else "TABLE", *body, *columns)]
    files["PREFIX.FMT"] = T.fmt_text(fmt)
    names = [c["name"]] if c["images"] == 1 else [c["name"], "X_" + c["name"]]
    made = [make(c, i) for i in range(len(names))]
    key = "^STRUCTURE" if c["form"] == "implied plain" else "^LINE_PREFIX_STRUCTURE"
    form = "implied" if c["form"].startswith("implied") else c["form"]
    images = []
    for i, n in enumerate(names):
        st = [("LINES", c["lines"]), ("LINE_SAMPLES", c["samples"]), ("SAMPLE_TYPE", typ), ("SAMPLE_BITS", 8 * nb), ("LINE_PREFIX_BYTES", pre)] + ([("LINE_SUFFIX_BYTES", suf)] if suf else [])
        if form != "defined" and not (c["form"] == "implied own" and i):
            st.insert(len(st) if c["place"] == "last" else 0, (key, '"PREFIX.FMT"'))
        images.append(pds.block("OBJECT", n, *st))
    # positions
    which = c["which"]  # the image whose table has a pointer
    lead = {"file": 0, "bytes": 5, "record": 2 * line, "attached": 0, "apart": 0}[c["where"]]
    datas = b"".join(m[0] + b"\xee" * (line * 2 if c["where"] in ("record", "attached") else 3) for m in made)
    at, offs = lead, []
    for m in made:
        offs.append(at)
        at += len(m[0]) + (line * 2 if c["where"] in ("record", "attached") else 3)

    def target(i, base=0, shift=0):
        o = offs[i] + shift
        if c["where"] == "apart":
            return f'"D{i}.IMG"' if not shift else f'("D{i}.IMG", {shift + 1} <BYTES>)'
        if c["where"] == "file":
            return '"D.IMG"' if o == 0 else f'("D.IMG", {o + 1} <BYTES>)'
        if c["where"] == "bytes":
            return f'("D.IMG", {o + 1} <BYTES>)'
        if c["where"] == "record":
            return f'("D.IMG", {o // line + 1})'
        return str(base + o // line + 1)

    def label(base):
        pointers = [(f"^{n}", target(i, base)) for i, n in enumerate(names)]
        blocks = list(images)
        tname = "LINE_PREFIX_TABLE"
        if form in ("pointer", "defined"):
            pointers = [(f"^{tname}", target(which, base))] + pointers if c["place"] == "first" else pointers + [(f"^{tname}", target(which, base))]
        if form == "elsewhere":
            pointers.append((f"^{tname}", target(which, base, line if c["where"] in ("record", "attached") else 1)))
        if form == "defined":
            blocks.append(pds.block("OBJECT", tname, ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", c["lines"]), ("COLUMNS", len(els)), ("ROW_BYTES", pre), ("ROW_SUFFIX_BYTES", line - pre), ("^STRUCTURE", '"PREFIX.FMT"')))
        return [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", line)] + pointers + blocks

    if c["where"] == "attached":
        for n, content in files.items():
            (ctx.dir / n).write_bytes(content.encode())
        path, _ = pds.write_attached(ctx.dir, "D.IMG", label, line, datas)
    else:
        path = pds.write_detached(ctx.dir, "P", label(0), {**({f"D{i}.IMG": m[0] for i, m in enumerate(made)} if c["where"] == "apart" else {"D.IMG": b"\xdd" * lead + datas}), **{k: v.encode() for k, v in files.items()}})
    if c["comp"]:
        if c["where"] == "attached":
            return "trivial: attached label"
        for n in ([f"D{i}.IMG" for i in range(len(made))] if c["where"] == "apart" else ["D.IMG"]):
            pds.compress_file(ctx.dir / n, c["comp"])
    listed = list(names) + (["LINE_PREFIX_TABLE"] if form in ("pointer", "defined", "elsewhere") else [])
    tables = {}
    for i, n in enumerate(names):
        if form in ("implied", "elsewhere") and not (c["form"] == "implied own" and i):
            tables[f"{n}_LINE_PREFIX_TABLE"] = i
        elif form == "pointer" and i != which:
            tables[f"{n}_LINE_PREFIX_TABLE"] = i
    if form in ("pointer", "defined"):
        tables["LINE_PREFIX_TABLE"] = which
    d, _ = pds.quiet_read(path)
    keys = list(d.keys())
    require(len(set(keys)) == len(keys) and set(keys) == {"LABEL", *listed, *tables}, "index", keys, sorted({"LABEL", *listed, *tables}))
    meta = repr(d.metadata)
    order_ = list(names) + list(tables)
    for o in (order_, order_[::-1]):
        d, _ = pds.quiet_read(path)
        for n in o:
            got, _ = pds.load(d, n)
            if n in tables:
                T.check_frame(got, els, made[tables[n]][2], n)
            else:
                pds.check_array(got, (c["lines"], c["samples"]), made[names.index(n)][1], kind if kind in "iuf" else None, nb, n)
            ctx.step()
    require(list(d.keys()) == keys and repr(d.metadata) == meta, "index or metadata changed", list(d.keys()))
    return c["form"]


AXES = dict(cols=list(LISTS), samp=list(SAMPLES), lines=[1, 2, 3, 5], samples=[1, 2, 3], tail=[0, 4, 8], suf=[0, 1, 3], form=FORMS, fmt=["bare", "table", "named table", "other table", "table without suffix"],
            where=["file", "bytes", "record", "attached", "apart"], name=["IMAGE", "A_IMAGE", "IMAGE_2"], images=[1, 2], place=["first", "last"], comp=["", "gz", "bz2"], which=[0, 1])


def spaces(tier):
    deep = tier == "thorough"
    ok = lambda c: (c["which"] == 0 or c["form"] in ("pointer", "defined", "elsewhere")) and not (c["form"] == "defined" and c["fmt"] != "bare") and not (c["form"] == "implied own" and c["images"] == 1) and c["which"] < c["images"]
    return [
        Space("layouts", product(dict(BASE_AXES, cols=list(LISTS), samp=list(SAMPLES), lines=[1, 2, 4], samples=[1, 3], tail=[0, 4] if not deep else [0, 4, 8], suf=[0, 1] if not deep else [0, 1, 3], form=["implied", "pointer"], fmt=["bare", "table"]), ok), run, "every layout x form"),
        Space("descriptions", product(dict(BASE_AXES, form=FORMS, fmt=AXES["fmt"], where=AXES["where"], name=AXES["name"], images=[1, 2], place=["first", "last"], which=[0, 1], tail=[0, 4], suf=[0, 1]), ok), run, "every way to describe the table x positions x names"),
        Space("ball", deviations({k: [BASE[k]] + [v for v in AXES.get(k, []) if v != BASE[k]] for k in BASE}, 3 if deep else 2, ok), run, "deviations from a default"),
    ]


BASE_AXES = {k: [v] for k, v in BASE.items()}
