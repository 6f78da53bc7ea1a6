"""C14: metadata queries answer from the label, first match in search order, and never go stale.

Every small nested label over a key alphabet in which names are repeated, used both for parameters and for blocks and contained in one another is built; every query - and every sequence of
queries and edits up to the stated length - is put to the real Metadata / Data object and compared with a search of the tree the label was written from."""
import itertools
import os
import subprocess
import sys
import warnings
from pathlib import Path

from mc import pds, pds4w
from mc.core import Space, product, require, sequences, short

TECHNIQUE = "exhaustive enumeration of label trees x query/edit histories on the real Metadata and Data classes against a tree-search model"
ASSUMPTIONS = ["the first match is the one met first when each level is searched before the blocks nested in it (pdr's documented 'first value ... even if nested')",
               "a key whose first match is not a block makes metablock answer with the whole metadata (documented fallback); an absent key makes it answer None"]
KEYS = ["AA", "BB", "AAB"]
ABSENT = "ZZTOP"


# ------------------------------------------------------------------ trees
def forests(n, depth, empty=False):
    """every ordered forest of n nodes: tuples of children; a leaf is None"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        firsts = [None] if k == 1 else []
        if k == 1 and empty:
            firsts.append(())
        if k > 1 and depth > 1:
            firsts += list(forests(k - 1, depth - 1, empty))
        for f in firsts:
            for rest in forests(n - k, depth, empty):
                yield (f,) + rest


def count(f):
    return sum(1 + (count(x) if x is not None else 0) for x in f)


def tree(shape, labels):
    """-> [[key, value-or-subtree]], values numbered in label order"""
    it = iter(enumerate(labels, 1))

    def build(f):
        out = []
        for x in f:
            i, k = next(it)
            out.append([k, i * 11 if x is None else build(x)])
        return out
    return build(shape)


def stmts(t):
    return [(k, v) if not isinstance(v, list) else pds.block("OBJECT" if i % 2 == 0 else "GROUP", k, *stmts(v)) for i, (k, v) in enumerate(t)]


# ------------------------------------------------------------------ model
def first(t, key):
    """(found, value)"""
    for k, v in t:
        if k == key:
            return True, v
    for k, v in t:
        if isinstance(v, list):
            ok, got = first(v, key)
            if ok:
                return True, got
    return False, None


def keys_of(t):
    for k, v in t:
        yield k
        if isinstance(v, list):
            yield from keys_of(v)


def same(got, want):
    """is the returned value this value / block?"""
    if not isinstance(want, list):
        return type(got) is type(want) and got == want
    items = getattr(got, "items", None)
    if items is None:
        return False
    items = list(items())
    return len(items) == len(want) and all(k == wk and same(v, wv) for (k, v), (wk, wv) in zip(items, want))


def ratio(a, b):
    """similarity of two strings: 2 x longest common subsequence / total length"""
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            d[i + 1][j + 1] = d[i][j] + 1 if x == y else max(d[i][j + 1], d[i + 1][j])
    return 2 * d[-1][-1] / (len(a) + len(b))


class Nothing:
    """an unhashable default"""
    __hash__ = None

    def __eq__(self, other):
        return type(other) is Nothing


DEFAULTS = {"none": None, "one": 1, "true": True, "list": ["x"], "odd": Nothing()}
OPS = [[f, k] for f in ("metaget", "metaget_", "metablock", "metablock_") for k in KEYS[:2] + [ABSENT]]
OPS += [["metaget", "AAB"], ["metablock_", "AAB"]]
OPS += [["metaget:one", "AA"], ["metaget:true", "AA"], ["metaget:list", "AA"], ["metaget_:odd", "BB"], ["metaget:one", ABSENT], ["metaget_:list", ABSENT]]
OPS += [["fuzzy", "AAB"], ["fuzzy", "BA"], ["fuzzy", "QQ"], ["item", "AA"], ["item", ABSENT], ["keys", ""]]


def ask(md, t, op, whole):
    """put one query, compare with the model"""
    f, key = op
    f, _, dn = f.partition(":")
    n = list(keys_of(t)).count(key)
    found, want = first(t, key)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if f == "fuzzy":
            got = md.metaget_fuzzy(key)
        elif f == "item":
            if not any(k == key for k, _ in t):
                try:
                    md[key]
                except KeyError:
                    return
                require(False, f"metadata[{key!r}] answered though the top level has no such key")
            got = md[key]
        elif f == "keys":
            got = list(md.keys())
            require(set(got) == {k for k, _ in t}, f"keys are {got}", t)
            require(same(whole, t), f"items are {list(whole.items())}", t)
            require(dict(md.fieldcounts) == {k: list(keys_of(t)).count(k) for k in keys_of(t)}, f"fieldcounts are {dict(md.fieldcounts)}", t)
            return
        elif dn:
            got = getattr(md, f)(key, DEFAULTS[dn])
        else:
            got = getattr(md, f)(key)
    dup = [x for x in w if x.category.__name__ == "DuplicateKeyWarning"]
    if f == "fuzzy":
        best = max((ratio(k, key) for k in keys_of(t)), default=None)
        tied = [k for k in dict.fromkeys(keys_of(t)) if best is not None and abs(ratio(k, key) - best) < 1e-9]
        require(any(same(got, first(t, k)[1]) for k in tied) if tied else got is None, f"metaget_fuzzy({key!r}) is {short(got)}", t, tied)
        return
    if f == "item":
        require(same(got, next(v for k, v in t if k == key)), f"metadata[{key!r}] is {short(got)}", t)
        return
    if not found:
        want = DEFAULTS[dn] if dn else None
        require(got is want if f.startswith("metaget") else got is None, f"{f}({key!r}) of an absent key is {short(got)}", t)
    elif f.startswith("metablock") and not isinstance(want, list):
        require(got is whole, f"{f}({key!r}) of a plain parameter is not the whole metadata", got, t)
    else:
        require(same(got, want), f"{f}({key!r}) is {short(got)}, first match is {short(want)}", t)
    require(bool(dup) == (n > 1 and not f.endswith("_")), f"{f}({key!r}): {len(dup)} duplicate-key warnings for {n} occurrences", t)


def metadata_of(t):
    from pdr.parselabel.pds3 import parse_pvl
    from pdr.pdr import Metadata
    text = "\r\n".join(pds.render(stmts(t))) + "\r\nEND\r\n"
    return lambda: Metadata(parse_pvl(text))


def tree_run(c, ctx):
    t = tree(c["shape"], c["labels"])
    make = metadata_of(t)
    md = make()
    for op in OPS:
        ask(md, t, op, md)
    for op in reversed(OPS):
        ask(md, t, op, md)
    ctx.step(2 * len(OPS))
    if c.get("pairs"):
        for a, b in itertools.product(OPS, repeat=2):
            md.refresh_cache()
            for op in (a, b, a):
                ask(md, t, op, md)
            ctx.step(3)
    ctx.state(repr(t))
    return f"{count(c['shape'])} nodes"


RENAMES = [("IMAGE", "LINES", "IMAGE_2"), ("LINES", "IMAGE", "BANDS"), ("TABLE", "NAME", "TABLES"), ("FILE", "RECORD_BYTES", "FILE_NAME"), ("COLUMN", "BYTES", "COLUMNS"),
           ("PRODUCT_ID", "INSTRUMENT_ID", "PRODUCT"), ("^IMAGE", "IMAGE", "^IMAGES"), ("QUBE", "CORE_ITEMS", "QUBES"), ("DESCRIPTION", "NOTE", "NOTES"), ("GROUP_A", "OBJECT_B", "ENDURANCE")]


def named_run(c, ctx):
    """the same trees with names that mean something in labels"""
    ren = dict(zip(KEYS, c["names"]))
    t = tree(c["shape"], [ren[k] for k in c["labels"]])
    ops = [[f, ren.get(k, k)] for f, k in OPS]
    md = metadata_of(t)()
    if any(k == "^IMAGE" and isinstance(v, list) for k, v in _flat(t)):
        return "trivial: a pointer is no block"
    for op in ops + ops[::-1]:
        ask(md, t, op, md)
    ctx.step(2 * len(ops))
    ctx.state(repr(t))
    return "named"


def _flat(t):
    for k, v in t:
        yield k, v
        if isinstance(v, list):
            yield from _flat(v)


def named_cases(deep):
    for n in range(1, 5 if deep else 4):
        for shape in forests(n, 3, empty=False):
            for labels in itertools.product(KEYS[:2] if n > 2 else KEYS, repeat=n):
                for names in RENAMES:
                    if "^IMAGE" in names and (labels.count("AA") > 1 or labels.count("AAB") > 1):
                        continue  # repeated pointers are numbered: C02
                    yield dict(shape=shape, labels=labels, names=names)


def tree_cases(deep):
    for n in range(0, 6 if deep else 5):
        for shape in forests(n, 3, empty=n < 4):
            for labels in itertools.product(KEYS if n < 5 else KEYS[:2], repeat=n):
                yield dict(shape=shape, labels=labels, pairs=n <= (4 if deep else 3))


# ------------------------------------------------------------------ through Data, with edits
def xml(t, i=0):
    return "".join(pds4w.el(k, xml(v) if isinstance(v, list) else v) if not (isinstance(v, list) and not v) else pds4w.el(k, "") for k, v in t)


def data_run(c, ctx):
    """Data answers like its metadata, in PDS3 and PDS4; edits are seen after load_metadata_changes"""
    t = tree(c["shape"], c["labels"])
    path = Path(ctx.dir) / "L.LBL"
    if c["kind"] == "pds3":
        path.write_bytes(pds.label_text(stmts(t)).encode())
        t = [["PDS_VERSION_ID", "PDS3"]] + t
    data, _ = pds.quiet_read(path)

    class Both:
        def __init__(self, d):
            self.d, self.fieldcounts = d, d.metadata.fieldcounts
            self.metaget, self.metaget_, self.metablock, self.metablock_ = d.metaget, d.metaget_, d.metablock, d.metablock_
            self.metaget_fuzzy, self.keys = d.metadata.metaget_fuzzy, d.metadata.keys

        def __getitem__(self, k):
            return self.d.metadata[k]
    for op in OPS:
        ask(Both(data), t, op, data.metadata)
        ask(data.metadata, t, op, data.metadata)
    ctx.step(2 * len(OPS))
    # edit the value of every top-level or singly nested plain parameter, in place
    for i, (k, v) in enumerate(t):
        if k == "PDS_VERSION_ID" or [x for x, _ in t].count(k) > 1:
            continue
        if isinstance(v, list):
            for j, (k2, v2) in enumerate(v):
                if not isinstance(v2, list) and [x for x, _ in v].count(k2) == 1:
                    data.metadata[k][k2] = v[j][1] = v2 + 1000
        else:
            data.metadata[k] = t[i][1] = v + 1000
        data.load_metadata_changes()
        for op in OPS:
            ask(Both(data), t, op, data.metadata)
            ask(data.metadata, t, op, data.metadata)
        ctx.step(2 * len(OPS))
    # put a block of the same keys in place of each one at the top
    from multidict import MultiDict

    def renewed(v):
        return [[k2, renewed(v2) if isinstance(v2, list) else v2 + 5000] for k2, v2 in v]

    def block(v):
        return MultiDict([(k2, block(v2) if isinstance(v2, list) else v2) for k2, v2 in v])
    for i, (k, v) in enumerate(t):
        if isinstance(v, list) and [x for x, _ in t].count(k) == 1:
            t[i][1] = renewed(v)
            data.metadata[k] = block(t[i][1])
            data.load_metadata_changes()
            for op in OPS + OPS[::-1]:
                ask(Both(data), t, op, data.metadata)
                ask(data.metadata, t, op, data.metadata)
            ctx.step(4 * len(OPS))
    return "data"


ADDED = {"plain": lambda n: [["NEWKEY", n]], "again": lambda n: [["AA", n]], "block": lambda n: [["NEWKEY", [["AA", n], ["NEWER", n + 1]]]], "deep": lambda n: [["BB", [["NEWKEY", [["NEWER", n]]]]]]}


def added_run(c, ctx):
    """keys added to, or removed from, the label are found - or not - after load_metadata_changes"""
    from multidict import MultiDict
    t = tree(c["shape"], c["labels"])
    path = Path(ctx.dir) / "L.LBL"
    path.write_bytes(pds.label_text(stmts(t)).encode())
    t = [["PDS_VERSION_ID", "PDS3"]] + t
    data, _ = pds.quiet_read(path)
    ops = OPS + [["metaget", "NEWKEY"], ["metablock_", "NEWKEY"], ["metaget", "NEWER"], ["metaget_:one", "NEWER"], ["metaget:one", "NEWKEY"], ["fuzzy", "NEWEST"]]

    def block(v):
        return MultiDict([(k2, block(v2) if isinstance(v2, list) else v2) for k2, v2 in v])
    for i, step in enumerate(c["history"]):
        if step == "ask":
            for op in ops:
                ask(data.metadata, t, op, data.metadata)
            continue
        kind, where = step
        level, md = t, data.metadata
        if where == "inside":
            found = [(k, v) for k, v in t if isinstance(v, list)]
            if not found:
                return "trivial: no block"
            level = found[0][1]
            md = data.metadata[found[0][0]]
            if [k for k, _ in t].index(found[0][0]) != [j for j, (k, v) in enumerate(t) if v is level][0]:
                return "trivial: a parameter of the block's name comes first"
        if kind == "del":
            gone = [k for k, _ in level if k != "PDS_VERSION_ID"]
            if not gone:
                return "trivial: nothing to remove"
            del md[gone[0]]
            level[:] = [kv for kv in level if kv[0] != gone[0]]
        else:
            new = ADDED[kind](100 * (i + 1))
            level += new
            for k, v in new:
                md.add(k, block(v) if isinstance(v, list) else v)
        data.load_metadata_changes()
    for op in ops:
        ask(data.metadata, t, op, data.metadata)
        ctx.step(1)
    ctx.state(repr(t))
    return "added"


def added_cases(deep):
    steps = ["ask"] + [[k, w] for k in (*ADDED, "del") for w in ("top", "inside")]
    for n in range(0, 4 if deep else 3):
        for shape in forests(n, 3, empty=False):
            for labels in itertools.product(KEYS[:2], repeat=n):
                for h in sequences(steps, 3 if deep or n < 2 else 2, 1):
                    if h[-1] != "ask":
                        yield dict(shape=shape, labels=labels, history=h)


# ------------------------------------------------------------------ display
SHOWN = [("int", "5"), ("real", "1.5"), ("word", "MARS"), ("empty", '""'), ("text69", '"' + "x" * 69 + '"'), ("text70", '"' + "x" * 70 + '"'), ("text71", '"' + "x" * 71 + '"'),
         ("long", '"' + "y" * 200 + '"'), ("words", '"' + "some words " * 12 + 'end"'), ("hyphens", '"' + "well-known " * 12 + 'end"'), ("blank70", '"' + " " * 70 + '"'), ("blank71", '"' + " " * 71 + '"'),
         ("tuple", "(1, 2)"), ("longtuple", "(" + ", ".join(map(str, range(40))) + ")"), ("quantity", "5 <km>")]


def display_run(c, ctx):
    """printing metadata shows every key with its value, whatever they are, and changes nothing"""
    from mc.core import Fail
    shown = dict(SHOWN)
    it = iter(enumerate(c["values"], 1))

    def build(f):
        out = []
        for x in f:
            i, v = next(it)
            out.append((f"KEYWORD_{i}", shown[v]) if x is None else pds.block("OBJECT", f"BLOCK_{i}", *build(x)))
        return out
    path = Path(ctx.dir) / "L.LBL"
    path.write_bytes(pds.label_text(build(c["shape"])).encode())
    data, _ = pds.quiet_read(path)

    def squeezed(x):
        return "".join(str(x).split())

    def parts(md):
        for k, v in md.items():
            yield k + ":"
            if hasattr(v, "getall"):
                yield "{"
                yield from parts(v)
                yield "}"
            else:
                yield squeezed(v)
    items = repr(list(data.metadata.items()))
    for what in (str, repr):
        got = squeezed(what(data.metadata))
        rest = got.replace(",", "")
        want = "Metadata({" + "".join(parts(data.metadata)).replace(",", "") + "})"
        if rest != want:
            raise Fail(f"{what.__name__}(metadata) shows {short(got, 300)}, the label says {short(want, 300)}")
        ctx.step(1)
    require(repr(list(data.metadata.items())) == items, "printing the metadata changed it")
    return "display"


def display_cases(deep):
    names = [n for n, _ in SHOWN]
    for n in range(1, 5 if deep else 4):
        for shape in forests(n, 4, empty=n < 3):
            for values in itertools.product(names if n < 3 or (deep and n == 3) else ["int", "words", "blank71", "text71"], repeat=n):
                yield dict(shape=shape, values=values)


def data_cases(deep):
    for n in range(0, 5 if deep else 4):
        for shape in forests(n, 3, empty=False):
            for labels in itertools.product(KEYS if n < 4 else KEYS[:2], repeat=n):
                yield dict(shape=shape, labels=labels, kind="pds3")


# ------------------------------------------------------------------ PDS4 labels
def group(t):
    """repeated children of one element are listed together, where the first of them stands"""
    out = []
    for k in dict.fromkeys(k for k, _ in t):
        for k2, v in t:
            if k2 == k:
                out.append([k, group(v) if isinstance(v, list) else v])
    return out


def strip_case(t, names):
    return [[names[k], strip_case(v, names) if isinstance(v, list) else str(v)] for k, v in t]


def pds4_run(c, ctx):
    t = strip_case(tree(c["shape"], c["labels"]), {"AA": "AA", "BB": "BB", "AAB": "AAB"})
    path = Path(ctx.dir) / "l.xml"
    body = pds4w.label([], extra=pds4w.el("Zone", xml(t)) if t else "")
    path.write_text(body)
    data, _ = pds.quiet_read(path)
    t = group(t)
    # numbers in the label are converted by the reader; compare as text
    md = data.metadata

    def text(x):
        items = getattr(x, "items", None)
        return [[k, text(v)] for k, v in items()] if items else str(x)
    for key in KEYS + [ABSENT]:
        found, want = first(t, key)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = md.metaget(key)
            gb = md.metablock_(key)
        dup = any(x.category.__name__ == "DuplicateKeyWarning" for x in w)
        n = list(keys_of(t)).count(key)
        require((text(got) == want) if found else got is None, f"metaget({key!r}) is {short(got)}, first match is {short(want)}", body[-400:])
        require(dup == (n > 1), f"metaget({key!r}): duplicate warning {dup} for {n} occurrences")
        require(gb is None if not found else text(gb) == want if isinstance(want, list) else gb is md, f"metablock_({key!r}) is {short(gb)}", want)
        ctx.step(2)
    if t:
        require(text(md.metaget_("Zone")) == t, f"Zone is {short(text(md.metaget_('Zone')))}", t)
    return "pds4"


def pds4_cases(deep):
    for n in range(0, 5 if deep else 4):
        for shape in forests(n, 3):
            for labels in itertools.product(KEYS if n < 4 else KEYS[:2], repeat=n):
                yield dict(shape=shape, labels=labels)


# ------------------------------------------------------------------ edits propagate into objects
def edit_run(c, ctx):
    """the documented feature: change the label's description of an object, load again"""
    vals = list(range(1, 13))
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 6), ("^IMAGE", '"I.IMG"'),
          pds.block("OBJECT", "IMAGE", ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"), ("SAMPLE_BITS", 8), ("LINE_PREFIX_BYTES", 0), ("SCALING_FACTOR", 2), ("OFFSET", 0))]
    path = pds.write_detached(ctx.dir, "L", st, {"I.IMG": bytes(vals)})
    data, _ = pds.quiet_read(path)
    m = dict(LINES=2, LINE_SAMPLES=3, LINE_PREFIX_BYTES=0, SCALING_FACTOR=2)
    live = dict(m)  # what the object in memory was read with; None: not loaded

    def pixels(p):
        w = p["LINE_SAMPLES"] + p["LINE_PREFIX_BYTES"]
        return [vals[r * w + p["LINE_PREFIX_BYTES"]:(r + 1) * w] for r in range(p["LINES"])]
    loaded, synced = None, dict(m)
    for op in c["history"]:
        if op == "load":
            data.load("IMAGE", reload=True)
            loaded = pixels(synced)
            require(data.IMAGE.tolist() == loaded, f"reloaded image is {data.IMAGE.tolist()}, should be {loaded}", c["history"])
        elif op == "get":
            if loaded is None:
                loaded = pixels(synced)
            require(data["IMAGE"].tolist() == loaded, f"image is {data['IMAGE'].tolist()}, should be {loaded}", c["history"])
        elif op == "scale":
            if loaded is None:
                loaded = pixels(synced)
            want = [[x * synced["SCALING_FACTOR"] for x in r] for r in loaded]
            got = data.get_scaled("IMAGE").tolist()
            require(got == want, f"scaled image is {got}, should be {want}", c["history"])
        elif op == "ask":
            got = data.metaget_("LINES"), data.metablock_("IMAGE")["LINES"]
            require(got == (synced["LINES"],) * 2, f"LINES is {got}, should be {synced['LINES']}", c["history"])
        else:
            k, v, *swap = op
            m[k] = v
            if swap:
                block = data.metadata["IMAGE"].copy()
                block[k] = v
                data.metadata["IMAGE"] = block
            else:
                data.metadata["IMAGE"][k] = v
            data.load_metadata_changes()
            synced = dict(m)
        ctx.step(1)
        ctx.state((tuple(sorted(synced.items())), repr(loaded)))
    return "edits"


def edit_cases(deep):
    alpha = ["load", "get", "scale", "ask", ["LINES", 1], ["LINE_SAMPLES", 2], ["LINE_PREFIX_BYTES", 1], ["LINES", 1, "swap"], ["SCALING_FACTOR", 3]]
    for h in sequences(alpha, 5 if deep else 4, 1):
        yield dict(history=h)


# ------------------------------------------------------------------ hash seeds
SEEDED = """
import sys, warnings, json
sys.path[:0] = json.loads(sys.argv[1])
from pdr.parselabel.pds3 import parse_pvl
from pdr.pdr import Metadata
warnings.simplefilter('ignore')
out = []
for text, queries in json.loads(sys.stdin.read()):
    md = Metadata(parse_pvl(text))
    out.append([str(md.metaget_fuzzy(q)) for q in queries] + [str(sorted(md.fieldcounts.items())), str(list(md.items()))])
print(json.dumps(out))
"""


def seed_run(c, ctx):
    import json
    repo = os.environ.get("MC_REPO", "/repo")
    texts = []
    for n in (3, 4):
        for names in itertools.permutations(["AAX", "AAY", "XAA", "AZA"], n):
            texts.append(["".join(f"{k} = {i + 1}\r\n" for i, k in enumerate(names)) + "END\r\n", ["AAZ", "AA", "A", "Q", "AAX"]])
    answers = {}
    for seed in c["seeds"]:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", SEEDED, json.dumps([repo])], input=json.dumps(texts), capture_output=True, text=True, env=env, timeout=80)
        require(p.returncode == 0, f"run with hash seed {seed} failed", p.stderr[-300:])
        answers[seed] = json.loads(p.stdout)
        ctx.step(len(texts))
    a = list(answers.values())
    for s, b in answers.items():
        for (text, q), x, y in zip(texts, a[0], b):
            require(x == y, f"answers to {q} differ between hash seeds {c['seeds'][0]} and {s}: {x} / {y}", text)
    return "hash seeds"


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("trees", lambda: tree_cases(deep), tree_run, "every label tree up to 4 (thorough 5) nodes over 3 keys; every query, and every pair of queries on trees up to 3 (4) nodes"),
        Space("named", lambda: named_cases(deep), named_run, "every tree up to 3 (4) nodes under names that mean something elsewhere"),
        Space("data", lambda: data_cases(deep), data_run, "every tree up to 3 (4) nodes through Data; every single-value edit followed by every query"),
        Space("added", lambda: added_cases(deep), added_run, "trees up to 2 (3) nodes x every history of up to 2-3 additions and removals of keys, plain or blocks, at the top or inside a block, with and without queries between"),
        Space("display", lambda: display_cases(deep), display_run, "str and repr of the metadata: every tree up to 3 (4) nodes x value forms incl. long and blank texts"),
        Space("pds4", lambda: pds4_cases(deep), pds4_run, "every XML tree up to 3 (4) nodes"),
        Space("edits", lambda: edit_cases(deep), edit_run, "every history up to 4 (5) of load/get/scale/ask/edit-and-refresh on an image"),
        Space("seeds", lambda: [dict(seeds=[0, s, s + 1]) for s in range(1, 16 if deep else 6, 2)], seed_run, "the same queries under different string hash seeds"),
    ]
