"""C01: PDS3 labels parse to exactly the statements and values they contain.

Reference model: the label AST the text was rendered from (an ordered list of (key, value) with nested blocks). Every value form in every
context, every forest of statements/blocks up to the bound, and every ordered tuple of neighbouring statement forms is rendered,
written to disk, read with pdr.read and compared with the AST, type-strictly."""
import itertools

from multidict import MultiDict

from mc import pds
from mc.core import Fail, Space, product, require, short

ASSUMPTIONS = [
    "PVL subset: upper-case keywords of at least five characters (or short keywords with upper-case/quoted values), homogeneous sequences",
]

Q = lambda v, u: {"value": v, "units": u}
# (name, text, value). '\n' inside text is a line break of the label
VALUES = [
    ("int", "5", 5), ("negint", "-37", -37), ("zero", "0", 0), ("bigint", "12345678901", 12345678901), ("posint", "+7", 7),
    ("real", "1.5", 1.5), ("negreal", "-0.25", -0.25), ("expo", "6.02E23", 6.02e23), ("expplus", "6.02E+23", 6.02e23),
    ("expminus", "1.5e-3", 1.5e-3), ("pointend", "3.", 3.0), ("pointstart", ".5", 0.5),
    ("bin", "2#10110#", 22), ("hex", "16#FF7FFFFB#", 0xFF7FFFFB), ("oct", "8#17#", 15),
    ("symbol", "MARS", "MARS"), ("slash", "N/A", "N/A"), ("under", "MSB_INTEGER", "MSB_INTEGER"), ("unk", "UNK", "UNK"),
    ("quoted", '"MARS GLOBAL SURVEYOR"', "MARS GLOBAL SURVEYOR"), ("quotedlow", '"wide angle"', "wide angle"), ("empty", '""', ""),
    ("quotednum", '"0001"', "0001"), ("quotedint", '"12"', "12"), ("single", "'SYMBOL'", "SYMBOL"), ("quotedcomma", '"A, B"', "A, B"), ("quotedparen", '"(1, 2)"', "(1, 2)"),
    ("quotedangle", '"5 <km>"', "5 <km>"), ("quotedangle2", '"a<b and c>d"', "a<b and c>d"), ("quotedhash", '"2#101#"', "2#101#"), ("quotedeq", '"X=5"', "X=5"), ("quotedeq2", '"PH=7, T=3"', "PH=7, T=3"),
    ("quotedend", '"THE END"', "THE END"), ("quotedsemi", '"A;B"', "A;B"), ("apostrophe", '"MARS\' MOON"', "MARS' MOON"), ("braces", '"{A}"', "{A}"),
    ("date", "2004-01-04", "2004-01-04"), ("date2", "2004-10-12", "2004-10-12"), ("doy", "1999-123T12:34:56.789Z", "1999-123T12:34:56.789Z"),
    ("time", "2004-10-04T14:35:12.001", "2004-10-04T14:35:12.001"), ("clock", '"1/0123456789.123"', "1/0123456789.123"), ("tod", "12:34:56", "12:34:56"),
    ("quantity", "5 <km>", Q(5, "km")), ("quantityreal", "-1.25 <KM/S>", Q(-1.25, "KM/S")), ("quantitytight", "5<KM>", Q(5, "KM")), ("quantityexp", "1.5E3 <m>", Q(1500.0, "m")),
    ("quantityexpminus", "2.5e-3 <m>", Q(0.0025, "m")), ("quantityexpplus", "1.5E+3 <m>", Q(1500.0, "m")), ("quantityunits", "3 <W*m**-2*sr**-1>", Q(3, "W*m**-2*sr**-1")),
    ("quantityunk", "UNK <km>", Q("UNK", "km")), ("quantityna", "N/A <km>", Q("N/A", "km")), ("quantitynull", "NULL <km>", Q("NULL", "km")), ("quantityspace", "5 <local day/24>", Q(5, "local day/24")),
    ("tuple", "(1, 2, 3)", (1, 2, 3)), ("tupletight", "(1,-2)", (1, -2)), ("tuplereal", "(1.5, 2.5E-3)", (1.5, 0.0025)), ("tuplestr", '("A", "B C")', ("A", "B C")), ("tuplesym", "(RED, GREEN, BLUE)", ("RED", "GREEN", "BLUE")),
    ("axes", "(SAMPLE,LINE,BAND)", ("SAMPLE", "LINE", "BAND")), ("tuplesingle", "('A', 'B')", ("A", "B")), ("tupletuple", "((1, 2), (3, 4))", ((1, 2), (3, 4))), ("tuplebin", "(2#101#, 2#11#)", (5, 3)), ("tuplehex", "(16#A#,16#1F#)", (10, 31)),
    ("tuplequant", "(1 <s>, 2.5 <s>)", (Q(1, "s"), Q(2.5, "s"))), ("tuplequantplus", "(1E+2 <s>, 2 <s>)", (Q(100.0, "s"), Q(2, "s"))), ("filerecord", '("A.DAT", 5)', ("A.DAT", 5)), ("filebytes", '("A.DAT", 1000 <BYTES>)', ("A.DAT", Q(1000, "BYTES"))), ("filebytestight", '("A.DAT",12<BYTES>)', ("A.DAT", Q(12, "BYTES"))),
    ("set", "{1, 2}", {1, 2}), ("setstr", '{"A", "B"}', {"A", "B"}), ("setsym", "{RED, GREEN}", {"RED", "GREEN"}), ("setone", '{"A"}', {"A"}), ("setbin", "{2#1#, 2#10#}", {1, 2}),
    ("mltuple", "(1,\n      2,\n      3)", (1, 2, 3)), ("mltuplestr", '("A",\n  "B")', ("A", "B")), ("mltuplesym", "(RED,\n  GREEN)", ("RED", "GREEN")), ("mlset", '{"A",\n "B"}', {"A", "B"}), ("mlquant", "(1 <s>,\n 2 <s>)", (Q(1, "s"), Q(2, "s"))),
    ("mlstring", '"one two\n   three four\n   five"', "one two three four five"), ("mlstring2", '"one\n two"', "one two"), ("mlstringcaps", '"ONE TWO\n THREE\n FOUR"', "ONE TWO THREE FOUR"), ("nextline", '\n   "on the next line"', "on the next line"),
    ("nextlineint", "\n   17", 17), ("mlstringend", '"text about\n the END_OBJECT rule"', "text about the END_OBJECT rule"), ("mlstringblank", '"para one\n\n   para two"', "para one para two"),
]
BYNAME = {v[0]: v for v in VALUES}


def norm(x):
    """type-strict, order-preserving normal form of parsed metadata"""
    if isinstance(x, MultiDict):
        return ["block"] + [[k, norm(v)] for k, v in x.items()]
    if isinstance(x, dict):
        return ["quantity", norm(x.get("value")), norm(x.get("units")), len(x)]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((norm(v) for v in x), key=repr)
    if isinstance(x, tuple):
        return ["tuple"] + [norm(v) for v in x]
    return [type(x).__name__, x]


def norm_ast(ast):
    out = ["block"]
    for st in ast:
        if st[0] in ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP"):
            out.append([st[1], norm_ast(st[2])])
        else:
            out.append([st[0], norm(st[1])])
    return out


def compare(ctx, text, ast, eol, suffix=".LBL", head=True):
    raw = text.replace("\n", eol).encode()
    p = ctx.dir / ("X" + suffix)
    p.write_bytes(raw)
    data, warned = pds.quiet_read(p)
    got, want = norm(MultiDict(data.metadata.items())), norm_ast(ast)
    if got != want:
        for g, w in itertools.zip_longest(got, want):
            if g != w:
                raise Fail(f"metadata has {short(repr(g), 250)} where the label says {short(repr(w), 250)} (label text: {short(text, 250)})")
    require(not [w for w in warned if "Leftover" in w], "well-formed label reported as malformed", warned)
    # the same text through the parser used for format files and attached labels
    from pdr.parselabel.pds3 import parse_pvl

    again, params = parse_pvl(raw.decode())
    require(norm(again) == want, "parse_pvl disagrees with pdr.read", again)
    flat = sorted(flatten(ast))
    require(sorted(params) == flat, f"flattened key list {sorted(params)} is not that of the label {flat}")
    ctx.step(len(flat))


def flatten(ast):
    for st in ast:
        if len(st) == 3:
            yield st[1]
            yield from flatten(st[2])
        else:
            yield st[0]


COMMENTS = {"": "", "after": "  /* a comment */", "two": " /* one */ /* two */", "eqcomment": " /* X = 5 */"}


def run_value(c, ctx):
    name, text, value = BYNAME[c["value"]]
    sp = c["space"]
    comm = COMMENTS[c["comment"]]
    first, *rest = text.split("\n")
    stmt = f"KEYWORD{sp}={sp}{first}" + (comm if not rest else "") + "".join("\n" + r for r in rest)
    before = {"none": [], "int": [("BEFORE_KEY", 1)], "str": [("BEFORE_KEY", "text")], "mlstr": [("BEFORE_KEY", "two lines of text")]}[c["before"]]
    btext = {"none": "", "int": "BEFORE_KEY = 1\n", "str": 'BEFORE_KEY = "text"\n', "mlstr": 'BEFORE_KEY = "two lines\n  of text"\n'}[c["before"]]
    ast = before + [("KEYWORD", value), ("AFTER_KEY", 2)]
    body = f"{btext}{stmt}\nAFTER_KEY = 2\n"
    if c["ctx"] == "object":
        body, ast = f"OBJECT = BLOCK\n  {body}END_OBJECT = BLOCK\n", [("OBJECT", "BLOCK", ast)]
    elif c["ctx"] == "group":
        body, ast = f"GROUP = BLOCK\n  {body}END_GROUP = BLOCK\n", [("GROUP", "BLOCK", ast)]
    elif c["ctx"] == "deep":
        body = f"OBJECT = OUTER\nOBJECT = BLOCK\n  {body}END_OBJECT = BLOCK\nEND_OBJECT = OUTER\n"
        ast = [("OBJECT", "OUTER", [("OBJECT", "BLOCK", ast)])]
    text = "PDS_VERSION_ID = PDS3\n" + body + "END\n"
    compare(ctx, text, [("PDS_VERSION_ID", "PDS3")] + ast, c["eol"])
    return name


# ------------------------------------------------------------------ structure
LEAVES = {
    "a": ("KEY_A = 1", [("KEY_A", 1)]),
    "b": ('KEY_B = "some\n   text"', [("KEY_B", "some text")]),
    "c": ("/* a comment line */", []),
    "e": ("END_TIME = 2004-01-04T00:00:00", [("END_TIME", "2004-01-04T00:00:00")]),
    "p": ('^TABLE = ("T.TAB", 3)', [("^TABLE", ("T.TAB", 3))]),
    "n": ("", []),
    "t": ("KEY_T = (A,\n   B)", [("KEY_T", ("A", "B"))]),
    "i": ("   ENDPOINT_COUNT = 4", [("ENDPOINT_COUNT", 4)]),
    "q": ("/* c1 */ KEY_Q = 5 /* c2 */", [("KEY_Q", 5)]),
}
OPEN = {
    "O": ("OBJECT = TABLE", "END_OBJECT = TABLE", "OBJECT", "TABLE"), "o": ("OBJECT = COLUMN", "END_OBJECT", "OBJECT", "COLUMN"),
    "G": ("GROUP = GROUP_ONE", "END_GROUP = GROUP_ONE", "GROUP", "GROUP_ONE"), "g": ("GROUP = GROUP_ONE", "END_GROUP", "GROUP", "GROUP_ONE"),
    "B": ("BEGIN_OBJECT = TABLE", "END_OBJECT = TABLE", "OBJECT", "TABLE"),
}


def forests(leaves, opens, n, depth):
    """all statement forests with exactly n nodes and nesting <= depth, as strings like 'a O(b o()) '"""
    if n == 0:
        yield []
        return
    for l in leaves:
        for rest in forests(leaves, opens, n - 1, depth):
            yield [l] + rest
    if depth > 0:
        for o in opens:
            for k in range(n):
                for inner in forests(leaves, opens, k, depth - 1):
                    for rest in forests(leaves, opens, n - 1 - k, depth):
                        yield [[o, inner]] + rest


def render_forest(f, ind=0):
    lines, ast = [], []
    for node in f:
        if isinstance(node, str):
            text, a = LEAVES[node]
            lines.append("  " * ind + text)
            ast += a
        else:
            head, foot, kind, name = OPEN[node[0]]
            sub, suba = render_forest(node[1], ind + 1)
            lines += ["  " * ind + head] + sub + ["  " * ind + foot]
            ast.append((kind, name, suba))
    return lines, ast


def run_forest(c, ctx):
    lines, ast = render_forest(c["f"])
    compare(ctx, "PDS_VERSION_ID = PDS3\n" + "\n".join(lines) + "\nEND\n", [("PDS_VERSION_ID", "PDS3")] + ast, c["eol"])
    return f"{len(ast)} top-level"


def run_neighbours(c, ctx):
    text, ast = "PDS_VERSION_ID = PDS3\n", [("PDS_VERSION_ID", "PDS3")]
    for i, v in enumerate(c["values"]):
        _, t, value = BYNAME[v]
        key = f"KEYWORD_{i}" if c["dup"] == 0 else "KEYWORD"
        text += f"{key} = {t}\n"
        ast.append((key, value))
    compare(ctx, text + "END\n", ast, c["eol"])
    return f"{len(c['values'])} statements"


FILL = {"caps": "ABCDEFGH", "words": "AB C DEF", "digits": "12345678", "symbols": "(A-B): C", "under": "A_B_C_DE"}


def text_line(c):
    """a line of running text: capitals or symbols, a small letter at index low (the keywords of PDS3 labels are upper-case), an equals sign"""
    fill = FILL[c["fill"]]
    head = fill[:c["low"]] + "z" + fill[c["low"] + 1:]
    line = {"far": head + "Q end = 5", "near": head[:c["low"] + 1] + "=5 and more", "last": head + " Q =", "two": head + "=1, T=2"}[c["eq"]]
    return line


def run_text(c, ctx):
    line = text_line(c)
    pad = " " * c["indent"]
    if c["form"] == "string":
        value, text = f"some text {line} end", f'"some text\n{pad}{line}\n{pad}end"'
    elif c["form"] == "final":
        value, text = f"some text {line}", f'"some text\n{pad}{line}"'
    elif c["form"] == "next":
        value, text = f"{line} then", f'\n{pad}"{line}\n{pad}then"'
    else:
        value, text = ("one", line), f'("one",\n{pad} "{line}")'
        if c["form"] == "set":
            value, text = set(value), "{" + text[1:-1] + "}"
    body = {"none": "AFTER_KEY = 2\n", "block": "OBJECT = BLOCK\n  AFTER_KEY = 2\nEND_OBJECT = BLOCK\n", "last": ""}[c["after"]]
    after = {"none": [("AFTER_KEY", 2)], "block": [("OBJECT", "BLOCK", [("AFTER_KEY", 2)])], "last": []}[c["after"]]
    compare(ctx, f"PDS_VERSION_ID = PDS3\nKEYWORD = {text}\n{body}END\n", [("PDS_VERSION_ID", "PDS3"), ("KEYWORD", value)] + after, c["eol"])
    return c["form"]


END_NAMES = ("SYSTEM", "TARGET", "DETAIL")


def end_value(c):
    """the value of the END... statement, and whether it is the bare name of the innermost open block (then it ends that block instead)"""
    names = END_NAMES[:c["depth"]]
    if c["names"] == "same":
        names = ["TARGET"] * c["depth"]
    return {"outermost": names[0], "outer": names[-2] if c["depth"] > 1 else "NOTHING", "closed": "EARLIER", "later": "FOLLOWER", "own-quoted": f'"{names[-1]}"', "own-part": names[-1][:-1],
            "own-longer": names[-1] + "_A", "own-in-list": f"({names[-1]}, OTHER)", "none": "NONE"}[c["value"]], list(names)


def run_ends(c, ctx):
    """statements whose keyword starts with END inside blocks: parameters, whatever other block their value names"""
    value, names = end_value(c)
    parsed = value.strip('"') if not value.startswith("(") else tuple(value.strip("()").split(", "))
    ast, lines = [(c["word"], parsed), ("AFTER_KEY", 2)], [f"{c['word']} = {value}", "AFTER_KEY = 2"]
    if c["inside"] == "after-block":
        ast = [("OBJECT", "EARLIER", [("KEY_E", 1)])] + ast
        lines = ["OBJECT = EARLIER", "KEY_E = 1", "END_OBJECT = EARLIER"] + lines
    elif c["inside"] == "before-block":
        ast = ast + [("GROUP", "FOLLOWER", [("KEY_F", 1)])]
        lines = lines + ["GROUP = FOLLOWER", "KEY_F = 1", "END_GROUP = FOLLOWER"]
    kind, terminal = c["kind"], c["terminal"]
    for name in reversed(names):
        end = {"named": f"END_{kind} = {name}", "bare": f"END_{kind}"}[terminal]
        lines = [f"{kind} = {name}"] + ["  " + l for l in lines] + [end, f"CLOSED_KEY = {name}"]
        ast = [(kind, name, ast), ("CLOSED_KEY", name)]
    compare(ctx, "PDS_VERSION_ID = PDS3\n" + "\n".join(lines) + "\nEND\n", [("PDS_VERSION_ID", "PDS3")] + ast, c["eol"])
    return c["value"]


def run_probe(c, ctx):
    compare(ctx, c["text"], [tuple(a) for a in c["ast"]], "\n")
    return "probe"


def spaces(tier):
    deep = tier == "thorough"
    names = [v[0] for v in VALUES]

    def values():
        axes = dict(value=names, eol=("\r\n", "\n"), ctx=("top", "object", "group", "deep"), before=("none", "int", "str", "mlstr"),
                    space=(" ", "", "      "), comment=tuple(COMMENTS))
        yield from product(axes, lambda c: not ("\n" in BYNAME[c["value"]][1] and c["comment"]) and not (not deep and c["ctx"] == "group" and c["before"] != "none"))

    def structure():
        for n in range(0, 5 if not deep else 6):
            small = n >= 4
            leaves = "abcepiqt" if not small else ("ace" if n == 4 else "ae")
            opens = "OogGB" if not small else ("Og" if n == 5 else "Oog")
            for f in forests(leaves if n < 3 else leaves[:5] if not deep and n == 3 else leaves, opens if n < 3 else opens[:4], n, 3):
                if repr(f).count("'p'") > 1:
                    continue  # duplicate pointers are renamed: C22
                yield dict(f=f, eol="\r\n")
                if n < 3:
                    yield dict(f=f, eol="\n")

    def neighbours():
        for a, b in itertools.product(names, names):
            yield dict(values=[a, b], dup=0, eol="\r\n")
            yield dict(values=[a, b], dup=1, eol="\n")
        trip = ["int", "quoted", "mlstring", "mltuple", "filebytes", "symbol", "nextline", "quotedeq", "setstr", "quantity"]
        for t in itertools.product(names if deep else trip, trip, trip):
            yield dict(values=list(t), dup=0, eol="\r\n")

    texts = product(dict(form=("string", "final", "next", "tuple", "set"), low=range(8), fill=tuple(FILL), eq=("far", "near", "last", "two"),
                         indent=(0, 2, 9) if deep else (0, 3), after=("none", "block", "last"), eol=("\r\n", "\n")))
    def ends():
        axes = dict(word=("END_TARGET", "ENDPOINT", "END_TIME", "ENDING_NAME"), value=("outermost", "outer", "closed", "later", "own-quoted", "own-part", "own-longer", "own-in-list", "none"),
                    depth=(1, 2, 3), names=("distinct", "same"), inside=("alone", "after-block", "before-block"), kind=("OBJECT", "GROUP"), terminal=("named", "bare"), eol=("\r\n", "\n"))

        def valid(c):
            value, names = end_value(c)
            return value != names[-1] and not (c["value"] == "outer" and c["depth"] == 1)

        yield from product(axes, valid)

    probes = [
        dict(id="short-keyword-lowercase-value", text="PDS_VERSION_ID = PDS3\nNUM = 1\nUNIT=km\nEND\n", ast=[("PDS_VERSION_ID", "PDS3"), ("NUM", 1), ("UNIT", "km")]),
        dict(id="quoted-text-line-like-assignment", text='PDS_VERSION_ID = PDS3\nNOTE_TEXT = "see\nTHE_X = 5 case"\nEND\n', ast=[("PDS_VERSION_ID", "PDS3"), ("NOTE_TEXT", "see THE_X = 5 case")]),
    ]
    return [
        Space("values", values, run_value, "every value form x context x preceding statement x spacing x comment x line ending"),
        Space("structure", structure, run_forest, "every forest of leaf statements and blocks with up to 4 (thorough 5) nodes, nesting depth 3"),
        Space("neighbours", neighbours, run_neighbours, "every ordered pair (and triple over 10 forms) of adjacent statement forms, distinct or duplicate keys"),
        Space("texts", texts, run_text, "running text with an equals sign on a continuation line: index of the first small letter x what surrounds it x place of the sign x value form"),
        Space("ends", ends, run_ends, "statements whose keyword starts with END inside blocks: keyword x what block the value names x depth x block names x neighbouring blocks x terminator"),
        Space("probes", probes, run_probe, "heuristic limits of the line-based parser", key=lambda c: c["id"]),
    ]
