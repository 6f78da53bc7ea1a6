"""C02: an attached PDS3 label ends exactly at its END statement.

Reference model: the statement list written before END. The label is padded by one quoted value so that its END marker starts at every offset in a
window around each boundary at which the reader may split its input (20 bytes, 20+50 KiB, 20+100 KiB, and powers of two), followed by every kind of bytes."""
from multidict import MultiDict

from checks.c01 import norm
from mc import pds
from mc.core import Space, product, require

ASSUMPTIONS = ["read boundaries of the implementation lie within the enumerated windows or behave like them"]

ENDS = {  # name -> (eol, marker)
    "crlf": ("\r\n", b"END\r\n"), "lf": ("\n", b"END\n"), "crlfpad": ("\r\n", b"END   \r\n"), "crlfpad8": ("\r\n", b"END        \r\n"),
    "blanks": ("\r\n", b"END" + b" " * 40), "lfpad": ("\n", b"END  \n"), "nulls": ("\r\n", b"END\r\n\0\0\0\0"), "barenulls": ("\r\n", b"END\0\0\0\0\0"), "cr": ("\r\n", b"END\r"),
}
NEXT = {
    "none": b"", "ff": b"\xff\xfe\xfd" * 40, "nulls": bytes(300), "text": b"SOME OTHER TEXT = 5\r\nMORE TEXT\r\n", "end": b"OTHER_KEY = 1\r\nEND\r\nLAST_KEY = 2\r\n",
    "endlf": b"OTHER_KEY = 1\nEND\nLAST_KEY = 2\n\xff", "binary": bytes(range(256)) * 2, "vicar": b"LBLSIZE=1024 FORMAT='BYTE'" + bytes(64), "long": b"\xf0" * 120000, "longend": b"\x80" * 60000 + b"\r\nEND\r\n",
}
HOW = {".IMG": "attached", ".LBL": "label suffix", ".gz": "compressed"}


def build(total, eol, marker):
    """label text whose END marker begins at byte `total`; -> (bytes, ast)"""
    ast = [("PDS_VERSION_ID", "PDS3"), ("KEY_ONE", 1)]
    text = eol.join(["PDS_VERSION_ID = PDS3", "KEY_ONE = 1", ""])
    i = 0
    while total - len(text) > 70:
        room = min(total - len(text) - 30, 900)
        if total - len(text) - room < 60:
            room = total - len(text) - 60
        if room < 20:
            break
        key = f"FILLER_{i:06d}"
        body = "x" * (room - len(key) - 5 - len(eol))
        if len(body) < 1:
            break
        text += f'{key} = "{body}"{eol}'
        ast.append((key, body))
        i += 1
    # final statement takes up the remaining bytes exactly
    rest = total - len(text) - len('LAST_STATEMENT = ""') - len(eol)
    if rest >= 0:
        body = "y" * rest
        text += f'LAST_STATEMENT = "{body}"{eol}'
        ast.append(("LAST_STATEMENT", body))
    assert rest >= 0 and len(text) == total, (len(text), total)
    return text.encode() + marker, ast


def expect(ctx, path, ast, what, **kw):
    data, warned = pds.quiet_read(path, **kw)
    got = norm(MultiDict(data.metadata.items()))
    want = ["block"] + [[k, norm(v)] for k, v in ast]
    if got != want:
        extra = [g for g in got if g not in want][:3]
        lost = [w for w in want if w not in got][:3]
        require(False, f"{what}: metadata is not the label's statements; extra/changed", extra, "lost", lost)
    ctx.step(len(ast))
    return data


def run(c, ctx):
    eol, marker = ENDS[c["end"]]
    raw, ast = build(c["at"], eol, marker)
    raw += NEXT[c["next"]]
    suffix = c["suffix"]
    p = ctx.dir / ("P.IMG" if suffix == ".gz" else "P" + suffix)
    p.write_bytes(raw)
    if suffix == ".gz":
        p = pds.compress_file(p, "gz")
    expect(ctx, p, ast, f"END at byte {c['at']}")
    return c["end"] + "/" + c["next"]


def run_short(c, ctx):
    """labels of a few bytes: END inside the very first read"""
    eol, marker = ENDS[c["end"]]
    body = "K" * c["klen"]
    raw = f"{body} = 1{eol}".encode() + marker + NEXT[c["next"]]
    p = ctx.dir / "P.IMG"
    p.write_bytes(raw)
    expect(ctx, p, [(body, 1)], "short label")
    return c["end"] + "/" + c["next"]


def run_limit(c, ctx):
    """labels up to pvl_limit are complete; raising the limit recovers larger ones"""
    raw, ast = build(c["at"], "\r\n", b"END\r\n")
    p = ctx.dir / "P.IMG"
    p.write_bytes(raw + NEXT["binary"])
    expect(ctx, p, ast, f"END at byte {c['at']} with pvl_limit {c['limit']}", pvl_limit=c["limit"])
    return "limit"


def spaces(tier):
    deep = tier == "thorough"
    K = 1024
    bounds = [20 + 50 * K, 50 * K, 20 + 100 * K]
    more = [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 20 + 150 * K, 20 + 200 * K]

    def main():
        win = range(-14, 8)
        ends = list(ENDS)
        for b in bounds:
            for off in win:
                for end in ends:
                    for nxt in NEXT if (deep or off in (-5, -4, -1, 0)) else ("none", "ff", "end", "binary"):
                        for suf in HOW if deep else (".IMG",):
                            yield dict(at=b + off, end=end, next=nxt, suffix=suf)
        for at in [110, 111, 125, 200, 201, 300, 500]:
            for end in ends:
                for nxt in NEXT:
                    for suf in HOW:
                        yield dict(at=at, end=end, next=nxt, suffix=suf)
        for b in more:
            for off in win if deep else range(-6, 3):
                for end in ends if deep else ("crlf", "lf", "crlfpad"):
                    for nxt in ("ff", "end", "none"):
                        for suf in HOW if deep else (".IMG",):
                            yield dict(at=b + off, end=end, next=nxt, suffix=suf)
        for b in bounds[:1]:
            for off in range(-8, 3):
                for suf in (".LBL", ".gz"):
                    for end in ("crlf", "lf"):
                        for nxt in ("ff", "end"):
                            yield dict(at=b + off, end=end, next=nxt, suffix=suf)

    def short():
        # the reader insists on an ASCII file head: whatever follows a label shorter than that head must be ASCII
        yield from product(
            dict(klen=range(8, 25), end=list(ENDS), next=list(NEXT)),
            lambda c: c["klen"] + 4 + len("".join(ENDS[c["end"]][0])) + len(ENDS[c["end"]][1]) >= 20 or max(NEXT[c["next"]][:20] or b"0") < 128)

    def limit():
        for at in (60 * K, 99 * K, 101 * K, 150 * K, 151 * K, 300 * K, 1000 * K - 60, 1100 * K, 1500 * K if deep else 1200 * K):
            for lim in (1000 * K, 1600 * K, 400 * K):
                if at + 20 < lim:
                    yield dict(at=at, limit=lim)

    return [
        Space("boundary", main, run, "END offset windows x terminator x following bytes x file kind"),
        Space("short", short, run_short, "labels of 12-40 bytes"), Space("limit", limit, run_limit, "label sizes x pvl_limit"),
    ]
