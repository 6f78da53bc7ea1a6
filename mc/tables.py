"""PDS3 table definitions: an independent layout calculator and cell encoder.

Elements (dicts):
  col   {k:'col', name, type, nb, gap}                        one COLUMN
  items {k:'items', name, type, nb, n, pad, gap}              COLUMN with ITEMS
  bits  {k:'bits', name, type, nb, gap, fields:[(name,start,bits[,items])], bdt}
  cont  {k:'cont', name, els:[...], reps, tail, gap, file}    CONTAINER (tail: pad bytes at the end of each repetition)
  file  {k:'file', name, els:[...]}                           ^STRUCTURE holding plain columns
`gap` bytes of padding come before the element."""
from __future__ import annotations

from fractions import Fraction

from mc import pds
from mc.core import require

TYPES = dict(pds.IMAGE_TYPES)
TYPES.update({
    "CHARACTER": ("c", ""), "TIME": ("c", ""), "DATE": ("c", ""), "EBCDIC_CHARACTER": ("e", ""), "IBM_REAL": ("ibm", ">"),
    "BOOLEAN": ("b", ">"), "MSB_BIT_STRING": ("v", ">"), "LSB_BIT_STRING": ("v", "<"),
})


def size(el):
    if el["k"] == "items":
        return (el["nb"] + el["pad"]) * el["n"] - (el["pad"] if el.get("notrail") else 0)
    if el["k"] == "cont":
        return rep_bytes(el) * el["reps"]
    if el["k"] == "file":
        return span(el["els"])
    return el["nb"]


def span(els):
    at = 0
    for e in els:
        at += e.get("gap", 0) + size(e)
    return at


def rep_bytes(el):
    return span(el["els"]) + el.get("tail", 0)


def leaves(els, base=0):
    """(name, type, nb, offset, element) of every cell of one row, label order"""
    at = base
    for e in els:
        at += e.get("gap", 0)
        if e["k"] == "cont":
            for r in range(e["reps"]):
                yield from leaves(e["els"], at + r * rep_bytes(e))
        elif e["k"] == "file":
            yield from leaves(e["els"], at)
        elif e["k"] == "items":
            for i in range(e["n"]):
                yield e["name"], e["type"], e["nb"], at + i * (e["nb"] + e["pad"]), e
        else:
            yield e["name"], e["type"], e["nb"], at, e
        at += size(e)


def unique_names(names):
    """pdr's documented naming: repeated names get _0, _1 ... in order"""
    seen, out = {}, []
    for n in names:
        if names.count(n) == 1:
            out.append(n)
        else:
            seen[n] = seen.get(n, -1) + 1
            out.append(f"{n}_{seen[n]}")
    return out


def statements(els, files, style=None, base=1, ascii_=False):
    """PVL statements for the elements; `files` collects format files (name -> text)"""
    style = style or {}
    out, at = [], base
    for e in els:
        at += e.get("gap", 0)
        if e["k"] == "file":
            fn = f"{e['name']}.FMT"
            # START_BYTEs in a top-level format file are relative to the row
            files[fn] = fmt_text(statements(e["els"], files, style, at))
            out.append(("^STRUCTURE", f'"{fn}"'))
        elif e["k"] == "cont":
            body = [("NAME", e["name"]), ("START_BYTE", at), ("BYTES", rep_bytes(e)), ("REPETITIONS", e["reps"])]
            inner = statements(e["els"], files, style, 1)
            if e.get("file"):
                fn = f"{e['name']}.FMT"
                files[fn] = fmt_text(inner)
                body.append(("^STRUCTURE", f'"{fn}"'))
            else:
                body += inner
            out.append(pds.block("OBJECT", "CONTAINER", *body))
        else:
            body = [("NAME", e["name"]), ("DATA_TYPE", e["type"]), ("START_BYTE", at)]
            if not (e["k"] == "items" and e.get("nobytes")):
                body.append(("BYTES", size(e)))
            if e["k"] == "items":
                body += [("ITEMS", e["n"]), ("ITEM_BYTES", e["nb"])]
                if e["pad"] or e.get("itemoffset"):
                    body.append(("ITEM_OFFSET", e["nb"] + e["pad"]))
            if e["k"] == "bits":
                for f in e["fields"]:
                    b = [("NAME", f[0]), ("BIT_DATA_TYPE", e.get("bdt", "MSB_UNSIGNED_INTEGER")), ("START_BIT", f[1]), ("BITS", f[2])]
                    if len(f) > 3:
                        b = b[:3] + [("BITS", f[2] * f[3]), ("ITEMS", f[3]), ("ITEM_BITS", f[2])]
                    body.append(pds.block("OBJECT", "BIT_COLUMN", *b))
            body += list(e.get("extra", ()))
            if style.get("rot"):
                # statement order inside a COLUMN is free
                r = style["rot"] % len(body)
                body = body[r:] + body[:r]
            out.append(pds.block("OBJECT", "COLUMN", *body))
        at += size(e)
    return out


def fmt_text(stmts, eol="\r\n"):
    return eol.join(pds.render(stmts) + ["END"]) + eol


# ---------------------------------------------------------------- cells
TEXT = [b"abcdefgh", b"  lead  ", b"x       ", b"        ", b"-1.5e3  ", b"~}{|,;\"'"]


def cell_bytes(typ, nb, i):
    """i-th stored cell of this type (deterministic, distinct for neighbouring i)"""
    kind, order = TYPES[typ]
    if kind in "uif" or kind == "vax":
        return pds.encode_value(kind, order, nb, pds.pixel_value(kind, nb, i))
    if kind == "ibm":
        menu = [0x41100000, 0xC1200000, 0, 0x42640000, 0x3F123456, 0xBE800001, 0x47ABCDEF]
        w = (menu[i % 7] + (i // 7)) & 0xFFFFFFFF if i % 7 != 2 else 0
        return w.to_bytes(4, "big") + (bytes([1, 2, 3, (i % 250) + 1]) if nb == 8 and w else bytes(nb - 4))
    if kind == "c":
        t = TEXT[i % len(TEXT)]
        t = (bytes([65 + (i // len(TEXT)) % 26]) + t)[:nb] if i >= len(TEXT) else t[:nb]
        return t.ljust(nb)
    if kind == "e":
        return TEXT[i % 3][:nb].decode().ljust(nb).encode("cp500")
    if kind == "b":
        return bytes([(0, 1, 255, 2)[i % 4]])
    return bytes((17 + 29 * i + 83 * j) % 256 for j in range(nb))


def cell_value(typ, raw):
    kind, order = TYPES[typ]
    if kind in "ui":
        return int.from_bytes(raw, "big" if order == ">" else "little", signed=kind == "i")
    if kind == "f":
        import struct
        return struct.unpack(order + {4: "f", 8: "d"}[len(raw)], raw)[0]
    if kind == "vax":
        return pds.vax32_value(raw)
    if kind == "ibm":
        return pds.ibm_value(raw)
    if kind == "e":
        return raw.decode("cp500")
    if kind == "b":
        return raw != b"\0"
    return raw


def make_rows(els, rows, prefix=0, suffix=0, pad=0, salt=0):
    """(bytes of all rows, list of rows of raw cells)"""
    cols = list(leaves(els))
    width = span(els) + pad
    out, table, n = bytearray(), [], salt
    for r in range(rows):
        row = bytearray(pds.filler(width, r))
        cells = []
        for name, typ, nb, off, e in cols:
            raw = bytes.fromhex(e["words"][r]) if e.get("words") else cell_bytes(typ, nb, n)
            n += 1
            row[off:off + nb] = raw
            cells.append(raw)
        out += pds.filler(prefix, 100 + r) + row + pds.filler(suffix, 200 + r)
        table.append(cells)
    return bytes(out), table


def eq_cell(typ, got, raw):
    want = cell_value(typ, raw)
    kind = TYPES[typ][0]
    if kind == "c":
        g = got.encode("latin-1") if isinstance(got, str) else bytes(got)
        return g.rstrip(b" \0") == raw.rstrip(b" \0")
    if kind == "v":
        return bytes(got) == raw
    if kind == "f" and want != want:
        return got != got
    if kind == "f":
        return got == want and str(got)[0] == str(want)[0]
    if kind in ("vax", "ibm"):
        return Fraction(float(got)) == want or (float(got) == float(want))
    if kind == "b":
        return bool(got) == want and str(got) in ("True", "False")
    return got == want


def check_names(got, labels, what):
    want = unique_names(labels)
    require(len(set(got)) == len(got), f"{what} column names are not unique", got)
    if "RESERVED" in labels or set(want) & (set(labels) - set(want)) or len(set(want)) < len(want):
        # names that need more than plain numbering: documented only as "unique, derived from the label's name"
        ok = len(got) == len(labels) and all(g == n if labels.count(n) == 1 else g.startswith(n + "_") for g, n in zip(got, labels))
        require(ok, f"{what} columns differ from label", got, labels)
        return got
    require(got == want, f"{what} columns differ from label", got, want)
    return want


def check_frame(df, els, cells, what="TABLE"):
    import pandas as pd
    cols = list(leaves(els))
    require(isinstance(df, pd.DataFrame), f"{what} is not a table", type(df), df)
    require(len(df) == len(cells), f"{what} has {len(df)} rows, label says {len(cells)}")
    want = check_names(list(df.columns), [c[0] for c in cols], what)
    n = 0
    swapped = [c for c, d in zip(want, df.dtypes) if not getattr(d, "isnative", True)]
    require(not swapped, f"{what}: columns in foreign byte order, which pandas cannot work with", swapped)
    for j, (name, typ, nb, off, e) in enumerate(cols):
        col = df.iloc[:, j].tolist()
        for r, got in enumerate(col):
            raw = cells[r][j]
            if e["k"] == "bits":
                bits = bin_fields(raw, e)
                require(list(got) == bits, f"{what}[{want[j]}][{r}] bit fields differ", list(got), bits)
            else:
                require(eq_cell(typ, got, raw), f"{what}[{want[j]}] ({typ} {nb}) row {r} is {got!r}, stored {raw!r}", cell_value(typ, raw))
            n += 1
    return n


def bin_fields(raw, e):
    """bit fields, most significant bit first (LSB strings: bytes reversed first)"""
    b = raw[::-1] if TYPES[e["type"]][1] == "<" else raw
    s = "".join(f"{x:08b}" for x in b)
    out = []
    for f in e["fields"]:
        for i in range(f[3] if len(f) > 3 else 1):
            a = f[1] - 1 + i * f[2]
            out.append(s[a:a + f[2]])
    return out
