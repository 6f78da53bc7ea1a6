"""PDS4 label writer."""
from __future__ import annotations

from pathlib import Path
from xml.sax.saxutils import escape

NS = 'xmlns="http://pds.nasa.gov/pds4/pds/v1"'


def el(tag, *body, **attrs):
    """element: body items are ready XML strings or scalars"""
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    if len(body) == 1 and not (isinstance(body[0], str) and body[0].startswith("<")):
        return f"<{tag}{a}>{escape(str(body[0]))}</{tag}>"
    return f"<{tag}{a}>" + "".join(b for b in body if b) + f"</{tag}>"


def ident(name=None, lid=None):
    return (el("name", name) if name else "") + (el("local_identifier", lid) if lid else "")


def array(tag, dtype, axes, offset=0, name=None, lid=None, scale=None, shift=None, specials="", extra=""):
    """axes: [(name, elements)], first varies slowest"""
    ea = el("Element_Array", el("data_type", dtype), el("scaling_factor", scale) if scale is not None else "", el("value_offset", shift) if shift is not None else "")
    ax = "".join(el("Axis_Array", el("axis_name", n), el("elements", k), el("sequence_number", i + 1)) for i, (n, k) in enumerate(axes))
    return el(tag, ident(name, lid), el("offset", offset, unit="byte"), el("axes", len(axes)), el("axis_index_order", "Last Index Fastest"), ea, ax, specials, extra)


def specials(**consts):
    return el("Special_Constants", *[el(k, v) for k, v in consts.items()]) if consts else ""


def bfield(n, name, dtype, loc, length, scale=None, shift=None, kind="Binary", extra=""):
    return el(f"Field_{kind}", el("name", name), el("field_number", n), el("field_location", loc, unit="byte") if loc else "", el("data_type", dtype),
              el("field_length", length, unit="byte") if length else "", el("scaling_factor", scale) if scale is not None else "",
              el("value_offset", shift) if shift is not None else "", extra)


def bgroup(n, reps, loc, length, fields, groups=0, name=None, kind="Binary"):
    return el(f"Group_Field_{kind}", el("name", name) if name else "", el("group_number", n), el("repetitions", reps), el("fields", sum("<Field_" in f[:8] for f in fields)), el("groups", groups),
              el("group_location", loc, unit="byte") if loc else "", el("group_length", length, unit="byte") if length else "", *fields)


def table(kind, records, fields, record_length=None, offset=0, name=None, lid=None, groups=0, delim="Carriage-Return Line-Feed", fdelim="Comma", length=None, maxlen=None, usampled=""):
    """kind: Binary, Character, Delimited; fields: XML of fields and groups"""
    nf = sum(f.startswith("<Field_") for f in fields)
    rec = [el("fields", nf), el("groups", groups)]
    if record_length:
        rec.append(el("record_length", record_length, unit="byte"))
    if maxlen:
        rec.append(el("maximum_record_length", maxlen, unit="byte"))
    body = [ident(name, lid), el("offset", offset, unit="byte"), el("object_length", length, unit="byte") if length else ""]
    if kind == "Delimited":
        body += [el("parsing_standard_id", "PDS DSV 1"), el("records", records), el("record_delimiter", delim), el("field_delimiter", fdelim)]
    else:
        body += [el("records", records)] + ([el("record_delimiter", delim)] if kind == "Character" else [])
    body.append(usampled)
    return el(f"Table_{kind}", *body, el(f"Record_{kind}", *rec, *fields))


def header(length, offset=0, name=None, lid=None, std="7-Bit ASCII Text"):
    return el("Header", ident(name, lid), el("offset", offset, unit="byte"), el("object_length", length, unit="byte"), el("parsing_standard_id", std))


def label(areas, extra="", root="Product_Observational", lid="urn:nasa:pds:b:d:p"):
    """areas: [(file name, [structures])] or [(area tag, file name, [structures])]"""
    fa = ""
    for a in areas:
        tag, fn, structs = a if len(a) == 3 else ("File_Area_Observational",) + tuple(a)
        fa += el(tag, el("File", el("file_name", fn)), *structs)
    ident_area = el("Identification_Area", el("logical_identifier", lid), el("version_id", "1.0"), el("title", "T"), el("information_model_version", "1.11.0.0"), el("product_class", root))
    return f'<?xml version="1.0" encoding="UTF-8"?>\n<{root} {NS}>{ident_area}{extra}{fa}</{root}>\n'


def write(d, stem, areas, files, suffix=".xml", **kw):
    for name, content in files.items():
        (Path(d) / name).write_bytes(content)
    p = Path(d) / f"{stem}{suffix}"
    p.write_text(label(areas, **kw))
    return p
