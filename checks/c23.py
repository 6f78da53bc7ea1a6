"""C23: debug mode changes reporting, never results.

Differential exploration in lockstep: the same product and the same history is run on a Data opened plainly and on one opened in each other reporting mode (debug with a Tracker, debug
with a trivial tracker, plain with a Tracker). After every operation the two observable states are compared: outcome of the operation, index, loaded names, every loaded value, metadata,
types and bytes. The one difference debug mode may make is that a missing file raises. Spaces: every reachable loaded-set state x operation and operation pairs over the
product corpus; every file-fault placement; and whole case spaces of the other checks, run in both modes with every Data they open compared afterwards.
Failures must reach the user of debug mode: as an exception, or as a failure record of that object in the tracker, whose log file must be readable JSON."""
import functools
import importlib
import itertools
import json
import os
import shutil
import warnings
from collections.abc import Mapping

import numpy as np

from mc import pds, products
from mc.core import Fail, Space, require, short

TECHNIQUE = "lockstep exploration of plain and debug-mode executions of the same histories on the real class (all states x operations, all pairs, all fault placements)"
ASSUMPTIONS = ["a missing file raises FileNotFoundError in debug mode and warns otherwise; that is the documented difference"]

MODES = ("debug", "debug-trivial", "tracked")


def tracker(d, name="t"):
    from dustgoggles.tracker import Tracker
    return Tracker(name, outdir=d)


def options(mode, d, name="t"):
    from dustgoggles.tracker import TrivialTracker
    if mode == "plain":
        return {}
    if mode == "debug":
        return dict(debug=True, tracker=tracker(d, name))
    if mode == "debug-trivial":
        return dict(debug=True, tracker=TrivialTracker())
    return dict(tracker=tracker(d, name))


def digest(v):
    """value as comparable plain data"""
    import pandas as pd
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", digest(v.data), digest(np.ma.getmaskarray(v)))
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject or v.dtype.names:
            return ("array", str(v.dtype), v.shape, repr(v.tolist()))
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, pd.DataFrame):
        return ("frame", [repr(c) for c in v.columns], [str(t) for t in v.dtypes], repr([v.iloc[:, i].tolist() for i in range(v.shape[1])]), len(v))
    if isinstance(v, Mapping):
        return ("map", repr(list(v.items())))
    if isinstance(v, (str, bytes, int, float)) or v is None:
        return (type(v).__name__, repr(v))
    if type(v).__name__ == "Label":
        return ("label", v.to_string() if hasattr(v, "to_string") else repr(type(v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [digest(x) for x in v])
    return (type(v).__name__, str(v))


def loaded(d):
    return {n: d.__dict__[n] for n in d.index if n in d.__dict__}


def state(d):
    return dict(index=list(d.index), loaded={n: digest(v) for n, v in loaded(d).items()}, metadata=repr(list(d.metadata.items())), fieldcounts=dict(d.metadata.fieldcounts),
                standard=d.standard, scaleflags={k: bool(v) for k, v in d._scaleflags.items()}, unloaded=tuple(sorted(d.unloaded())))


def compare(a, b, what):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                diff = [n for n in list(a[k]) + list(b[k]) if a[k].get(n) != b[k].get(n)]
                raise Fail(f"{what}: {k} differs in {sorted(set(diff))}: plain {short({n: a[k].get(n) for n in diff})}", {n: b[k].get(n) for n in diff})
            raise Fail(f"{what}: {k} is {short(b[k])}, plainly {short(a[k])}")


def do(d, op, tmp):
    kind, n = op
    if kind == "attr":
        return getattr(d, n)
    if kind == "item":
        return d[n]
    if kind == "load":
        return d.load(n)
    if kind == "reload":
        return d.load(n, reload=True)
    if kind == "scaled":
        return d.get_scaled(n)
    if kind == "del":
        return delattr(d, n) if n in d.__dict__ else None
    if kind == "loadall":
        return d.load("all") if n == "load" else d.load_all()
    if kind == "iter":
        return list(d)
    if kind == "partial":
        return next(iter(d))
    if kind == "dump":
        os.makedirs(tmp, exist_ok=True)
        d.dump_browse(outpath=tmp, scaled=n)
        out = {f: open(os.path.join(tmp, f), "rb").read() for f in sorted(os.listdir(tmp))}
        shutil.rmtree(tmp)
        return repr(out)
    if kind == "meta":
        return [d.metaget_(n), d.metadata.metaget_fuzzy(n), d.metablock_(n), list(d.keys()), len(d), n in d]
    raise AssertionError(kind)


def attempt(d, op, tmp):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = ("ok", do(d, op, tmp))
        except Exception as ex:
            out = ("raise", ex)
    return out, [str(x.message) for x in w if x.category is UserWarning]


def outcome(o):
    return (o[0], digest(o[1])) if o[0] == "ok" else (o[0], type(o[1]).__name__, str(o[1]))


class Pair:
    def __init__(self, plain, other, mode, ctx, missing=()):
        self.a, self.b, self.mode, self.ctx = plain, other, mode, ctx
        self.diverged = False  # a missing file raised in debug mode
        self.missing = missing  # function: is the file of this name gone
        self.same("after opening")

    def same(self, what):
        a, b = state(self.a), state(self.b)
        if self.diverged:  # debug raised where plain fell back: what both have must agree, and plain may have more
            only = set(b["loaded"]) - set(a["loaded"])
            require(not only, f"{what} ({self.mode}): {sorted(only)} loaded only in debug mode")
            a["loaded"] = {n: v for n, v in a["loaded"].items() if n in b["loaded"]}
            for k in ("index", "unloaded", "scaleflags"):
                a.pop(k), b.pop(k)
        compare(a, b, f"{what} ({self.mode})")
        self.ctx.step(len(a["loaded"]) + 2)
        self.ctx.state((self.mode, tuple(self.a.index), tuple(sorted(a["loaded"])), self.diverged))

    def op(self, op):
        before = {n: (n in self.a.__dict__, n in self.b.__dict__) for n in self.a.index}
        mark = len(self.b.tracker.history) if self.mode == "debug" else 0
        x, warn_a = attempt(self.a, op, str(self.ctx.dir / "dump_a"))
        y, warn_b = attempt(self.b, op, str(self.ctx.dir / "dump_b"))
        what = f"after {op}"
        if self.mode.startswith("debug") and y[0] == "raise" and isinstance(y[1], FileNotFoundError) and outcome(x) != outcome(y):
            require(warn_a or before.get(op[1], (False, False))[0] or self.diverged, f"{what}: debug mode raised {y[1]!r} where plain mode did not even warn")
            self.diverged = True
        elif self.diverged and (op[0] in ("loadall", "iter", "partial", "dump") or before.get(op[1], (0, 0))[0] != before.get(op[1], (0, 0))[1]):
            pass  # started from different loaded sets
        else:
            require(outcome(x) == outcome(y), f"{what} ({self.mode}): outcome {short(y)}, plainly {short(x)}")
            require(bool(warn_a) == bool(warn_b), f"{what} ({self.mode}): warnings {warn_b}, plainly {warn_a}")
            if self.mode == "debug" and op[0] in ("attr", "item", "load", "reload"):
                self.reported(op[1], mark, warn_a, before)
        self.same(what)

    def reported(self, name, mark, warned, before):
        """a fresh load of a PDS3 object leaves its outcome in the tracker"""
        if self.b.standard != "PDS3" or name not in before:
            return
        rec = [r for r in self.b.tracker.history[mark:] if r.get("obj") == name]
        bad = [r for r in rec if str(r.get("status", "")).endswith("failed")]
        if any(m.startswith(("Unable to load", "This product's")) for m in warned):
            require(bad, f"failure to load {name} is not in the tracker", rec)
        elif not warned and rec:
            require(not bad, f"tracker reports a failure of {name}, which loaded", bad)

    def finish(self):
        t = self.b.tracker
        if self.mode in ("debug", "tracked") and t.history and t.outpath.exists():
            try:
                log = json.loads(t.outpath.read_text())
            except ValueError as ex:
                raise Fail(f"tracker log is not JSON: {ex}")
            require(isinstance(log, list) and log and log[-1].get("name") == t.name, "tracker log is incomplete", log)


# ---------------------------------------------------------------- histories on the product corpus
def lockstep(c, ctx):
    prod = products.ALL[c["product"]](ctx.dir)
    a, _ = pds.quiet_read(prod.path)
    b, _ = pds.quiet_read(prod.path, **options(c["mode"], ctx.dir))
    p = Pair(a, b, c["mode"], ctx)
    for op in c["ops"]:
        p.op(tuple(op))
    p.finish()
    return f"{c['product']} {c['mode']} {'missing file raised' if p.diverged else 'equal'}"


def ops(names):
    from checks import c10
    return [o for o in c10.ops(names) if o[0] != "del"] + [("dump", False), ("dump", True), ("dump", "both")] + [("meta", n) for n in names[:2]]


# ---------------------------------------------------------------- faults
def faulty(c, ctx):
    from checks import c11
    path, objs, raw = c11.PRODUCTS[c["product"]](ctx.dir)
    for n in raw:
        f = c["faults"].get(n, "ok")
        f = len(raw[n]) + f[1] if isinstance(f, (list, tuple)) else f
        c11.inject(str(ctx.dir), n, raw[n], f)
    try:
        a, _ = pds.quiet_read(path)
    except Exception as ex:
        a = ex
    try:
        b, _ = pds.quiet_read(path, **options("debug", ctx.dir))
    except Exception as ex:
        b = ex
    if isinstance(a, Exception) or isinstance(b, Exception):
        require(type(a) is type(b), f"opening gave {short(b)} in debug mode, plainly {short(a)}")
        return "trivial: cannot be opened"
    p = Pair(a, b, "debug", ctx)
    for n in (list(objs) if c.get("order") != "reverse" else list(objs)[::-1]):
        p.op(("item", n))
    p.op(("loadall", "method"))
    if c.get("repair"):  # the files come back (or go), and everything is loaded anew
        for n in raw:
            c11.inject(str(ctx.dir), n, raw[n], "ok" if c["repair"] == "all" or n not in c["faults"] else "gone")
        for n in objs:
            p.op(("reload", n))
        if c["repair"] == "all":
            la, lb = state(a)["loaded"], state(b)["loaded"]
            for n in objs:
                require(la.get(n) == lb.get(n), f"{n}, reloaded from its repaired file, differs in debug mode", short(lb.get(n)), short(la.get(n)))
    p.finish()
    return f"{c['product']} {len(c['faults'])} faults{' raised' if p.diverged else ''}"


# ---------------------------------------------------------------- cases of the other checks
@functools.cache
def space_of(check, name):
    return next(s for s in importlib.import_module("checks." + check).spaces("quick") if s.name == name)


def borrowed(c, ctx):
    """run another check's case in both modes; every Data it opened must have ended in the same state"""
    space = space_of(c["check"], c["space"])
    got = {}
    for mode in ("plain", "debug"):
        sub = ctx.dir / mode
        sub.mkdir()
        inner = Inner(ctx, sub)
        count = itertools.count()
        logs = ctx.dir / f"{mode}_logs"
        logs.mkdir()
        pds.OPENED = []
        pds.EXTRA = lambda path: options(mode, logs, f"t{next(count)}")
        try:
            try:
                out = ("ok", space.fn(c["case"], inner))
            except Fail as ex:
                out = ("fail", str(ex.args[0]))
            except FileNotFoundError as ex:
                out = ("missing", str(ex))
            got[mode] = out, pds.OPENED
        finally:
            pds.OPENED = pds.EXTRA = None
    (oa, da), (ob, db) = got["plain"], got["debug"]
    if ob[0] == "missing" and oa[0] != "missing":
        return "trivial: missing file raised"
    norm = lambda o: (o[0], str(o[1]).replace(str(ctx.dir / "debug"), str(ctx.dir / "plain")))
    require(oa[0] == ob[0], f"case of {c['check']}/{c['space']} gives {short(ob)} in debug mode, plainly {short(oa)}")
    require(len(da) == len(db), "another number of products was opened")
    for i, (a, b) in enumerate(zip(da, db)):
        sa, sb = state(a), state(b)
        compare(repath(sa, ctx.dir / "plain"), repath(sb, ctx.dir / "debug"), f"product {i} of a case of {c['check']}/{c['space']}")
        ctx.step(len(sa["loaded"]) + 2)
    return f"{c['check']} {c['space']} {norm(oa)[0]}"


def repath(s, d):
    if isinstance(s, str):
        return s.replace(str(d), "DIR")
    if isinstance(s, dict):
        return {k: repath(v, d) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return type(s)(repath(v, d) for v in s)
    return s


class Inner:
    def __init__(self, ctx, d):
        self.dir = d
        self.ctx = ctx

    def step(self, n=1):
        self.ctx.step(n)

    def state(self, x):
        pass

    def __getattr__(self, name):
        return getattr(self.ctx, name)


QUICK = [("c03", "refusals"), ("c04", "refusals"), ("c05", "structures"), ("c06", "labels"), ("c06", "probes"), ("c08", "refusals"), ("c08", "byte-columns"), ("c09", "names"), ("c09", "probes"),
         ("c17", "pds3"), ("c17", "bad cards"), ("c19", "labelled"), ("c19", "frames"), ("c22", "pds3-2"), ("c24", "probes")]
DEEP = QUICK + [("c25", "histograms"), ("c09", "neighbours"), ("c24", "text"), ("c03", "types"), ("c04", "variants"), ("c05", "framing"), ("c05", "items"), ("c06", "fixed"), ("c07", "widths"), ("c09", "forms"), ("c13", "kinds"), ("c13", "other"),
                ("c15", "pds4"), ("c15", "bands"), ("c18", "uniform"), ("c18", "many"), ("c22", "pds3-3"), ("c22", "pds4-2"), ("c25", "arrays"), ("c25", "ascii")]


def spaces(tier):
    deep = tier == "thorough"

    def states():
        from checks import c10
        for p in c10.NAMES:
            for c in c10.graph(p):
                if c["ops"][-1][0] == "del" or not deep and p == "detached" and len(c["ops"]) > 3:
                    continue
                yield dict(c, mode="debug")

    def pairs():
        from checks import c10
        for p in c10.NAMES:
            names = c10.NAMES[p] if deep else c10.FOCUS[p][1]
            for m in (MODES if deep or p in ("attached", "gif") else MODES[:1]):
                for a, b in itertools.product(ops(names), repeat=2):
                    yield dict(product=p, mode=m, ops=[a, b])

    def faults():
        from checks import c11
        for s in c11.spaces("quick"):
            if s.name in ("subsets", "cuts"):
                for c in (s.cases() if callable(s.cases) else s.cases):
                    if not c.get("comp") and c.get("order") != "all" and (deep or len(c["faults"]) < 3):
                        yield dict(product=c["product"], faults=c["faults"], order=c.get("order"))
                        if s.name == "subsets" and c.get("order") != "reverse":
                            for r in ("all", "gone") if deep or len(c["faults"]) < 2 else ("all",):
                                yield dict(product=c["product"], faults=c["faults"], repair=r)

    def others():
        for check, name in (DEEP if deep else QUICK):
            space = space_of(check, name)
            for c in (space.cases() if callable(space.cases) else space.cases):
                yield dict(check=check, space=name, case=c)

    return [
        Space("state-graph", states, lockstep, "every reachable loaded-set state x every operation, plain and debug in lockstep"),
        Space("pairs", pairs, lockstep, "every pair of operations x reporting mode"),
        Space("faults", faults, faulty, "file faults and truncations: plain and debug in lockstep"),
        Space("borrowed", others, borrowed, "whole case spaces of other checks run in both modes"),
    ]
