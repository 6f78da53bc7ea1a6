"""C10: Data behaves as a lazily loaded mapping after any operation history.

Reference model (explicit state): the set of loaded names and the index. Every operation has a specified result and successor state. Two explorations:
the complete reachable state graph of the model, each transition executed on the real class from a fresh product brought to the source state; and every
operation history up to a length bound. After every operation the whole observable state is compared: keys, len, membership, unloaded, repr, metadata, every
loaded value (against the values written to disk) and object identity."""
import itertools
import warnings

import numpy as np

from mc import pds, products
from mc.core import Space, require, short

TECHNIQUE = "explicit-state exploration of the loaded-set model + all operation histories to a bound, every transition replayed on pdr.Data"
ASSUMPTIONS = ["single thread (threads are C21's)"]


class Model:
    forget = None

    def __init__(self, prod):
        self.p = prod
        self.index = [n for n in prod.names if n not in prod.derived]
        self.loaded = set(prod.preloaded)

    def mark(self, n, again=False):
        """n becomes loaded; derived names appear"""
        fresh = n not in self.loaded
        if not fresh and not again:
            return
        self.loaded.add(n)
        for d, parent in self.p.derived.items():
            if parent == n:
                self.loaded.add(d)
                if d not in self.index:
                    self.index.append(d)
                if fresh and self.forget is not None:
                    self.forget(d)  # loaded along with its parent: may be a new object now


class Run:
    def __init__(self, prod, ctx, **kw):
        self.p, self.ctx = prod, ctx
        self.m = Model(prod)
        self.d, w = pds.quiet_read(prod.path, **kw)
        self.meta = repr(self.d.metadata)
        self.objs = {}
        self.m.forget = lambda n: self.objs.pop(n, None)
        self.observe("open")

    def value(self, n, got, what):
        products.check(got, self.p.objs[n], f"{what} {n}")

    # --- operations: return nothing, raise Fail on disagreement
    def _call(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                out = ("ok", fn())
            except Exception as ex:
                out = ("raise", ex)
        cats = [f"{x.category.__name__}" for x in w if x.category is not ResourceWarning]
        return out, cats

    def op(self, op):
        kind, n = op
        m, d = self.m, self.d
        was = set(m.loaded)
        known = n in m.index
        if kind in ("attr", "item"):
            (st, val), warned = self._call((lambda: getattr(d, n)) if kind == "attr" else (lambda: d[n]))
            if not known:
                require(st == "raise" and isinstance(val, (AttributeError, KeyError)), f"{kind} of unknown name gave {short(val)}")
            else:
                require(st == "ok", f"{kind} {n} raised {val!r}")
                self.value(n, val, kind)
                self.expect_warn(n, n not in was, warned)
                m.mark(n)
        elif kind in ("load", "reload"):
            (st, val), warned = self._call(lambda: d.load(n) if kind == "load" else d.load(n, reload=True))
            if not known:
                require(st == "raise" and isinstance(val, KeyError), f"load of unknown name gave {short(val)}")
            elif n in was and kind == "load":
                require(st == "raise" and type(val).__name__ == "AlreadyLoadedError", f"second load of {n} gave {val!r}")
            else:
                require(st == "ok", f"{kind} {n} raised {val!r}")
                require(val is None, f"load returned {short(val)}")
                self.expect_warn(n, True, warned)
                if n in was:
                    self.objs.pop(n, None)  # may be a new object now
                    for x, parent in self.p.derived.items():
                        if parent == n:
                            self.objs.pop(x, None)
                m.mark(n, True)
        elif kind == "scaled":
            (st, val), warned = self._call(lambda: d.get_scaled(n))
            if n in self.p.scaled:
                require(st == "ok", f"get_scaled({n}) raised {val!r}")
                exp = self.p.scaled[n]
                exp = self.p.objs[n].values if exp is None else exp
                flat = np.ma.getdata(val).reshape(-1).tolist()
                require(val.shape == self.p.objs[n].shape and flat == exp, f"get_scaled({n}) is {short(flat)}", exp)
            else:
                require(st == "raise" and isinstance(val, (TypeError, AttributeError, KeyError)), f"get_scaled({n}) gave {short(val)}")
            if known:
                m.mark(n)
        elif kind == "loadall":
            (st, val), warned = self._call((lambda: d.load("all")) if n == "load" else d.load_all)
            require(st == "ok", f"load_all raised {val!r}")
            for x in list(m.index):
                if x not in self.p.ignored:
                    m.mark(x)
        elif kind == "iter":
            (st, val), warned = self._call(lambda: list(d))
            require(st == "ok", f"iteration raised {val!r}")
            for x in list(m.index):
                m.mark(x)
            # names derived on the way may or may not be visited; all loaded values must be right
            require(len(val) <= len(m.index), "iteration gave too many objects")
            for x, v in zip(m.index, val):
                self.value(x, v, "iteration")
        elif kind == "del":
            if n in was:
                delattr(d, n)
                m.loaded.discard(n)
                self.objs.pop(n, None)
        elif kind == "partial":
            it = self._call(lambda: next(iter(d)))[0]
            require(it[0] == "ok", f"next(iter) raised {it[1]!r}")
            m.mark(m.index[0])
        self.ctx.step()
        self.observe(op)

    def expect_warn(self, n, loads, warned):
        if loads and n in self.p.missing:
            require("UserWarning" in warned, f"no warning although the file of {n} is missing")
        else:
            require("UserWarning" not in warned, f"warned while loading {n}", warned)

    def observe(self, op):
        m, d = self.m, self.d
        keys = list(d.keys())
        require(keys == m.index, f"after {op}: keys are {keys}", m.index)
        require(len(d) == len(m.index), f"after {op}: len is {len(d)}")
        require(set(d.unloaded()) == set(m.index) - m.loaded, f"after {op}: unloaded() is {d.unloaded()}", sorted(set(m.index) - m.loaded))
        require(all(n in d for n in m.index) and "NOPE" not in d and "metadata" not in d, f"after {op}: membership is wrong")
        r = repr(d)
        require(str(m.index) in r and ("not yet loaded" in r) == bool(set(m.index) - m.loaded), f"after {op}: repr is wrong", r)
        require(repr(d.metadata) == self.meta, f"after {op}: metadata changed")
        for n in m.loaded:
            v = d.__dict__.get(n)
            require(v is not None, f"after {op}: {n} is not an attribute")
            if n in self.objs:
                require(v is self.objs[n], f"after {op}: {n} was replaced")
            else:
                self.objs[n] = v
            self.value(n, v, f"after {op}:")
        for n in set(m.index) - m.loaded:
            require(n not in d.__dict__, f"after {op}: {n} was loaded by the way")
        self.ctx.state((tuple(m.index), tuple(sorted(m.loaded))))
        self.ctx.step()


def run(c, ctx):
    r = Run(products.ALL[c["product"]](ctx.dir), ctx)
    for op in c["ops"]:
        r.op(tuple(op))
    return f"{c['product']} {len(c['ops'])}"


NAMES = {
    "detached": ["LABEL", "IMAGE", "SECOND_IMAGE", "TABLE", "ASCII_TABLE", "GONE_TABLE", "NOTES_TEXT", "INSTRUMENT_DESC"],
    "attached": ["LABEL", "IMAGE_HEADER", "IMAGE", "TABLE"],
    "fits": ["PRIMARY", "SCI", "EVENTS", "PRIMARY_HEADER", "SCI_HEADER", "EVENTS_HEADER"],
    "labfits": ["LABEL", "IMAGE", "SCI_IMAGE", "EVENT_TABLE", "IMAGE_HEADER", "SCI_IMAGE_HEADER", "EVENT_TABLE_HEADER"],
    "pds4": ["Head", "IMG", "TAB", "CSV_T", "label"],
    "png": ["IMAGE"],
    "gif": ["FRAME_0", "FRAME_1", "FRAME_2"],
}
BASE = {k: [n for n in v if not (k in ("fits", "labfits") and n.endswith("_HEADER"))] for k, v in NAMES.items()}
GLOBAL = [("loadall", "load"), ("loadall", "method"), ("iter", ""), ("partial", ""), ("attr", "NOPE"), ("item", "NOPE"), ("load", "NOPE"), ("scaled", "NOPE")]


def ops(names):
    return [(k, n) for n in names for k in ("attr", "item", "load", "reload", "scaled", "del")] + GLOBAL


def graph(product):
    """every reachable (loaded set) state, each with every operation from it: path = loads in name order, then the operation"""
    base = BASE[product]
    derived = [n for n in NAMES[product] if n not in base]
    for k in range(len(base) + 1):
        for s in itertools.combinations(base, k):
            path = [("load", n) for n in s]
            for op in ops(NAMES[product]):
                yield dict(product=product, ops=path + [op])
            # states in which a derived name was dropped again
            for x in derived:
                if any(x == f"{n}_HEADER" for n in s):
                    for op in ops([x, x[:-7]]):
                        yield dict(product=product, ops=path + [("del", x), op])


FOCUS = {"detached": (["IMAGE", "GONE_TABLE"], ["IMAGE", "TABLE", "GONE_TABLE", "LABEL"]), "attached": (["IMAGE", "IMAGE_HEADER"], ["IMAGE", "IMAGE_HEADER", "TABLE"]),
         "fits": (["SCI", "SCI_HEADER"], ["PRIMARY", "EVENTS", "EVENTS_HEADER"]), "labfits": (["IMAGE", "IMAGE_HEADER"], ["IMAGE", "SCI_IMAGE", "SCI_IMAGE_HEADER"]),
         "pds4": (["IMG", "label"], ["IMG", "TAB", "label"]), "png": (["IMAGE"], ["IMAGE"]), "gif": (["FRAME_0", "FRAME_2"], NAMES["gif"])}


def spaces(tier):
    deep = tier == "thorough"

    def states():
        for p in NAMES:
            yield from graph(p)

    def pairs():
        for p in NAMES:
            for a, b in itertools.product(ops(NAMES[p]), repeat=2):
                yield dict(product=p, ops=[a, b])

    def histories():
        for p in NAMES:
            n = 4 if deep and p in ("detached", "fits", "labfits") else 3
            for h in itertools.product(ops(FOCUS[p][1 if deep and n == 3 else 0]), repeat=n):
                yield dict(product=p, ops=list(h))

    return [
        Space("state-graph", states, run, "every reachable loaded-set state x every operation"),
        Space("pairs", pairs, run, "every pair of operations over all names"),
        Space("histories", histories, run, "every history of the length bound over a subset of names"),
    ]
