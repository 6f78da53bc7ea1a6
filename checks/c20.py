"""C20: softquery fills each metadata field by its own query; specialize lets the first special case win.

Every small program of queries (parameter lists over the other queries, the provided values and a name nobody supplies; required, optional and defaulted parameters) is run through softquery for every declaration order, every
subset of provided values and of queries answering None, and the calls made, their arguments, the result and the errors are compared with a reference interpreter. Every pair and chain of wrapped function and special-case checks over a
signature alphabet is run through specialize for every outcome of the checks. Everything is repeated under many hash seeds, in separate processes, with whole products loaded as well."""
import functools
import itertools
import json
import os
import re
import subprocess
import sys
from pathlib import Path

from mc import products
from mc.core import Fail, Space, product, require, short

TECHNIQUE = "exhaustive enumeration of query programs (signatures x declaration orders x provided values x None answers) and special-case chains on the real softquery/specialize against a reference interpreter, repeated over hash seeds"
ASSUMPTIONS = ["parameters are optional only by pdr's documented conventions (Optional[...], '| None', '_' and '__')", "hash seeds stand for the iteration orders of sets"]
CHUNK = 1

# parameter spellings: (source after the name, needed by softquery?, default)
NODEF = "<none>"
SPELL = {
    "req": ("", True, NODEF),
    "ann": (": int", True, NODEF),
    "def": ("=7", True, 7),
    "anndef": (": int = 7", True, 7),
    "defnone": ("=None", True, None),
    "opt": (": Optional[int]", False, NODEF),
    "optdef": (": Optional[int] = None", False, None),
    "ornone": (": int | None = None", False, None),
    "noneor": (": None | int = 5", False, 5),
    "optstr": (": 'Optional[int]' = None", False, None),
    "unionstr": (": 'int | None' = 3", False, 3),
}
LOG = []


@functools.lru_cache(None)
def make(name, params, returns_none=False, raises=False):
    """a function with the given parameters [(name, spelling)] that logs its name and arguments"""
    order = sorted(params, key=lambda p: SPELL[p[1]][2] != NODEF)
    src = f"def {name}({', '.join(n + SPELL[k][0] for n, k in order)}):\n    '''doc of {name}'''\n    return _call({name!r}, dict({', '.join(f'{n}={n}' for n, _ in order)}))\n"

    def call(who, args):
        LOG.append((who, args))
        if raises:
            raise ValueError(who)
        return None if returns_none else f"{who}({','.join(f'{k}={args[k]}' for k in sorted(args))})"

    from typing import Optional
    space = {"_call": call, "Optional": Optional}
    exec(src, space)
    return space[name]


def needed(params):
    return {n for n, k in params if SPELL[k][1] and n not in ("_", "__")}


# ------------------------------------------------------------------ softquery
def interpret(func_params, decl, provided, nones):
    """reference interpreter: decl is [(name, params)] in declaration order -> (calls, result) or (calls, 'TypeError')"""
    want = needed(func_params)
    for _, ps in decl:
        want |= needed(ps)
    have = dict(provided)
    want -= set(have)
    if want - {n for n, _ in decl}:
        return [], "TypeError"
    calls = []
    for n, ps in decl:
        if n not in want:
            continue
        args = {}
        for p, k in ps:
            if p in have:
                args[p] = have[p]
            elif SPELL[k][2] != NODEF:
                args[p] = SPELL[k][2]
            else:
                return calls, "TypeError"
        calls.append((n, args))
        have[n] = None if n in nones else f"{n}({','.join(f'{k}={args[k]}' for k in sorted(args))})"
    return calls, have


def one_softquery(func_params, decl, provided, nones):
    from pdr.func import softquery
    func = make("target", func_params)
    queries = {n: make(n, ps, n in nones) for n, ps in decl}
    LOG.clear()
    given = dict(provided)
    try:
        got = softquery(func, queries, given)
    except TypeError:
        got = "TypeError"
    calls, want = interpret(func_params, decl, provided, nones)
    require(LOG == calls, "queries called", list(LOG), calls, decl, provided, nones)
    require(got == want, "result", got, want, decl, provided, nones)
    require(list(queries) == [n for n, _ in decl], "the query declaration was changed", list(queries))
    if got != "TypeError":
        LOG.clear()
        from pdr.func import call_kwargfiltered
        args = call_model(func_params, want)
        try:
            call_kwargfiltered(func, **got)
        except TypeError:
            require(args is None, "the target cannot be called with the result", got, func_params)
        else:
            require(LOG == [("target", args)], "target arguments", list(LOG), args)


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def run_graph(c, ctx):
    """one assignment of parameter lists to queries; all declaration orders, targets, provided values and None answers"""
    names = [f"q{i}" for i in range(len(c["params"]))]
    decls = {n: tuple((p, "req") for p in ps) for n, ps in zip(names, c["params"])}
    for order in itertools.permutations(names):
        decl = [(n, decls[n]) for n in order]
        for target in subsets(names):
            for prov in subsets(names + ["p"]):
                for nones in ([(), tuple(names)] if c["few"] else subsets(names)):
                    # values may be provided as None: they count as provided all the same
                    for given in ({p: f"given {p}" for p in prov}, dict.fromkeys(prov), {p: None if i else f"given {p}" for i, p in enumerate(prov)})[:1 + (len(prov) > 0 and not (c["few"] and nones)) + (len(prov) > 1 and not c["few"])]:
                        one_softquery(tuple((t, "req") for t in target), decl, given, frozenset(nones))
                        ctx.step()
    return "dag" if acyclic(c["params"]) else "cyclic"


def acyclic(params):
    left = {f"q{i}": {p for p in ps if p[0] == "q"} for i, ps in enumerate(params)}
    while left:
        free = [n for n, ps in left.items() if not ps & set(left)]
        if not free:
            return False
        for n in free:
            del left[n]
    return True


def graph_cases(n, few, maxp):
    names = [f"q{i}" for i in range(n)]
    menus = [[s for s in subsets([m for m in names if m != me] + ["p"]) if len(s) <= maxp] for me in names]
    for ps in itertools.product(*menus):
        yield dict(params=[list(p) for p in ps], few=few)


def run_spelled(c, ctx):
    """parameter spellings: two queries and a target, every spelling of every parameter"""
    for k2 in SPELL:
        for k3 in SPELL:
            for order in (("q0", "q1"), ("q1", "q0")):
                decls = {"q0": (("p", c["k0"]),), "q1": (("q0", c["k1"]), ("p", k2)) if c["wide"] else (("q0", c["k1"]), (c["ignored"], k2))}
                for prov in subsets(["p", "q0", "q1"]):
                    one_softquery((("q1", k3), ("q0", c["k1"])), [(n, decls[n]) for n in order], {p: f"given {p}" for p in prov}, frozenset())
                    ctx.step()
    return "ok"


def run_tracker(c, ctx):
    """the tracker passed in kwargdict sees each called query once, in order; queries may also ask for it"""
    from pdr.func import softquery

    class Spy:
        def __init__(self):
            self.seen = []

        def track(self, func, **kw):
            self.seen.append(func.__name__)

    spy = Spy()
    decl = [(n, tuple((p, "req") for p in ps)) for n, ps in zip(c["order"], c["params"])]
    LOG.clear()
    try:
        softquery(make("target", tuple((t, "req") for t in c["target"])), {n: make(n, ps) for n, ps in decl}, {"tracker": spy})
    except TypeError:
        require(interpret(tuple((t, "req") for t in c["target"]), decl, {"tracker": spy}, ())[1] == "TypeError", "unexpected TypeError")
        return "error"
    require(spy.seen == [n for n, _ in LOG], "tracked queries", spy.seen, list(LOG))
    ctx.step()
    return "ok"


# ----------------------------------------------------------------- specialize
SIGS = [(), (("a", "req"),), (("a", "req"), ("b", "req")), (("b", "req"), ("a", "req")), (("a", "def"),), (("a", "req"), ("b", "def")), (("a", "optdef"), ("c", "req")), (("a", "ann"), ("c", "defnone")),
        (("c", "opt"), ("b", "anndef")), (("_", "req"), ("b", "req"))]


def union_model(*sigs):
    """name -> needed? ; None if annotations clash"""
    seen = {}
    for ps in sigs:
        for n, k in ps:
            ann = SPELL[k][0].split("=")[0].strip(" :'")
            if ann:
                seen.setdefault(n, set()).add(ann)
            else:
                seen.setdefault(n, set())
    if any(len(v) > 1 for v in seen.values()):
        return None
    return {n: not (n in ("_", "__") or any(a.startswith("Optional") for a in v)) for n, v in seen.items()}


def call_model(ps, kw):
    out = {}
    for n, k in ps:
        if n in kw:
            out[n] = kw[n]
        elif SPELL[k][2] != NODEF:
            out[n] = SPELL[k][2]
        else:
            return None
    return out


def text(who, args):
    return f"{who}({','.join(f'{k}={args[k]}' for k in sorted(args))})"


@functools.lru_cache(None)
def make_check(name, params, verdict):
    base = make(name, params)

    @functools.wraps(base)
    def check(*a, **k):
        out = base(*a, **k)
        if verdict == "raise":
            raise KeyError(name)
        return {"yes": (True, out), "none": (True, None), "no": (False, None), "noval": (False, "ignored")}[verdict]
    return check


def run_special(c, ctx):
    """a function under one or two special-case checks, every verdict, argument set and error handler"""
    from pdr.func import specialize, get_all_argnames
    from inspect import signature
    sigs = [SIGS[i] for i in c["sigs"]]
    model = union_model(*sigs)
    verdicts = list(itertools.product(("yes", "none", "no", "noval", "raise"), repeat=len(sigs) - 1))
    for vs in verdicts:
        for fraise in (False, True):
            for handler in (None, lambda ex: f"handled {type(ex).__name__}"):
                func = make("wrapped", sigs[0], False, fraise)
                checks = [make_check(f"check{i}", ps, v) for i, (ps, v) in enumerate(zip(sigs[1:], vs))]
                try:
                    f = func
                    for ck in checks:
                        f = specialize(f, ck, handler)
                except TypeError:
                    # annotations clash: refused when the function is wrapped
                    require(model is None, "specialize refused compatible signatures", sigs)
                    ctx.step()
                    continue
                require(model is not None, "specialize accepted clashing annotations", sigs)
                names = get_all_argnames(f)
                require(names == set(model), "argument names", names, model, sigs)
                need = get_all_argnames(f, nonoptional=True)
                require(need == {n for n, x in model.items() if x}, "required argument names", need, model, sigs)
                require(len(signature(f).parameters) == len(model), "signature", signature(f))
                require(f.__name__ == "wrapped" and f.__doc__ == func.__doc__, "identity of the wrapped function", f.__name__)
                for have in subsets(["a", "b", "c", "_", "x"]):
                    kw = {n: f"v{n}" for n in have}
                    want_log, want = special_model(sigs, vs, fraise, handler is not None, kw)
                    LOG.clear()
                    try:
                        got = f(**kw)
                    except Exception as ex:
                        got = f"raised {type(ex).__name__}"
                    require(LOG == want_log, "calls", list(LOG), want_log, sigs, vs, kw)
                    require(got == want, "result", got, want, sigs, vs, kw)
                    ctx.step()
    return "ok" if model is not None else "clash"


def special_model(sigs, vs, fraise, handled, kw):
    """the outermost check is the last one applied"""
    log = []

    def level(i):
        try:
            if i == 0:
                args = call_model(sigs[0], kw)
                if args is None:
                    raise TypeError
                log.append(("wrapped", args))
                if fraise:
                    raise ValueError
                return text("wrapped", args)
            args = call_model(sigs[i], kw)
            if args is None:
                raise TypeError
            log.append((f"check{i - 1}", args))
            v = vs[i - 1]
            if v == "raise":
                raise KeyError
            if v in ("yes", "none"):
                return text(f"check{i - 1}", args) if v == "yes" else None
            return level(i - 1)
        except Exception as ex:
            if i == 0 or not handled:
                raise
            return f"handled {type(ex).__name__}"
    try:
        return log, level(len(sigs) - 1)
    except Exception as ex:
        return log, f"raised {type(ex).__name__}"


def run_mixed(c, ctx):
    """softquery over specialized queries and a specialized target: special cases' arguments are gathered too, and a special answer fills the field"""
    from pdr.func import softquery, specialize
    base = {"q0": (("p", "req"),), "q1": (("q0", "req"),), "q2": (("p", "req"), ("q1", "req"))}
    extra = {n: tuple((p, "req") for p in ps) for n, ps in zip(("q0", "q1", "q2"), c["extra"])}
    verdict = dict(zip(("q0", "q1", "q2"), c["verdict"]))
    queries = {n: specialize(make(n, base[n]), make_check("s" + n, extra[n], verdict[n])) for n in base}
    target = specialize(make("target", (("q2", "req"),)), make_check("starget", tuple((p, "req") for p in c["tcheck"]), "no"))
    for prov in subsets(["q0", "q1", "q2", "m"]):
        have = {n: f"given {n}" for n in prov} | {"p": "P"}
        want_names = {"q2", *c["tcheck"]} | {p for n in base for p, _ in base[n] + extra[n]}
        log, res = [], dict(have)
        if want_names - set(have) - set(base):
            res = "TypeError"
        else:
            for n in base:
                if n in have or n not in want_names:
                    continue
                a = call_model(extra[n], res)
                if a is None:
                    res = "TypeError"
                    break
                log.append(("s" + n, a))
                if verdict[n] in ("yes", "none"):
                    res[n] = text("s" + n, a) if verdict[n] == "yes" else None
                    continue
                a = call_model(base[n], res)
                if a is None:
                    res = "TypeError"
                    break
                log.append((n, a))
                res[n] = text(n, a)
        LOG.clear()
        try:
            got = softquery(target, queries, dict(have))
        except TypeError:
            got = "TypeError"
        require(LOG == log, "calls", list(LOG), log, prov)
        require(got == res, "result", got, res, prov)
        ctx.step()
    return "ok" if got != "TypeError" else "error"


def mixed_cases():
    menu = {"q0": [(), ("p",), ("m",), ("q1",)], "q1": [(), ("p",), ("m",), ("q0",), ("q2",)], "q2": [(), ("m",), ("q0",)]}
    for ex in itertools.product(*menu.values()):
        for v in itertools.product(("yes", "none", "no"), repeat=3):
            for t in ((), ("q0",), ("m",)):
                yield dict(extra=[list(e) for e in ex], verdict=list(v), tcheck=list(t))


# ----------------------------------------------------------------- hash seeds
def digest(d, name):
    """a canonical rendering of a loaded object"""
    import numpy as np
    import pandas as pd
    obj = d[name]
    if isinstance(obj, np.ndarray):
        return f"{obj.dtype.str} {obj.shape} {np.ma.filled(obj, 0).tolist()}"
    if isinstance(obj, pd.DataFrame):
        return f"{list(obj.columns)} {[str(x) for x in obj.dtypes]} {obj.values.tolist()}"
    return str(type(obj)) + repr(obj)[:2000]


def inner(tmp):
    """executed in a process of its own: every specialize case, then every product"""
    from mc.core import Ctx
    out = {}

    class Quiet:
        def step(self, n=1):
            pass
    for c in special_cases(2):
        try:
            run_special(c, Quiet())
        except Fail as ex:
            out.setdefault("fail", f"{c}: {ex}")
    import pdr
    import warnings
    for kind in sorted(products.ALL):
        d = Path(tmp) / kind
        d.mkdir()
        prod = products.ALL[kind](d, "p")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = pdr.read(prod.path)
            data.load("all")
        out[kind] = [list(data.keys()), [digest(data, n) for n in data.keys()], repr(data.metadata), {n: str(data._loaders[n].argnames and sorted(data._loaders[n].argnames)) if hasattr(data, "_loaders") else "" for n in data.keys()}]
    print(re.sub(r'0x[0-9a-f]{6,}', 'ADDR', json.dumps(out)))


def run_seed(c, ctx):
    outs = []
    for seed in (0, c["seed"]):
        tmp = ctx.dir / str(len(outs)) / "same"  # same path lengths, so equal paths up to the first component
        tmp.mkdir(parents=True)
        r = subprocess.run([sys.executable, "-c", f"from checks import c20; c20.inner({str(tmp)!r})"], capture_output=True, text=True, timeout=80,
                           env=dict(os.environ, PYTHONHASHSEED=str(seed)), cwd=str(ctx.dir))
        require(r.returncode == 0, f"failed with hash seed {seed}", r.stderr[-400:])
        outs.append(json.loads(r.stdout.strip().splitlines()[-1].replace(str(tmp), "TMP")))
        require("fail" not in outs[-1], f"hash seed {seed}", outs[-1].get("fail"))
        ctx.step(len(outs[-1]))
    for k in outs[0]:
        require(outs[0][k] == outs[1][k], f"product {k} depends on the hash seed", [next((p[max(0, i - 30):i + 60], q[max(0, i - 30):i + 60]) for i in range(len(p)) if p[i:i + 1] != q[i:i + 1]) for a, b in zip(outs[0][k], outs[1][k]) if a != b for p, q in [(str(a), str(b))]])
    return "ok"


def special_cases(depth):
    for n in range(2, depth + 1):
        for s in itertools.product(range(len(SIGS)), repeat=n):
            yield dict(sigs=list(s))


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("graph", graph_cases(2, False, 3), run_graph, "two queries: every parameter list x order x target x provided x None answers"),
        Space("graph3", graph_cases(3, not deep, 3 if deep else 2), run_graph, "three queries: parameter lists of at most 2 (thorough: 3) of the other names x all declaration orders x targets x provided subsets x None answers"),
        Space("spelling", product(dict(k0=list(SPELL), k1=list(SPELL), wide=[True, False], ignored=["_", "__", "z"]), lambda c: c["ignored"] == "_" or not c["wide"]), run_spelled, "every spelling (required, annotated, defaulted, optional...) of four parameters"),
        Space("tracker", [dict(order=list(o), params=[list(p) for p in ps], target=list(t)) for o in itertools.permutations(("q0", "q1", "q2")) for ps in itertools.product([(), ("q0",), ("q1",), ("tracker",)], repeat=3) for t in subsets(["q0", "q1", "q2"])],
              run_tracker, "programs with a tracker"),
        Space("special", special_cases(3 if deep else 2), run_special, "every chain of one (thorough: two) special-case checks over the signature alphabet x verdicts x raising x handlers x argument subsets"),
        Space("mixed", mixed_cases(), run_mixed, "softquery over specialized queries"),
        Space("seeds", [dict(seed=s) for s in range(1, 41 if deep else 9)], run_seed, "hash seeds, each in its own process: all special-case pairs and all products"),
    ]
    return out
