"""
Bounded-exhaustive exploration engine.

A check module in /verif/checks declares *spaces*.  A space is a finite set of
cases (input shapes / operation histories / fault placements / schedules) that
is enumerated completely, plus a function that executes one case on the real
code in /repo, replays it on a reference model and returns the disagreements.
Nothing is sampled: a space is a full product, a k-deviation ball around a
default, a breadth-first closure, or an explicit list.
"""
from __future__ import annotations

import ast
import itertools
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("MC_EVIDENCE", VERIF / "evidence"))
CASE_TIMEOUT = 90
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
MEM_LIMIT = 6 << 30


# ---------------------------------------------------------------- enumeration
def product(axes, where=None):
    """every combination of the axes (dict name -> list of values)"""
    names = list(axes)
    for combo in itertools.product(*(axes[n] for n in names)):
        case = dict(zip(names, combo))
        if where is None or where(case):
            yield case


def deviations(axes, k, where=None):
    """every case which differs from the default (first value of each axis) in
    at most k axes. deviation-bounded exhaustive enumeration."""
    names = list(axes)
    default = {n: axes[n][0] for n in names}
    for d in range(k + 1):
        for chosen in itertools.combinations(names, d):
            for vals in itertools.product(*(axes[n][1:] for n in chosen)):
                case = dict(default)
                case.update(zip(chosen, vals))
                if where is None or where(case):
                    yield case


def sequences(alphabet, max_len, min_len=0):
    """every sequence over the alphabet with min_len <= length <= max_len"""
    for n in range(min_len, max_len + 1):
        yield from itertools.product(alphabet, repeat=n)


# -------------------------------------------------------------------- results
class Fail(Exception):
    """raised by check code (via `require`) when the real code disagrees"""


def require(cond, msg, *info):
    if not cond:
        raise Fail(msg + ("" if not info else ": " + "; ".join(short(i) for i in info)))


def short(obj, n=300):
    s = obj if isinstance(obj, str) else repr(obj)
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= n else s[: n - 3] + "..."


class Space:
    """
    name: identifies the space in evidence and replay files
    cases: iterable of JSON-able cases
    fn: fn(case, ctx) -> outcome label (or None). raises Fail/any exception on
        disagreement. ctx.step(n) counts compared observations (transitions),
        ctx.state(x) records a distinct abstract state.
    rule: how cases are made and what makes one non-trivial
    """

    def __init__(self, name, cases, fn, rule="", key=None):
        self.name, self.cases, self.fn = name, cases, fn
        self.rule, self.key = rule, key


class Ctx:
    def __init__(self, root):
        self.root = root
        self.dir = None
        self.steps = 0
        self.states = set()
        self._n = 0

    def begin(self):
        self.steps = 0
        self.states = set()
        self._n += 1
        self.dir = Path(tempfile.mkdtemp(prefix=f"c{self._n}_", dir=self.root))

    def end(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def step(self, n=1):
        self.steps += n

    def state(self, x):
        self.states.add(x if isinstance(x, str) else repr(x))


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


_SPACES = None
_CTX = None


def _init_worker(root):
    global _CTX
    wd = tempfile.mkdtemp(prefix="w_", dir=root)
    _CTX = Ctx(wd)
    os.chdir(wd)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.stdout = open(os.devnull, "w")


def execute(space, case, ctx, timeout=CASE_TIMEOUT):
    """run one case; returns (outcome, failure-or-None, steps, states)"""
    import warnings

    ctx.begin()
    fail, outcome = None, None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            outcome = space.fn(case, ctx)
    except CaseTimeout:
        fail = f"no answer within {timeout} s"
    except Fail as ex:
        fail = str(ex)
    except MemoryError:
        fail = "MemoryError"
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = " < ".join(f"{Path(f.filename).name}:{f.name}" for f in reversed(tb[-4:]))
        fail = f"{type(ex).__name__}: {short(str(ex))} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    steps, states = ctx.steps, ctx.states
    ctx.end()
    return outcome, fail, steps, states


def _run_chunk(args):
    si, chunk = args
    space = _SPACES[si]
    out = []
    for case in chunk:
        outcome, fail, steps, states = execute(space, case, _CTX)
        out.append((outcome, fail, steps, states, case if fail else None))
    return si, out


def _chunks(spaces, size):
    for si, sp in enumerate(spaces):
        it = iter(sp.cases() if callable(sp.cases) else sp.cases)
        while chunk := list(itertools.islice(it, size)):
            yield si, chunk


# ------------------------------------------------------------- known findings
def load_known(prop):
    known = []
    path = VERIF / "known_findings.txt"
    if not path.exists():
        return known
    for line in path.read_text().splitlines():
        m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3)))
    return known


# ----------------------------------------------------------------------- main
def case_id(space, case):
    """stable identifier of one case: used to list known findings"""
    if space.key is not None:
        return f"{space.name}/{space.key(case)}"
    import hashlib

    blob = json.dumps(case, sort_keys=True, default=repr)
    return f"{space.name}/{hashlib.sha1(blob.encode()).hexdigest()[:12]}"


def run_check(prop, module, tier, max_fail=8):
    global _SPACES
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _SPACES = spaces = list(module.spaces(tier))
    root = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    stats = {
        sp.name: dict(cases=0, steps=0, states=set(), outcomes={}, distinct=0, fails=[])
        for sp in spaces
    }
    samples = []
    try:
        size = getattr(module, "CHUNK", 20)
        sampled = set()

        def feed():
            for si, chunk in _chunks(spaces, size):
                if si not in sampled:
                    sampled.add(si)
                    samples.append({"space": spaces[si].name, "case": chunk[len(chunk) // 2]})
                yield si, chunk

        def take(res):
            si, out = res
            st = stats[spaces[si].name]
            for outcome, fail, steps, states, case in out:
                st["cases"] += 1
                st["steps"] += steps
                st["states"] |= states
                k = str(outcome) if fail is None else "VIOLATION"
                st["outcomes"][k] = st["outcomes"].get(k, 0) + 1
                if fail is not None:
                    st["fails"].append((case, fail))

        # import the code under test once, before forking
        ctx = mp.get_context("fork")
        with ctx.Pool(WORKERS, initializer=_init_worker, initargs=(root,)) as pool:
            failing = 0
            for res in pool.imap_unordered(_run_chunk, feed()):
                take(res)
                failing += sum(1 for r in res[1] if r[1] is not None)
                if failing > 50 and time.time() - t0 > 240:
                    # a change that makes most cases fail slowly: what was seen is verdict enough
                    print(f"  stopping early: {failing} failing cases after {time.time() - t0:.0f} s")
                    pool.terminate()
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)

    empty = [n for n, st in stats.items() if not st["cases"]]
    if not stats or (empty and not any(st["fails"] for st in stats.values())):
        print(f"[{prop}/{tier}] nothing explored in {empty or 'any space'}: the check is broken")
        return 2
    known = load_known(prop)
    known_ids = {k for k, _ in known}
    hit, violations = set(), []
    for sp in spaces:
        for case, fail in sorted(
            stats[sp.name]["fails"], key=lambda cf: (len(json.dumps(cf[0], default=repr)), repr(cf[0]))
        ):
            cid = case_id(sp, case)
            if cid in known_ids:
                hit.add(cid)
            else:
                violations.append((sp, case, fail, cid))
    for cid, what in known:
        if cid in hit:
            print(f"KNOWN-FINDING: property={prop} {what} [{cid}]")
    for sp in spaces:
        st = stats[sp.name]
        top = dict(sorted(st["outcomes"].items(), key=lambda kv: -kv[1])[:12])
        print(
            f"[{prop}/{tier}] {sp.name}: cases={st['cases']} compared={st['steps']} "
            f"states={len(st['states'])} outcomes={short(top, 200)}"
        )
    rdir = EVIDENCE / "replays"
    if violations:
        rdir.mkdir(parents=True, exist_ok=True)
    for i, (sp, case, fail, cid) in enumerate(violations[:max_fail]):
        path = rdir / f"{prop}-{i}.json"
        path.write_text(
            json.dumps(dict(property=prop, tier=tier, space=sp.name, case=case, failure=fail, id=cid), indent=1, default=repr)
        )
        print(f"  {sp.name}: {short(case, 400)}\n    -> {short(fail, 500)}")
        print(f"VIOLATION property={prop} replay={path}")
    if len(violations) > max_fail:
        print(f"  ... {len(violations)} violating cases in all")

    total = sum(st["cases"] for st in stats.values())
    nstates = sum(len(st["states"]) or st["cases"] for st in stats.values())
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(module, "LEVEL", "model_checking"),
        coverage=dict(
            states=nstates,
            transitions=sum(st["steps"] for st in stats.values()),
            traces_validated_against_impl=total,
            evaluations=total,
            distinct_nontrivial=sum(
                v for st in stats.values() for k, v in st["outcomes"].items() if not k.startswith("trivial")
            ),
            rule=" || ".join(f"{sp.name}: {sp.rule}" for sp in spaces),
            exhaustive=True,
            spaces={
                n: dict(
                    cases=st["cases"],
                    compared_observations=st["steps"],
                    distinct_states=len(st["states"]),
                    distinct_outcomes=len(st["outcomes"]),
                    outcomes=dict(sorted(st["outcomes"].items(), key=lambda kv: -kv[1])[:40]),
                )
                for n, st in stats.items()
            },
            samples=json.loads(json.dumps(samples, default=repr)),
            explanation=getattr(module, "EXPLANATION", (module.__doc__ or "").strip()),
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr))
    if violations:
        return 1
    print(f"[{prop}/{tier}] held on all {total} cases ({ev['wall_s']} s)")
    return 0


def replay(prop, module, path):
    rec = json.loads(Path(path).read_text())
    sp = next(s for s in module.spaces(rec.get("tier", "quick")) if s.name == rec["space"])
    root = tempfile.mkdtemp(prefix=f"mc_{prop}_replay_")
    cwd = os.getcwd()
    try:
        os.chdir(root)
        outcome, fail, steps, states = execute(sp, rec["case"], Ctx(root))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    print("case:", json.dumps(rec["case"], indent=1))
    print("outcome:", outcome, "| failure:", fail)
    if fail:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
