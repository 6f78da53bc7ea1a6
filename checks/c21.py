"""C21: Data objects are independent under any interleaving of their users.

Two users each run a history (open, loads, accesses, scaling, browse output, metadata queries, in-place edits of what they got, deletion) on a Data object of their own, over products
of different kinds, of the same kind with different content under the same names, and over the very same files.
* interleave: every interleaving of the two histories in one thread. Every operation must return what it returns when its history runs alone.
* schedules: the two histories run in two threads under a controlled scheduler that can switch threads before any line of pdr's code; all schedules with one preemption (at the first visits of every
  line executed), and all with two preemptions at lines that store to or read shared state.
* fresh: after one user has used a product in every way, every other product reads as in a fresh process (forked from an interpreter that has opened nothing)."""
import dis
import gc
import itertools
import os
import sys
import threading
import types
import warnings
from pathlib import Path

import numpy as np

from checks.c23 import attempt, digest, do, loaded, outcome, state
from mc import decomp, pds, products
from mc.core import Fail, Space, require, short

TECHNIQUE = "stateless exploration of the real code: all interleavings of two operation histories, and all two-thread schedules up to two preemptions under a controlled scheduler (sys.settrace, one running thread at a time)"
ASSUMPTIONS = ["switches inside third-party libraries and C code are not explored (the scheduler switches before lines of pdr, pds4_tools included)",
               "process-wide warning filters are not part of a result (warnings.catch_warnings is documented as not thread safe)"]
CHUNK = 1


# ------------------------------------------------------------------ products
def special(kind):
    """products whose readers keep scratch state"""
    from checks import c27

    def make(d, stem="SP", salt=0):
        img = (np.arange(16 * 16).reshape(16, 16) * 3 + salt).astype(np.uint8)
        if kind == "moc":
            path = c27.moc_product(Path(d), decomp.moc_pred_file(img, 1, 5), name=f"{stem}.IMQ")
        elif kind == "moc-cut":
            path = c27.moc_product(Path(d), decomp.moc_pred_file(img, 1, 5)[:200], name=f"{stem}.IMQ")
        elif kind == "msl":
            img = img[:8, :8]
            path = c27.msl_product(Path(d), decomp.msl_header(8, 8, kind="pred") + decomp.msl_pred(img)[0], stem=stem, height=8, width=8)
        elif kind in ("mjpeg", "mjpegcut"):
            raw = jpeg(64, salt)
            path = c27.msl_product(Path(d), decomp.msl_header(64, 64, kind="jpeg", jpeg_bands=1) + (raw if kind == "mjpeg" else raw[:len(raw) // 2]), stem=stem, height=64, width=64)
        elif kind == "dct":
            bits = decomp.moc_dct_bits(1, 1, [0], {0: (30000, 50000, [1] * 255)}, [(60 + salt, [1, 2, 3])])
            path = c27.moc_product(Path(d), decomp.moc_fragment(decomp._pack_lsb(bits), number=0, down_length=1, down_total=1, width16=1, compression=[8, 0, 0, 0, 50, 0, 0, 0], last=True), name=f"{stem}.IMQ")
        return products.Product(path, {"IMAGE": None})
    return make


def jpeg(n, salt):
    import io
    from PIL import Image
    img = (np.arange(n)[:, None] * 3 + np.arange(n) * 2 + salt).astype(np.uint8)
    b = io.BytesIO()
    Image.fromarray(img, "L").save(b, "JPEG", quality=90)
    return b.getvalue()


def jpegfile(part):
    def make(d, stem="J", salt=0):
        raw = jpeg(64, salt)
        path = Path(d) / f"{stem}.jpg"
        path.write_bytes(raw[:int(len(raw) * part)])
        return products.Product(path, {"IMAGE": None})
    return make


def broken(d, stem="BAD", salt=0):
    """one file cut short, one missing, one definition unusable"""
    p = products.detached(d, stem, salt=salt)
    os.truncate(Path(d) / f"{stem}1.IMG", 14)
    (Path(d) / f"{stem}.TAB").unlink()
    t = p.path.read_bytes().replace(b"ROW_BYTES = 12", b"ROW_BYTES = -3")
    p.path.write_bytes(t)
    return p


def structures(d, stem="STR", salt=0):
    """a table whose columns are in a format file"""
    fmt = "".join(f"OBJECT = COLUMN\r\n  NAME = {n}\r\n  DATA_TYPE = MSB_INTEGER\r\n  START_BYTE = {s}\r\n  BYTES = 2\r\nEND_OBJECT = COLUMN\r\n" for n, s in (("P", 1), (f"Q{salt}", 3)))
    import struct
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 4), ("NOTE", f'"S{salt}"'), ("^TABLE", f'"{stem}.DAT"'),
          pds.block("OBJECT", "TABLE", ("ROWS", 3), ("ROW_BYTES", 4), ("COLUMNS", 2), ("INTERCHANGE_FORMAT", "BINARY"), ("^STRUCTURE", f'"{stem}.FMT"'))]
    path = pds.write_detached(d, stem, st, {f"{stem}.DAT": struct.pack(">6h", *range(salt, salt + 6)), f"{stem}.FMT": fmt.encode()})
    return products.Product(path, {"TABLE": None})


def masked(d, stem="MSK", salt=0):
    """image with special constants and nonlinear browse content"""
    vals = [0, 1 + salt, 2, 3, 65535, 7]
    st = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 12), ("^IMAGE", f'"{stem}.IMG"'), products.img_block("IMAGE", ("MISSING_CONSTANT", 0), ("INVALID_CONSTANT", 65535), ("SCALING_FACTOR", 2 + salt))]
    path = pds.write_detached(d, stem, st, {f"{stem}.IMG": products.img_bytes(vals)})
    return products.Product(path, {"IMAGE": None})


MAKE = dict(products.ALL, moc=special("moc"), moccut=special("moc-cut"), msl=special("msl"), dct=special("dct"), mjpeg=special("mjpeg"), mjpegcut=special("mjpegcut"), jpg=jpegfile(1), jpgcut=jpegfile(0.6), broken=broken, structures=structures, masked=masked)
FIRST = dict(detached="IMAGE", attached="IMAGE", fits="PRIMARY", labfits="IMAGE", pds4="IMG", png="IMAGE", gif="FRAME_1", moc="IMAGE", moccut="IMAGE", msl="IMAGE", dct="IMAGE", mjpeg="IMAGE", mjpegcut="IMAGE", jpg="IMAGE", jpgcut="IMAGE", broken="IMAGE", structures="TABLE", masked="IMAGE")
SECOND = dict(detached="TABLE", attached="TABLE", fits="EVENTS", labfits="EVENT_TABLE", pds4="CSV_T", png=None, gif="FRAME_2", broken="TABLE", structures=None)
META = dict(detached="NOTE", attached="NOTE", fits="KEYP", labfits="NOTE", pds4="logical_identifier", png="mode", gif="n_frames", structures="NOTE")


def history(kind, which):
    a, b = FIRST[kind], SECOND.get(kind)
    m = META.get(kind, "INSTRUMENT_ID")
    image = kind != "structures"
    h = {
        "item": [("open", None), ("item", a), ("meta", m)],
        "all": [("open", None), ("loadall", "load"), ("meta", m)],
        "scaled": [("open", None), ("scaled", a) if image else ("item", a), ("dump", True)],
        "second": [("open", None), ("load", b or a), ("item", a)],
        "edit": [("open", None), ("item", a), ("scribble", None)],
        "drop": [("open", None), ("loadall", "load_all"), ("drop", None)],
        "twice": [("open", None), ("reload", a), ("meta", a)],
    }[which]
    return h


class User:
    """one history on one Data"""

    def __init__(self, path, ops, tmp):
        self.path, self.ops, self.tmp = str(path), ops, str(tmp)
        self.log, self.d, self.kept, self.n = [], None, [], 0

    def perform(self, op):
        import pdr

        kind, n = op
        if kind == "open":
            self.d = pdr.read(self.path)
            return list(self.d.keys())
        if kind == "scribble":
            for v in loaded(self.d).values():
                scribble(v)
            return None
        if kind == "drop":
            self.d = None
            gc.collect()
            return None
        return do(self.d, op, self.tmp)

    def step(self):
        op = self.ops[self.n]
        self.n += 1
        try:
            out = ("ok", self.perform(op))
        except Exception as ex:
            out = ("raise", ex)
        rec = outcome(out)
        if out[0] == "ok":
            self.kept.append((op, out[1]))
        return rec

    def final(self):
        return (state(self.d) if self.d is not None else None), [(op, digest(v)) for op, v in self.kept if not any(o[0] == "scribble" for o in self.ops)]

    @property
    def done(self):
        return self.n >= len(self.ops)


def scribble(v):
    """edit what was returned, in place, as a user may"""
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        for i in range(v.shape[1]):
            v.isetitem(i, [None] * len(v))
    elif isinstance(v, np.ndarray):
        try:
            v[...] = 0
        except (ValueError, TypeError):
            pass
    elif hasattr(v, "clear"):
        try:
            v.clear()
        except Exception:
            pass


def uw(w):
    return [str(x.message) for x in w if x.category is UserWarning]


def seq_step(u):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = u.step()
    return (r, uw(w))


def normal(x, d):
    """paths differ between directories"""
    return x


# ------------------------------------------------------------- one-thread interleavings
def make_pair(ctx, a, b, mode):
    """-> path of each user's product"""
    if mode == "same":
        p = MAKE[a](mk(ctx.dir / "s"), salt=3)
        return p.path, p.path
    if mode == "twins":  # same names, other content
        return MAKE[a](mk(ctx.dir / "s1"), salt=3).path, MAKE[b](mk(ctx.dir / "s2"), salt=9).path
    if mode == "stems":  # one folder
        d = mk(ctx.dir / "s")
        return MAKE[a](d, stem="AA", salt=3).path, MAKE[b](d, stem="BB", salt=9).path
    raise AssertionError(mode)


def mk(p):
    p.mkdir(exist_ok=True)
    return p


def merges(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield tuple(0 if i in pos else 1 for i in range(n + m))


def run_interleave(c, ctx):
    a, b = c["a"], c["b"]
    paths = make_pair(ctx, a[0], b[0], c["mode"])
    hs = [history(*a), history(*b)]
    tmps = [ctx.dir / "t0", ctx.dir / "t1"]
    alone = []
    for i in (0, 1):
        u = User(paths[i], hs[i], tmps[i])
        log = []
        while not u.done:
            log.append(seq_step(u))
        alone.append((log, u.final()))
    for order in merges(len(hs[0]), len(hs[1])):
        us = [User(paths[i], hs[i], tmps[i]) for i in (0, 1)]
        logs = [[], []]
        for who in order:
            logs[who].append(seq_step(us[who]))
        for i in (0, 1):
            for k, (got, want) in enumerate(zip(logs[i], alone[i][0])):
                require(got == want, f"user {i}, operation {hs[i][k]}: other result when interleaved {order}", short(got, 300), short(want, 300))
            require(us[i].final() == alone[i][1], f"user {i}: other final state when interleaved {order}", diff(us[i].final(), alone[i][1]))
        ctx.step(len(order))
    return c["mode"]


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                return short({k: (x[k], y.get(k)) for k in x if x[k] != y.get(k)}, 300)
            return short((x, y), 300)


KINDS = list(MAKE)


def interleave_cases(deep):
    full = ["scaled", "edit", "drop"] if not deep else ["item", "all", "scaled", "second", "edit", "drop", "twice"]
    # same product or twins: all history pairs
    for k in KINDS:
        for h1, h2 in itertools.product(full, repeat=2):
            for mode in ("same", "twins", "stems"):
                if deep or mode != "stems" or h1 == h2:
                    yield dict(a=(k, h1), b=(k, h2), mode=mode)
    for k1, k2 in itertools.permutations(KINDS, 2):
        for h1, h2 in itertools.product(("scaled",) if not deep else full[:4], ("all",) if not deep else full[:4]):
            yield dict(a=(k1, h1), b=(k2, h2), mode="twins")


# ------------------------------------------------------------- controlled scheduler
def pdr_root():
    import pdr
    return os.path.dirname(os.path.abspath(pdr.__file__)) + os.sep


def holding(frame):
    """is a lock held that the other thread may want (a switch here only blocks it)"""
    while frame is not None:
        name = frame.f_code.co_filename
        if (name.endswith("logging/__init__.py") and frame.f_code.co_name in ("handle", "emit", "flush", "setLevel", "getLogger")) or name.endswith("cached_property.py"):
            return True
        frame = frame.f_back
    return False


class Scheduler:
    """runs bodies in threads, one at a time; plan = [(thread, (code, line, n))]: when that thread is about to execute that line of that code object for the n-th time, the other one takes over"""

    def __init__(self, bodies, plan, trace=None):
        self.bodies, self.plan = bodies, list(plan)
        self.root = pdr_root()
        self.trace = trace  # list collecting the lines of thread 0
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.over = [False] * len(bodies)
        self.errors = [None] * len(bodies)
        self.fin = threading.Semaphore(0)
        self.switches = 0

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sem[self.plan[0][0] if self.plan else 0].release()
        if not self.fin.acquire(timeout=60):
            raise Fail(f"the two threads never finished (plan {show(self.plan)})")
        for t in ts:
            t.join(5)
        for e in self.errors:
            if e is not None:
                raise e

    def body(self, i):
        self.sem[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            self.bodies[i]()
        except BaseException as e:
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.over[i] = True
            rest = [j for j in range(len(self.bodies)) if not self.over[j]]
            if rest:
                self.sem[rest[0]].release()
            else:
                self.fin.release()

    def tracer(self, i):
        targets = {t[0] for who, t in self.plan if who == i}
        visits = {}

        def local(frame, event, arg):
            if event == "line":
                k = (frame.f_code, frame.f_lineno)
                visits[k] = visits.get(k, 0) + 1
                if self.plan and self.plan[0] == (i, k + (visits[k],)):
                    self.plan.pop(0)
                    other = 1 - i
                    if not self.over[other] and not holding(frame):
                        self.switches += 1
                        self.sem[other].release()
                        self.sem[i].acquire()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code in targets else None

        def gather(frame, event, arg):
            if event == "line":
                k = (frame.f_code, frame.f_lineno)
                visits[k] = visits.get(k, 0) + 1
                if visits[k] <= 3:
                    self.trace.append(k + (visits[k], holding(frame)))
            return gather

        def collect(frame, event, arg):
            return gather if frame.f_code.co_filename.startswith(self.root) else None

        return collect if self.trace is not None else glob if targets else None


def show(plan):
    return [(who, f"{os.path.basename(c.co_filename)}:{n} visit {v}") for who, (c, n, v) in plan]


_rec = threading.local()


def recorder(message, category, filename, lineno, file=None, line=None):
    if category is UserWarning and hasattr(_rec, "log"):
        _rec.log.append(str(message))


def thread_run(specs, plan, trace=None):
    """specs: [(path, ops, tmp)] -> ([logs], [finals], switches)"""
    us = [User(*s) for s in specs]
    logs = [[] for _ in us]

    def body(i):
        def go():
            _rec.log = []
            while not us[i].done:
                r = us[i].step()
                logs[i].append((r, list(_rec.log)))
                _rec.log.clear()
        return go
    old = warnings.showwarning, warnings.filters[:]
    warnings.showwarning = recorder
    warnings.simplefilter("always")
    try:
        s = Scheduler([body(i) for i in range(len(us))], plan, trace)
        s.run()
    finally:
        warnings.showwarning = old[0]
        warnings.filters[:] = old[1]
        warnings._filters_mutated()
    return logs, [u.final() for u in us], s


_lines = {}


def shared_lines(code):
    """lines of a code object that store anything but a local variable, or read a mutable global"""
    if code in _lines:
        return _lines[code]
    out = set()
    mod = next((m for m in list(sys.modules.values()) if getattr(m, "__file__", None) == code.co_filename), None)
    g = vars(mod) if mod else {}
    for ins in dis.get_instructions(code):
        line = ins.positions.lineno
        if line is None:
            continue
        if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_DEREF"):
            out.add(line)
        elif ins.opname == "LOAD_GLOBAL":
            v = g.get(ins.argval, None)
            if isinstance(v, (list, dict, set, bytearray, np.ndarray)):
                out.add(line)
            elif ins.argval in ("warnings", "setattr", "os", "logging", "ImageFile"):
                out.add(line)
        elif ins.opname in ("LOAD_METHOD", "LOAD_ATTR") and ins.argval in ("append", "add", "update", "pop", "clear", "setdefault", "extend", "remove", "insert", "seek", "read"):
            out.add(line)
    _lines[code] = out
    return out


def points(spec, visits, shared):
    """places (code, line, visit) a history run alone passes"""
    trace = []
    for _ in range(2):  # imports and caches settle in the first run
        trace.clear()
        thread_run([spec], [], trace)
    out, last = [], None
    for code, line, visit, held in trace:
        after = last is not None and last[0] is code and last[1] in shared_lines(code)
        last = code, line
        if not held and visit <= visits and (not shared or after or line in shared_lines(code)):
            out.append((code, line, visit))
    return out


def run_schedules(c, ctx):
    a, b = c["a"], c["b"]
    paths = make_pair(ctx, a[0], b[0], c["mode"])
    specs = [(paths[i], history(*x), ctx.dir / f"t{i}") for i, x in enumerate((a, b))]
    alone = []
    pts = []
    for s in specs:
        pts.append(points(s, c["visits"], c["preemptions"] == 2))
        logs, finals, _ = thread_run([s], [])
        alone.append((logs[0], finals[0]))
    if c["preemptions"] == 1:
        plans = [[(0, i)] for i in pts[0]]
    else:
        plans = [[(0, i), (1, j)] for i in pts[0] for j in pts[1]]
    lo, n = c["part"]
    mine = plans[lo::n]
    for plan in mine:
        logs, finals, s = thread_run(specs, plan)
        for i in (0, 1):
            for k, (got, want) in enumerate(zip(logs[i], alone[i][0])):
                require(got == want, f"thread {i}, operation {specs[i][1][k]}: other result under schedule {show(plan)}", short(got, 300), short(want, 300))
            require(len(logs[i]) == len(alone[i][0]), f"thread {i} stopped early under {show(plan)}")
            require(finals[i] == alone[i][1], f"thread {i}: other final state under schedule {show(plan)}", diff(finals[i], alone[i][1]))
        ctx.step()
    return f"{c['preemptions']} preemptions" if mine else "trivial: no point in this part"


ONE = [k for k in MAKE if k not in ("dct", "moccut", "mjpeg", "mjpegcut", "jpgcut", "jpg", "broken", "labfits", "gif")]
CROSS = [("detached", "pds4"), ("pds4", "fits"), ("broken", "detached"), ("attached", "msl"), ("structures", "detached"), ("moccut", "moc"), ("gif", "png"), ("masked", "detached"), ("jpg", "jpgcut"), ("dct", "moc")]


def schedule_cases(deep):
    jobs = []
    if not deep:
        jobs += [((k, "item"), (k, "item"), "twins", 4) for k in ONE] + [(("masked", "scaled"), ("masked", "scaled"), "twins", 4), (("gif", "all"), ("png", "all"), "twins", 1), (("structures", "item"), ("broken", "item"), "twins", 4)]
    else:
        jobs += [((k, h1), (k, h2), m, 24) for k in KINDS for m, h1, h2 in (("twins", "all", "all"), ("twins", "scaled", "scaled"), ("same", "second", "edit"))]
        jobs += [((k1, h1), (k2, h2), "twins", 24) for x, y in CROSS for k1, k2 in ((x, y), (y, x)) for h1, h2 in (("all", "all"), ("scaled", "scaled"))]
    for a, b, m, n in jobs:
        for part in range(n):
            yield dict(a=a, b=b, mode=m, preemptions=1, visits=1 if not deep else 2, part=(part, n))
    two = ["png", "jpg"] if not deep else ["png", "gif", "fits", "structures", "masked", "attached", "detached", "labfits", "pds4"]
    for k in two:
        n = 8 if not deep else 60
        for part in range(n):
            yield dict(a=(k, "item"), b=(k, "item"), mode="twins", preemptions=2, visits=1, part=(part, n))


# ------------------------------------------------------------- fresh processes
def fresh(argv):
    """run in a fresh interpreter: after user A has done everything with one
    product, does every other product still read as in an untouched process"""
    import json
    import pickle

    import astropy.io.fits, pandas, PIL.Image, pdr, pdr.pds4_tools  # noqa
    import pdr.formats, pdr.loaders.datawrap, pdr.browsify  # noqa
    a, mode, top = argv[0], argv[1], Path(argv[2])
    pa = MAKE[a](mk(top / "a"), salt=3).path

    def child(work):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                out = pickle.dumps(work())
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                code = 0
            except BaseException as e:
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(("harness", repr(e))))
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out = pickle.loads(f.read())
        os.waitpid(pid, 0)
        return out

    def use(path, kind, which):
        u = User(path, history(kind, which), top / "tmp")
        log = []
        while not u.done:
            log.append(seq_step(u))
        return log, u.final()
    bad, n = [], 0
    if mode == "rewritten":  # the same paths held another product before
        for now in (9, 3):
            for hb in ("all", "scaled", "twice", "second"):
                path = MAKE[a](mk(top / "r"), salt=now).path
                want = child(lambda: use(path, a, hb))

                def after():
                    kept = []
                    MAKE[a](mk(top / "r"), salt=12 - now)
                    for h in ("all", "scaled", "edit", "drop", "twice", "second"):
                        u = User(path, history(a, h), top / "tmp")
                        while not u.done:
                            seq_step(u)
                        kept.append(u)
                    MAKE[a](mk(top / "r"), salt=now)
                    return use(path, a, hb)
                got = child(after)
                n += 1
                if got != want or "harness" in (got[0], want[0]):
                    bad.append([a, hb, short(got, 400), short(want, 400)])
        print(json.dumps(dict(n=n, bad=bad)))
        return
    for b in MAKE:
        pb = MAKE[b](mk(top / f"b{b}"), salt=9).path
        for hb in ("all", "scaled"):
            want = child(lambda: use(pb, b, hb))

            def after():
                for h in (["all", "scaled", "edit", "drop", "twice", "second"] if mode == "histories" else [mode]):
                    use(pa, a, h)
                return use(pb, b, hb)
            got = child(after)
            n += 1
            if got != want or "harness" in (got[0], want[0]):
                bad.append([b, hb, short(got, 400), short(want, 400)])
    print(json.dumps(dict(n=n, bad=bad)))


def run_fresh(c, ctx):
    import json
    import subprocess
    here = Path(__file__).resolve().parent.parent
    import pdr
    env = dict(os.environ, PYTHONPATH=f"{Path(pdr.__file__).parent.parent}{os.pathsep}{here}", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; from checks import c21; c21.fresh(sys.argv[1:])", c["a"], c["mode"], str(ctx.dir)], capture_output=True, text=True, env=env, cwd=here)
    require(r.returncode == 0 and r.stdout.strip(), "harness: fresh interpreter failed", r.stderr[-600:])
    out = json.loads(r.stdout.strip().splitlines()[-1])
    ctx.step(out["n"])
    require(not out["bad"], f"after {c['a']} was used, other products read differently", short(out["bad"], 600))
    return c["mode"]


def fresh_cases(deep):
    for a in KINDS:
        for m in ["histories", "rewritten"] if not deep else ["histories", "rewritten", "item", "all", "scaled", "second", "edit", "drop", "twice"]:
            yield dict(a=a, mode=m)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("interleave", lambda: interleave_cases(deep), run_interleave, "all interleavings of two histories over product pairs"),
        Space("fresh", lambda: fresh_cases(deep), run_fresh, "every product read after full use of every other, and after its own files were rewritten, against a fresh process"),
        Space("schedules", lambda: schedule_cases(deep), run_schedules, "all one-preemption schedules at every line; two-preemption schedules at shared-state lines"),
    ]
