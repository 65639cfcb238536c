"""Path exploration: symbolic runs, solver queries, replay on the real code."""

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter, deque

import z3

from . import loader, sym
from .sym import Assume, SymBool, SymNum, SymStr, Unsupported, conc, sym_and, sym_or

QUERY_MS = 20000
RETRIES = 6


# ----------------------------------------------------------------------
# Harness interface
# ----------------------------------------------------------------------
class Base:
    sym = False

    def implies(self, a, b):
        return self.any(self.no(a), b)

    def eq(self, a, b):
        """Deep equality of numbers, strings, None and tuples/lists of them."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.all(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            return False
        if a is None or b is None:
            return a is b
        if type(a) is bool or type(b) is bool:
            return a is b if type(a) is type(b) else False
        r = a == b
        return False if r is NotImplemented else r

    def bool(self, name):
        return self.choice(name, (False, True))


class SymX(Base):
    sym = True

    def __init__(self, ctx, tier, listed=()):
        self.ctx = ctx
        self.tier = tier
        self.listed = listed

    def _atom(self, name, lo, hi, default=None):
        ctx = self.ctx
        if name in ctx.used:
            raise Unsupported(f"input {name} declared twice")
        c = ctx.inputs.get(name)
        if c is None:
            c = default if default is not None else max(lo, min(hi, 1))
        c = min(max(c, lo), hi)
        a = sym.atom(name, True, lo, hi)
        ctx.used[name] = (a, c)
        ctx.define(z3.And(a.z >= lo, a.z <= hi))
        return a, c

    def int(self, name, lo, hi):
        a, c = self._atom(name, lo, hi)
        if lo == hi:
            return lo
        return sym.mk(({a: 1}, 0, 1), "int", c)

    def frac(self, name, lo, hi, den):
        a, c = self._atom(name, lo * den, hi * den, default=den + 1)
        return sym.mk(({a: 1}, 0, den), "float", c / den)

    def choice(self, name, options):
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        a, c = self._atom(name, 0, len(options) - 1, default=0)
        i = sym.enumerate_value(sym.mk(({a: 1}, 0, 1), "int", c))
        return options[i]

    def string(self, name, lens, alphabet):
        """A string whose length is one of lens and whose characters lie in alphabet."""
        n = self.choice(name + ".len", tuple(lens))
        codes = sorted({ord(ch) for ch in alphabet})
        ranges = []
        for k in codes:
            if ranges and ranges[-1][1] == k - 1:
                ranges[-1][1] = k
            else:
                ranges.append([k, k])
        chars = []
        for i in range(n):
            a, c = self._atom(f"{name}[{i}]", codes[0], codes[-1], default=codes[0])
            if c not in codes:
                c = codes[0]
                self.ctx.used[f"{name}[{i}]"] = (a, c)
            v = sym.mk(({a: 1}, 0, 1), "int", c)
            if len(ranges) > 1:
                self.ctx.define(
                    z3.Or(*[z3.And(a.z >= lo, a.z <= hi) for lo, hi in ranges])
                )
            chars.append(v)
        return sym.lift("")._out(chars)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if not self.ctx.branch(cond):
                raise Assume()
        elif not cond:
            raise Assume()

    def check(self, cond, label, known=None, alt=None):
        """cond must hold; known/alt: the listed finding's exact wrong behaviour."""
        if known in self.listed and alt is not None:
            cond = self.any(cond, alt)
        if isinstance(cond, SymNum):
            cond = sym.compare("!=", cond, 0)
        if isinstance(cond, SymBool):
            self.ctx.trace.append(("assert", cond, label))
            if not cond.c:
                self.ctx.failed.append(label)
        elif not cond:
            self.ctx.failed.append(label)
        else:
            self.ctx.const_checks += 1
        self.ctx.nchecks += 1

    def observe(self, name, value):
        self.ctx.observed.append((name, value))

    def cover(self, label):
        self.ctx.covers.add(label)

    def all(self, *bs):
        if len(bs) == 1 and not isinstance(bs[0], (bool, SymBool)):
            bs = list(bs[0])
        return sym_and(bs)

    def any(self, *bs):
        if len(bs) == 1 and not isinstance(bs[0], (bool, SymBool)):
            bs = list(bs[0])
        return sym_or(bs)

    def no(self, b):
        return sym.sym_not(b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool) and sym.is_num(a) and sym.is_num(b):
            if sym.kind_of(a) != sym.kind_of(b):
                # oracle arithmetic only: the numeric value is what matters
                if sym.kind_of(a) == "int":
                    a = sym.sym_float(a)
                else:
                    b = sym.sym_float(b)
            return sym.sym_ite(c, a, b)
        return a if c else b

    def max(self, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = self.ite(v > r, v, r)
        return r

    def min(self, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = self.ite(v < r, v, r)
        return r

    def val(self, v):
        """The concrete value on this path (for messages only)."""
        return conc(v)


class ConcX(Base):
    """The same interface on plain values: replays a path on the real code."""

    def __init__(self, inputs, tier, listed=()):
        self.inputs = inputs
        self.tier = tier
        self.listed = listed
        self.known_hits = set()
        self.failed = []
        self.observed = []
        self.covers = set()
        self.named = {}

    def _get(self, name, lo, hi, default=None):
        c = self.inputs.get(name)
        if c is None:
            c = default if default is not None else max(lo, min(hi, 1))
        return min(max(c, lo), hi)

    def int(self, name, lo, hi):
        v = self.named[name] = self._get(name, lo, hi)
        return v

    def frac(self, name, lo, hi, den):
        v = self.named[name] = self._get(name, lo * den, hi * den, den + 1) / den
        return v

    def choice(self, name, options):
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        v = options[self._get(name, 0, len(options) - 1, 0)]
        self.named[name] = v if type(v) in (int, float, str, bool, type(None)) else repr(v)
        return v

    def string(self, name, lens, alphabet):
        n = self.choice(name + ".len", tuple(lens))
        codes = sorted({ord(ch) for ch in alphabet})
        out = []
        for i in range(n):
            c = self._get(f"{name}[{i}]", codes[0], codes[-1], codes[0])
            if c not in codes:
                c = codes[0]
            out.append(chr(c))
        v = self.named[name] = "".join(out)
        return v

    def assume(self, cond):
        if not cond:
            raise Assume()

    def check(self, cond, label, known=None, alt=None):
        if not cond:
            if known in self.listed and alt:
                self.known_hits.add(known)
            else:
                self.failed.append(label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def cover(self, label):
        self.covers.add(label)

    def all(self, *bs):
        if len(bs) == 1 and not isinstance(bs[0], bool):
            bs = list(bs[0])
        return all(bs)

    def any(self, *bs):
        if len(bs) == 1 and not isinstance(bs[0], bool):
            bs = list(bs[0])
        return any(bs)

    def no(self, b):
        return not b

    def ite(self, c, a, b):
        return a if c else b

    def max(self, *vs):
        return max(vs)

    def min(self, *vs):
        return min(vs)

    def val(self, v):
        return v


class Lib:
    """Attribute access to the modules of a (real or instrumented) colosseum package."""

    def __init__(self, pkg):
        self._pkg = pkg
        self.CSS = importlib.import_module(pkg).CSS

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = importlib.import_module(self._pkg + "." + name)
        setattr(self, name, m)
        return m


def plain(v):
    """Concrete, comparable rendering of an observation."""
    if isinstance(v, (SymBool, SymNum, SymStr)):
        v = v.c
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in sorted(v.items())}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return type(v).__name__


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


# ----------------------------------------------------------------------
# World: the two copies of the code, set up once per process tree
# ----------------------------------------------------------------------
class World:
    def __init__(self, repo_src, verif, prop, tier, listed=()):
        self.tier = tier
        self.listed = frozenset(listed)
        self.modules = {
            n[:-3] for n in os.listdir(os.path.join(repo_src, "colosseum")) if n.endswith(".py")
        }
        sys.path.insert(0, verif)
        sys.path.insert(0, repo_src)
        self.finder = loader.install("colosseum", "colosseum_sym", os.path.join(repo_src, "colosseum"))
        self.hfinder = loader.install("harness", "harness_sym", os.path.join(verif, "harness"))
        self.real = self._load("colosseum", repo_src)
        self.symb = Lib("colosseum_sym")
        for lib in (self.real, self.symb):
            for name in sorted(os.listdir(os.path.join(repo_src, "colosseum"))):
                if name.endswith(".py") and name not in ("__init__.py", "utils.py"):
                    getattr(lib, name[:-3])
        self.h_real = importlib.import_module("harness." + prop)
        self.h_sym = importlib.import_module("harness_sym." + prop)
        loader.ENTERED.clear()
        self.snap_real = loader.Snapshot("colosseum")
        self.snap_sym = loader.Snapshot("colosseum_sym")
        self.snap_h = loader.Snapshot("harness_sym")

    @staticmethod
    def _load(pkg, src):
        lib = Lib(pkg)
        f = os.path.realpath(importlib.import_module(pkg).__file__)
        if not f.startswith(os.path.realpath(src) + os.sep):
            raise SystemExit(f"wrong colosseum imported: {f}")
        return lib

    def harnesses(self):
        return [h for h in self.h_real.HARNESSES if self.tier in h["tiers"]]


class Outcome:
    def __init__(self, failed, exc, observed, covers, cut):
        self.failed, self.exc, self.observed, self.covers, self.cut = (
            failed,
            exc,
            observed,
            covers,
            cut,
        )


def where(e, mark):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if mark in fr.filename:
            return f"{os.path.basename(fr.filename)}:{fr.name}"
    return "?"


def run_real(world, name, inputs):
    world.snap_real.restore()
    x = ConcX(inputs, world.tier, world.listed)
    exc = None
    cut = False
    try:
        getattr(world.h_real, name)(x, world.real)
    except Assume:
        cut = True
    except Exception as e:
        exc = f"{type(e).__name__} in {where(e, 'src/colosseum')}: {e}"
        x.failed.append(f"no-unexpected-exception ({type(e).__name__})")
    finally:
        world.snap_real.restore()
    covers = x.covers | {'known:' + k for k in x.known_hits}
    return Outcome(x.failed, exc, plain(x.observed), covers, cut), x.named


def run_sym(world, name, inputs):
    world.snap_sym.restore()
    ctx = sym.Ctx(inputs)
    ctx.const_checks = ctx.nchecks = 0
    sym.set_ctx(ctx)
    x = SymX(ctx, world.tier, world.listed)
    exc = None
    cut = False
    unsupported = None
    try:
        getattr(world.h_sym, name)(x, world.symb)
    except Assume:
        cut = True
    except Unsupported as e:
        unsupported = str(e)
    except RecursionError:
        unsupported = "recursion"
    except Exception as e:
        exc = type(e).__name__
        ctx.failed.append(f"no-unexpected-exception ({exc})")
        ctx.exc_detail = traceback.format_exc()
    finally:
        sym.set_ctx(None)
        world.snap_sym.restore()
        world.snap_h.restore()
    obs = plain(ctx.observed)
    return ctx, Outcome(ctx.failed, exc, obs, ctx.covers, cut), unsupported


def solver():
    s = z3.Solver()
    s.set("timeout", QUERY_MS)
    return s


class PathResult(dict):
    pass


def explore_task(world, name, task, dump=None):
    """Run one task; returns (stats Counter, new tasks, violations, covers)."""
    inputs, bound, expect, pins = task
    st = Counter()
    new = []
    viol = []
    ctx, out, unsupported = run_sym(world, name, inputs)
    full = dict(inputs)
    for n, (a, c) in ctx.used.items():
        full[n] = c
    st["paths"] += 1
    notes = []

    tr = ctx.trace
    diverged = False
    retry = None
    if expect is not None:
        i, key, taken = expect[:3]
        tried = expect[3] if len(expect) > 3 else []
        if i >= len(tr) or tr[i][0] != "branch" or hash(repr(tr[i][1].key)) != key or tr[i][2] != taken:
            # the model relied on a rounding error the real operation does not make
            diverged = True
            if i < len(tr) and tr[i][0] == "branch" and hash(repr(tr[i][1].key)) == key and len(tried) < RETRIES:
                retry = i
            else:
                st["diverged"] += 1

    if unsupported is not None:
        st["unsupported"] += 1
        notes.append("unsupported: " + unsupported)

    # the same inputs on the real code
    real, named = run_real(world, name, full)
    st["replays"] += 1
    if real.failed:
        viol.append((real.failed[0], full, named, real.exc))
    if unsupported is None:
        agree = (
            sorted(map(str, real.failed)) == sorted(map(str, out.failed))
            and real.cut == out.cut
            and same(real.observed, out.observed)
        )
        if agree:
            st["validated"] += 1
        else:
            st["mismatch"] += 1
            notes.append(
                f"mismatch real={real.failed, real.cut, real.exc} sym={out.failed, out.cut} "
                + str([(a, b) for a, b in zip(real.observed, out.observed) if not same(a, b)][:3])
                + getattr(ctx, "exc_detail", "")[-1500:]
            )
    if out.cut:
        st["cut"] += 1
    if viol:
        return st, [], viol, real.covers, notes

    # solver pass along the trace
    s = solver()
    asserts = []
    again = []
    t0 = time.perf_counter()
    for i, (kind, b, taken) in enumerate(tr):
        if kind == "def":
            s.add(b)
        elif kind == "branch":
            z = b.z3() if taken else z3.Not(b.z3())
            st["branches"] += i >= bound
            if i == retry:
                # another input for the same branch; none left: it is infeasible
                more = tried + [full]
                s.push()
                s.add(z3.Not(z))
                for d in more:
                    s.add(z3.Or(*[a.z != d[n] for n, (a, c) in ctx.used.items() if n in d]))
                r = s.check()
                st["queries"] += 1
                if r == z3.sat:
                    again.append((model_inputs(s.model(), ctx, full), i + 1, expect[:3] + (more,), pins))
                elif r == z3.unknown:
                    st["unknown"] += 1
                s.pop()
            elif i >= bound:
                s.push()
                s.add(z3.Not(z))
                r = s.check()
                st["queries"] += 1
                if r == z3.sat:
                    new.append((model_inputs(s.model(), ctx, full), i + 1, (i, hash(repr(b.key)), not taken), pins))
                elif r == z3.unknown:
                    st["unknown"] += 1
                s.pop()
            s.add(z)
        elif kind == "pin":
            if i >= bound:
                s.push()
                s.add(z3.Not(b.z3()))
                r = s.check()
                st["queries"] += 1
                if r != z3.unsat:
                    st["concretised"] += 1
                    notes.append(f"concretised {b.key}")
                    if r == z3.sat and pins > 0:
                        new.append((model_inputs(s.model(), ctx, full), i + 1, None, pins - 1))
                s.pop()
            s.add(b.z3())
        elif kind == "assert":
            asserts.append((b, taken))
    if diverged:
        # this path was explored elsewhere; do not re-expand it
        new = again
    st["checks"] += ctx.nchecks
    st["const_checks"] += ctx.const_checks
    st["asserts"] += len(asserts)
    if ctx.folded:
        # what the term normaliser decided, put to the solver (independent of the path)
        f = solver()
        goals = []
        for entry in ctx.folded.values():
            bounds, claim = sym.folded_z3(entry)
            f.add(*bounds)
            goals.append(z3.Not(claim))
        f.add(z3.Or(*goals))
        st["queries"] += 1
        if f.check() == z3.unsat:
            st["lemmas"] += len(goals)
            if len(sym.PROVED) > 300000:
                sym.PROVED.clear()
            sym.PROVED.update(ctx.folded)
        else:
            st["unknown"] += 1
            notes.append("the solver does not confirm a simplified comparison")
    # with products of inputs: first without their defining equations (weaker premises)
    if asserts and any(k == "def" and taken for k, _, taken in tr):
        w = solver()
        for kind, b, taken in tr:
            if kind == "def" and not taken:
                w.add(b)
            elif kind == "branch":
                w.add(b.z3() if taken else z3.Not(b.z3()))
            elif kind == "pin":
                w.add(b.z3())
        rest = []
        for b, lab in asserts:
            w.push()
            w.add(z3.Not(b.z3()))
            st["queries"] += 1
            if w.check() == z3.unsat:
                st["discharged"] += 1
            else:
                rest.append((b, lab))
            w.pop()
        asserts = rest
    # one query for all assertions on the path
    todo = asserts
    rounds = 0
    while todo and not viol:
        s.push()
        s.add(z3.Or(*[z3.Not(b.z3()) for b, _ in todo]))
        r = s.check()
        st["queries"] += 1
        if r == z3.unsat:
            s.pop()
            st["discharged"] += len(todo)
            if dump is not None:
                dump.append((s.to_smt2(), [b.z3() for b, _ in todo]))
            break
        if r == z3.unknown:
            s.pop()
            if len(todo) > 1:
                for b, lab in todo:
                    s.push()
                    s.add(z3.Not(b.z3()))
                    rr = s.check()
                    st["queries"] += 1
                    if rr == z3.unsat:
                        st["discharged"] += 1
                    elif rr == z3.unknown:
                        st["unknown"] += 1
                        notes.append(f"unknown on {lab}")
                    else:
                        cand = model_inputs(s.model(), ctx, full)
                        res, nm = run_real(world, name, cand)
                        st["replays"] += 1
                        if res.failed:
                            viol.append((res.failed[0], cand, nm, res.exc))
                        else:
                            st["spurious"] += 1
                            notes.append(f"spurious on {lab}")
                    s.pop()
            else:
                st["unknown"] += 1
                notes.append(f"unknown on {todo[0][1]}")
            break
        m = s.model()
        cand = model_inputs(m, ctx, full)
        bad = [lab for b, lab in todo if z3.is_false(m.eval(b.z3(), model_completion=True))]
        s.pop()
        res, nm = run_real(world, name, cand)
        st["replays"] += 1
        if res.failed:
            viol.append((res.failed[0], cand, nm, res.exc))
        else:
            st["spurious"] += 1
            notes.append(f"spurious counterexample for {bad} at {cand}")
            todo = [(b, lab) for b, lab in todo if lab not in bad]
            rounds += 1
    st["solver_us"] += int((time.perf_counter() - t0) * 1e6)
    st.sample = {k: repr(v) for k, v in named.items()}
    return st, new, viol, real.covers, notes


def model_inputs(m, ctx, full):
    d = dict(full)
    for n, (a, c) in ctx.used.items():
        v = m.eval(a.z, model_completion=True)
        d[n] = v.as_long()
    return d


# ----------------------------------------------------------------------
# Parallel driver
# ----------------------------------------------------------------------
_W = None


def _init():
    import resource
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(5000)


def _work(job):
    hname, tasks, budget, stop_at, dump_want = job
    st = Counter()
    viols, notes = [], []
    sample = None
    covers = set()
    dump = [] if dump_want else None
    stack = list(tasks)
    end = min(time.time() + budget, stop_at)
    while stack and not viols:
        t = stack.pop()
        try:
            s, new, v, cov, nt = explore_task(_W, hname, t, dump)
        except z3.Z3Exception as e:
            s, new, v, cov, nt = Counter(paths=1, unsupported=1), [], [], set(), [f"z3: {e}"]
        except MemoryError:
            s, new, v, cov, nt = Counter(paths=1, unsupported=1), [], [], set(), ["memory"]
        st.update(s)
        stack.extend(new)
        sample = getattr(s, "sample", sample)
        viols.extend(v)
        covers |= cov
        if len(notes) < 5:
            notes.extend(nt[: 5 - len(notes)])
        if time.time() > end:
            break
    ent = sorted(n for n in loader.ENTERED if n.split(".")[0] in _W.modules)
    smt = []
    if dump:
        for text, zs in dump[:: max(1, len(dump) // 2)][:2]:
            goal = z3.Or(*[z3.Not(z) for z in zs])
            sv = z3.Solver()
            sv.from_string(text)
            sv.add(goal)
            smt.append(sv.to_smt2())
    return hname, st, stack, viols, covers, notes, ent, smt, sample


def explore(world, deadline, workers=None, log=None, dump=False):
    """Explore every harness of the property. Returns a report dict."""
    global _W
    _W = world
    hs = world.harnesses()
    per = {h["name"]: Counter() for h in hs}
    covers = {h["name"]: set() for h in hs}
    notes = {h["name"]: [] for h in hs}
    pending = {h["name"]: deque([({}, 0, None, 2)]) for h in hs}
    t_start = time.time()
    times = {h["name"]: 0.0 for h in hs}
    entered = set()
    violations = []
    smts = []
    samples = []
    stop_at = t_start + deadline
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    inflight = Counter()
    pool = ctx.Pool(workers, initializer=_init)
    results = deque()
    try:
        active = []
        rr = deque(h["name"] for h in hs)
        while True:
            # fill
            while len(active) < workers * 2 and time.time() < stop_at:
                picked = None
                for _ in range(len(rr)):
                    n = rr[0]
                    rr.rotate(-1)
                    if pending[n]:
                        picked = n
                        break
                if picked is None:
                    break
                q = pending[picked]
                take = max(1, min(16, len(q) // workers))
                chunk = [q.popleft() for _ in range(take)]
                fan = len(q) < workers * 2
                job = (picked, chunk, 0.05 if fan else 0.6, stop_at, dump and len(smts) < 40)
                active.append(pool.apply_async(_work, (job,)))
            if not active:
                break
            done = [a for a in active if a.ready()]
            if not done:
                active[0].wait(0.002)
                if time.time() > stop_at + 30:
                    break
                continue
            for a in done:
                active.remove(a)
                n, st, rest, v, cov, nt, ent, smt, sample = a.get()
                if sample and sum(q['harness'] == n for q in samples) < 2:
                    samples.append({'harness': n, 'inputs': sample})
                per[n].update(st)
                pending[n].extend(rest)
                covers[n] |= cov
                entered.update(ent)
                smts.extend(smt)
                if len(notes[n]) < 8:
                    notes[n].extend(nt)
                times[n] = time.time() - t_start
                for item in v:
                    violations.append((n,) + item)
            if violations:
                break
    finally:
        pool.terminate()
        pool.join()
    left = {n: len(q) for n, q in pending.items() if q}
    return {
        "per": per,
        "covers": covers,
        "notes": notes,
        "left": left if not violations else {},
        "violations": violations,
        "entered": sorted(entered),
        "wall": time.time() - t_start,
        "times": times,
        "smt": smts,
        "samples": samples,
    }
