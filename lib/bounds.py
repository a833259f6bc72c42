"""Every access of an operation lies inside the object it is made to (C18)."""
import os, itertools, random, time
from common import *
from terms import *
import terms, memory, facts
from lift import has_op, Lifter, LiftError, INF
from facts import Ctx
from memory import simplify
from instance import Instance, Skip, Diverge, Budget
from opspec import Verifier, Res

BAD = (Skip, Diverge, Budget, LiftError, KeyError, TypeError, RecursionError, AttributeError, IndexError, ValueError, AssertionError, ZeroDivisionError)


def conds(t):
    """Conditions of the case distinctions inside a term."""
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite" and x.args[0].loose < 0:
            out.append(x.args[0])
        for y in terms._children(x.op, x.args):
            go(y)
    go(t)
    return out


def parts(t):
    """Elementary conditions of a compound condition."""
    if t.op in ("and", "not", "or"):
        return [c for y in terms._children(t.op, t.args) for c in parts(y)]
    return [t] if t.loose < 0 and not t.free == frozenset() else []


def pick(t, c, val):
    """t with the case distinctions on c decided."""
    memo = {}

    def go(x, dep=0):
        if x not in memo:
            memo[x] = (TRUE if val else bnot(TRUE)) if x is c else go(x.args[1 if val else 2]) if x.op == "ite" and x.args[0] is c else x if not has_op(x, ("ite", "and", "or", "not")) else rebuild(x, go)
        return memo[x]
    return go(t)


def walk(J, t):
    while isinstance(t, tuple):
        t = t[1] if J.val(t[0]) else t[2]
    return t is not None and t is not False


class Bounds(Verifier):
    """Lifts an operation without comparing its result."""
    def __init__(self, op, T, backend, fn):
        self.op, self.T, self.backend, self.mode = op, T, backend, "all"
        self.m = op.model(T)
        self.L = Lifter(fn, self.m)
        self.track()
        self.tree = self.L.run()
        self.base = Ctx()
        for f in self.m.facts:
            self.base._add(f)
        self.setup()
        self.res = Res()

    GOOD, UNIT = "{} accesses inside their objects for all sizes", "accesses"

    def obligations(self):
        self.total = len(self.L.log)
        return self.open_accesses() + [a for a in self.L.log if a.kind == "uninit"]

    def cut(self):
        """A place where a vector may grow (the analysis does not follow the operation past it)."""
        self.setup()
        budget = [400]

        def go(t, cx):
            budget[0] -= 1
            if t is None or t is False:
                return None
            if not isinstance(t, tuple):
                return t if t.kind == "realloc" else None
            if not has(t):
                return None
            if budget[0] < 0 or cx.infeas():
                return None if cx.infeas() else has(t)
            v = cx.decide(t[0])
            if v is not None:
                return go(t[1] if v else t[2], cx)
            return go(t[1], cx.assume(t[0])) or go(t[2], cx.assume(t[0], False))
        memo = {}

        def has(t):
            if t is None or t is False:
                return None
            if not isinstance(t, tuple):
                return t if t.kind == "realloc" else None
            if id(t) not in memo:
                memo[id(t)] = has(t[1]) or has(t[2])
            return memo[id(t)]
        return go(self.tree, self.base) if has(self.tree) else None

    def track(self):
        self.L.keeplog, self.L.grows = True, self.op.shim

    def open_accesses(self):
        return [a for a in self.L.log if not a.proved and (a.extent is not None or a.cond is not None) and not str(a.root).startswith("cand")]

    # ---- for all sizes
    def shown(self, a):
        self.setup()
        self.cases, self.hyps = 200, []
        cx = self.base
        for t, hi in reversed(a.binders):
            cx = cx.assume(ge0(atom(t)))
            if hi is not INF:
                self.hyps.append(lt(atom(t), hi))
                cx = cx.assume(self.hyps[-1])
        for p in a.path:
            cx = cx.assume(p)
        goals = [a.cond] if a.cond is not None else [ge0(a.off), ge0(sub(sub(a.extent, a.size), a.off))]
        if a.cond is None:
            if all(self.extreme(a, g) for g in (a.off, sub(sub(a.extent, a.size), a.off))):
                return True
            cx = cx.assume(ge0(sub(a.size, const(1))))
        return self.under(cx, list(a.trees), goals, self.hyps)

    def extreme(self, a, g):
        """g >= 0 at the worst iteration: every counter in which g is monotone takes its first or last value."""
        t0 = []
        ts = [t for t, _ in a.binders]
        for k, (t, hi) in enumerate(a.binders):
            outer = {s for s in ts[k + 1:]}
            ups = [] if hi is INF else [sub(hi, const(1))]
            for p in a.path:                      # t <= r
                if p.op == "ge0" and p.args[0].op == "poly" and t in p.args[0].free:
                    r = add(p.args[0], atom(t))
                    if t not in r.free:
                        ups.append(r)
            ups = [r for r in ups if r.op == "poly" and all(s in outer or s.args[0] in self.m.sizes for s in r.free) and not has_op(r, ("ite", "fixstop", "fix"))]
            t0.append((t, ups[-1] if ups else None))
        nn = set(ts) | {s for _, r in t0 if r is not None for s in r.free} | {s for s in g.free if s.args[0] in self.m.sizes}
        cx = self.base
        for s in nn:
            cx = cx.assume(ge0(atom(s)))
        for t, hi in t0:
            if t not in g.free:
                continue
            signs = set()
            for mono, c in items(g):
                if any(x.op != "sym" or x not in nn for x, _ in mono):
                    return False
                if any(x is t for x, _ in mono):
                    signs.add(c > 0)
            if len(signs) != 1:
                return False
            pos = signs.pop()
            if not pos and hi is None:
                return False
            g = subst(g, {t: ZERO if pos else hi})
            if g.op != "poly":
                return cx.decide(ge0(g)) is True
        for p in a.path:
            if not (p.free & {t for t, _ in t0}):
                cx = cx.assume(p)
        for t, hi in t0:                          # the outermost loop runs at least once
            if hi is not None and not (hi.free & set(ts)):
                cx = cx.assume(ge0(hi))
        if cx.infeas():
            return True
        return cx.ge(g)

    def under(self, cx, trees, goals, hyps, d=0):
        self.cases -= 1
        if self.cases < 0:
            return False
        if cx.infeas():
            return True
        if all(cx.decide(g) is True for g in goals):
            return True
        if trees:
            t = trees[0]
            if t is None or t is False:
                return True
            if not isinstance(t, tuple):
                return self.under(cx, trees[1:], goals, hyps, d)
            v = cx.decide(t[0])
            if v is not None:
                return self.under(cx, [t[1] if v else t[2]] + trees[1:], goals, hyps, d)
            return all(self.under(cx.assume(t[0], val), [k] + trees[1:], goals, hyps, d + 1) for val, k in ((True, t[1]), (False, t[2])))
        g2 = [simplify(g, cx) for g in goals]
        if all(cx.decide(g) is True for g in g2):
            return True
        c = next((c for g in g2 + hyps for c in conds(g)), None)
        if c is None:                             # a condition inside a compound goal
            c = next((c for g in g2 if g.op in ("and", "not", "or") for c in parts(g)), None)
        if c is None or d > 12:
            return False
        for val in (True, False):
            v = cx.decide(c)
            if v is not None and v != val:
                continue
            h2 = [pick(h, c, val) for h in hyps]
            c2 = cx.assume(c, val)
            for h in h2:
                c2 = c2.assume(h)
            if not self.under(c2, [], [pick(g, c, val) for g in g2], h2, d + 1):
                return False
        return True

    why = ""

    def where(self, a):
        return f"{a.loc[0]}:{a.loc[1]} ({a.loc[2]})" if a.loc else "?"

    def search(self, todo):
        tried = skipped = 0
        t0, limit = time.time(), 20
        gen = self.op.kw.get("ints")
        for vi, kw in enumerate((dict(seed=1), dict(seed=2, zeros=0.5), dict(seed=4, special={r: 0 for r in self.m.extent if r.startswith("s:")}))):
            for sizes in list(self.instances()) + (list(self.large()) if vi == 0 else []):
                for ints in (gen(sizes, random.Random(repr((sizes, vi)))) if gen else [{}]):
                    if time.time() - t0 > limit:
                        self.why = self.why or "time limit"
                        return None, tried, skipped
                    ints = dict(ints)
                    sz = {**sizes, **ints.pop("_sizes", {})}
                    I = Instance(sz, ints=ints, **kw)
                    try:
                        if not all(I.val(f) for f in self.m.facts):
                            continue
                    except BAD:
                        skipped += 1
                        continue
                    w, n, bad = self.at_instance(I, todo)
                    tried += n
                    skipped += bad
                    if w:
                        return w + (sz,), tried, skipped
        return None, tried, skipped

    def describe(self, w):
        a, off, size, ext, env, sz = w
        at = ", ".join(f"{k}={v}" for k, v in sz.items())
        it = ", ".join(str(v) for v in reversed(list(env.values())))
        it = f" in iteration {it}" if env else ""
        if a.cond is not None:
            return f"{self.where(a)}: for {at}{it} the call of {a.root} violates: {a.kind}"
        if a.kind == "uninit":
            return f"{self.where(a)}: for {at}{it} an element of a new array is read before it is written (offset {off} bytes)"
        return f"{self.where(a)}: for {at}{it} a {a.kind} of {size} bytes at offset {off} of {a.root}, which has {ext} bytes"

    def at_instance(self, I, todo):
        """(access, offset, extent, environment) of the first access outside its object, the number decided, the number not evaluable."""
        n = bad = 0
        for a in todo:
            try:
                for env in self.points(I, list(reversed(a.binders)), {}):
                    J = I.with_env(env)
                    if not all(J.val(p) for p in a.path) or not all(walk(J, t) for t in a.trees):
                        continue
                    n += 1
                    if a.cond is not None:
                        if not J.val(a.cond):
                            return (a, 0, 0, 0, env), n, bad
                        continue
                    if a.kind == "uninit":
                        return (a, J.val(a.off), J.val(a.size), 0, env), n, bad
                    off, size, ext = J.val(a.off), J.val(a.size), J.val(a.extent)
                    if size > 0 and (off < 0 or off + size > ext):
                        return (a, off, size, ext, env), n, bad
            except BAD as e:
                bad += 1
                self.why = f"{type(e).__name__}: {e}"
        return None, n, bad

    def points(self, I, binders, env):
        if not binders:
            yield env
            return
        t, hi = binders[0]
        h = I.with_env(env).val(hi)
        for k in range(min(h, 400)):
            yield from self.points(I, binders[1:], {**env, t: k})


def judge(op, T, backend, fn, c, tier="quick", cls=None):
    name = f"{op.name} <{T}> {backend}"
    try:
        v = (cls or Bounds)(op, T, backend, fn)
    except LiftError as e:
        c.unknown(name, f"not summarised: {e}")
        return
    except BAD as e:
        c.unknown(name, f"not summarised: {type(e).__name__} {e}")
        return
    todo = v.obligations()
    total, late = v.total, []
    t0 = time.time()
    for a in todo:
        try:
            ok = a.kind != "uninit" and time.time() - t0 < 25 and v.shown(a)
        except BAD:
            ok = False
        if not ok:
            late.append(a)
    if not late:
        try:
            g = v.cut()
        except BAD as e:
            g = None
            c.unknown(name, f"not followed past the growth of a vector: {type(e).__name__} {e}")
            return
        if g is not None:
            c.unknown(name, f"{total} {v.UNIT}; not followed past the growth of a vector at {v.where(g)}")
        else:
            c.ok(name, v.GOOD.format(total))
        return
    w, tried, skipped = v.search(late)
    if w:
        a = w[0]
        c.violation(name, f"{op.body}\n{v.describe(w)}")
    else:
        a = late[0]
        c.unknown(name, f"{total} {v.UNIT}, {len(late)} not shown for all sizes (first: {v.where(a)} {a.kind} {a.root} at {str(a.off)[:80]}); none violated in {tried} instances of the formulas ({skipped} not evaluable: {v.why})")
