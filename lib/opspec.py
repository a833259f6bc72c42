"""Specifications of operations as closed formulas, and the decision procedure that compares the
summary extracted from the compiled source with them."""
import itertools, os, random, sys, time, traceback
from common import *
from terms import *
import terms, memory, driver, facts
from memory import load, init, simplify
from facts import Ctx
from lift import Lifter, Term_
from equal import equal, zero
from instance import Instance, Skip, Diverge, Budget, P
from driver import ES


# ---------------------------------------------------------------- element arithmetic
class Num:
    """A value of the element type as polynomials (one component, or real and imaginary part)."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = tuple(c)

    def __add__(self, o):
        return Num(add(x, y) for x, y in zip(self.c, o.c))

    def __sub__(self, o):
        return Num(terms.sub(x, y) for x, y in zip(self.c, o.c))

    def __neg__(self):
        return Num(neg(x) for x in self.c)

    def __mul__(self, o):
        a, b = self.c, o.c
        if len(a) == 1:
            return Num([mul(a[0], b[0])])
        return Num([terms.sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))])

    def inv(self):
        if len(self.c) == 1:
            return Num([inv(self.c[0])])
        re, im = self.c
        d = inv(add(mul(re, re), mul(im, im)))
        return Num([mul(re, d), neg(mul(im, d))])

    def __truediv__(self, o):
        return self * o.inv()

    def abs2(self):
        z = const(0, "f")
        s = z
        for x in self.c:
            s = add(s, mul(x, x))
        return Num([s] + [z] * (len(self.c) - 1))

    def sqrt(self):            # of a value that is real by construction
        return Num([sqrt(self.c[0])] + [const(0, "f")] * (len(self.c) - 1))


class X:
    """Builds expected values for one operation."""

    def __init__(self, m):
        self.m, self.T = m, m.T
        self.cplx = "complex" in m.T
        self.nc = 2 if self.cplx else 1
        self.res = Res()

    def n(self, name):
        return self.m.size(name) if not isinstance(name, Term) else name

    def E(self, root, idx, mem=None):
        idx = const(idx) if isinstance(idx, int) else idx
        m = init(root) if mem is None else mem
        return Num(load(m, add(scale(idx, self.m.es), const(self.m.tsize * c)), self.m.tty) for c in range(self.nc))

    def S(self, name):
        return self.E("s:" + name, 0)

    def c(self, v):
        return Num([const(v, "f")] + [const(0, "f")] * (self.nc - 1))

    def sum(self, n, f, lo=ZERO):
        u = sym("u", "i", True, True)
        memory.CUR.insert(0, memory.CUR[0].assume(le(lo, atom(u))).assume(lt(atom(u), n)))
        try:
            b = f(atom(u))
        finally:
            memory.CUR.pop(0)
        return Num(summation(u, lo, n, x) for x in b.c)

    # --- what is required of the outcome
    def throws(self, cond, match):
        self.res.throws.append((cond, match))

    def vec(self, root, n, f):
        """After the call, element q of array root is f(q), for q < n."""
        q = sym("q", "i", True, True)
        self.res.goals.append(("arr", root, [(q, self.n(n))], atom(q), lambda: f(atom(q))))
        self.res.written.add(root)

    def mat(self, root, n, m, f, idx=None):
        i, j = sym("i", "i", True, True), sym("j", "i", True, True)
        n, m = self.n(n), self.n(m)
        self.res.goals.append(("arr", root, [(i, n), (j, m)], add(mul(atom(i), m), atom(j)) if idx is None else idx(atom(i), atom(j)),
                               lambda: f(atom(i), atom(j))))
        self.res.written.add(root)

    def val(self, v):
        """The scalar result, stored at the start of out:R."""
        self.res.goals.append(("out", ZERO, [], ZERO, lambda: v))

    def new_vec(self, n, f, off=0, root="out:R"):
        q = sym("q", "i", True, True)
        self.res.goals.append(("dyn", (root, off, self.n(n)), [(q, self.n(n))], atom(q), lambda: f(atom(q))))

    def new_mat(self, n, m, f):
        i, j = sym("i", "i", True, True), sym("j", "i", True, True)
        n, m = self.n(n), self.n(m)
        lay = lambda k: driver.layout("DynMat", k)
        self.res.goals.append(("dyn", ("out:R", lay("vec"), mul(n, m)), [(i, n), (j, m)], add(mul(atom(i), m), atom(j)), lambda: f(atom(i), atom(j))))
        self.new_int(lay("n"), n)
        self.new_int(lay("m"), m)

    def new_int(self, off, v, root="out:R"):
        self.res.ints.append((root, off, v))

    def new_svec(self, n, f):
        q = sym("q", "i", True, True)
        self.res.goals.append(("out", ZERO, [(q, const(n))], atom(q), lambda: f(atom(q))))

    def new_smat(self, n, m, f):
        i, j = sym("i", "i", True, True), sym("j", "i", True, True)
        self.res.goals.append(("out", ZERO, [(i, const(n)), (j, const(m))], add(scale(atom(i), m), atom(j)), lambda: f(atom(i), atom(j))))

    def iret(self, v):
        self.res.iret = v

    def val_at(self, k, v):
        """The k-th element stored in out:R."""
        self.res.goals.append(("out", ZERO, [], const(k), lambda: v))

    def retptr(self, root, idx):
        """The result points to element idx of array root."""
        self.res.retptr = (root, scale(const(idx) if isinstance(idx, int) else idx, self.m.es))

    def same_object(self, name):
        self.res.retobj = name


class Ref:
    """Outcome of a definition written in C++, as formulas."""

    def __init__(self, x, fn):
        self.x = x
        self.L = Lifter(fn, x.m)
        self.tree = self.L.run()
        if self.tree is None:
            raise LiftError("no outcome of the definition")

    def fold(self, leaf, none=None):
        memo = {}

        def go(t):
            if isinstance(t, tuple):
                if id(t) not in memo:
                    a, b = go(t[1]), go(t[2])
                    memo[id(t)] = b if a is None else a if b is None else ite(t[0], a, b) if isinstance(a, Term) else Num(ite(t[0], p, q) for p, q in zip(a.c, b.c))
                return memo[id(t)]
            return leaf(t)
        return go(self.tree)

    def throws(self):
        return self.fold(lambda l: TRUE if l.kind == "throw" else FALSE)

    def _load(self, l, root, off, ty):
        m = l.mem.get(root)
        return load(self.L.mem0(root) if m is None else m, off, ty)

    def E(self, root, idx, base=ZERO):
        """Element idx of the array when the definition returns."""
        x, m = self.x, self.x.m
        idx = const(idx) if isinstance(idx, int) else idx
        return self.fold(lambda l: None if l.kind != "ret" else
                         Num(self._load(l, root, add(base, add(scale(idx, m.es), const(m.tsize * c))), m.tty) for c in range(x.nc)))

    def D(self, idx, root="out:R", off=0):
        """Element idx of the array that the definition allocated for the object at out:R."""
        x, m = self.x, self.x.m
        idx = const(idx) if isinstance(idx, int) else idx

        def leaf(l):
            if l.kind != "ret":
                return None
            p = simplify(self._load(l, root, const(off), "p"), memory.CUR[0])
            return elems(l, p)

        def elems(l, p):
            if p.op == "ite":
                a, b = elems(l, p.args[1]), elems(l, p.args[2])
                return Num(ite(p.args[0], u, v) for u, v in zip(a.c, b.c))
            if p.op != "ptr":
                raise LiftError("storage of the definition")
            if p.args[0] == "null":
                return x.c(0)
            return Num(self._load(l, p.args[0], add(p.args[1], add(scale(idx, m.es), const(m.tsize * c))), m.tty) for c in range(x.nc))
        return self.fold(leaf)

    def ret(self):
        return self.fold(lambda l: self.L.as_int(l.val) if l.kind == "ret" else None)


class Res:
    def __init__(self):
        self.throws, self.goals, self.ints, self.written = [], [], [], set()
        self.iret, self.retobj, self.retptr, self.skip_frame = None, None, None, set()
        self.partial = False             # only calls that return are considered
        self.throw_written = set()       # what a failing call may have changed


# ---------------------------------------------------------------- verdicts
class Finding(Exception):
    pass


class Undecided(Exception):
    pass


def leaf_name(l):
    if l.kind == "throw":
        return "an exception (" + str(l.what) + ")"
    return {"ret": "a normal return", "realloc": "growth of a vector beyond its capacity"}.get(l.kind, l.kind)


class Verifier:
    def __init__(self, op, T, backend, fn, mode="all"):
        self.op, self.T, self.backend, self.mode = op, T, backend, mode
        self.m = op.model(T)
        self.L = Lifter(fn, self.m)
        self.tree = self.L.run()
        if self.tree is None:
            raise LiftError("no outcome")
        self.base = Ctx()
        for f in self.m.facts:
            self.base._add(f)
        self.setup()
        self.x = X(self.m)
        self.x.refs = {k: Ref(self.x, f) for k, f in fn.get("refs", {}).items()}
        self.setup()
        self.all = []
        for spec in [op.spec] + op.kw.get("alts", []):
            self.x.res = Res()
            spec(self.x)
            self.all.append(self.x.res)
        self.res = self.all[0]

    def setup(self):
        memory.INITVAL.clear()
        memory.INITVAL.update(self.m.initval)
        facts.ARRAYS.clear()
        facts.ARRAYS.update(self.m.index)
        memory.CUR[:] = [self.base]

    # ---- symbolic
    def prove(self):
        """None if shown for all sizes; otherwise the first goal that is not shown."""
        first = None
        for self.res in reversed(self.all):       # any of the equivalent definitions will do
            self.setup()
            self.t0 = time.time()
            first = self.prove_tree(self.tree, self.base, 0)
            if first is None:
                break
        self.res = self.all[0]
        return first

    def prove_tree(self, t, ctx, d):
        if ctx.infeas():
            return None
        if time.time() - self.t0 > self.op.kw.get("time", 20):
            return "time limit of the symbolic comparison"
        if isinstance(t, tuple):
            r = ctx.decide(t[0])
            if r is not None:
                return self.prove_tree(t[1] if r else t[2], ctx, d)
            if t[0].op == "not":
                return self.prove_tree((t[0].args[0], t[2], t[1]), ctx, d)
            if t[0].op == "and" and len(t[0].args) == 2:
                return self.prove_tree((t[0].args[0], (t[0].args[1], t[1], t[2]), t[2]), ctx, d)
            return self.prove_tree(t[1], ctx.assume(t[0]), d + 1) or self.prove_tree(t[2], ctx.assume(t[0], False), d + 1)
        return self.prove_leaf(t, ctx)

    def prove_leaf(self, leaf, ctx, k=0):
        for i, (cond, match) in enumerate(self.res.throws[k:]):
            r = ctx.decide(cond)
            if r is None:
                r = ctx.decide(simplify(cond, ctx))
            if r is None:
                import bounds
                c = next((c for c in bounds.conds(cond) if ctx.decide(c) is None), None)
                if c is not None and time.time() - self.t0 < self.op.kw.get("time", 20):
                    for v in (True, False):
                        c2 = ctx.assume(c, v)
                        r = None if c2.infeas() else self.prove_leaf(leaf, c2, k)
                        if r:
                            return r
                    return None
                return self.prove_leaf(leaf, ctx.assume(cond), k) if not ctx.assume(cond).infeas() and self.prove_leaf(leaf, ctx.assume(cond), k) else \
                    (None if ctx.assume(cond, False).infeas() else self.prove_leaf(leaf, ctx.assume(cond, False), k))
            if r:
                if self.mode == "values":
                    return None
                if leaf.kind != "throw" or not any(x in str(leaf.what) for x in match.split("|")):
                    return f"expected {match}, got {leaf_name(leaf)}"
                return self.prove_frame(leaf, ctx, self.res.throw_written)
        if leaf.kind == "throw" and self.res.partial:
            return None
        if leaf.kind != "ret":
            return f"expected a normal return, got {leaf_name(leaf)}"
        if self.mode == "throws":
            return None
        memory.CUR.insert(0, ctx)
        try:
            if self.res.retobj:
                want = self.objptr(self.res.retobj)
                v = leaf.val
                if v is None or v.op == "ite":
                    v = simplify(v, ctx) if v is not None else None
                if v is None or v.op != "ptr" or v.args[0] != want or not equal(v.args[1], ZERO, ctx):
                    return "the returned reference is not the destination"
            if self.res.retptr:
                v = simplify(leaf.val, ctx) if leaf.val is not None else None
                if v is not None and v.op == "ite":
                    for w in (True, False):
                        c2 = ctx.assume(v.args[0], w)
                        if not c2.infeas():
                            l2 = Term_("ret", leaf.mem, simplify(v, c2))
                            r = self.prove_leaf(l2, c2, k)
                            if r:
                                return r
                    return None
                if v is None or v.op != "ptr" or v.args[0] != self.res.retptr[0] or not equal(v.args[1], self.res.retptr[1], ctx):
                    return f"the result points to {show(v) if v is not None else None}, not to the element"
            if self.res.iret is not None:
                if not equal(self.L.as_int(leaf.val), self.res.iret, ctx):
                    return "result"
            for root, off, v in self.res.ints:
                got = load(self.memof(leaf, root), const(off), "i64")
                if not equal(got, v, ctx):
                    return f"field at {off} of the result"
            for g in self.res.goals:
                r = self.prove_goal(g, leaf, ctx)
                if r:
                    return r
        finally:
            memory.CUR.pop(0)
        return self.prove_frame(leaf, ctx, self.res.written)

    def objptr(self, name):
        return "obj:" + name if "obj:" + name in self.m.extent else name

    def memof(self, leaf, root):
        m = leaf.mem.get(root)
        return self.L.mem0(root) if m is None else m

    def dynptr(self, leaf, where, ctx):
        root, off, n = where
        mem = self.memof(leaf, root)
        b, e = (simplify(load(mem, const(off + k), "p"), ctx) for k in (0, 8))
        return b, e

    def prove_goal(self, g, leaf, ctx):
        kind, where, qs, idx, f = g
        small = 1
        for q, hi in qs:
            if is_const(hi):
                small *= int(cval(hi))
        if 1 < small <= 32 and any(is_const(hi) for _, hi in qs):
            # fixed extents: one goal per coordinate
            import itertools
            cq = [(q, int(cval(hi))) for q, hi in qs if is_const(hi)]
            for vals in itertools.product(*[range(h) for _, h in cq]):
                m = {q: const(v) for (q, _), v in zip(cq, vals)}
                r = self.prove_goal((kind, where, [(q, hi) for q, hi in qs if q not in m], subst(idx, m),
                                     lambda: Num(subst(x, m) for x in f().c)), leaf, ctx)
                if r:
                    return r
            return None
        c = ctx
        for q, hi in qs:
            c = c.assume(lt(atom(q), hi))
        if kind == "arr":
            mem, base = self.memof(leaf, where), ZERO
            label = f"elements of {where}"
        elif kind == "out":
            mem, base = self.memof(leaf, "out:R"), where
            label = "result"
        else:
            b, e = self.dynptr(leaf, where, ctx)
            label = "elements of the result"
            if b.op == "ite" or e.op == "ite":
                cond = (b if b.op == "ite" else e).args[0]
                for v in (True, False):
                    c2 = ctx.assume(cond, v)
                    if not c2.infeas():
                        memory.CUR.insert(0, c2)
                        try:
                            r = self.prove_goal(g, leaf, c2)
                        finally:
                            memory.CUR.pop(0)
                        if r:
                            return r
                return None
            if b.op != "ptr" or e.op != "ptr" or b.args[0] != e.args[0]:
                return "storage of the result"
            if not equal(terms.sub(e.args[1], b.args[1]), scale(where[2], self.m.es), ctx):
                return "number of elements of the result"
            if b.args[0] == "null":
                return None
            mem, base = self.memof(leaf, b.args[0]), b.args[1]
        if c.infeas():
            return None
        memory.CUR.insert(0, c)
        try:
            exp = f()
            for k, v in enumerate(exp.c):
                got = load(mem, add(base, add(scale(idx, self.m.es), const(k * self.m.tsize))), self.m.tty)
                if not equal(got, v, c) and not self.by_cases(got, v, c):
                    return f"{label}: extracted {show(got)[:6000]} but required {show(v)[:400]}"
        finally:
            memory.CUR.pop(0)
        return None

    def by_cases(self, got, want, ctx):
        """Case distinction over index arguments with a small constant bound (op option enum)."""
        en = self.op.kw.get("enum")
        if not en:
            return False
        for vals in itertools.product(*[range(n) for n in en.values()]):
            m = {as_atom(var(k)): const(v) for k, v in zip(en, vals)}
            c = ctx
            for a, v in m.items():
                c = c.assume(eq(atom(a), v))
            if c.infeas():
                continue
            if not equal(simplify(subst(got, m), c), simplify(subst(want, m), c), c):
                return False
        return True

    def prove_frame(self, leaf, ctx, written):
        for root, (ty, n) in self.m.arrays.items():
            if root in written or root in self.res.skip_frame:
                continue
            m = leaf.mem.get(root)
            if m is None or m is init(root):
                continue
            q = sym("q", "i", True, True)
            sz = memory.SIZE[ty]
            c = ctx.assume(lt(atom(q), scale(n, self.m.es // sz) if ty == self.m.tty else n))
            memory.CUR.insert(0, c)
            try:
                if not equal(load(m, scale(atom(q), sz), ty), load(init(root), scale(atom(q), sz), ty), c):
                    return f"{root} is modified"
            finally:
                memory.CUR.pop(0)
        for root in self.m.extent:
            m = leaf.mem.get(root)
            if m is None or not root.startswith(("obj:", "s:")) or m is init(root) or root in self.res.skip_frame:
                continue
            memory.CUR.insert(0, ctx)
            try:
                for (r, off, ty), v in self.m.initval.items():
                    if r == root and ty == "i64" and not equal(load(m, const(off), ty), v, ctx):
                        return f"{root} field at {off} is modified"
                    if r == root and ty == "p":
                        p = simplify(load(m, const(off), ty), ctx)
                        if p.op != "ptr" or p.args[0] != v.args[0] or not equal(p.args[1], v.args[1], ctx):
                            return f"{root} storage is replaced"
                if root.startswith("s:"):
                    for k in range(self.x.nc):
                        if not equal(load(m, const(k * self.m.tsize), self.m.tty), load(init(root), const(k * self.m.tsize), self.m.tty), ctx):
                            return f"scalar argument {root} is modified"
            finally:
                memory.CUR.pop(0)
        return None

    # ---- instances
    def instances(self):
        syms = self.m.sizes
        if "sizes" in self.op.kw:
            out = list(self.op.kw["sizes"])
        elif not syms:
            out = [{}]
        else:
            k = len(syms)
            rng = (0, 1, 2, 3, 4, 5) if k == 1 else (0, 1, 2, 3, 4) if k == 2 else (0, 1, 2, 3)
            out = [dict(zip(syms, v)) for v in itertools.product(rng, repeat=k)]
            if len(out) > 260:
                r = random.Random(7)
                diag = [dict.fromkeys(syms, v) for v in rng]
                out = diag + r.sample(out, 250)
            big = sorted({x for c in self.L.cmp_consts if c <= 300 for x in (c - 1, c, c + 1)})
            for b in big[:60]:
                if b > 5:
                    if k == 1:
                        out.append({syms[0]: b})
                    else:
                        out.append(dict.fromkeys(syms, b) if b <= 40 else {**dict.fromkeys(syms, 1), syms[0]: b})
                        out += [{**dict.fromkeys(syms, 2), s: b} for s in syms]
                        if b > 40 and k <= 3 and not self.has_mat():
                            out.append(dict.fromkeys(syms, b))
        return out

    def large(self):
        """Sizes around the large constants of the code."""
        syms = self.m.sizes
        if not syms or "sizes" in self.op.kw:
            return
        cs = sorted(c for c in self.L.cmp_consts if c > 300)[:12]
        small = sorted(c for c in self.L.cmp_consts if 1 < c <= 300)[:3]
        for c in cs:
            for v in dict.fromkeys([c - 1, c, c + 1, c + 7] + [c + d // 2 + 1 for d in small]):
                if self.has_mat():
                    r = int(v ** 0.5)
                    if len(syms) <= 2 or v <= 5000:
                        for s in syms:
                            yield {**dict.fromkeys(syms, 1), s: v}
                            yield {**dict.fromkeys(syms, 2), s: v}
                    if len(syms) == 2 and v <= 300000:
                        yield dict.fromkeys(syms, r)
                        yield dict.fromkeys(syms, r + 1)
                else:
                    yield dict.fromkeys(syms, v)

    def has_mat(self):
        return any(o[0] == "mat" for o in self.m.objs.values())

    def variants(self):
        if "variants" in self.op.kw:
            yield from self.op.kw["variants"]
            if self.L.prims:
                for v in (1, 3, -1, -1011):
                    yield dict(seed=10, fault=v)
            return
        scal = [r for r in self.m.extent if r.startswith("s:")]
        yield dict(seed=1)
        yield dict(seed=2, zeros=0.5)
        for q in (11, 12, 13):
            yield dict(seed=q, small=True)
        if scal:
            for v in (0, 1, P - 1):
                for s in scal:
                    yield dict(seed=3, special={s: v})
            if len(scal) > 1:
                yield dict(seed=4, special=dict.fromkeys(scal, 0))
                yield dict(seed=4, special={scal[0]: 1, scal[1]: 0})
        yield dict(seed=5, nan=True)
        yield dict(seed=6)
        yield dict(seed=7, zeros=1.0)
        if self.L.prims:
            for v in (1, 3, -1, -1011):
                yield dict(seed=10, fault=v)

    def refute(self, tier="quick"):
        """A concrete case in which the extracted formula differs from the required one, or None."""
        self.setup()
        tried = skipped = 0
        t0 = time.time()
        limit = self.op.kw.get("reftime", 40)
        why = ""
        for vi, kw in list(enumerate(self.variants())) + [(-1, dict(seed=8, budget=1 << 40)), (-2, dict(seed=9, special={r: 0 for r in self.m.extent if r.startswith("s:")}, budget=1 << 40))]:
            if vi == -2 and not kw["special"]:
                continue
            for sizes in (self.instances() if vi >= 0 else self.large()):
                if time.time() - t0 > limit:
                    return None, tried, skipped, why or "time limit"
                gen, fgen = self.op.kw.get("ints"), self.op.kw.get("floats")
                for ints in (gen(sizes, random.Random(repr((sizes, vi)))) if gen else [{}]):
                    sz = {**sizes, **ints.pop("_sizes", {})} if ints else sizes
                    fls = fgen(sz, random.Random(repr((sizes, vi))), self.m) if fgen and (vi % 2 == 0 or kw.get("small")) else None
                    for fl in fls if isinstance(fls, list) else [fls]:
                        if fl:                        # element -> bytes; real values
                            fl = {(r, k * self.m.es + c * self.m.tsize): v % P if c == 0 else 0 for (r, k), v in fl.items() for c in range(self.m.es // self.m.tsize)}
                        I = Instance(sz, ints=ints, floats=fl, **kw)
                        try:
                            if not all(I.val(f) for f in self.m.facts):
                                continue
                            r = self.compare(I)
                            tried += 1
                        except (Skip, Budget, Diverge, LiftError, KeyError, TypeError, RecursionError) as e:
                            skipped += 1
                            why = f"{type(e).__name__}: {e}"
                            if isinstance(e, Diverge):
                                r = "the loop does not end"
                                try:
                                    J = Instance(sz, ints=ints, floats=fl, **kw)
                                    J.poison = True
                                    if self.compare(J) is None:
                                        r = None
                                except (Skip, Budget, Diverge, LiftError, KeyError, TypeError, RecursionError):
                                    pass
                            else:
                                continue
                        if r:
                            at = ", ".join(f"{k}={v}" for k, v in sz.items())
                            sp = "".join(f", {k[2:]}={v if v < P // 2 else v - P}" for k, v in kw.get("special", {}).items())
                            extra = "".join(f", {k}={v}" for k, v in ints.items())
                            return f"for {at}{sp}{extra}{' (some elements zero)' if kw.get('zeros') else ' (elements 0, 1, -1)' if kw.get('small') else ''}: {r}", tried, skipped, ""
        return None, tried, skipped, why

    def evptr(self, I, p):
        while p.op == "ite":
            p = p.args[1] if I.val(p.args[0]) else p.args[2]
        if p.op != "ptr":
            raise Skip("pointer")
        return p.args[0], I.val(p.args[1])

    def compare(self, I):
        leaf = I.outcome(self.tree)
        if leaf is None:
            raise Skip("no outcome")
        if leaf.kind == "realloc":
            raise Skip("growth")
        if I.fault:
            return self.cmp_fault(I, leaf)
        for cond, match in self.res.throws:
            if I.val(cond):
                if self.mode == "values":
                    raise Skip("operands of different sizes")
                if leaf.kind != "throw" or not any(x in str(leaf.what) for x in match.split("|")):
                    return f"{match} must be raised, but the result is {leaf_name(leaf)}{self.at(leaf)}"
                return self.cmp_frame(I, leaf, self.res.throw_written)
        if leaf.kind == "throw" and self.res.partial:
            raise Skip("exception")
        if leaf.kind != "ret":
            return f"a normal return is required, but the result is {leaf_name(leaf)}{self.at(leaf)}"
        if self.mode == "throws":
            return None
        if self.res.retobj:
            r, o = self.evptr(I, leaf.val)
            if r != self.objptr(self.res.retobj) or o != 0:
                return f"the returned reference designates {r}, not the destination"
        if self.res.retptr:
            r, o = self.evptr(I, leaf.val)
            w = I.val(self.res.retptr[1])
            if r != self.res.retptr[0] or o != w:
                return f"the result designates {r}[{o // self.m.es}], required {self.res.retptr[0]}[{w // self.m.es}]"
        if self.res.iret is not None:
            a, b = I.val(self.L.as_int(leaf.val)), I.val(self.res.iret)
            if a != b:
                return f"the result is {a}, required {b}"
        for root, off, v in self.res.ints:
            a, b = I.look(I.mem(self.memof(leaf, root), ()), off, "i64"), I.val(v)
            if a != b:
                return f"field at offset {off} of the result is {a}, required {b}"
        for g in self.res.goals:
            r = self.cmp_goal(I, g, leaf)
            if r:
                return r
        return self.cmp_frame(I, leaf, self.res.written)

    def cmp_fault(self, I, leaf):
        """An external routine reports a failure: the call must not return as if nothing had happened."""
        if leaf.kind == "throw" or self.mode == "values":
            return None
        for g in self.res.goals:
            self.cmp_goal(I, g, leaf)
        if I.faulted:
            return f"the failure code {I.fault} of {I.faulted.split('.')[0]} is not reported"
        return None

    def at(self, leaf):
        return f" raised at {os.path.relpath(leaf.loc[0], REPO)}:{leaf.loc[1]}" if leaf.loc else ""

    def cmp_goal(self, I, g, leaf):
        kind, where, qs, idx, f = g
        if kind == "arr":
            mem, base = I.mem(self.memof(leaf, where), ()), 0
        elif kind == "out":
            mem, base = I.mem(self.memof(leaf, "out:R"), ()), I.val(where)
        else:
            root, off, n = where
            m = self.memof(leaf, root)
            (b, bo), (e, eo) = (self.evptr(I, self.ptrload(I, m, off + k)) for k in (0, 8))
            n = I.val(n)
            if b != e:
                raise Skip("pointers")
            if eo - bo != n * self.m.es:
                return f"the result has {(eo - bo) // self.m.es} elements, required {n}"
            if b == "null":
                return None
            mem, base = I.mem(self.memof(leaf, b), ()), bo
        exp = f()
        total = 1
        for q, hi in qs:
            total *= I.val(hi) if not hi.free & {x for x, _ in qs} else 8
        picks = None
        if total > 3000:
            def picks(n):
                if n <= 60:
                    return range(n)
                r = random.Random(n)
                c = [m * c_ + d for c_ in self.L.cmp_consts if c_ > 1 for m in (1, 2, 3, 7) for d in (-1, 0, 1)]
                v = {0, 1, 2} | set(range(n - 20, n)) | set(r.sample(range(n), 40)) | set(c[:300])
                if len(qs) == 1:
                    v |= set(range(max(0, n - 260), n)) | set(r.sample(range(n), min(n, 200)))
                return sorted(x for x in v if 0 <= x < n)
        def rec(i, env):
            if i == len(qs):
                I2 = I.with_env(env)
                k0 = I2.val(idx)
                for k, v in enumerate(exp.c):
                    want = I2.val(v)
                    got = I.look(mem, base + k0 * self.m.es + k * self.m.tsize, self.m.tty)
                    if got != want:
                        pos = ",".join(str(env[q]) for q, _ in qs)
                        what = "result" if kind != "arr" else where
                        return f"element {what}[{pos}] differs from its definition; required {show(subst(v, {q: const(x) for q, x in env.items()}))[:300]}"
                return None
            q, hi = qs[i]
            n_ = I.with_env(env).val(hi)
            for v in (picks(n_) if picks else range(n_)):
                r = rec(i + 1, {**env, q: v})
                if r:
                    return r
            return None
        return rec(0, {})

    def ptrload(self, I, m, off):
        while True:
            if m.op == "store":
                o = I.val(m.args[1])
                if o == off and m.args[2] == "p":
                    return m.args[3]
                if abs(o - off) >= 8:
                    m = m.args[0]
                    continue
                raise Skip("pointer field")
            if m.op == "ite":
                m = m.args[1] if I.val(m.args[0]) else m.args[2]
                continue
            if m.op == "fill":
                o, n = I.val(m.args[1]), I.val(m.args[2])
                if o <= off < o + n:
                    return ptr("null", ZERO)
                m = m.args[0]
                continue
            if m.op == "init":
                v = self.m.initval.get((m.args[0], off, "p"))
                if v is not None:
                    return v
            raise Skip("pointer field")

    def cmp_frame(self, I, leaf, written):
        for root, (ty, n) in self.m.arrays.items():
            if root in written or root in self.res.skip_frame:
                continue
            m = leaf.mem.get(root)
            if m is None or m is init(root):
                continue
            sz = memory.SIZE[ty]
            cnt = I.val(n) * (self.m.es // sz if ty == self.m.tty else 1)
            mem = I.mem(m, ())
            for k in range(cnt):
                if I.look(mem, k * sz, ty) != I.init(root, k * sz, ty):
                    return f"{root}[{k * sz // (self.m.es if ty == self.m.tty else sz)}] is modified, although it is not the destination" + (" of a failing call" if leaf.kind == "throw" else "")
        return None


def verify(op, T, backend, fn, c, tier="quick", mode="all"):
    """Adds the obligation of one operation to the check. Mode "values" leaves out what happens for
    operands of different sizes, mode "throws" everything else."""
    name = f"{op.name} <{T}> {backend}"
    try:
        v = Verifier(op, T, backend, fn, mode)
    except LiftError as e:
        c.unknown(name, f"not summarised: {e}")
        return None
    except RecursionError:
        c.unknown(name, "not summarised: nesting")
        return None
    except (KeyError, TypeError, AttributeError, IndexError, AssertionError, ValueError) as e:
        c.unknown(name, f"not summarised: {type(e).__name__} {e}")
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
        return None
    try:
        r = v.prove()
    except LiftError as e:
        r = f"comparison: {e}"
    except (RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        r = f"comparison: {type(e).__name__} {e}"
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
    if r is None:
        c.ok(name, "extracted formula equals the definition for all sizes")
        return v
    try:
        w, tried, skipped, why = v.refute(tier)
    except (LiftError, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        c.unknown(name, f"{r}; refutation: {type(e).__name__} {e}")
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
        return v
    if w:
        c.violation(name, f"{op.body}\n{w}\n{r[:900]}")
    else:
        c.unknown(name, f"{r[:int(os.environ.get("VP_W","300"))]}; no difference in {tried} instances of the formula ({skipped} not evaluable{': ' + why if why else ''})")
    return v


class TimeLimit(BaseException):
    pass


def run_ops(ops, c, tier, judge=verify, extra=(), debug=False, chunk=14, optime=70, total=640):
    """Compiles, lifts and judges operations: one child process per group of operations of one element
    type and backend. An operation whose analysis crashes or exceeds its time is undecided."""
    import pickle, tempfile, signal, resource
    jobs = {}
    for o in ops:
        for T in o.types:
            for b in o.backends:
                jobs.setdefault((T, b, o.shim), []).append(o)
    todo = []
    for (T, b, _), os_ in jobs.items():
        for i in range(0, len(os_), chunk):
            todo.append((T, b, os_[i:i + chunk], 0))
    todo.sort(key=lambda j: -len(j[2]))
    names = lambda j, k=0: [f"{o.name} <{j[0]}> {j[1]}" for o in j[2][k:]]
    running, t0 = {}, time.time()
    obl = []
    driver.tool("irlift")
    with tempfile.TemporaryDirectory(prefix="vp_ops") as td:
        n = 0
        while todo or running:
            while todo and len(running) < JOBS:
                j = todo.pop(0)
                n += 1
                f = os.path.join(td, str(n))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        _child(j, f, c, tier, judge, extra, debug, optime)
                    except BaseException:
                        traceback.print_exc()
                        code = 7
                    os._exit(code)
                running[pid] = (j, f)
            over = time.time() - t0 > total
            if over:
                for pid in running:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                for j in todo:
                    obl += [(x, "unknown", "time limit of the check") for x in names(j)]
                todo = []
            pid, st = os.wait()
            if pid not in running:
                continue
            j, f = running.pop(pid)
            got = []
            if os.path.exists(f):
                with open(f, "rb") as h:
                    while True:
                        try:
                            got.append(pickle.load(h))
                        except (EOFError, pickle.UnpicklingError):
                            break
            for g in got:
                if g[0] == "broken":
                    for p_ in running:
                        os.kill(p_, signal.SIGKILL)
                    raise Broken(g[1])
                obl += g[1]
            k = len(got)
            if k < len(j[2]):
                obl.append((names(j, k)[0], "unknown", "the analysis of this operation stopped (time or memory)"))
                if k + 1 < len(j[2]):
                    if over:
                        obl += [(x, "unknown", "time limit of the check") for x in names(j, k + 1)]
                    else:
                        todo.append((j[0], j[1], j[2][k + 1:], 0))
    order = {x: i for i, x in enumerate(f"{o.name} <{T}> {b}" for o in ops for T in o.types for b in o.backends)}
    obl.sort(key=lambda o: order.get(o[0], 10 ** 9))
    c.obl += obl


GROWTH = ("growth of a vector", "pointer recurrence")


def grew(s):
    return any(x[1] == "unknown" and g in x[2] for x in s.obl for g in GROWTH)


def by_contents(o, T, b, s, tier, judge, extra, debug):
    """The operation again, with vectors represented by their contents instead of their growth strategy."""
    import copy
    o2 = copy.copy(o)
    o2.shim = True
    try:
        fns, bad = driver.compile_ops([o2], T, b, extra, debug=debug)
        if o.name not in fns:
            return s
        fns[o.name]["refs"] = {k: fns[f"{o.name}__{k}"] for k in o.refs}
        s2 = Check(s.prop, tier)
        judge(o2, T, b, fns[o.name], s2, tier)
    except (Exception, TimeLimit):
        return s
    return s if any(x[1] == "unknown" for x in s2.obl) else s2


def _child(j, f, c, tier, judge, extra, debug, optime):
    import pickle, signal, resource
    T, b, ops, _ = j
    sys.setrecursionlimit(20000)
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))

    def alarm(*a):
        raise TimeLimit()
    signal.signal(signal.SIGALRM, alarm)
    with open(f, "wb") as h:
        try:
            fns, bad = driver.compile_ops(ops, T, b, extra, debug=debug)
        except Broken as e:
            pickle.dump(("broken", str(e)), h)
            return
        if fns:
            driver.set_layout(fns, T)
        for o in ops:
            s = Check(c.prop, tier)
            nm = f"{o.name} <{T}> {b}"
            if o.name in bad:
                s.unknown(nm, "does not compile: " + bad[o.name][:300])
            elif o.name not in fns:
                s.unknown(nm, "no code")
            else:
                signal.alarm(int(o.kw.get("optime", optime)))
                try:
                    fns[o.name]["refs"] = {k: fns[f"{o.name}__{k}"] for k in o.refs}
                    judge(o, T, b, fns[o.name], s, tier)
                    if not o.shim and grew(s) and judge.__module__ != "lifetime":
                        s = by_contents(o, T, b, s, tier, judge, extra, debug)
                except TimeLimit:
                    s.obl = [x for x in s.obl if x[1] == "violation"]
                    s.unknown(nm, "time limit of the analysis of this operation")
                except MemoryError:
                    s.obl = [x for x in s.obl if x[1] == "violation"]
                    s.unknown(nm, "memory limit of the analysis of this operation")
                except Exception as e:
                    s.obl = [x for x in s.obl if x[1] == "violation"]
                    s.unknown(nm, f"not analysed: {type(e).__name__} {e}")
                    if os.environ.get("VP_TRACE"):
                        traceback.print_exc()
                finally:
                    signal.alarm(0)
            pickle.dump(("obl", s.obl), h)
            h.flush()
