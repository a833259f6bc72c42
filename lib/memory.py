"""Array states and reads: read-over-write on symbolic indices, bulk writes as quantified maps."""
from fractions import Fraction
from math import floor, gcd
from terms import *
import terms
from facts import Ctx
import facts

SIZE = {"d": 8, "f": 4, "i64": 8, "i32": 4, "i8": 1, "p": 8, "i16": 2}
SORT = {"d": "f", "f": "f", "i64": "i", "i32": "i", "i8": "i", "p": "p", "i16": "i"}
CUR = [Ctx()]              # context used by reads that are re-resolved under substitution
INITVAL = {}               # (root, byte offset, type) -> term: known initial contents of objects
INVARIANT = {}             # root -> facts about one element of it


def init(root):
    return mk("init", "m", root)


def fresh(ident):
    return mk("fresh", "m", "new")      # contents never written: the same unknown everywhere


def store(mem, idx, ty, val):
    if mem.op == "store" and mem.args[1] is idx and mem.args[2] == ty:
        mem = mem.args[0]
    return mk("store", "m", mem, idx, ty, val)


def map_(mem, qs, guard, idx, ty, val):
    """For all q in the (dependent) ranges, in lexicographic order: where guard(q), mem[idx(q)] := val(q)."""
    if not qs:
        if guard is FALSE:
            return mem
        return ite(guard, store(mem, idx, ty, val), mem)
    syms = [q for q, _, _ in qs]
    for q, lo, hi in qs:
        w = sub(hi, lo)
        if is_const(w) and cval(w) <= 0:
            return mem
    # single-instance ranges
    for k, (q, lo, hi) in enumerate(qs):
        w = sub(hi, lo)
        if is_const(w) and cval(w) == 1:
            sb = {q: lo}
            rest = [(a, subst(b, sb), subst(c, sb)) for a, b, c in qs[:k] + qs[k + 1:]]
            return map_(mem, rest, subst(guard, sb), subst(idx, sb), ty, subst(val, sb))
    inj = injective(qs, guard, idx, ty)
    body = abstract(mk("tup", "x", tuple((lo, hi) for _, lo, hi in qs), guard, idx, val), syms)
    return mk("map", "m", shift(mem, 1), len(qs), ty, inj, body)


def open_map(m):
    """-> (mem, qs, guard, idx, ty, val)"""
    mem, k, ty, inj, body = m.args
    syms = [sym("q", "i", True, True) for _ in range(k)]
    b = instantiate(body, [atom(s) for s in syms])
    rs, guard, idx, val = b.args
    return shift(mem, -1), [(s, r[0], r[1]) for s, r in zip(syms, rs)], guard, idx, ty, val


def injective(qs, guard, idx, ty):
    """Do different instances write different elements? Proved per loop level, outermost first."""
    key = ("inj", tuple(qs), guard, idx, ty)
    r = _memo.get(key)
    if r is not None:
        return r
    sz = SIZE[ty]
    ok = True
    for k in range(len(qs)):
        # equal prefix, q_k < q'_k, the rest arbitrary
        c = Ctx(CUR[0])
        m = {}
        for j, (q, lo, hi) in enumerate(qs):
            c._add(le(lo, atom(q)))
            c._add(lt(atom(q), hi))
            if j < k:
                continue
            q2 = sym(q.args[0].split("#")[0], "i", True, True)
            m[q] = atom(q2)
            c._add(le(subst(lo, m), atom(q2)))
            c._add(lt(atom(q2), subst(hi, m)))
        c._add(lt(atom(qs[k][0]), m[qs[k][0]]))
        d = sub(subst(idx, m), idx)
        if not (c.ge(sub(d, const(sz))) or c.ge(sub(neg(d), const(sz)))):
            ok = False
            break
    _memo[key] = ok
    return ok


_memo = {}


def unify(idx, qs, e):
    """Solves idx(q) = e for q by matching the highest strides first (mixed radix).

    The solution is returned only if it is the only one that the ranges of q allow."""
    sol = {}
    order = []                   # (q, stride) outermost first
    left = [q for q, _, _ in qs]
    f = idx
    d = sub(e, f)
    while left:
        best = None
        for q in left:
            for m, c in items(f):
                if any(a is q for a, _ in m):
                    rest = tuple((a, k) for a, k in m if a is not q)
                    ex = [k for a, k in m if a is q][0]
                    if ex != 1 or any(a in left for a, _ in rest):
                        continue
                    if any(left_q in a.free for a, _ in rest for left_q in left):
                        continue
                    deg = sum(k for _, k in rest)
                    cand = (deg, abs(c), q, rest, c)
                    if best is None or cand[:2] > best[:2]:
                        best = cand
        if best is None:
            return None
        _, _, q, rest, c = best
        dn = dict(items(add(d, _one_term(rest, c, q))))     # d with the q*rest term removed
        last = len(left) == 1
        quo = {}
        for m, k in dn.items():
            if any(x in left for a, _ in m for x in ([a] if a.op == "sym" else a.free)):
                continue
            qm = _div_mono(m, rest)
            if qm is None:
                continue
            if (k / c).denominator == 1:
                quo[qm] = quo.get(qm, 0) + k / c
            elif rest == () and m == () and not last:
                quo[qm] = quo.get(qm, 0) + Fraction(floor(k / c))
            elif rest == () and last:
                quo[qm] = quo.get(qm, 0) + k / c
        s = terms._poly("i", quo)
        if not integer_valued(s):
            return None
        st, _ = _coef(f, q)
        order.append((q, st))
        sol[q] = s
        f = subst(f, {q: s})
        d = sub(e, f)
        left.remove(q)
        sol = {k2: subst(v, {q: s}) for k2, v in sol.items()}
    if not (is_const(d) and cval(d) == 0):
        return None
    if len(qs) > 1 and not _unique(qs, order, sol):
        return None
    return sol


def unify_residue(idx, q, lo, hi, e):
    """Single coordinate: idx(q) = e exactly if q is the returned value and the returned residue is 0.
    idx = S*q + r(q) with |r(q) - (rest of e)| < S for every q in the range."""
    if not all(k == 1 for m, _ in items(idx) for a, k in m if a is q) or any(q in a.free for m, _ in items(idx) for a, _ in m if a is not q):
        return None
    co = [(tuple((a, k) for a, k in m if a is not q), c) for m, c in items(idx) if any(a is q for a, _ in m)]
    for rest, c in sorted(co, key=lambda t: (-sum(k for _, k in t[0]), -abs(t[1])))[:2]:
        quo, used = {}, {}
        for m, k in items(e):
            qm = _div_mono(m, rest)
            if qm is not None and (k / c).denominator == 1:
                quo[qm] = quo.get(qm, 0) + k / c
                used[m] = k
        if not quo:
            continue
        s = terms._poly("i", quo)
        stride = terms._poly("i", {tuple(rest): c})
        hi_part = mul(stride, atom(q))
        r = sub(sub(idx, hi_part), sub(e, terms._poly("i", used)))
        ctx = Ctx(CUR[0])
        ctx._add(le(lo, atom(q)))
        ctx._add(lt(atom(q), hi))
        if q in s.free:
            continue
        one = sub(stride, ONE)
        if ctx.ge(sub(one, r)) and ctx.ge(add(one, r)):
            return s, subst(r, {q: s})
    return None


def _coef(f, q):
    co = {}
    for m, c in items(f):
        if any(a is q for a, _ in m):
            co[tuple((a, k) for a, k in m if a is not q)] = c
    return terms._poly("i", co), None


def _unique(qs, order, sol):
    """Are the inner coordinates of the solution inside their ranges, or at least inside their radix?"""
    ctx = CUR[0]
    rng = {q: (lo, hi) for q, lo, hi in qs}
    inner = set(q for q, _ in order[1:])
    ok = True
    for q, _ in order[1:]:
        lo, hi = rng[q]
        if not (ctx.ge(sub(sol[q], subst(lo, sol))) and ctx.ge(sub(sub(subst(hi, sol), sol[q]), ONE))):
            ok = False
            break
    if ok:
        return True
    # mixed radix: 0 <= inner part < stride, for the solution and for every point of the range
    for k in range(len(order) - 1):
        st = subst(order[k][1], sol)
        if any(q in st.free for q, _ in order):
            return False
        part = ZERO
        for q, s in order[k + 1:]:
            if not ctx.ge(sol[q]) or any(x in s.free for x, _ in order):
                return False
            part = add(part, mul(s, sol[q]))
        if not ctx.ge(sub(sub(st, part), ONE)):
            return False
        c = Ctx(ctx)
        part = ZERO
        for q, s in order[k + 1:]:
            lo, hi = rng[q]
            if any(x in lo.free or x in hi.free for x, _ in order):
                return False
            c._add(le(lo, atom(q)))
            c._add(lt(atom(q), hi))
            if not c.ge(atom(q)):
                return False
            part = add(part, mul(s, atom(q)))
        if not c.ge(sub(sub(st, part), ONE)):
            return False
    return True


def integer_valued(p):
    """Is the polynomial integer for all integer values of its atoms?"""
    den = 1
    for _, c in items(p):
        den = den * c.denominator // gcd(den, c.denominator)
    if den == 1:
        return True
    ats = sorted({a for m, _ in items(p) for a, _e in m}, key=lambda a: a.id)
    if den ** len(ats) > 64:
        return False
    import itertools
    for vals in itertools.product(range(den), repeat=len(ats)):
        env = dict(zip(ats, vals))
        v = Fraction(0)
        for m, c in items(p):
            x = c
            for a, k in m:
                x *= env[a] ** k
            v += x
        if v.denominator != 1:
            return False
    return True


def _one_term(rest, c, q):
    m = tuple(sorted(rest + ((q, 1),), key=lambda x: x[0].id))
    return terms._poly("i", {m: c})


def _div_mono(m, rest):
    d = dict(m)
    for a, k in rest:
        if d.get(a, 0) < k:
            return None
        d[a] -= k
    return tuple((a, k) for a, k in m if d[a]) if all(k == d[a] for a, k in m if d[a]) else tuple(sorted(((a, d[a]) for a in d if d[a]), key=lambda x: x[0].id))


def disjoint_residue(d, sz):
    """idx - e is never 0 because of a residue: all non-constant coefficients are multiples of g."""
    from math import gcd
    g = 0
    k = 0
    for m, c in items(d):
        if c.denominator != 1:
            return False
        if m == ():
            k = int(c)
        else:
            g = gcd(g, int(c))
    return g > 0 and k % g != 0 and min(k % g, g - k % g) >= sz


def load(mem, e, ty):
    ctx = CUR[0]
    op = mem.op
    if op == "init":
        if is_const(e):
            v = INITVAL.get((mem.args[0], int(cval(e)), ty))
            if v is not None:
                return v
        return _atom(mk("load", SORT[ty], mem, e, ty))
    if op == "store":
        m2, i2, ty2, v = mem.args
        if i2.loose < 0 and e.loose < 0:
            if e is i2:
                if ty2 == ty:
                    return v
                return convert(v, ty2, ty)
            d = sub(e, i2)
            if is_const(d):
                k = cval(d)
                if k >= SIZE[ty2] or -k >= SIZE[ty]:
                    return load(m2, e, ty)
                raise LiftError("partial overlap of accesses")
            if disjoint_residue(d, max(SIZE[ty], SIZE[ty2])):
                return load(m2, e, ty)
            c = eq0(d)
            r = ctx.decide(c)
            if r is False:
                return load(m2, e, ty)
            if ty2 != ty:
                return _atom(mk("load", SORT[ty], mem, e, ty))
            if r is True:
                return v
            if ty == "p":
                raise LiftError("pointer element behind an undecided index")
            return ite(c, v, load(m2, e, ty))
        return _atom(mk("load", SORT[ty], mem, e, ty))
    if op == "ite":
        c, a, b = mem.args
        r = ctx.decide(c) if c.loose < 0 else None
        if r is True:
            return load(a, e, ty)
        if r is False:
            return load(b, e, ty)
        return ite(c, with_ctx(c, True, load, a, e, ty), with_ctx(c, False, load, b, e, ty))
    if op == "map" and mem.loose < 0 and e.loose < 0:
        m2, qs, guard, idx, ty2, val = open_map(mem)
        inj = mem.args[3]
        sol = unify(idx, qs, e)
        if sol is not None and inj:
            cond = TRUE
            for q, lo, hi in qs:
                cond = conj(cond, le(subst(lo, sol), sol[q]), ctx)
                cond = conj(cond, lt(sol[q], subst(hi, sol)), ctx)
            cond = conj(cond, subst(guard, sol), ctx)
            if cond is FALSE:
                return load(m2, e, ty)
            if ty2 == ty:
                v = with_ctx(cond, True, subst, val, sol)
                if cond is TRUE:
                    return v
                return ite(cond, v, with_ctx(cond, False, load, m2, e, ty))
            return _atom(mk("load", SORT[ty], mem, e, ty))
        d = sub(idx, e)
        if disjoint_residue(d, max(SIZE[ty], SIZE[ty2])):
            return load(m2, e, ty)
        if len(qs) == 1 and inj and ty2 == ty:
            q, lo, hi = qs[0]
            sr = unify_residue(idx, q, lo, hi, e)
            if sr is not None:
                sol = {q: sr[0]}
                cond = conj(eq0(sr[1]), conj(conj(le(subst(lo, sol), sr[0]), lt(sr[0], subst(hi, sol)), ctx), subst(guard, sol), ctx), ctx)
                if cond is FALSE:
                    return load(m2, e, ty)
                v = with_ctx(cond, True, subst, val, sol)
                return v if cond is TRUE else ite(cond, v, with_ctx(cond, False, load, m2, e, ty))
        c = Ctx(ctx)
        for q, lo, hi in qs:
            c._add(le(lo, atom(q)))
            c._add(lt(atom(q), hi))
        c._add(guard)
        if c.infeas() or c.ge(sub(d, const(SIZE[ty]))) or c.ge(sub(neg(d), const(SIZE[ty2]))):
            return load(m2, e, ty)
        return _atom(mk("load", SORT[ty], mem, e, ty))
    if op == "fill":
        m2, off, ln = mem.args
        if m2.loose < 0 and e.loose < 0 and off.loose < 0 and ln.loose < 0:
            c = conj(le(off, e), lt(e, add(off, ln)), ctx)
            c = TRUE if ctx.decide(c) is True else FALSE if ctx.decide(c) is False else c
            if c is FALSE:
                return load(m2, e, ty)
            z = const(0, SORT[ty]) if ty != "p" else ptr("null", ZERO)
            if c is TRUE:
                return z
            return ite(c, z, load(m2, e, ty))
    return _atom(mk("load", SORT[ty], mem, e, ty))


def conj(a, b, ctx):
    r = ctx.decide(b) if b.loose < 0 else None
    if r is True:
        return a
    if r is False:
        return FALSE
    return band(a, b)


def with_ctx(c, val, fn, *a):
    if c.loose >= 0 or c is TRUE:
        return fn(*a)
    CUR.insert(0, CUR[0].assume(c, val))
    try:
        return fn(*a)
    finally:
        CUR.pop(0)


def convert(v, a, b):
    if {a, b} == {"i64", "p"}:
        return v
    if v.op == "poly" and is_const(v) and cval(v) == 0 and "p" not in (a, b) and SIZE[b] <= SIZE[a]:
        return const(0, SORT[b])
    raise LiftError(f"type punning {a} -> {b}")


def _atom(t):
    return atom(t) if t.sort in ("i", "f") else t


def _hook(sort, mem, e, ty):
    return load(mem, e, ty)


terms.load_hook = _hook


def _remake_map(op, sort, a):
    return None


def flatten(mem, base):
    """The writes between base and mem, oldest first: (qs, guard, idx, ty, val); None if there is an opaque step."""
    chain = _chain(mem, base)
    if chain is None:
        return None
    return chain


def _chain(mem, base):
    out = []
    while mem is not base:
        op = mem.op
        if op == "store":
            m2, i2, ty, v = mem.args
            out.append(([], TRUE, i2, ty, v))
            mem = m2
        elif op == "map":
            if not mem.args[3]:
                return None
            m2, qs, g, idx, ty, v = open_map(mem)
            out.append((qs, g, idx, ty, v))
            mem = m2
        elif op == "ite":
            c, a, b = mem.args
            sa, sb = _nodes(a, base), _nodes(b, base)
            if sa is None or sb is None:
                return None
            common = None
            ib = set(sb)
            for x in sa:
                if x in ib:
                    common = x
                    break
            if common is None:
                return None
            wa, wb = _chain(a, common), _chain(b, common)
            if wa is None or wb is None:
                return None
            nc = bnot(c)
            for w, g0 in ((wb, nc), (wa, c)):
                for qs, g, idx, ty, v in reversed(w):
                    out.append((qs, band(g0, g), idx, ty, v))
            mem = common
        else:
            return None
    out.reverse()
    return out


def _nodes(mem, base):
    """The spine of states below mem, down to base (an ite contributes its common ancestor)."""
    out = [mem]
    while mem is not base:
        if mem.op in ("store",):
            mem = mem.args[0]
        elif mem.op == "map":
            mem = shift(mem.args[0], -1)
        elif mem.op == "ite":
            a, b = _nodes(mem.args[1], base), _nodes(mem.args[2], base)
            if a is None or b is None:
                return None
            sb = set(b)
            for x in a:
                if x in sb:
                    mem = x
                    break
            else:
                return None
        else:
            return None
        out.append(mem)
    return out


BOUND = []         # closed form of a trip count (set by lift)


def simplify(t, ctx):
    """Re-decides every condition and read of t under ctx."""
    if t.loose >= 0:
        return t
    CUR.insert(0, ctx)
    memo = {}

    def go(x, dep):
        if x.loose >= 0 or dep:
            # under binders: only conditions free of bound variables are decided
            pass
        r = memo.get(x)
        if r is not None:
            return r
        if x.sort == "b" and x.loose < 0 and x.op not in ("true", "false"):
            v = ctx.decide(x)
            if v is not None:
                memo[x] = TRUE if v else FALSE
                return memo[x]
        if x.op == "ite" and x.loose < 0:
            c = go(x.args[0], 0)
            if c is TRUE or c is FALSE:
                r = go(x.args[1 if c is TRUE else 2], 0)
            else:
                cc = ctx.assume(c)
                a = x.args[1] if cc is ctx else simplify(x.args[1], cc)
                b = simplify(x.args[2], ctx.assume(c, False))
                r = ite(c, a, b)
        elif x.op in ("sym", "bv", "init", "fresh", "true", "false"):
            r = x
        elif x.op == "map" and x.loose < 0:
            m2, qs, guard, idx, ty, val = open_map(x)
            c2 = Ctx(ctx)
            for q, lo, hi in qs:
                c2._add(le(lo, atom(q)))
                c2._add(lt(atom(q), hi))
            g2 = simplify(guard, c2)
            if g2 is FALSE or c2.infeas():
                r = go(m2, 0)
            else:
                c2._add(g2)
                v2, m3 = simplify(val, c2), go(m2, 0)
                r = x if (g2 is guard and v2 is val and m3 is m2) else map_(m3, qs, g2, idx, ty, v2)
        elif x.op == "first" and x.loose < 0 and BOUND:
            q = sym("u", "i", True, True)
            n = BOUND[0](bnot(instantiate(x.args[1], [atom(q)])), q, set(), ctx)
            hi = shift(x.args[0], -1)
            if n is not None and q not in n.free and (is_const(hi) and cval(hi) >= 1 << 40 or ctx.ge(sub(hi, n))):
                r = n if ctx.ge(n) else ite(ge0(n), n, ZERO)
            else:
                r = rebuild(x, go)
        elif x.op == "sum" and x.loose < 0:
            q = sym("u", "i", True, True)
            lo, hi = shift(x.args[0], -1), shift(x.args[1], -1)
            lo2, hi2 = go(lo, 0), go(hi, 0)
            same = lo2 is lo and hi2 is hi
            lo, hi = lo2, hi2
            body = instantiate(x.args[2], [atom(q)])
            c2 = Ctx(ctx)
            c2._add(le(lo, atom(q)))
            c2._add(lt(atom(q), hi))
            b2 = body if c2.infeas() else simplify(body, c2)
            r = x if b2 is body and same else summation(q, lo, hi, b2)
            if r.op == "poly" and as_atom(r) is x:
                r = x
        elif x.op == "ucmp" and x.loose < 0:
            r = rebuild(x, go)
            if r.op == "ucmp" and ctx.ge(r.args[1]) and ctx.ge(r.args[2]):
                r = (lt if r.args[0] == "ult" else le)(r.args[1], r.args[2])
                d = ctx.decide(r)
                r = TRUE if d is True else FALSE if d is False else r
        else:
            r = rebuild(x, go)
            if r.op == "poly":
                w = as_atom(r)
            else:
                w = r
            if w is not None and w.op == "wrap" and w.loose < 0 and w.args[1] >= 32 and not w.args[2] and not (w.args[1] == 32 and facts.data_int(w.args[0])) and ctx.decide(ge0(w.args[0])):
                r = w.args[0]
            if x.op == "load" and r is x and x.loose < 0:
                r = load(*x.args)
                r2 = as_atom(r) if r.op == "poly" else r
                if r2 is x:
                    r = x
        memo[x] = r
        return r
    try:
        return go(t, 0)
    finally:
        CUR.pop(0)
