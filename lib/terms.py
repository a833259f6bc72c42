"""Term language of the summaries.

Everything is hash-consed. Integer and real expressions are polynomials in normal form over
atoms (symbols, array reads, reciprocals, roots, bounded sums, conditionals), so that two
expressions that are equal as polynomials are the same object. Bound variables are locally
nameless, so that alpha-equivalent sums and recurrences are the same object too.
"""
import math
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "id", "sort", "free", "loose")

    def __repr__(self):
        return show(self)


def mk(op, sort, *args):
    k = (op, sort) + args
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.sort, t.args, t.id = op, sort, args, len(_table)
        fr, loose = set(), -1
        for a in _children(op, args):
            fr |= a.free
            l = a.loose - (1 if op in BINDERS else 0)
            loose = max(loose, l)
        if op == "sym":
            fr.add(t)
        if op == "bv":
            loose = args[0]
        t.free, t.loose = frozenset(fr), loose
        _table[k] = t
    return t


BINDERS = {"sum", "map", "fix", "first", "exit", "sorted", "perm"}


def _children(op, args):
    if op == "poly":
        for mono, _ in args[0]:
            for a, _e in mono:
                yield a
    else:
        for a in args:
            yield from _kids(a)


def _kids(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for b in a:
            yield from _kids(b)


# ---------------------------------------------------------------- polynomials
def _poly(sort, d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: [(-len(x[0]))] + [y for a, e in x[0] for y in (a.id, e)]))
    return mk("poly", sort, items)


def const(c, sort="i"):
    return _poly(sort, {(): Fraction(c)})


ZERO, ONE = const(0), const(1)
FZERO, FONE = const(0, "f"), const(1, "f")


def atom(a):
    """An atomic term as a polynomial."""
    if a.op == "poly":
        return a
    return _poly(a.sort, {((a, 1),): Fraction(1)})


def items(p):
    return p.args[0]


def is_const(p):
    it = items(p)
    return len(it) == 0 or (len(it) == 1 and it[0][0] == ())


def cval(p):
    it = items(p)
    return it[0][1] if it else Fraction(0)


def as_atom(p):
    """The atom if p is exactly one atom."""
    it = items(p)
    if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
        return it[0][0][0][0]
    return None


def add(a, b, cb=1):
    if a.op == "ite" or b.op == "ite":
        raise AssertionError
    d = dict(items(a))
    for m, c in items(b):
        d[m] = d.get(m, 0) + c * cb
    return merge_ites(_poly(a.sort, d))


def merge_ites(p):
    """Conditional summands with the same condition become one."""
    its = p.args[0]
    if len(its) < 2:
        return p
    by = None
    for m, c in its:
        if len(m) == 1 and m[0][0].op == "ite" and m[0][1] == 1:
            by = {} if by is None else by
            by.setdefault(m[0][0].args[0], []).append((m, c))
    if by is None or all(len(v) < 2 for v in by.values()):
        return p
    d = dict(its)
    r = None
    for c, l in by.items():
        if len(l) < 2:
            continue
        A = B = const(0, p.sort)
        for m, k in l:
            del d[m]
            A = add(A, scale(m[0][0].args[1], k))
            B = add(B, scale(m[0][0].args[2], k))
        v = ite(c, A, B)
        r = v if r is None else add(r, v)
    return add(_poly(p.sort, d), r)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return _poly(a.sort, {m: -c for m, c in items(a)})


def scale(a, c):
    return _poly(a.sort, {m: k * c for m, k in items(a)})


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def mul(a, b):
    if len(items(a)) * len(items(b)) > 4000:
        raise LiftError("expression too large")
    d, post = {}, None
    for m1, c1 in items(a):
        for m2, c2 in items(b):
            md = _mono_mul(m1, m2)
            m, extra = _norm_mono(md, a.sort)
            if extra is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                t = mul(_poly(a.sort, {m: c1 * c2}), extra)
                post = t if post is None else add(post, t)
    r = _poly(a.sort, d)
    return r if post is None else add(r, post)


def _norm_mono(md, sort):
    """Cancels atom * inv(atom) and sqrt(p)^2 = p. Returns monomial, leftover polynomial factor."""
    extra = None
    if sort == "f":
        for a in list(md):
            e = md.get(a, 0)
            if not e:
                continue
            if a.op == "inv":
                b = as_atom(a.args[0])
                if b is not None and md.get(b, 0):
                    k = min(e, md[b])
                    md[a] -= k
                    md[b] -= k
            elif a.op == "sqrt" and e >= 2:
                k = e // 2
                md[a] -= 2 * k
                for _ in range(k):
                    extra = a.args[0] if extra is None else mul(extra, a.args[0])
        for a in list(md):
            e = md.get(a, 0)
            if e and a.op == "inv":      # inv(s)^2 with s = sqrt(p): inv(p)
                b = as_atom(a.args[0])
                if b is not None and b.op == "sqrt" and e >= 2:
                    k = e // 2
                    md[a] -= 2 * k
                    for _ in range(k):
                        q = inv(b.args[0])
                        extra = q if extra is None else mul(extra, q)
    return tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda x: x[0].id)), extra


def inv(p):
    it = items(p)
    if len(it) == 1:
        mono, c = it[0]
        if c == 0:
            return atom(mk("inv", "f", p))
        r = const(Fraction(1) / c, "f")
        for a, e in mono:
            b = a.args[0] if a.op == "inv" else atom(mk("inv", "f", atom(a)))
            for _ in range(e):
                r = mul(r, b)
        return r
    if len(it) > 1:
        lead = it[0][1]
        if lead != 1:
            return scale(inv(scale(p, Fraction(1) / lead)), Fraction(1) / lead)
    return atom(mk("inv", "f", p))


def sqrt(p):
    if is_const(p) and cval(p) in (0, 1):
        return p
    return atom(mk("sqrt", "f", p))


class LiftError(Exception):
    pass


_symn = [0]


def isqrt(p):
    """floor(sqrt(p)) of a nonnegative integer."""
    if is_const(p):
        return const(math.isqrt(max(0, int(cval(p)))))
    ats = {a for m, _ in items(p) for a, _e in m}
    if len(ats) == 1:
        # (a*x + b)^2 with a, b, x >= 0
        x = next(iter(ats))
        if (x.op in ("sym", "bv") and (x.args[1] if x.op == "sym" else x.args[2])):
            co = {sum(e for _, e in m): c for m, c in items(p)}
            if set(co) <= {0, 1, 2} and co.get(2, 0) > 0 and co.get(0, 0) >= 0 and co.get(1, 0) >= 0 and all(c.denominator == 1 for c in co.values()):
                a, b = math.isqrt(int(co[2])), math.isqrt(int(co.get(0, 0)))
                if a * a == co[2] and b * b == co.get(0, 0) and 2 * a * b == co.get(1, 0):
                    return add(scale(atom(x), a), const(b))
    return atom(mk("isqrt", "i", p))


def sym(name, sort="i", nonneg=False, fresh=False):
    if fresh:
        _symn[0] += 1
        name = f"{name}#{_symn[0]}"
    return mk("sym", sort, name, nonneg)


def var(name, nonneg=True, fresh=False):
    return atom(sym(name, "i", nonneg, fresh))


# ---------------------------------------------------------------- booleans
TRUE, FALSE = mk("true", "b"), mk("false", "b")


def _norm_int(p, strict_eq=False):
    """Divides by the content; floors the constant for inequalities."""
    it = items(p)
    nc = [c for m, c in it if m != ()]
    if not nc:
        return p
    from math import gcd
    den = 1
    for c in nc:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in nc:
        g = gcd(g, int(c * den))
    f = Fraction(den, g)
    d = {m: c * f for m, c in it}
    if not strict_eq:
        k = d.get((), Fraction(0))
        d[()] = Fraction(k.numerator // k.denominator)
    return _poly("i", d)


_PARITY = {}


def _parity(p):
    """0 or 1 if every value of a nonlinear integer polynomial has that parity, else None."""
    if p in _PARITY:
        return _PARITY[p]
    r = None
    its = items(p)
    if any(sum(e for _, e in m) > 1 and c.denominator == 1 and c.numerator % 2 for m, c in its) and all(c.denominator == 1 for _, c in its):
        if _is_pronic(p):
            r = 0
        elif _is_pronic(add(p, const(1))):
            r = 1
    _PARITY[p] = r
    return r


def ge0(p):
    if is_const(p):
        return TRUE if cval(p) >= 0 else FALSE
    q = _norm_int(p)
    if _parity(q) == 1:
        q = _norm_int(sub(q, const(1)))
    return mk("ge0", "b", q)


def eq0(p):
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    it = items(p)
    q = _norm_int(p, True)
    if _parity(q) == 1:
        return FALSE
    k = dict(items(q)).get((), Fraction(0))
    if all(len(m) == 0 or c.denominator == 1 for m, c in items(q)) and k.denominator != 1 and all(c.denominator == 1 for _, c in items(p)):
        return FALSE
    if items(q)[0][1] < 0:
        q = neg(q)
    return mk("eq0", "b", q)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        if all(c.denominator == 1 for _, c in items(b.args[0])):
            return ge0(sub(neg(b.args[0]), ONE))
    if b.op == "fc":
        return mk("fc", "b", frozenset("legu") - b.args[0], b.args[1])
    return mk("not", "b", b)


def conjuncts(b):
    out, st = [], [b]
    while st:
        x = st.pop()
        if x.op == "and":
            st += [x.args[1], x.args[0]]
        elif x is not TRUE:
            out.append(x)
    return out


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    cs = {x.id: x for x in conjuncts(a)}
    for x in conjuncts(b):
        if bnot(x).id in cs:
            return FALSE
        cs[x.id] = x
    l = [cs[i] for i in sorted(cs)]
    r = l[-1]
    for x in reversed(l[:-1]):
        r = mk("and", "b", x, r)
    return r


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    sa, sb = {x.id: x for x in conjuncts(a)}, {x.id: x for x in conjuncts(b)}
    if sa.keys() <= sb.keys():
        return a
    if sb.keys() <= sa.keys():
        return b
    da, db = [x for i, x in sa.items() if i not in sb], [x for i, x in sb.items() if i not in sa]
    if len(da) == 1 and len(db) == 1 and bnot(da[0]) is db[0]:
        r = TRUE
        for i, x in sa.items():
            if i in sb:
                r = band(r, x)
        return r
    return bnot(band(bnot(a), bnot(b)))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def eq(a, b):
    return eq0(sub(a, b))


def fcmp(outs, d):
    """Comparison of a real term with 0: outs is the set of outcomes (l e g u) for which it holds."""
    outs = frozenset(outs)
    if is_const(d):
        o = "l" if cval(d) < 0 else "e" if cval(d) == 0 else "g"
        return TRUE if o in outs else FALSE
    if not outs:
        return FALSE
    if len(outs) == 4:
        return TRUE
    lead = items(d)[0][1]
    if lead < 0:
        d = neg(d)
        outs = frozenset({"l": "g", "g": "l"}.get(o, o) for o in outs)
        lead = -lead
    if lead != 1:
        d = scale(d, Fraction(1) / lead)
    return mk("fc", "b", outs, d)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == "b":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    if a.sort in ("i", "f"):
        d = sub(a, b)
        if c.op == "eq0" and a.sort == "i":     # ite(x == y, x, y) = y
            if d is c.args[0] or neg(d) is c.args[0]:
                return b
            ci = items(c.args[0])
            di = items(d)
            if len(di) == len(ci) and di and all(x[0] == y[0] for x, y in zip(di, ci)) and len({x[1] / y[1] for x, y in zip(di, ci)}) == 1:
                return b
            if len(ci) == 1 and items(d):
                dd = {m: k for m, k in items(d) if not _divides(ci[0][0], m)}
                if len(dd) < len(items(d)):
                    d = _poly("i", dd)
                    if not dd:
                        return b
        if c.op == "ge0" and items(d) and all(any(x.op == "sum" and sub(sub(x.args[1], x.args[0]), ONE) is shift(c.args[0], 1) for x, _e in m) for m, _c in items(d)):
            return a                             # the sums are empty where c fails
        return add(b, atom(mk("ite", a.sort, c, d, const(0, a.sort))))
    return mk("ite", a.sort, c, a, b)


def _divides(m, n):
    d = dict(n)
    return all(d.get(a, 0) >= k for a, k in m)


def ptr(root, off):
    return mk("ptr", "p", root, off)


NULL = None  # set below


def summation(t, lo, hi, body):
    """sum over t in [lo, hi) of body (t a symbol)."""
    s = body.sort
    if is_const(body) and cval(body) == 0:
        return body
    w = sub(hi, lo)
    if is_const(w):
        k = cval(w)
        if k <= 0:
            return const(0, s)
        if k == 1:
            return subst(body, {t: lo})
    # linear: split into monomials; factors without t leave the sum
    r = const(0, s)
    for m, c in items(body):
        dep = tuple((a, e) for a, e in m if t in a.free)
        ind = tuple((a, e) for a, e in m if t not in a.free)
        if dep or s == "f":
            inner = _poly(s, {dep: Fraction(1)})
            at = mk("sum", s, shift(lo, 1), shift(hi, 1), abstract(inner, [t]))
            r = add(r, mul(_poly(s, {ind: c}), atom(at)))
        else:
            r = add(r, scale(mul(_poly(s, {ind: c}), w), 1))
    return r


# ---------------------------------------------------------------- substitution, binders
def rebuild(t, f):
    """t with its direct children replaced by f(child, binder?)."""
    op = t.op
    if op == "poly":
        out = const(0, t.sort)
        changed = False
        parts = []
        for m, c in items(t):
            fac = []
            for a, e in m:
                b = f(a, 0)
                if b is not a:
                    changed = True
                fac.append((b, e))
            parts.append((fac, c))
        if not changed:
            return t
        for fac, c in parts:
            v = const(c, t.sort)
            for b, e in fac:
                b = atom(b)
                for _ in range(e):
                    v = mul(v, b)
            out = add(out, v)
        return out
    dep = 1 if op in BINDERS else 0

    def go(a):
        if isinstance(a, Term):
            return f(a, dep)
        if isinstance(a, tuple):
            return tuple(go(b) for b in a)
        return a
    na = tuple(go(a) for a in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        return t
    return remake(op, t.sort, na)


def remake(op, sort, a):
    if op == "ge0":
        return ge0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(a[0], a[1])
    if op == "fc":
        return fcmp(a[0], a[1])
    if op == "ite":
        return ite(*a)
    if op == "inv":
        return inv(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "isqrt":
        return isqrt(a[0])
    if op == "sum":
        return sum_raw(sort, *a)
    if op == "ucmp":
        return ucmp(*a)
    if op == "wrap":
        return wrap(*a)
    if op == "fdiv":
        return fdiv(*a)
    if op == "load":
        return load_hook(sort, *a)
    return mk(op, sort, *a)


def sum_raw(sort, lo, hi, body):
    w = sub(hi, lo)
    if is_const(w):
        if cval(w) <= 0:
            return const(0, sort)
        if cval(w) == 1:
            return instantiate(body, [shift(lo, -1)])
    if is_const(body) and cval(body) == 0:
        return const(0, sort)
    it = items(body)
    # the invariant "one monomial of bound-dependent atoms with coefficient 1" is kept
    if len(it) == 1 and it[0][1] == 1 and all(has_bv(a, 0) for a, _ in it[0][0]):
        return mk("sum", sort, lo, hi, body)
    t = sym("s", "i", True, True)
    return summation(t, shift(lo, -1), shift(hi, -1), instantiate(body, [atom(t)]))


def has_bv(t, level):
    """Does the term mention the bound variables of the binder at that level?"""
    memo = {}

    def go(x, d):
        if x.loose < d:
            return False
        k = (x, d)
        if k not in memo:
            memo[k] = x.args[0] == d if x.op == "bv" else any(go(y, d + (1 if x.op in BINDERS else 0)) for y in _children(x.op, x.args))
        return memo[k]
    return go(t, level)


load_hook = lambda sort, *a: mk("load", sort, *a)


def subst(t, m, _memo=None):
    """Replaces free symbols (closed replacement terms)."""
    if _memo is None:
        _memo = {}
    keys = m.keys()
    def go(x, dep):
        if not (x.free & keys):
            return x
        r = _memo.get(x)
        if r is None:
            if x.op == "sym":
                r = m[x]
            else:
                r = rebuild(x, go)
            _memo[x] = r
        return r
    keys = frozenset(m)
    return go(t, 0)


def shift(t, delta):
    """Moves a term under (delta = 1) or out of (delta = -1) a binder."""
    if delta == 0 or t.loose < 0:
        return t
    memo = {}

    def go(x, depth):
        if x.loose < depth:
            return x
        k = (x, depth)
        r = memo.get(k)
        if r is None:
            if x.op == "bv":
                r = mk("bv", x.sort, x.args[0] + delta, x.args[1], x.args[2])
            else:
                r = rebuild(x, lambda y, d: go(y, depth + d))
            memo[k] = r
        return r
    return go(t, 0)


def abstract(t, syms):
    """Binds the symbols: they become bound variables of a new enclosing binder."""
    pos = {s: i for i, s in enumerate(syms)}
    ks = frozenset(syms)
    memo = {}
    t = shift(t, 1)

    def go(x, depth):
        if not (x.free & ks):
            return x
        k = (x, depth)
        r = memo.get(k)
        if r is None:
            if x.op == "sym":
                r = mk("bv", x.sort, depth, pos[x], x.args[1])
            else:
                r = rebuild(x, lambda y, d: go(y, depth + d))
            memo[k] = r
        return r
    return go(t, 0)


def instantiate(t, vals):
    """Replaces the bound variables of the outermost loose binder."""
    memo = {}

    def go(x, depth):
        if x.loose < depth:
            return x
        k = (x, depth)
        r = memo.get(k)
        if r is None:
            if x.op == "bv":
                if x.args[0] == depth:
                    r = shift(vals[x.args[1]], depth)
                    r = as_atom(r) or r if x.sort in ("i", "f") and r.op == "poly" else r
                else:
                    r = mk("bv", x.sort, x.args[0] - 1, x.args[1], x.args[2])
            else:
                r = rebuild(x, lambda y, d: go(y, depth + d))
            memo[k] = r
        return r
    return go(t, 0)


# ---------------------------------------------------------------- machine integers
def wrap(p, bits, signed=0):
    """p reduced to a machine integer of that many bits."""
    if is_const(p) and cval(p).denominator == 1:
        v = int(cval(p)) % (1 << bits)
        if signed and v >= 1 << (bits - 1):
            v -= 1 << bits
        return const(v)
    return atom(mk("wrap", "i", p, bits, signed))


def fdiv(p, k):
    """floor(p / k), k a positive constant."""
    if k == 1:
        return p
    its = items(p)
    if all((c / k).denominator == 1 for _, c in its):
        return scale(p, Fraction(1, k))
    if all(c.denominator == 1 for _, c in its):
        g = k
        for m, c in its:
            if m != ():
                g = math.gcd(g, int(c))
        if g > 1:
            # floor((g*q + r) / (g*h)) = floor((q + floor(r/g)) / h)
            c0 = int(dict(its).get((), 0))
            q = scale(sub(p, const(c0)), Fraction(1, g))
            return fdiv(add(q, const(c0 // g)), k // g)
    if k == 2:
        # x(x+1)/2: even by construction
        if _is_pronic(p):
            return scale(p, Fraction(1, 2))
    if is_const(p):
        return const(int(cval(p)) // k)
    return atom(mk("fdiv", "i", p, k))


def _is_pronic(p):
    """Is every value of the integer polynomial even? Checked by residues of its atoms modulo 2."""
    ats = sorted({a for m, _ in items(p) for a, _e in m}, key=lambda a: a.id)
    if len(ats) > 4 or any(c.denominator != 1 for _, c in items(p)):
        return False
    for bits in range(1 << len(ats)):
        env = {a: (bits >> i) & 1 for i, a in enumerate(ats)}
        v = 0
        for m, c in items(p):
            x = int(c)
            for a, e in m:
                x *= env[a] ** e
            v += x
        if v % 2:
            return False
    return True


def ucmp(pred, a, b, bits):
    if is_const(a) and is_const(b):
        x, y = int(cval(a)) % (1 << bits), int(cval(b)) % (1 << bits)
        return TRUE if (x < y if pred == "ult" else x <= y) else FALSE
    return mk("ucmp", "b", pred, a, b, bits)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == "poly":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            f = "·".join((s(x) if e == 1 else f"{s(x)}^{e}") for x, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append(f"{c}·{f}")
        r = " + ".join(out).replace("+ -", "- ")
        return r if len(out) == 1 else "(" + r + ")"
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"b{a[0]}.{a[1]}"
    if op == "sum":
        return f"Σ[{s(a[0])},{s(a[1])}){{{s(a[2])}}}"
    if op == "inv":
        return f"1/{s(a[0])}"
    if op == "load":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "ge0":
        return f"{s(a[0])}≥0"
    if op == "eq0":
        return f"{s(a[0])}=0"
    if op == "init":
        return str(a[0])
    parts = []
    for x in a:
        parts.append(_show_any(x, d))
    return f"{op}({', '.join(parts)})"


def _show_any(x, d):
    if isinstance(x, Term):
        return show(x, d + 1)
    if isinstance(x, tuple):
        return "(" + ", ".join(_show_any(y, d) for y in x) + ")"
    if isinstance(x, frozenset):
        return "".join(sorted(x))
    return str(x)
