"""For-all-sizes equality of summaries: normal forms, case distinctions on the conditions that
occur in them, and equalities implied by the index facts."""
from terms import *
import terms, memory
from memory import simplify
from facts import Ctx

MAXD = 14


def conds(t, out, depth=0):
    """Conditions of conditionals that are not under a binder, outermost first."""
    if t.op == "poly":
        for m, _ in items(t):
            for a, _e in m:
                conds(a, out, depth)
        return
    if t.op == "ite":
        if t.args[0].loose < 0:
            out.append(t.args[0])
        conds(t.args[1], out, depth)
        conds(t.args[2], out, depth)
        return
    if t.op in BINDERS:
        return
    if t.sort in ("i", "f", "b"):
        for a in terms._children(t.op, t.args):
            conds(a, out, depth + 1)


def leafcond(c):
    """A condition to decide first."""
    while c.op in ("and", "not"):
        c = c.args[0]
    if c.op in ("ge0", "eq0"):
        inner = []
        conds(c.args[0], inner)
        if inner:
            return leafcond(inner[0])
    return c


def equal(a, b, ctx, depth=0):
    """True: equal for all sizes. False: not shown."""
    if a is b:
        return True
    d = sub(a, b) if a.sort in ("i", "f") else None
    return zero(d, ctx, depth)


def zero(d, ctx, depth=0):
    if is_const(d):
        return cval(d) == 0
    if ctx.infeas():
        return True
    if memory and _has_cond(d):
        d = simplify(d, ctx)
    if is_const(d):
        return cval(d) == 0
    cs = []
    conds(d, cs)
    cs = [leafcond(c) for c in cs]
    if cs and depth < MAXD:
        c = cs[0]
        c1, c2 = ctx.assume(c), ctx.assume(c, False)
        return zero(with_eq(d, c, True, c1), c1, depth + 1) and zero(with_eq(d, c, False, c2), c2, depth + 1)
    d2 = merge_reads(d, ctx)
    if d2 is not d:
        return zero(d2, ctx, depth + 1) if depth < MAXD else False
    return False


def _has_cond(d):
    from lift import has_op
    return has_op(d, ("ite", "wrap"))


def with_eq(d, c, val, ctx):
    """Uses the equation that a case assumes."""
    if c.op == "eq0" and val:
        p = c.args[0]
        s = solve_for(p)
        if s:
            d = subst(d, s)
    if c.op == "fc" and ((val and c.args[0] == frozenset("e")) or (not val and c.args[0] == frozenset("lgu"))):
        at = as_atom(c.args[1])
        if at is not None:
            d = replace_atom(d, at, const(0, "f"))
        elif len(items(c.args[1])) == 2:
            for m, k in items(c.args[1]):
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                    rest = sub(c.args[1], terms._poly("f", {m: k}))
                    if m[0][0].free.isdisjoint(()) and m[0][0] not in [x for mm, _ in items(rest) for x, _ in mm]:
                        d = replace_atom(d, m[0][0], terms.scale(rest, -1 / k))
                        break
    return simplify(d, ctx)


def replace_atom(d, at, val):
    if d.sort not in ("i", "f") or d.op != "poly":
        return d
    memo = {}

    def go(x, dep):
        if x is at and not dep:
            return val
        if x.op in ("sym", "bv", "init", "fresh"):
            return x
        if x in memo:
            return memo[x]
        memo[x] = rebuild(x, lambda y, dd: go(y, 0) if not dd else y)
        return memo[x]
    return go(d, 0)


def solve_for(p):
    for m, c in items(p):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "sym":
            rest = sub(p, terms._poly("i", {m: c}))
            if m[0][0] not in rest.free:
                return {m[0][0]: terms.scale(rest, -1 / c)}
    return None


def merge_reads(d, ctx):
    """Reads at indices that the facts make equal become one; sums over empty ranges vanish."""
    loads, sums = {}, []

    def go(x):
        if x.op == "poly":
            for m, _ in items(x):
                for a, _e in m:
                    go(a)
        elif x.op == "load" and x.loose < 0:
            loads.setdefault((x.args[0], x.args[2]), []).append(x)
            go(x.args[1])
        elif x.op == "sum":
            if x.args[0].loose < 0 and x.args[1].loose < 0:
                sums.append(x)
        elif x.op in ("inv", "sqrt", "ite", "fn"):
            for y in terms._children(x.op, x.args):
                go(y)
    go(d)
    for x in sums:
        if ctx.ge(sub(x.args[0], x.args[1])):
            return replace_atom(d, x, const(0, x.sort))
    for k, ls in loads.items():
        ls = list(dict.fromkeys(ls))
        for i, a in enumerate(ls):
            for b in ls[:i]:
                df = sub(a.args[1], b.args[1])
                if not is_const(df) and ctx.ge(df) and ctx.ge(neg(df)):
                    return replace_atom(d, a, atom(b))
    # sizes forced to one value, or to each other
    fs = set(ctx.facts)
    for p in ctx.facts:
        its = items(p)
        if len(its) <= 2 and len(its) >= 1 and not is_const(p):
            s_ = solve_for(p)
            if s_:
                (k, v), = s_.items()
                if k in d.free and (neg(p) in fs or (ctx.ge(neg(p)) and ctx.ge(p))):
                    return subst(d, s_)
    for s in sorted(d.free, key=lambda x: x.id):
        if s.sort == "i" and s.op == "sym":
            for v in (0, 1, 2):
                e = sub(atom(s), const(v))
                if ctx.ge(neg(e)) and ctx.ge(e):
                    return subst(d, {s: const(v)})
    return d
