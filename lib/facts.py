"""Linear integer reasoning about indices: Fourier-Motzkin over monomials, with the products
of facts and non-negative sizes needed for row-major offsets. Answers True / False / None."""
import math
from fractions import Fraction
from math import gcd
from terms import *

LIMIT = 220
ARRAYS = {}        # index arrays whose entries are known to be bounded or sorted


def nonneg_atom(a):
    if a.op in ("sym", "bv"):
        return bool(a.args[1] if a.op == "sym" else a.args[2])
    if a.op == "load":
        return a.sort == "i"
    if a.op == "wrap":
        return not a.args[2]
    if a.op in ("first", "umod", "isqrt", "fixstop", "perm"):
        return True
    return False


def _row(p):
    d = {}
    k = Fraction(0)
    for m, c in items(p):
        if m == ():
            k = c
        else:
            d[m] = c
    return d, k


def _tight(d, k):
    """Integer tightening of  sum d + k >= 0."""
    if not d:
        return d, k
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, int(c * den))
    f = Fraction(den, g)
    if f != 1:
        d = {m: c * f for m, c in d.items()}
        k = k * f
    if k.denominator != 1:
        k = Fraction(k.numerator // k.denominator)
    return d, k


def infeasible(rows):
    """Is the conjunction of  row >= 0  without integer solution (rationally, with tightening)?"""
    sysm = {}

    def put(d, k, store):
        if not d:
            return k < 0
        d, k = _tight(d, k)
        key = frozenset(d.items())
        if key not in store or store[key][1] > k:
            store[key] = (d, k)
        return False
    for d, k in rows:
        if put(dict(d), k, sysm):
            return True
    while sysm:
        occ = {}
        for d, k in sysm.values():
            for m, c in d.items():
                a = occ.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1]))
        if occ[m][0] * occ[m][1] > LIMIT:
            return False
        pos, negs, rest = [], [], {}
        for key, (d, k) in sysm.items():
            if m in d:
                (pos if d[m] > 0 else negs).append((d, k))
            else:
                rest[key] = (d, k)
        for d1, k1 in pos:
            for d2, k2 in negs:
                a, b = -d2[m], d1[m]
                d = {}
                for mm, c in d1.items():
                    d[mm] = c * a
                for mm, c in d2.items():
                    d[mm] = d.get(mm, 0) + c * b
                d = {mm: c for mm, c in d.items() if c}
                if put(d, k1 * a + k2 * b, rest):
                    return True
        if len(rest) > LIMIT:
            return False
        sysm = rest
    return False


class Ctx:
    """A conjunction of facts on integer terms plus opaque literals."""

    def __init__(self, parent=None):
        self.facts = list(parent.facts) if parent else []
        self.nes = list(parent.nes) + list(getattr(parent, '_pending', [])) if parent else []
        self.lits = dict(parent.lits) if parent else {}
        self.memo = {}
        self.dead = parent.dead if parent else False

    def assume(self, b, val=True):
        c = Ctx(self)
        c._add(b if val else bnot(b))
        return c

    def _add(self, b):
        if b is FALSE:
            self.dead = True
        if b.op == "and":
            self._add(b.args[0])
            self._add(b.args[1])
            return
        if b.op == "not" and b.args[0].op == "eq0":
            self.nes.append(b.args[0].args[0])
        elif b.op == "ge0":
            self.facts.append(b.args[0])
            for m, c in items(b.args[0]):
                if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "first" and m[0][0].loose < 0:
                    a = m[0][0]
                    if sub(sub(shift(a.args[0], -1), ONE), atom(a)) is b.args[0]:
                        e = instantiate(a.args[1], [atom(a)])   # stopped before the bound: the condition holds there
                        if e is not b and self.lits.get(e) is not True:
                            self._add(e)
        elif b.op == "eq0":
            self.facts.append(b.args[0])
            self.facts.append(neg(b.args[0]))
        elif b.op == "fc":
            old = self.lits.get(b.args[1], frozenset("legu"))
            self.lits[b.args[1]] = old & b.args[0]
            return
        if b.op == "not":
            self.lits[b.args[0]] = False
        elif b is not TRUE:
            self.lits[b] = True

    # -- entailment
    def _rows(self, goal):
        """Facts relevant to the goal, as rows, with the products that its monomials call for."""
        self._settle()
        facts = list(self.facts)
        monos = set()
        for p in facts + goal:
            for m, _ in items(p):
                monos.add(m)
        mult = {a for m in monos if sum(e for _, e in m) >= 2 for a, _ in m if nonneg_atom(a)}
        extra = []
        if mult and len(mult) <= 6 and len(facts) <= 40:
            for a in sorted(mult, key=lambda x: x.id):
                pa = atom(a)
                for f in facts:
                    if sum(len(m) for m, _ in items(f)) <= 4:
                        q = mul(f, pa)
                        # only products about monomials already present are of use
                        if sum(1 for m, _ in items(q) if m != () and m not in monos) <= 1:
                            extra.append(q)
                for m in list(monos):            # (a - 1) * b >= 0 when a >= 1 comes from facts
                    pass
        defs, work, done = [], [a for m in monos for a, _ in m if a.op in ("fdiv", "isqrt", "perm", "first")], set()
        while work and len(done) < 12:
            a = work.pop()
            if a in done:
                continue
            done.add(a)
            if a.op == "fdiv":
                p_, k_ = a.args
                if all(c.denominator == 1 for _, c in items(p_)):
                    r_ = sub(p_, scale(atom(a), k_))
                    new = [r_, sub(const(k_ - 1), r_)]
                else:
                    new = []
            elif a.op == "first":                # at most the bound of the loop
                new = []
                if a.loose < 0 and not is_const(a.args[0]):
                    n_ = shift(a.args[0], -1)
                    busy = self.__dict__.setdefault("busy", set())
                    if n_ not in busy and len(busy) < 2:
                        busy.add(n_)
                        try:
                            if self.ge(n_):
                                new = [sub(n_, atom(a))]
                        finally:
                            busy.discard(n_)
            elif a.op == "perm":                 # a place of the range that is sorted
                new = [sub(sub(shift(a.args[0], -1), ONE), atom(a))] if a.loose < 0 else []
            else:
                its = items(a.args[0])
                k0 = max(0, int(dict(its).get((), 0)))
                new = [sub(atom(a), const(math.isqrt(k0)))] if all(c >= 0 and all(nonneg_atom(x) for x, _ in m) for m, c in its) else []
            for q in new:
                work += [x for m, _ in items(q) for x, _e in m if x.op in ("fdiv", "isqrt", "perm", "first") and x not in done]
            defs += new
        if ARRAYS:
            defs += self._array_rows(monos, facts)
        rows = [_row(p) for p in facts + extra + defs + goal]
        ats = set()
        for d, _ in rows:
            for m in d:
                ats.add(m)
        for m in ats:
            if all(nonneg_atom(a) or e % 2 == 0 for a, e in m):
                rows.append(({m: Fraction(1)}, Fraction(0)))
        # relevance: connected component of the goal
        seen, todo = set(), set()
        for p in goal:
            for m, _ in items(p):
                if m != ():
                    todo.add(m)
        comp = []
        left = rows
        while todo:
            seen |= todo
            nxt, rem = set(), []
            for r in left:
                if any(m in seen for m in r[0]):
                    comp.append(r)
                    nxt |= set(r[0])
                else:
                    rem.append(r)
            left = rem
            todo = nxt - seen
        return comp + [r for r in rows if not r[0]]

    def _array_rows(self, monos, facts):
        """What is known of the entries of index arrays: bounds, and order where the array is sorted."""
        out, loads, seen = [], {}, set()
        work = [a for m in monos for a, _ in m]
        while work and len(seen) < 24:
            a = work.pop()
            if a in seen or a.op != "load" or a.sort != "i" or a.args[0].op != "init" or a.args[0].args[0] not in ARRAYS:
                continue
            seen.add(a)
            loads.setdefault(a.args[0].args[0], []).append(a)
            work += [x for m, _ in items(a.args[1]) for x, _ in m]
        for root, ls in loads.items():
            d = ARRAYS[root]
            pts = [(a.args[1], atom(a)) for a in ls]
            for off, v in pts:
                out.append(sub(d["hi"], v))
            if d.get("sorted"):
                pts += list(d.get("ends", ()))
                for i in range(len(pts)):
                    for j in range(len(pts)):
                        if i < j or (i != j and not is_const(sub(pts[j][0], pts[i][0]))):
                            o = sub(pts[j][0], pts[i][0])
                            if is_const(o):
                                if cval(o) >= 0:
                                    out.append(sub(pts[j][1], pts[i][1]))
                                if cval(o) <= 0:
                                    out.append(sub(pts[i][1], pts[j][1]))
                            elif self._plain(facts, o):
                                out.append(sub(pts[j][1], pts[i][1]))
        return out

    def _plain(self, facts, p):
        """p >= 0 from the linear facts alone."""
        key = ("plain", p)
        if key not in self.memo:
            rows = [_row(f) for f in facts + [sub(neg(p), ONE)]]
            ats = {m for d, _ in rows for m in d}
            rows += [({m: Fraction(1)}, Fraction(0)) for m in ats if all(nonneg_atom(a) or e % 2 == 0 for a, e in m)]
            self.memo[key] = infeasible(rows)
        return self.memo[key]

    def _settle(self):
        """x != 0 with x >= 0 known becomes x >= 1 (and symmetrically)."""
        while self.nes:
            nes, self.nes = self.nes, []
            left, done = [], False
            for q in nes:
                if self._ge(q):
                    q = ge0(sub(q, ONE))
                elif self._ge(neg(q)):
                    q = ge0(sub(neg(q), ONE))
                else:
                    left.append(q)
                    continue
                done = True
                if q.op == "ge0":
                    self.facts.append(q.args[0])
                elif q is FALSE:
                    self.dead = True
                continue
            if not done:
                break
        else:
            return
        # what stays undecided is kept for contexts with more facts
        self._pending = left

    def _ge(self, p):
        if is_const(p):
            return cval(p) >= 0
        if all(c >= 0 and all(nonneg_atom(a) for a, _ in m) for m, c in items(p)):
            return True
        if len(items(p)) > 24:
            return False
        goal = sub(neg(p), ONE) if all(c.denominator == 1 for _, c in items(p)) else sub(neg(p), const(Fraction(1, 2)))
        rows = self._rows([goal])
        if infeasible(rows):
            return True
        if max(sum(e for _, e in m) for m, _ in items(p)) == 2 and len(items(p)) <= 14:
            more = self._products(p)
            if more:
                return infeasible(rows + more)
        return False

    def _products(self, p):
        """Products of pairs of linear facts about the atoms of a quadratic goal."""
        ats = {a for m, _ in items(p) for a, _e in m}
        quad = {a for m, _ in items(p) if sum(e for _, e in m) == 2 for a, _e in m}
        lin = []
        for f in self.facts:
            fa = {a for m, _ in items(f) for a, _e in m}
            if fa and fa <= ats and fa & quad and len(fa) > 1 and all(sum(e for _, e in m) <= 1 for m, _ in items(f)) and f not in lin:
                lin.append(f)
        lin = lin[:5] + [atom(a) for a in sorted(quad, key=lambda x: x.id) if nonneg_atom(a)][:3]
        if not 0 < len(quad) <= 4:
            return []
        rows = [_row(mul(lin[i], lin[j])) for i in range(len(lin)) for j in range(i, len(lin))]
        ms = {m for d, _ in rows for m in d}
        return rows + [({m: Fraction(1)}, Fraction(0)) for m in ms if all(nonneg_atom(a) or e % 2 == 0 for a, e in m)]

    def ge(self, p):
        """Is p >= 0 in every model?"""
        if self.dead:
            return True
        r = self.memo.get(p)
        if r is None:
            r = self.memo[p] = self._ge(p)
        return r

    def gt(self, p):
        return self.ge(sub(p, ONE))

    def infeas(self):
        if self.dead:
            return True
        if "inf" not in self.memo:
            rows = self._rows([])
            goal = self.facts
            r = False
            if goal:
                self_rows = self._rows(list(goal))
                r = infeasible(self_rows)
            if not r:
                for b, v in self.lits.items():
                    if v == frozenset():
                        r = True
            self.memo["inf"] = r
        return self.memo["inf"]

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == "fc":
            cur = self.lits.get(b.args[1])
            if cur is not None:
                if cur <= b.args[0]:
                    return True
                if not (cur & b.args[0]):
                    return False
            return None
        if b in self.lits:
            return self.lits[b]
        op = b.op
        if op == "not":
            r = self.decide(b.args[0])
            return None if r is None else not r
        if op == "and":
            x, y = self.decide(b.args[0]), self.decide(b.args[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if op == "ge0":
            p = b.args[0]
            if self.ge(p):
                return True
            if self.ge(sub(neg(p), ONE)):
                return False
            return None
        if op == "eq0":
            p = b.args[0]
            if self.ge(sub(p, ONE)) or self.ge(sub(neg(p), ONE)):
                return False
            if self.ge(p) and self.ge(neg(p)):
                return True
            return None
        if op == "ucmp":
            pred, x, y, bits = b.args
            if self.ge(x) and self.ge(y):
                return self.decide(lt(x, y) if pred == "ult" else le(x, y))
            return None
        return None


def data_int(a):
    """Does the integer contain an element of an index array, about whose size nothing is known?"""
    for m, _ in items(a):
        for x, _e in m:
            if x.op == "load":
                r = x.args[0]
                while r.op in ("store", "ite", "sorted"):
                    r = r.args[1] if r.op == "ite" else r.args[0]
                if not any(str(k) in ARRAYS for k in r.args[:1]):
                    return True
    return False
