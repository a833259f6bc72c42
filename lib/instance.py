"""Instances of summaries: the value a formula takes for given sizes and element values.

Elements are random residues modulo a prime, so two formulas that differ as rational functions differ
here with overwhelming probability. Used to confirm a disagreement before it is reported."""
import hashlib, math, random
from terms import *
from memory import SIZE, SORT, open_map

P = (1 << 61) - 1
LARGE = 1 << 22


class Skip(Exception):
    pass


class Diverge(Exception):
    """A loop that does not end for this instance."""


class Budget(Exception):
    pass


def h(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "little") % P


class MemObj:
    __slots__ = ("base", "d", "kind", "name")

    def __init__(self, kind, name=None, base=None, d=None):
        self.kind, self.name, self.base, self.d = kind, name, base, d


class Instance:
    def __init__(self, sizes, seed=1, zeros=0.0, nan=False, ints=None, floats=None, budget=400000, special=None, fault=0, small=False):
        self.small = small
        self.fault, self.faulted = fault, None
        self.sizes, self.seed, self.zeros, self.nan = sizes, seed, zeros, nan
        self.ints = ints or {}            # root -> list of integers
        self.floats = floats or {}        # (root, offset in bytes) -> value
        self.special = special or {}      # root -> value of scalar
        self.memo, self.mm, self.fx = {}, {}, {}
        self.budget = budget
        self.env = {}
        self.uninit = 0
        self.trace_uninit = False
        self.keep = []
        self.poison = False
        self.root, self.envk = None, frozenset()

    # ---------------------------------------------------------------- initial values
    def init(self, root, off, ty):
        if root.startswith("g:"):
            raise Skip("contents of " + root)
        if SORT[ty] == "f":
            if root in self.special:
                return self.special[root] if off == 0 else 0
            k = (root, off)
            if k in self.floats:
                return self.floats[k]
            v = h(self.seed, root, off)
            if self.zeros and (v >> 7) % 1000 < self.zeros * 1000:
                return 0
            if self.small:                    # values with equalities among them
                return (0, 1, 1, P - 1, 2, v)[(v >> 7) % 6]
            return v
        a = self.ints.get(root)
        if a is not None:
            i = off // SIZE[ty]
            if 0 <= i < len(a):
                return a[i]
            return h(self.seed, root, off) % 7
        raise Skip(f"integer contents of {root}")

    # ---------------------------------------------------------------- values
    def val(self, t, st=()):
        if t.loose < 0:
            if self.root is not None and not (t.free & self.envk):
                return self.root.val(t)
            k = t
        else:
            k = (t, st[-(t.loose + 1):])
        r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise Budget()
            r = self.memo[k] = self._val(t, st)
        return r

    def poly(self, t, st):
        if t.sort == "i":
            s = 0
            for m, c in items(t):
                v = c if c.denominator != 1 else c.numerator
                for a, e in m:
                    v = v * (self.val(a, st) if e == 1 else self.val(a, st) ** e)
                s += v
            if s.denominator != 1:
                raise Skip("fraction")
            return int(s)
        s = 0
        for m, c in items(t):
            v = c.numerator * pow(c.denominator, P - 2, P) % P
            for a, e in m:
                v = v * pow(self.val(a, st), e, P) % P
            s += v
        return s % P

    def _val(self, t, st):
        op, a = t.op, t.args
        if op == "poly":
            return self.poly(t, st)
        if op == "sym":
            if t in self.env:
                return self.env[t]
            if t.args[0] in self.sizes:
                return self.sizes[t.args[0]]
            raise Skip("symbol " + t.args[0])
        if op == "bv":
            return st[-1 - a[0]][a[1]]
        if op == "load":
            return self.look(self.mem(a[0], st), self.val(a[1], st), a[2])
        if op == "ite":
            return self.val(a[1] if self.val(a[0], st) else a[2], st)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ge0":
            p = a[0]
            s = 0
            for m, c in items(p):
                v = c if c.denominator != 1 else c.numerator
                for x, e in m:
                    v = v * (self.val(x, st) if e == 1 else self.val(x, st) ** e)
                s += v
            return s >= 0
        if op == "eq0":
            return self.val(a[0], st) == 0
        if op == "not":
            return not self.val(a[0], st)
        if op == "and":
            return self.val(a[0], st) and self.val(a[1], st)
        if op == "fc":
            return self.sign(self.val(a[1], st)) in a[0]
        if op == "inv":
            v = self.val(a[0], st)
            return pow(v, P - 2, P) if v else h("inv0")
        if op == "sqrt":
            v = self.val(a[0], st)
            r = pow(v, (P + 1) // 4, P)
            if r * r % P != v:
                raise Skip("non-residue")
            return min(r, P - r)
        if op == "isqrt":
            return math.isqrt(max(0, self.val(a[0], st)))
        if op == "sum":
            d = st + ((0,),)
            lo, hi = self.val(a[0], d), self.val(a[1], d)
            if hi - lo > (LARGE if len(st) == 0 else 5000):
                raise Diverge()
            s = 0
            for i in range(lo, hi):
                s += self.val(a[2], st + ((i,),))
            return s if t.sort == "i" else s % P
        if op == "first":
            n = self.val(a[0], st + ((0,),))
            for i in range(0, max(0, min(n, LARGE))):
                if self.val(a[1], st + ((i,),)):
                    return i
            if n > LARGE:
                raise Diverge()
            return max(0, n)
        if op == "wrap":
            v = self.val(a[0], st) % (1 << a[1])
            if a[2] and v >= 1 << (a[1] - 1):
                v -= 1 << a[1]
            return v
        if op == "perm":
            d = st + ((None, None),)
            n, q = self.val(a[0], d), self.val(a[1], d)
            k = ("perm", a[2], n, st if a[2].loose > 0 else ())
            o = self.fx.get(k)
            if o is None:
                o = self.fx[k] = self.order(n, a[2], st)
            return o[q] if 0 <= q < n else h("perm", q) % 7
        if op == "fdiv":
            return self.val(a[0], st) // a[1]
        if op == "idiv":
            b = self.val(a[1], st)
            if b == 0:
                raise Skip("integer division by zero")
            return self.val(a[0], st) // b
        if op == "ucmp":
            x, y = self.val(a[1], st) % (1 << a[3]), self.val(a[2], st) % (1 << a[3])
            return x < y if a[0] == "ult" else x <= y
        if op == "fn":
            vs = [self.val(x, st) for x in a[1]]
            if a[0] == "fabs":
                return min(vs[0], P - vs[0])
            return h("fn", a[0], *vs)
        if op == "i2f":
            return self.val(a[0], st) % P
        if op == "fixstop":
            return self.fix(a[0], st)[0]
        if op == "fixout":
            return self.fix(a[0], st)[1][a[1]]
        if op == "fconst":
            return h("fconst", a[0])
        if op == "undef":
            self.uninit += 1
            return h("undef", self.uninit)
        if op == "primval":
            vals = tuple(self.arg(x, st) for x in a[1])
            if self.fault:
                self.faulted = a[0]
                return self.fault
            r = self.lapack(a[0], vals)
            return r[0] if r else (0, 0, 3, -2)[h(self.seed, "prim", a[0], *vals) % 4]
        if op == "bits":
            x, y = self.val(a[1], st), self.val(a[2], st)
            return {"and": x & y, "or": x | y, "xor": x ^ y, "urem": x % y if y else 0, "srem": x % y if y else 0}[a[0]]
        raise Skip(op)

    def arg(self, x, st):
        if isinstance(x, Term):
            if x.op == "region":                 # contents of a range of memory
                mem, off, n, ty = x.args
                m = self.mem(mem, st)
                o = self.val(off, st)
                k = self.val(n, st)
                if k > 5000:
                    raise Diverge()
                return tuple(self.look(m, o + SIZE[ty] * i, ty) for i in range(max(0, k)))
            return self.val(x, st)
        return x

    def sign(self, v):
        if v == 0:
            return "e"
        if self.nan and h(self.seed, "nan", min(v, P - v)) % 4 == 0:
            return "u"
        return "g" if v < P // 2 else "l"

    # ---------------------------------------------------------------- memory
    def mem(self, m, st):
        if m.loose < 0 and self.root is not None and not (m.free & self.envk):
            return self.root.mem(m, ())
        k = (m, st[-(m.loose + 1):] if m.loose >= 0 else ())
        r = self.mm.get(k)
        if r is None:
            r = self.mm[k] = self._mem(m, st)
            self.keep.append(r)
        return r

    def _mem(self, m, st):
        op, a = m.op, m.args
        if op in ("init", "fresh"):
            return MemObj(op, a[0])
        if op == "bv":
            return st[-1 - a[0]][a[1]]
        if op == "sym":
            if m in self.env:
                return self.env[m]
            raise Skip("array state " + m.args[0])
        if op == "store":
            base = self.mem(a[0], st)
            off = self.val(a[1], st)
            if m.args[2] == "p":
                return MemObj("over", None, base, {off: (a[2], ("p", a[3]))})
            return MemObj("over", None, base, {off: (a[2], self.val(a[3], st))})
        if op == "ite":
            return self.mem(a[1] if self.val(a[0], st) else a[2], st)
        if op == "map":
            base = self.mem(a[0], st + ((None,) * a[1],))
            k, ty, body = a[1], a[2], a[4]
            rs, guard, idx, val = body.args
            d = {}

            def rec(i, q):
                if i == k:
                    s2 = st + (tuple(q),)
                    if self.val(guard, s2):
                        d[self.val(idx, s2)] = (ty, ("lazy", val, s2))
                    return
                s2 = st + (tuple(q) + (None,) * (k - i),)
                lo, hi = self.val(rs[i][0], s2), self.val(rs[i][1], s2)
                if hi - lo > 5000:
                    raise Diverge()
                for v in range(lo, hi):
                    rec(i + 1, q + [v])
            rec(0, [])
            return MemObj("over", None, base, d)
        if op == "fill":
            base = self.mem(a[0], st)
            return MemObj("fill", (self.val(a[1], st), self.val(a[2], st)), base)
        if op == "fixout":
            return self.fix(a[0], st)[1][a[1]]
        if op == "primmem":
            # contents after an external routine: a function of its inputs
            vals = tuple(self.arg(x, st) for x in a[1])
            base = self.mem(a[2], st)
            return MemObj("prim", (a[0], vals, self.val(a[3], st), self.val(a[4], st)), base)
        if op == "sorted":
            d = st + ((None, None),)
            base, off, n = self.mem(a[0], d), self.val(a[1], d), self.val(a[2], d)
            if n > 400:
                raise Diverge()
            order = self.order(n, a[4], st)
            return MemObj("perm", (off, n, a[3], order), base)
        raise Skip(op)

    def look(self, m, off, ty):
        while True:
            k = m.kind
            if k == "over":
                r = m.d.get(off)
                if r is not None:
                    t2, v = r
                    if isinstance(v, tuple):
                        if v[0] == "p":
                            raise Skip("pointer")
                        v = self.val(v[1], v[2])
                        m.d[off] = (t2, v)
                    if t2 == ty or v == 0 and SIZE[t2] >= SIZE[ty]:
                        return v
                    if SIZE[t2] != SIZE[ty]:             # the halves of a wider access
                        if SIZE[t2] * 2 == SIZE[ty] and v == 0 and self.look(m, off + SIZE[t2], t2) == 0:
                            return 0
                        raise Skip("type punning")
                    if SORT[t2] != SORT[ty]:
                        raise Skip("type punning")
                    return v
                if SIZE[ty] == 4 and off - 4 in m.d or SIZE[ty] == 8 and off + 4 in m.d:
                    o2 = off - 4 if SIZE[ty] == 4 else off + 4
                    t2, v = m.d[o2]
                    if SIZE[t2] + SIZE[ty] > 8:          # overlaps
                        if SIZE[ty] == 4 and SIZE[t2] == 8 and self.look(m, o2, t2) == 0:
                            return 0
                        raise Skip("type punning")
                m = m.base
            elif k == "fill":
                o, n = m.name
                if o <= off < o + n:
                    return 0
                m = m.base
            elif k == "init":
                return self.init(m.name, off, ty)
            elif k == "fresh":
                self.uninit += 1
                return h("uninit", m.name, off) if SORT[ty] == "f" else 10 ** 6
            elif k == "perm":
                lo, n, sz, order = m.name
                if lo <= off < lo + n * sz:
                    i, d = divmod(off - lo, sz)
                    off = lo + order[i] * sz + d
                m = m.base
            elif k == "prim":
                nm, vals, lo, n = m.name
                if lo <= off < lo + n:
                    if self.fault:
                        self.faulted = nm
                    r = None if self.fault else self.lapack(nm, vals)
                    if r and r[0] == 0:
                        out = r[1][int(nm.rsplit(".", 1)[1])]
                        if out is not None:
                            return out[(off - lo) // SIZE[ty]]
                    return h("primout", nm, vals, off - lo)
                m = m.base
            else:
                raise Skip(k)

    # ---------------------------------------------------------------- what LAPACK routines compute
    def lapack(self, nm, vals):
        key = ("lapack", nm.rsplit(".", 1)[0], vals)
        if key not in self.fx:
            f = {"potrf": self._potrf, "potrs": self._potrs, "gtsv": self._gtsv}
            f = next((g for k, g in f.items() if k in nm), None) if not any(z in nm for z in ("_z", "_c")) else None
            self.fx[key] = f(*vals) if f else None
        return self.fx[key]

    @staticmethod
    def _tri(layout, uplo, lda):
        """Where element (i, j), j <= i, of the symmetric matrix or of its factor is stored."""
        row = (layout == 101) == (uplo == ord("L"))
        return (lambda i, j: i * lda + j) if row else (lambda i, j: j * lda + i)

    def _potrf(self, layout, uplo, n, lda, a):
        at, a = self._tri(layout, uplo, lda), list(a)
        for i in range(n):
            for j in range(i):
                v = a[at(i, j)] - sum(a[at(i, k)] * a[at(j, k)] for k in range(j))
                a[at(i, j)] = v * pow(a[at(j, j)], P - 2, P) % P
            v = (a[at(i, i)] - sum(a[at(i, k)] ** 2 for k in range(i))) % P
            if self.sign(v) != "g":
                return i + 1, [None]
            r = pow(v, (P + 1) // 4, P)
            if r * r % P != v:
                raise Skip("non-residue")
            a[at(i, i)] = min(r, P - r)
        return 0, [a]

    def _potrs(self, layout, uplo, n, nrhs, lda, ldb, a, b):
        at, b = self._tri(layout, uplo, lda), list(b)
        bx = (lambda i, c: i * ldb + c) if layout == 101 else (lambda i, c: c * ldb + i)
        inv = lambda v: pow(v, P - 2, P) if v else h("inv0")
        for c in range(nrhs):
            for i in range(n):
                b[bx(i, c)] = (b[bx(i, c)] - sum(a[at(i, j)] * b[bx(j, c)] for j in range(i))) * inv(a[at(i, i)]) % P
            for i in range(n - 1, -1, -1):
                b[bx(i, c)] = (b[bx(i, c)] - sum(a[at(j, i)] * b[bx(j, c)] for j in range(i + 1, n))) * inv(a[at(i, i)]) % P
        return 0, [b]

    def _gtsv(self, layout, n, nrhs, ldb, dl, d, du, b):
        d, b = list(d), list(b)
        bx = (lambda i, c: i * ldb + c) if layout == 101 else (lambda i, c: c * ldb + i)
        for i in range(n):
            if d[i] == 0:
                raise Skip("pivot")
            if i + 1 < n:
                f = dl[i] * pow(d[i], P - 2, P) % P
                d[i + 1] = (d[i + 1] - f * du[i]) % P
                for c in range(nrhs):
                    b[bx(i + 1, c)] = (b[bx(i + 1, c)] - f * b[bx(i, c)]) % P
        for c in range(nrhs):
            for i in range(n - 1, -1, -1):
                v = b[bx(i, c)] - (du[i] * b[bx(i + 1, c)] if i + 1 < n else 0)
                b[bx(i, c)] = v * pow(d[i], P - 2, P) % P
        return 0, [None, None, None, b]

    def order(self, n, less, st):
        """The places 0 .. n-1 in the order of the comparator."""
        import functools
        if n > 400:
            raise Diverge()
        lt_ = lambda x, y: self.val(less, st + ((x, y),))
        return sorted(range(n), key=functools.cmp_to_key(lambda x, y: -1 if lt_(x, y) else 1 if lt_(y, x) else 0))

    def fix(self, f, st):
        if f.loose < 0 and self.root is not None and not (f.free & self.envk):
            return self.root.fix(f, ())
        key = (f, st[-(f.loose + 1):] if f.loose >= 0 else ())
        r = self.fx.get(key)
        if r is not None:
            return r
        n, N, inits, body = f.args
        d = st + ((None,) * (n + 1),)
        bound = self.val(N, d)
        cur = [self.mem(i, d) if i.sort == "m" else self.val(i, d) for i in inits]
        E, nexts = body.args
        t = 0
        while t < bound:
            if t > (LARGE if not st else 5000):
                if self.poison:                  # a loop that does not end where its result may not matter
                    cur = [MemObj("fresh", "poison") if x.sort == "m" else h("poison", key[0].id, j) % (1 << 20) for j, x in enumerate(inits)]
                    t = 10 ** 6
                    break
                raise Diverge()
            s2 = st + ((t,) + tuple(cur),)
            if self.val(E, s2):
                break
            new = []
            for x in nexts:
                if x.sort == "m":
                    new.append(self.flat(self.mem(x, s2)))
                else:
                    new.append(self.val(x, s2))
            cur = new
            self.keep.append(cur)
            t += 1
        r = self.fx[key] = (t, cur)
        return r

    def flat(self, m):
        """One overlay per iteration."""
        chain = []
        x = m
        while x.kind == "over":
            chain.append(x)
            x = x.base
        if len(chain) <= 1:
            return m
        d = {}
        for c in reversed(chain):
            d.update(c.d)
        for k, (ty, v) in list(d.items()):
            if isinstance(v, tuple) and v[0] == "lazy":
                d[k] = (ty, self.val(v[1], v[2]))
        o = MemObj("over", None, x, d)
        return o

    def with_env(self, env):
        """The same instance with values for index symbols."""
        if not env:
            return self
        o = Instance.__new__(Instance)
        o.__dict__.update(self.__dict__)
        o.env = {**self.env, **env}
        o.root, o.envk = self.root or self, frozenset(o.env)
        o.memo, o.mm, o.fx = {}, {}, {}
        return o

    # ---------------------------------------------------------------- outcomes
    def outcome(self, tree):
        while isinstance(tree, tuple):
            tree = tree[1] if self.val(tree[0]) else tree[2]
        return tree
