"""What an operation returns or leaves behind designates live storage, and its storage is released once (C12)."""
from bounds import *
import re
import bounds
from memory import load
from lift import Access, reach, Term_

KINDS = {"used after its release", "released twice", "released through a pointer into its middle", "released, although it is not from the free store", "never released",
         "designates a local object", "designates released storage", "designates an object that was passed as a temporary", "is owned twice"}
OWNERS = ("obj:", "out:")


class Lifetimes(Bounds):
    GOOD, UNIT = "{} uses, releases and results designate live storage for all sizes", "uses, releases and results"

    def track(self):
        self.L.keeplog, self.L.life = True, True

    def describe(self, w):
        a, off, size, ext, env, sz = w
        at = ", ".join(f"{k}={v}" for k, v in sz.items())
        return f"{self.where(a)}: for {at} {a.root} {a.kind if not a.kind[:4] in ('used', 'rele', 'neve') else 'is ' + a.kind}"

    def obligations(self):
        self.results()
        todo = [a for a in self.L.log if a.kind in KINDS]
        self.total = self.count + len([a for a in self.L.log if a.kind not in KINDS])
        return todo

    def results(self):
        """Obligations at the normal ends of the operation."""
        self.count = 0
        leaves, seen = [], set()

        def go(t):
            if t is None or id(t) in seen:
                return
            seen.add(id(t))
            if isinstance(t, tuple):
                go(t[1])
                go(t[2])
            elif t.kind == "ret":
                leaves.append(t)
        go(self.tree)
        for l in leaves:
            self.leaf(l)

    def leaf(self, l):
        L = self.L
        memo = {}

        def only(t):
            if t is None or isinstance(t, Term_):
                return True if t is l else None
            if id(t) not in memo:
                a, b = only(t[1]), only(t[2])
                memo[id(t)] = None if a is None and b is None else (t[0], a, b)
            return memo[id(t)]
        trees = (reach(only(self.tree)),)

        def require(kind, what, cond):
            self.count += 1
            if cond is not TRUE and cond is not None:
                L.log.append(Access(root=what, off=None, size=None, kind=kind, loc=l.loc, path=(), binders=[], proved=False, extent=None, trees=trees, cond=cond))

        def live(r):
            return L.alive(l.mem.get("~" + r) or L.mem0("~" + r))

        given = self.given_up()

        def check(p, what, holder=None):
            for c, r, off in L.cases(p):
                if holder and r in given and r != holder:
                    require("designates an object that was passed as a temporary", what, bnot(c))
                if r is None or r in ("null", "undef") or str(r)[:2] == "g:" or str(r)[:4] in OWNERS:
                    continue
                if str(r)[:3] == "tmp":
                    require("designates a local object", what, bnot(c))
                    continue
                a = live(r)
                if a is not None:
                    require("designates released storage", what, bor(bnot(c), a))
        if l.val is not None and l.val.sort == "p":
            check(l.val, "the result")
        held = []                                 # (object, offset, pointer)
        slots = {(r, o) for r, o, ty in self.m.initval if ty == "p" and isinstance(o, int) and str(r)[:4] == "obj:"}
        for r, m in l.mem.items():
            if str(r)[:4] in OWNERS:
                slots |= {(r, o) for o in self.pstores(m)}
        for r, o in sorted(slots):
            p = load(L.getmem(l.mem, r), const(o), "p")
            what = f"the {'new object' if r[:4] == 'out:' else 'operand ' + r[4:]}"
            check(p, what, r)
            held.append((r, o, p, what))
        # one owner, no leak
        arrays = {q for (r, o, ty), v in self.m.initval.items() if ty == "p" and str(r)[:4] == "obj:" and v.op == "ptr" for q in [v.args[0]]}
        news = {r[1:] for r in l.mem if r[:4] == "~new"}
        for q in sorted((arrays | news) - {"null"}):
            own = {}
            for r, o, p, what in held:
                for c, s, off in L.cases(p):
                    if s == q:
                        own.setdefault(self.group(held, r, o), []).append((c, what))
            g = list(own.items())
            for i in range(len(g)):
                for j in range(i):
                    for c1, w1 in g[i][1]:
                        for c2, w2 in g[j][1]:
                            require("is owned twice", f"storage of {w1} and {w2}", bor(bnot(c1), bnot(c2)))
            a = live(q)
            if a is not None and a is not FALSE:
                have = bnot(a)
                for _, cs in g:
                    for c, _ in cs:
                        have = bor(have, c)
                if l.val is not None and l.val.sort == "p" and any(r == q for _, r, _ in L.cases(l.val)):
                    continue
                require("never released", f"storage allocated {'in the operation' if q in news else 'for operand ' + q}", have)

    def given_up(self):
        """Objects the body passes as temporaries (std::move)."""
        b = self.op.body
        alias = {n: "out:" + o for n, o in re.findall(r"auto& (\w+) = \*new ?\((\w+)\)", b)}
        return {alias.get(n, "obj:" + n) for n in re.findall(r"std::move\((\w+)\)", b)}

    def group(self, held, r, o):
        """The vector (three adjacent pointers) a member belongs to."""
        offs = {x for y, x, _, _ in held if y == r}
        k = o
        while k - 8 in offs and (o - k) < 16:
            k -= 8
        base = min(offs)
        runs, cur = {}, []
        for x in sorted(offs):
            if cur and (x != cur[-1] + 8 or len(cur) == 3):
                cur = []
            cur = cur + [x]
            runs[x] = cur[0]
        return (r, runs[o])

    def pstores(self, m):
        out, seen, st = set(), set(), [m]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "store":
                if x.args[2] == "p" and is_const(x.args[1]):
                    out.add(int(cval(x.args[1])))
                st.append(x.args[0])
            elif x.op == "ite":
                st += [x.args[1], x.args[2]]
            elif x.op in ("fill", "map"):
                st.append(x.args[0])
        return out


def judge(op, T, backend, fn, c, tier="quick"):
    bounds.judge(op, T, backend, fn, c, tier, cls=Lifetimes)
