"""Summaries of compiled functions: canonical LLVM IR -> terms over the initial state.

Loops are not unrolled or run. Each loop body is summarised once, for a symbolic iteration, and the
loop becomes a bulk map (no loop-carried dependence), a sum (reduction), the first index with
a property (search), or a recurrence (everything else)."""
from terms import *
import terms, memory, facts
from memory import *
from facts import Ctx

INF = const(1 << 40)
LIVE, DEAD, NONE = (mk("fresh", "m", x) for x in ("live", "dead", "none"))


class Edge:
    __slots__ = ("src", "dst", "mem")

    def __init__(self, src, dst, mem):
        self.src, self.dst, self.mem = src, dst, mem


class Term_:                      # terminal outcome
    __slots__ = ("kind", "what", "mem", "val", "loc")

    def __init__(self, kind, what, mem, val=None, loc=None):
        self.kind, self.what, self.mem, self.val, self.loc = kind, what, mem, val, loc


def aggite(v):
    """A choice of aggregates as an aggregate of choices."""
    if v.op != "ite":
        return v
    a, b = aggite(v.args[1]), aggite(v.args[2])
    if a.op != "agg" or b.op != "agg" or [k for k, _ in a.args[0]] != [k for k, _ in b.args[0]]:
        return v
    return mk("agg", "x", tuple((k, ite(v.args[0], x, y)) for (k, x), (_, y) in zip(a.args[0], b.args[0])))


class Access:
    __slots__ = ("root", "off", "size", "kind", "loc", "path", "binders", "proved", "extent", "trees", "cond")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def free(self):
        f = set()
        seen = set()

        def tree(t):
            if isinstance(t, tuple) and id(t) not in seen:
                seen.add(id(t))
                if t[0] is not True:
                    f.update(t[0].free)
                tree(t[1])
                tree(t[2])
        for t in self.trees:
            tree(t)
        for x in (self.off, self.size, self.extent, self.cond, *self.path, *(hi for _, hi in self.binders)):
            if x is not None:
                f.update(x.free)
        return f

    def subst(self, sb):
        memo = {}

        def tree(t):
            if not isinstance(t, tuple):
                return t is not None
            k = id(t)
            if k not in memo:
                memo[k] = ((t[0] if t[0] is True else subst(t[0], sb)), tree(t[1]), tree(t[2]))
                memo[(k, "keep")] = t
            return memo[k]
        self.path = tuple(subst(p, sb) for p in self.path)
        for k in ("off", "size", "extent", "cond"):
            v = getattr(self, k)
            if v is not None:
                setattr(self, k, subst(v, sb))
        self.trees = tuple(tree(t) for t in self.trees)
        self.binders = [(t, hi if hi is INF else subst(hi, sb)) for t, hi in self.binders]


_has = {}


def has_op(t, ops):
    k = (t, ops)
    r = _has.get(k)
    if r is None:
        r = _has[k] = t.op in ops or any(has_op(y, ops) for y in terms._children(t.op, t.args))
    return r


ITE = ("ite",)


class Lifter:
    def __init__(self, fn, model):
        self.fn, self.model = fn, model
        facts.ARRAYS.clear()
        facts.ARRAYS.update(model.index)
        self.blocks = fn["blocks"]
        for g in fn.get("globals", {}).values():
            if g["ro"]:
                for off, t, v in g["leaves"]:
                    fl = t in ("float", "double")
                    if (v["k"] == "f" and "n" not in v["v"]) or (v["k"] == "c" and not fl):
                        c = const(float.fromhex(v["v"]), "f") if fl else const(int(v["v"]))
                        model.initval[("g:" + g["name"], off, {"float": "f", "double": "d"}.get(t, t))] = c
        self.env = {}
        self.extent = dict(model.extent)
        self.elem = dict(model.elem)
        self.nfresh = 0
        self.log, self.keeplog, self.grows, self.life = [], False, False, False
        self.prims = []                     # external routines whose result is a function of their operands
        self.loops = fn["loops"]
        self.inner = {}                     # block -> innermost loop
        for i, l in enumerate(self.loops):
            for b in l["blocks"]:
                if b not in self.inner or len(self.loops[self.inner[b]]["blocks"]) > len(l["blocks"]):
                    self.inner[b] = i
        self.depth = 0
        self.deftab = {}
        for bi, b in enumerate(self.blocks):
            for ins in b:
                self.deftab[ins["id"]] = (bi, ins)
        self.cmp_consts = set()
        for b in self.blocks:
            for ins in b:
                if ins["op"] in ("icmp", "switch", "udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "select", "add", "call"):
                    if ins["op"] == "call" and not ins.get("callee", "").startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.usub")):
                        continue
                    for o in ins["ops"]:
                        if isinstance(o, dict) and o.get("k") == "c":
                            v = int(o["v"])
                            if ins["op"] in ("lshr", "ashr"):
                                v = 1 << v if v < 22 else 0
                            elif ins["op"] == "and":
                                v = -v if v < 0 else v + 1
                            v = abs(v)
                            if 1 < v <= 1 << 21:
                                self.cmp_consts.add(v)

    # ------------------------------------------------------------ top level
    def run(self):
        for a, t in zip(self.fn["args"], self.model.args):
            self.env[a["id"]] = t
        memory.INITVAL.clear()
        memory.INITVAL.update(self.model.initval)
        ctx = Ctx()
        for f in self.model.facts:
            ctx._add(f)
        ctx.path = ()
        memory.CUR[:] = [ctx]
        mem = {}
        tree = self.region(None, 0, ctx, mem, {})
        return self.outcome(tree)

    def outcome(self, tree):
        memo = {}

        def go(t):
            if t is None:
                return None
            if isinstance(t, Term_):
                return t
            if isinstance(t, Edge):
                raise LiftError("edge out of the function")
            k = id(t)
            if k not in memo:
                a, b = go(t[1]), go(t[2])
                memo[k] = b if a is None else a if b is None else a if a is b else (t[0], a, b)
            return memo[k]
        self._keep = tree
        return go(tree)

    # ------------------------------------------------------------ regions
    def loop_of(self, b, L):
        """The child loop of L that contains b, or None if b belongs to L directly."""
        x = self.inner.get(b)
        if x == L or x is None:
            return None
        while self.loops[x]["parent"] != (-1 if L is None else L):
            x = self.loops[x]["parent"]
            if x == -1:
                return "out"
        return x

    def region(self, L, entry, ctx, mem, phis):
        """Summarises the blocks of L (None: the function) from its entry. Returns the decision tree of its exits."""
        blocks = set(self.loops[L]["blocks"]) if L is not None else set(range(len(self.blocks)))
        node_of = {}
        for b in blocks:
            c = self.loop_of(b, L)
            node_of[b] = ("b", b) if c is None else ("l", c)
        succ = {}

        def succs(n):
            if n in succ:
                return succ[n]
            out = []
            bs = [n[1]] if n[0] == "b" else self.loops[n[1]]["blocks"]
            for b in bs:
                term = self.blocks[b][-1]
                tg = list(term.get("succ", []))
                if term["op"] == "switch":
                    tg = [c[1] for c in term["cases"]] + [term["default"]]
                for s in tg:
                    if s in blocks and s != entry and node_of[s] != n:
                        out.append(node_of[s])
            succ[n] = out
            return out
        order, mark = [], {}
        start = node_of[entry]
        st = [(start, iter(succs(start)))]
        mark[start] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if s not in mark:
                    mark[s] = 1
                    st.append((s, iter(succs(s))))
                    break
            else:
                st.pop()
                order.append(n)
        order.reverse()
        trees = {}

        def dec(target_block):
            memo = {}

            def walk(t):
                if t is None or isinstance(t, Term_):
                    return None
                if isinstance(t, Edge):
                    if t.dst == target_block:
                        return t
                    if t.dst in blocks and t.dst != entry:
                        n = node_of[t.dst]
                        if n in trees:
                            return node(n)
                    return None
                k = id(t)
                if k not in memo:
                    a, b = walk(t[1]), walk(t[2])
                    memo[k] = None if a is None and b is None else (t[0], a, b)
                return memo[k]

            def node(n):
                if n not in memo:
                    memo[n] = walk(trees[n])
                return memo[n]
            self._walkkeep = trees
            return node(start)

        for n in order:
            b = n[1] if n[0] == "b" else self.loops[n[1]]["header"]
            if n == start:
                cx, mm = ctx, dict(mem)
                dt = None
            else:
                dt = dec(b)
                if dt is None:
                    continue
                cx = ctx
                while isinstance(dt, tuple) and (dt[1] is None or dt[2] is None):
                    c = dt[0]
                    pos = dt[2] is None
                    cx = self.assume(cx, c, pos)
                    dt = dt[1] if pos else dt[2]
                dt = self.prune(dt, cx)
                if dt is None or cx.infeas():
                    continue
                if self.keeplog:
                    rt = reach(dt)
                    if isinstance(rt, tuple):
                        old = cx
                        cx = cx.assume(TRUE)
                        cx.path, cx.trees = getattr(old, "path", ()), getattr(old, "trees", ()) + (rt,)
                mm = self.fold_mem(dt)
            if n[0] == "b":
                if n != start or L is None:
                    if dt is not None:
                        self.do_phis(b, dt, cx)
                trees[n] = self.block(b, cx, mm)
            else:
                inits = {}
                for ins in self.blocks[b]:
                    if ins["op"] != "phi":
                        break
                    lb = set(self.loops[n[1]]["blocks"])
                    inits[ins["id"]] = self.phi_val(ins, dt, lb)
                trees[n] = self.loop(n[1], cx, mm, inits)
        # whole-region tree
        memo = {}

        def full(t):
            if isinstance(t, Edge) and t.dst in blocks and t.dst != entry:
                n = node_of[t.dst]
                if n not in trees:
                    return None
                if n not in memo:
                    memo[n] = full(trees[n])
                return memo[n]
            if isinstance(t, tuple):
                k = id(t)
                if k not in memo:
                    a, b = full(t[1]), full(t[2])
                    memo[k] = None if a is None and b is None else (t[0], a, b)
                    memo[(k, "keep")] = t
                return memo[k]
            return t
        r = full(trees[start])
        return r

    def assume(self, cx, c, val):
        r = cx.assume(c, val)
        r.path, r.trees = getattr(cx, "path", ()) + (c if val else bnot(c),), getattr(cx, "trees", ())
        return r

    def prune(self, t, cx):
        if not isinstance(t, tuple):
            return t
        memo = {}

        def go(t):
            if not isinstance(t, tuple):
                return t
            k = id(t)
            if k not in memo:
                d = cx.decide(t[0])
                if d is True:
                    memo[k] = go(t[1])
                elif d is False:
                    memo[k] = go(t[2])
                else:
                    a, b = go(t[1]), go(t[2])
                    memo[k] = None if a is None and b is None else (t[0], a, b)
            return memo[k]
        return go(t)

    def fold(self, dt, val):
        memo = {}

        def go(t):
            if t is None:
                return None
            if isinstance(t, (Edge, Term_)):
                return val(t)
            k = id(t)
            if k not in memo:
                a, b = go(t[1]), go(t[2])
                memo[k] = b if a is None else a if b is None else ite(t[0], a, b)
            return memo[k]
        return go(dt)

    def fold_mem(self, dt):
        leaves = []
        seen = set()

        def coll(t):
            if t is None or id(t) in seen:
                return
            seen.add(id(t))
            if isinstance(t, tuple):
                coll(t[1])
                coll(t[2])
            else:
                leaves.append(t)
        coll(dt)
        roots = set()
        for l in leaves:
            roots |= set(l.mem)
        out = {}
        for r in roots:
            ms = {l.mem.get(r) or self.mem0(r) for l in leaves}
            if len(ms) == 1:
                out[r] = ms.pop()
            else:
                out[r] = self.fold(dt, lambda l: l.mem.get(r) or self.mem0(r))
        return out

    def mem0(self, r):
        if str(r)[:1] == "~":
            return NONE if r.startswith("~new") else LIVE
        return fresh(r) if str(r).startswith("new") or str(r).startswith("tmp") else init(r)

    def phi_val(self, ins, dt, exclude=()):
        inc = {}
        for o, p in ins["ops"]:
            if p not in exclude:
                inc[p] = o
        vals = {p: self.val(o, ins["ty"]) for p, o in inc.items() if self.defined(o)}
        if any(v.op == "agg" for v in vals.values()):
            # the zero of a pair
            z = next(v for v in vals.values() if v.op == "agg")
            if all(x.sort == "f" for _, x in z.args[0]):
                z0 = mk("agg", "x", tuple((k, const(0, "f")) for k, _ in z.args[0]))
                vals = {p: z0 if v.sort == "i" and is_const(v) and cval(v) == 0 else v for p, v in vals.items()}
        return self.fold(dt, lambda e: vals.get(e.src))

    def defined(self, o):
        return o.get("k") != "v" or o["id"] in self.env

    def do_phis(self, b, dt, cx):
        new = {}
        for ins in self.blocks[b]:
            if ins["op"] != "phi":
                break
            v = self.phi_val(ins, dt)
            if v is not None and has_op(v, ITE):
                v = simplify(v, cx)
            new[ins["id"]] = v
        self.env.update(new)

    # ------------------------------------------------------------ values
    def val(self, o, ty=None):
        k = o["k"]
        if k == "v":
            v = self.env.get(o["id"])
            if v is None:
                raise LiftError(f"value %{o['id']} not available")
            return v
        if k == "c":
            v = int(o["v"])
            if o["w"] == 1:
                return TRUE if v else FALSE
            return const(v)
        if k == "f":
            return const(Fraction(float.fromhex(o["v"])) if o["v"] not in ("inf", "-inf", "nan", "-nan") else 0, "f") if "n" not in o["v"] else atom(mk("fconst", "f", o["v"]))
        if k == "null":
            return ptr("null", ZERO)
        if k == "undef":
            if ty == "ptr":
                return ptr("undef", ZERO)
            if ty in ("double", "float"):
                return atom(mk("undef", "f"))
            if ty == "i1":
                return FALSE
            return atom(mk("undef", "i"))
        if k == "g":
            return ptr("g:" + o["name"], ZERO)
        if k == "goff":
            p = self.val(o["base"])
            return ptr(p.args[0], add(p.args[1], const(o["off"])))
        if k == "const" and o["s"].split()[0] in ("double", "float"):
            return const(0, "f")
        if k == "vec":
            return mk("agg", "x", tuple(((i,), self.val(e, "double")) for i, e in enumerate(o["els"])))
        if k == "zero":
            return mk("agg", "x", ())
        raise LiftError(f"operand {o}")

    def as_int(self, v):
        if v.sort == "b":
            return ite(v, ONE, ZERO)
        if v.sort == "p":
            return self.map_ptr(v, lambda p: add(p.args[1], atom(mk("addr", "i", p.args[0]))) if p.args[0] != "null" else p.args[1])
        return v

    def map_ptr(self, v, f):
        if v.op == "ite":
            return ite(v.args[0], self.map_ptr(v.args[1], f), self.map_ptr(v.args[2], f))
        if v.op != "ptr":
            raise LiftError("opaque pointer")
        return f(v)

    # ------------------------------------------------------------ blocks
    def block(self, b, cx, mem):
        memory.CUR.insert(0, cx)
        try:
            return self._block(b, cx, mem)
        finally:
            memory.CUR.pop(0)

    def _block(self, b, cx, mem):
        for ins in self.blocks[b]:
            op = ins["op"]
            if op == "phi":
                continue
            if op == "br":
                if len(ins["succ"]) == 1:
                    return Edge(b, ins["succ"][0], mem)
                c = self.val(ins["ops"][0])
                c = self.bool_simplify(c, cx)
                if c is TRUE:
                    return Edge(b, ins["succ"][0], mem)
                if c is FALSE:
                    return Edge(b, ins["succ"][1], mem)
                return (c, Edge(b, ins["succ"][0], mem), Edge(b, ins["succ"][1], mem))
            if op == "switch":
                v = self.val(ins["ops"][0])
                t = Edge(b, ins["default"], mem)
                for cv, s in reversed(ins["cases"]):
                    c = self.bool_simplify(eq(v, const(cv)), cx)
                    e = Edge(b, s, mem)
                    t = e if c is TRUE else t if c is FALSE else (c, e, t)
                return t
            if op == "ret":
                v = self.val(ins["ops"][0]) if ins["ops"] else None
                return Term_("ret", None, mem, v, ins.get("loc"))
            if op == "unreachable":
                return None
            r = self.inst(ins, cx, mem)
            if isinstance(r, Term_):
                return r
        raise LiftError("block without terminator")

    def bool_simplify(self, c, cx):
        if c.op in ("true", "false"):
            return c
        d = cx.decide(c)
        if d is not None:
            return TRUE if d else FALSE
        if has_op(c, ITE) or c.op == "and":
            c = simplify(c, cx)
        if c.op in ("ge0", "eq0") or (c.op == "not" and c.args[0].op in ("ge0", "eq0")):
            # comparison of a conditional integer: split on its conditions
            p = c.args[0] if c.op != "not" else c.args[0].args[0]
            for m, _ in items(p):
                for a, _e in m:
                    if a.op == "ite":
                        k = a.args[0]
                        x = self.bool_simplify(simplify(c, cx.assume(k)), cx.assume(k))
                        y = self.bool_simplify(simplify(c, cx.assume(k, False)), cx.assume(k, False))
                        return bor(band(k, x), band(bnot(k), y))
        return c

    # ------------------------------------------------------------ lifetimes
    def alive(self, m):
        if m.op == "ite":
            a, b = self.alive(m.args[1]), self.alive(m.args[2])
            return None if a is None or b is None else ite(m.args[0], a, b)
        return TRUE if m is LIVE else FALSE if m.op == "fresh" else None

    def cases(self, p, c=TRUE):
        """(condition, array, offset) of what a pointer designates."""
        if p.op == "ite":
            return self.cases(p.args[1], band(c, p.args[0])) + self.cases(p.args[2], band(c, bnot(p.args[0])))
        return [(c, p.args[0], p.args[1])] if p.op == "ptr" else [(c, None, ZERO)]

    def require(self, kind, root, cond, cx, loc):
        if cond is not TRUE:
            self.log.append(Access(root=root, off=None, size=None, kind=kind, loc=loc, path=getattr(cx, "path", ()), binders=[], proved=False, extent=None,
                                   trees=getattr(cx, "trees", ()), cond=cond))

    def release(self, p, ins, cx, mem):
        if p.op == "ite":
            p = simplify(p, cx)
        for c, r, off in self.cases(p):
            if r is None:
                raise LiftError("release of an unknown pointer")
            if r == "null":
                continue
            if r == "undef" or str(r)[:2] == "g:" or str(r)[:4] in ("obj:", "out:") or str(r)[:3] == "tmp":
                self.require("released, although it is not from the free store", r, bnot(c), cx, ins.get("loc"))
                continue
            k = "~" + r
            live = self.alive(self.getmem(mem, k))
            if live is None:
                raise LiftError("release in a loop")
            self.require("released twice", r, bor(bnot(c), live), cx, ins.get("loc"))
            self.require("released through a pointer into its middle", r, bor(bnot(c), eq0(off)), cx, ins.get("loc"))
            mem[k] = ite(c, DEAD, self.getmem(mem, k))

    def access(self, kind, p, size, ins, cx):
        root, off = p.args
        if self.life:
            m = self.mem_now.get("~" + str(root))
            if m is not None and m is not LIVE:
                live = self.alive(m)
                if live is not None:
                    self.require("used after its release", root, live, self.assume(cx, ge0(sub(size, ONE)), True), ins.get("loc"))
        if isinstance(root, str) and (root.startswith("g:") or root in ("null", "undef")):
            if root.startswith("g:"):
                return
        ext = self.extent.get(root)
        proved = False
        if root == "null":
            ext = ZERO
        elif self.grows and str(root)[:3] != "tmp":
            return                               # vectors grow in place here
        if ext is not None:
            proved = cx.ge(off) and cx.ge(sub(sub(ext, size), off))
        self.log.append(Access(root=root, off=off, size=size, kind=kind, loc=ins.get("loc"), path=getattr(cx, "path", ()),
                               binders=[], proved=proved, extent=ext, trees=getattr(cx, "trees", ()), cond=None))

    def getmem(self, mem, root):
        m = mem.get(root)
        if m is None:
            m = mem[root] = self.mem0(root)
        return m

    def global_load(self, root, off, ty):
        """A scalar of a constant object."""
        if is_const(off):
            v = self.model.initval.get((root, int(cval(off)), ty))
            if v is not None:
                return v
            if ty in ("i64", "i32"):
                v = self.model.initval.get((root, int(cval(off)), {"i64": "d", "i32": "f"}[ty]))
                if v is not None and is_const(v) and cval(v) == 0:
                    return const(0) if ty == "i64" or self.model.tty == "d" else const(0, "f")
        raise LiftError("load of a global " + root)

    def do_load(self, p, ty, ins, cx, mem):
        if p.op == "ite":
            c = self.bool_simplify(p.args[0], cx)
            if c is TRUE:
                return self.do_load(p.args[1], ty, ins, cx, mem)
            if c is FALSE:
                return self.do_load(p.args[2], ty, ins, cx, mem)
            return ite(c, self.do_load(p.args[1], ty, ins, self.assume(cx, c, True), mem),
                       self.do_load(p.args[2], ty, ins, self.assume(cx, c, False), mem))
        if p.op != "ptr":
            raise LiftError("load through an opaque pointer")
        root, off = p.args
        if ty == "i64" and self.is_pair(root, ins) and not self.int_at(mem.get(root), off):
            return mk("agg", "x", tuple(((k,), self.do_load(ptr(root, add(off, const(4 * k))), "f", ins, cx, mem)) for k in (0, 1)))
        if (ty, self.model.tty) in (("i32", "f"), ("i64", "d")) and self.raw_float(root, off, ins, mem):
            ty = self.model.tty
        if root in ("null", "undef"):
            self.access("load", p, const(SIZE[ty]), ins, cx)
            return const(0, SORT[ty]) if ty != "p" else ptr("undef", ZERO)
        self.access("load", p, const(SIZE[ty]), ins, cx)
        if isinstance(root, str) and root.startswith("g:"):
            return self.global_load(root, off, ty)
        memory.CUR.insert(0, cx)
        try:
            v = load(self.getmem(mem, root), off, ty)
        finally:
            memory.CUR.pop(0)
        if ty != "p" and v.sort in ("i", "f"):
            a = as_atom(v)
            if a is not None and a.op == "load" and a.args[0].op == "fresh" and not (isinstance(root, str) and root.startswith("out:")):
                self.log.append(Access(root=root, off=off, size=const(SIZE[ty]), kind="uninit", loc=ins.get("loc"), path=getattr(cx, "path", ()),
                                       binders=[], proved=False, extent=None, trees=getattr(cx, "trees", ()), cond=None))
        return v

    def raw_float(self, root, off, ins, mem):
        """An integer load that only copies an element."""
        if not all(x["op"] in ("store", "phi", "select", "bitcast") for x in self.users(ins["id"])):
            return False
        t = self.model.types.get(root)
        if t is not None and root[:4] not in ("obj:", "out:"):
            return t == self.model.tty
        m = mem.get(root)
        while m is not None and m.op in ("store", "ite"):
            if m.op == "ite":
                m = m.args[1]
            elif m.args[1] is off:
                return m.args[2] == self.model.tty
            else:
                m = m.args[0]
        return False

    def int_at(self, m, off):
        while m is not None and m.op in ("store", "ite"):
            if m.op == "ite":
                m = m.args[1]
            elif m.args[1] is off:
                return m.args[2] == "i64"
            else:
                m = m.args[0]
        return False

    def is_pair(self, root, ins):
        """An 8-byte load that moves a pair of single-precision numbers."""
        m = self.model
        if m.tsize != 4:
            return False
        if root.startswith("g:"):
            return (root, 0, "f") in m.initval
        ty = m.types.get(root)
        if ty is not None and root[:4] not in ("obj:", "out:"):
            return ty == "f"
        if root[:4] == "obj:":
            return False
        u = self.users(ins["id"])
        return m.es == 8 and bool(u) and all(x["op"] in ("store", "phi", "select", "bitcast", "trunc", "lshr") for x in u)

    def users(self, i):
        if not hasattr(self, "_users"):
            self._users = {}
            for b in self.blocks:
                for x in b:
                    for o in x["ops"]:
                        o = o[0] if isinstance(o, list) else o
                        if o.get("k") == "v":
                            self._users.setdefault(o["id"], []).append(x)
        return self._users.get(i, [])

    def do_store(self, p, ty, v, ins, cx, mem):
        if v.op == "ite" and v.sort == "x":
            v = aggite(v)
        if v.op == "agg":
            for (k,), x in v.args[0]:
                self.do_store(self.map_ptr(p, lambda q: ptr(q.args[0], add(q.args[1], const(4 * k)))), "f", x, ins, cx, mem)
            return
        if p.op == "ite":
            c = self.bool_simplify(p.args[0], cx)
            if c is TRUE:
                return self.do_store(p.args[1], ty, v, ins, cx, mem)
            if c is FALSE:
                return self.do_store(p.args[2], ty, v, ins, cx, mem)
            m1, m2 = dict(mem), dict(mem)
            self.do_store(p.args[1], ty, v, ins, self.assume(cx, c, True), m1)
            self.do_store(p.args[2], ty, v, ins, self.assume(cx, c, False), m2)
            for r in set(m1) | set(m2):
                mem[r] = ite(c, self.getmem(m1, r), self.getmem(m2, r))
            return
        if p.op != "ptr":
            raise LiftError("store through an opaque pointer")
        root, off = p.args
        self.access("store", p, const(SIZE[ty]), ins, cx)
        if root in ("null", "undef"):
            return
        mem[root] = store(self.getmem(mem, root), off, ty, v)

    TY = {"double": "d", "float": "f", "i64": "i64", "i32": "i32", "i8": "i8", "ptr": "p", "i1": "i8", "i16": "i16"}

    def inst(self, ins, cx, mem):
        self.mem_now = mem
        op, ops, ty = ins["op"], ins["ops"], ins["ty"]
        E = self.env
        V = lambda i: self.val(ops[i], ty)
        def norm(v):
            if v is not None and v.sort in ("i", "f", "p") and has_op(v, ITE):
                return simplify(v, cx)
            return v
        if op == "alloca":
            r = f"tmp{ins['id']}"
            self.extent[r] = const(ins.get("size", 0))
            E[ins["id"]] = ptr(r, ZERO)
        elif op == "getelementptr":
            if ins.get("badgep"):
                raise LiftError("gep")
            off = const(ins["off"])
            for o, s in ins["vars"]:
                off = add(off, terms.scale(self.as_int(self.val(o)), s))
            E[ins["id"]] = self.map_ptr(norm(self.val(ops[0])), lambda p: ptr(p.args[0], add(p.args[1], off)))
        elif op == "load":
            if ty not in self.TY:
                raise LiftError(f"load of {ty}")
            v = self.do_load(norm(self.val(ops[0])), self.TY[ty], ins, cx, mem)
            if ty == "i1":
                v = bnot(eq0(v))
            E[ins["id"]] = norm(v)
        elif op == "store":
            v = self.val(ops[0])
            if v.op == "ite" and v.sort == "x":
                v = aggite(v)
            sty = self.stype(ops[0], ins, v) if v.op != "agg" else "f"
            if v.sort == "b":
                v = self.as_int(v)
            if sty == "i64" and v is ZERO and self.model.es == 8 and self.model.tsize == 4:
                # a pair of single-precision zeros?
                p = self.val(ops[1])
                while p.op == "ite":
                    p = p.args[1] if p.args[2].op == "ptr" and p.args[2].args[0] == "null" else p.args[2]
                r = p.args[0] if p.op == "ptr" else "obj:"
                if r[:4] not in ("obj:", "out:") and self.model.types.get(r, "f") == "f":
                    z = const(0, "f")
                    v = mk("agg", "x", (((0,), z), ((1,), z)))
            self.do_store(norm(self.val(ops[1])), sty, v, ins, cx, mem)
        elif op in ("add", "sub", "mul", "shl"):
            a, b = self.as_int(V(0)), self.as_int(V(1))
            if op == "add":
                v = add(a, b)
            elif op == "sub":
                v = sub(a, b)
            elif op == "mul":
                v = mul(a, b)
            else:
                if not is_const(b):
                    raise LiftError("shift")
                v = terms.scale(a, 1 << int(cval(b)))
            E[ins["id"]] = norm(v)
        elif op in ("lshr", "ashr", "sdiv", "udiv"):
            if op == "lshr" and V(0).op == "agg":
                E[ins["id"]] = mk("agg", "x", (((0,), dict(V(0).args[0])[(1,)]),))
                return
            a, b = self.as_int(V(0)), self.as_int(V(1))
            if not is_const(b) or cval(b) <= 0 and op in ("sdiv", "udiv"):
                E[ins["id"]] = atom(mk("idiv", "i", a, b))
                return
            k = int(cval(b)) if op in ("sdiv", "udiv") else 1 << int(cval(b))
            if op in ("lshr", "udiv") and not cx.ge(a):
                bits = int(ty[1:])
                if all((c / k).denominator == 1 for _, c in items(a)):
                    # size arithmetic: an exact multiple
                    E[ins["id"]] = fdiv(a, k)
                    return
                a = wrap(a, bits)
            E[ins["id"]] = fdiv(a, k)
        elif op in ("urem", "srem", "and", "or", "xor"):
            a, b = V(0), V(1)
            if a.sort == "b":
                if op == "and":
                    v = band(a, b)
                elif op == "or":
                    v = bor(a, b)
                else:
                    v = ite(a, bnot(b), b)
                E[ins["id"]] = v
                return
            if op == "and" and is_const(b):
                k = int(cval(b))
                if k > 0 and (k & (k + 1)) == 0:
                    E[ins["id"]] = self.mod(a, k + 1)
                    return
                bits = int(ty[1:])
                if k < 0 and (-k & (-k - 1)) == 0:        # a & ~(2^j - 1)
                    E[ins["id"]] = terms.scale(fdiv(a, -k), -k)
                    return
                inv_k = (~k) & ((1 << bits) - 1)
                if (inv_k & (inv_k + 1)) == 0:
                    E[ins["id"]] = terms.scale(fdiv(a, inv_k + 1), inv_k + 1)
                    return
            if op in ("urem", "srem") and is_const(b):
                E[ins["id"]] = self.mod(a, int(cval(b)))
                return
            if op == "or" and is_const(b):               # disjoint or from instcombine: a | c with a aligned
                k = int(cval(b))
                if k == 1 and all((c / 2).denominator == 1 for _, c in items(a)):
                    E[ins["id"]] = add(a, ONE)
                    return
            if op == "xor" and is_const(b) and cval(b) == -1:
                E[ins["id"]] = sub(const(-1), a)
                return
            E[ins["id"]] = atom(mk("bits", "i", op, a, b))
        elif op == "zext":
            a = V(0)
            if a.sort == "b":
                E[ins["id"]] = self.as_int(a)
            else:
                w = self.width(ops[0])
                ok = cx.ge(a)
                if w <= 16 and not is_boolean(a):
                    self.cmp_consts.add(1 << w)
                    ok = ok and cx.ge(sub(const((1 << w) - 1), a))
                E[ins["id"]] = a if ok or is_boolean(a) else wrap(a, w)
        elif op == "sext":
            a = V(0)
            if a.sort != "b" and self.width(ops[0]) <= 16:
                w = self.width(ops[0])
                self.cmp_consts.add(1 << w)
                if not (cx.ge(add(a, const(1 << (w - 1)))) and cx.ge(sub(const((1 << (w - 1)) - 1), a))):
                    a = wrap(a, w, 1)
            E[ins["id"]] = ite(a, const(-1), ZERO) if a.sort == "b" else a
        elif op == "trunc" and self.val(ops[0]).op == "agg":
            E[ins["id"]] = dict(self.val(ops[0]).args[0])[(0,)]
        elif op == "bitcast":
            a = self.val(ops[0])
            if a.op == "agg" or (a.sort == "f" and ty == "float") or (a.op == "ite" and a.sort == "x"):
                E[ins["id"]] = a
            else:
                raise LiftError("bitcast")
        elif op == "trunc":
            a = self.as_int(V(0))
            if ty == "i1":
                E[ins["id"]] = bnot(eq0(a)) if self.is01(a) else bnot(eq0(self.mod(a, 2)))
            else:
                bits = int(ty[1:])
                if as_atom(a) is not None and as_atom(a).op == "wrap" and as_atom(a).args[1] >= bits:
                    a = as_atom(a).args[0]
                if bits <= 16 and not (cx.ge(a) and cx.ge(sub(const((1 << bits) - 1), a))) and not is_boolean(a):
                    a = wrap(a, bits)
                    self.cmp_consts.add(1 << bits)
                elif bits == 32 and facts.data_int(a) and not (cx.ge(a) and cx.ge(sub(const((1 << bits) - 1), a))):
                    a = wrap(a, bits)
                E[ins["id"]] = a                       # sizes stay below 2^31 (stated assumption)
        elif op in ("ptrtoint",):
            E[ins["id"]] = self.as_int(norm(V(0)))
        elif op == "inttoptr":
            a = V(0)
            for m, c in items(a):
                if len(m) == 1 and m[0][0].op == "addr" and c == 1:
                    E[ins["id"]] = ptr(m[0][0].args[0], sub(a, atom(m[0][0])))
                    return
            raise LiftError("inttoptr")
        elif op == "icmp":
            E[ins["id"]] = self.icmp(ins["pred"], self.val(ops[0]), self.val(ops[1]), cx, self.width(ops[0], 64))
        elif op == "fcmp":
            E[ins["id"]] = self.fcmp(ins["pred"], self.val(ops[0], "double"), self.val(ops[1], "double"))
        elif op == "select":
            c = self.bool_simplify(self.val(ops[0]), cx)
            a, b = self.val(ops[1], ty), self.val(ops[2], ty)
            E[ins["id"]] = norm(ite(c, a, b))
        elif op == "fadd":
            E[ins["id"]] = add(V(0), V(1))
        elif op == "fsub":
            E[ins["id"]] = sub(V(0), V(1))
        elif op == "fmul":
            E[ins["id"]] = mul(V(0), V(1))
        elif op == "fdiv":
            E[ins["id"]] = mul(V(0), inv(V(1)))
        elif op == "fneg":
            E[ins["id"]] = neg(V(0))
        elif op in ("fpext", "fptrunc"):
            E[ins["id"]] = V(0)
        elif op in ("uitofp", "sitofp"):
            a = self.as_int(self.val(ops[0]))
            E[ins["id"]] = const(cval(a), "f") if is_const(a) else atom(mk("i2f", "f", a))
        elif op in ("fptoui", "fptosi"):
            a = V(0)
            b = as_atom(a)
            if is_const(a):
                E[ins["id"]] = const(int(cval(a)))
            elif b is not None and b.op == "i2f":
                E[ins["id"]] = b.args[0]
            elif b is not None and b.op == "sqrt" and (is_const(b.args[0]) or (as_atom(b.args[0]) is not None and as_atom(b.args[0]).op == "i2f")):
                q = b.args[0]
                E[ins["id"]] = isqrt(const(int(cval(q))) if is_const(q) else as_atom(q).args[0])
            else:
                raise LiftError(op)
        elif op == "extractvalue":
            a = V(0)
            if a.op != "agg":
                raise LiftError("extractvalue")
            d = dict(a.args[0])
            E[ins["id"]] = d[tuple(ins["idx"])]
        elif op == "insertvalue":
            a = self.val(ops[0], "agg") if ops[0]["k"] != "undef" else mk("agg", "x", ())
            d = dict(a.args[0])
            d[tuple(ins["idx"])] = self.val(ops[1])
            E[ins["id"]] = mk("agg", "x", tuple(sorted(d.items(), key=lambda x: x[0])))
        elif op == "insertelement":
            if ops[2].get("k") != "c":
                raise LiftError("insertelement")
            a = self.val(ops[0], "agg") if ops[0]["k"] != "undef" else mk("agg", "x", ())
            d = dict(a.args[0])
            d[(int(ops[2]["v"]),)] = self.val(ops[1])
            E[ins["id"]] = mk("agg", "x", tuple(sorted(d.items(), key=lambda x: x[0])))
        elif op == "extractelement":
            a = V(0)
            if a.op != "agg" or ops[1].get("k") != "c":
                raise LiftError("extractelement")
            E[ins["id"]] = dict(a.args[0])[(int(ops[1]["v"]),)]
        elif op == "freeze":
            E[ins["id"]] = V(0)
        elif op == "call":
            return self.call(ins, cx, mem)
        else:
            raise LiftError(f"instruction {op}")

    def is01(self, a):
        return all(m == () or (len(m) == 1 and m[0][0].op == "ite") for m, _ in items(a))

    def mod(self, a, k):
        return sub(a, terms.scale(fdiv(a, k), k))

    def width(self, o, default=32):
        if o.get("k") == "c":
            return o["w"]
        if o.get("k") == "v":
            d = self.deftab.get(o["id"])
            t = d[1]["ty"] if d else next((a["ty"] for a in self.fn["args"] if a["id"] == o["id"]), "i64")
            return int(t[1:]) if t[0] == "i" else 64
        return default

    def stype(self, o, ins, v):
        if v.sort == "f":
            return {8: "d", 4: "f"}[ins["size"]]
        if o["k"] == "v":
            d = self.deftab.get(o["id"])
            t = d[1]["ty"] if d else next(a["ty"] for a in self.fn["args"] if a["id"] == o["id"])
            return self.TY[t]
        if v.sort == "p":
            return "p"
        sz = ins["size"]
        if o["k"] == "f" or v.sort == "f":
            return {8: "d", 4: "f"}[sz]
        return {8: "i64", 4: "i32", 1: "i8", 2: "i16"}[sz]

    def icmp(self, pred, a, b, cx, bits):
        if a.sort == "p" or b.sort == "p":
            if a.sort == "p" and a.op == "ite":
                return bor(band(a.args[0], self.icmp(pred, a.args[1], b, cx, bits)), band(bnot(a.args[0]), self.icmp(pred, a.args[2], b, cx, bits)))
            if b.sort == "p" and b.op == "ite":
                return bor(band(b.args[0], self.icmp(pred, a, b.args[1], cx, bits)), band(bnot(b.args[0]), self.icmp(pred, a, b.args[2], cx, bits)))
            if a.op != "ptr" or b.op != "ptr":
                raise LiftError("pointer comparison")
            if a.args[0] is b.args[0] or a.args[0] == b.args[0]:
                a, b = a.args[1], b.args[1]
                if pred in ("ult", "ule", "ugt", "uge"):
                    pred = "s" + pred[1:]
            elif pred in ("eq", "ne"):
                return FALSE if pred == "eq" else TRUE
            else:
                return mk("pcmp", "b", pred, a, b)
        if a.sort == "b":
            a, b = self.as_int(a), self.as_int(b)
        if pred == "eq":
            return eq(a, b)
        if pred == "ne":
            return bnot(eq(a, b))
        s, p = pred[0], pred[1:]
        if p in ("gt", "ge"):
            a, b = b, a
            p = {"gt": "lt", "ge": "le"}[p]
        if s == "u":
            for x, y, res in ((a, b, "hi"), (b, a, "lo")):
                if is_const(y) and (cval(y) >= 1 << 40 or cval(y) < -(1 << 40)):
                    # comparison with a maximum size: sizes stay far below it
                    if x is a:
                        return TRUE
                    return FALSE
            ca, cb = cx.ge(a), cx.ge(b)
            if not (ca and cb):
                if is_const(b) and cval(b) < 0:
                    b2 = const(int(cval(b)) % (1 << bits))
                    return TRUE if ca else ucmp("u" + p, a, b2, bits)
                if is_const(a) and is_const(b):
                    pass
                # x <u y with constant y: 0 <= x < y
                if is_const(b) and 0 <= cval(b) < 1 << 30:
                    return band(ge0(a), lt(a, b) if p == "lt" else le(a, b))
                if is_const(a) and 0 <= cval(a) < 1 << 30:
                    return bnot(band(ge0(b), le(b, a) if p == "lt" else lt(b, a)))
                if cb and not ca and as_atom(a) is None:
                    return band(ge0(a), lt(a, b) if p == "lt" else le(a, b))
                return ucmp("u" + p, a, b, bits)
        else:
            for x, y in ((a, b),):
                if is_const(y) and cval(y) >= 1 << 40:
                    return TRUE
        return lt(a, b) if p == "lt" else le(a, b)

    FP = {"oeq": "e", "ogt": "g", "oge": "ge", "olt": "l", "ole": "le", "one": "lg", "ord": "leg", "uno": "u",
          "ueq": "eu", "ugt": "gu", "uge": "geu", "ult": "lu", "ule": "leu", "une": "lgu", "true": "legu", "false": ""}

    def fcmp(self, pred, a, b):
        if pred in ("ord", "uno"):
            if is_const(b) and not is_const(a):
                b = const(0, "f")
            elif a is b:
                b = const(0, "f")
        return fcmp(self.FP[pred], sub(a, b))

    # ------------------------------------------------------------ calls
    def call(self, ins, cx, mem):
        name = ins.get("callee")
        ops = ins["ops"]
        E, i = self.env, ins["id"]
        V = lambda k: self.val(ops[k])
        if name is None:
            raise LiftError("indirect call")
        if name.startswith("llvm."):
            b = name.split(".")[1]
            if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "prefetch"):
                return
            if b == "expect":
                E[i] = V(0)
                return
            if b in ("umax", "umin", "smax", "smin"):
                x, y = self.as_int(V(0)), self.as_int(V(1))
                c = self.icmp(("u" if b[0] == "u" else "s") + "lt", x, y, cx, 64)
                c = self.bool_simplify(c, cx)
                E[i] = ite(c, y, x) if b.endswith("max") else ite(c, x, y)
                return
            if b == "sqrt":
                E[i] = sqrt(V(0))
                return
            if b == "fabs":
                E[i] = atom(mk("fn", "f", "fabs", (V(0),)))
                return
            if b == "copysign" and is_const(V(0)) and cval(V(0)) == 0:
                E[i] = const(0, "f")              # the sign of a zero is not a value
                return
            if b in ("maxnum", "minnum", "maximum", "minimum", "copysign", "pow"):
                E[i] = atom(mk("fn", "f", b, tuple(V(k) for k in range(len(ops)))))
                return
            if b == "fmuladd" or b == "fma":
                E[i] = add(mul(V(0), V(1)), V(2))
                return
            if b == "memset":
                return self.memset(V(0), V(1), self.as_int(V(2)), ins, cx, mem)
            if b in ("memcpy", "memmove"):
                return self.memcpy(V(0), V(1), self.as_int(V(2)), ins, cx, mem)
            if b == "trap":
                return Term_("throw", "trap", mem, None, ins.get("loc"))
            if b == "abs":
                x = self.as_int(V(0))
                E[i] = ite(ge0(x), x, neg(x))
                return
            if b == "is" and name.startswith("llvm.is.constant"):
                E[i] = FALSE                      # only chooses between equivalent implementations
                return
            raise LiftError("intrinsic " + name)
        if name in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "vp_new"):
            self.nfresh += 1
            r = f"new{self.nfresh}"
            n = self.as_int(V(0))
            if has_op(n, ITE):
                n = simplify(n, cx)
            self.extent[r] = n
            E[i] = ptr(r, ZERO)
            if self.life:
                mem["~" + r] = LIVE
            return
        if name.startswith("_Zdl") or name.startswith("_Zda"):
            if self.life:
                self.release(V(0), ins, cx, mem)
            return
        if name in ("sqrt", "sqrtf"):
            E[i] = sqrt(V(0))
            return
        if name in ("fabs", "hypot", "hypotf", "cabs", "sqrtl", "pow", "fabsf"):
            E[i] = atom(mk("fn", "f", name.rstrip("f") if name != "hypotf" else "hypot", tuple(V(k) for k in range(len(ops)))))
            return
        if name in ("csqrt", "csqrtf") and len(ops) >= 1:
            v = self.complex_arg(ops)
            if is_const(v[1]) and cval(v[1]) == 0 and self.nonneg(v[0]):
                re, im = sqrt(v[0]), const(0, "f")
            else:
                re, im = (atom(mk("fn", "f", "csqrt." + k, tuple(v))) for k in ("re", "im"))
            return self.complex_result(ins, re, im)
        if name in ("__divdc3", "__muldc3", "__divsc3", "__mulsc3"):
            v = [self.val(o, "double") for o in ops]
            if len(v) != 4 or any(x.sort != "f" for x in v):
                raise LiftError("call of " + name)
            x, y, u, w = v
            if name[2:5] == "div":
                d = inv(add(mul(u, u), mul(w, w)))
                u, w = mul(u, d), neg(mul(w, d))
            re, im = sub(mul(x, u), mul(y, w)), add(mul(x, w), mul(y, u))
            return self.complex_result(ins, re, im)
        if name == "vp_elem":
            # any element of the range that is about to be sorted
            u = sym("elem", "i", True, True)
            self.sortelems = getattr(self, "sortelems", {})
            self.sortelems[int(cval(V(1)))] = u
            k = int(cval(V(2)))
            E[i] = self.map_ptr(V(0), lambda p: ptr(p.args[0], add(p.args[1], terms.scale(atom(u), k))))
            return
        if name == "vp_sort":
            p, n, sz = self.resolve(V(0), cx), self.as_int(V(1)), self.as_int(V(2))
            less = V(3)
            if less.sort != "b":
                less = bnot(eq0(self.as_int(less)))
            es = getattr(self, "sortelems", {})
            if len(es) != 2 or not is_const(sz):
                raise LiftError("sort")
            self.access("load", p, mul(n, sz), ins, cx)
            self.access("store", p, mul(n, sz), ins, cx)
            for x in self.log:
                for u in es.values():
                    if x.off is not None and (u in x.off.free or any(u in y.free for y in x.path)) and not any(b is u for b, _ in x.binders):
                        x.binders.append((u, n))
            root, off = p.args
            if root == "null":
                return
            inr = cx.assume(lt(atom(es[0]), n)).assume(lt(atom(es[1]), n))
            less = simplify(simplify(less, inr), inr)
            u, w = atom(es[0]), atom(es[1])
            if simplify(less, inr.assume(lt(w, u))) is FALSE and simplify(less, inr.assume(lt(u, w))) is TRUE:
                return                           # in order already
            if int(cval(sz)) == 8:
                memory.CUR.insert(0, inr)
                try:
                    x = simplify(load(self.getmem(mem, root), add(off, terms.scale(u, 8)), "i64"), inr)
                finally:
                    memory.CUR.pop(0)
                if x is u:
                    # the places 0 .. n-1 themselves are sorted
                    q = sym("q", "i", True, True)
                    p_ = mk("perm", "i", shift(n, 1), shift(atom(q), 1), abstract(less, [es[0], es[1]]))
                    mem[root] = map_(self.getmem(mem, root), [(q, ZERO, n)], TRUE, add(off, terms.scale(atom(q), 8)), "i64", atom(p_))
                    return
            mem[root] = mk("sorted", "m", shift(self.getmem(mem, root), 1), shift(off, 1), shift(n, 1), int(cval(sz)), abstract(less, [es[0], es[1]]))
            return
        if name == "vp_require":
            v = V(0)
            self.log.append(Access(root="the vector", off=None, size=None, kind="an element is accessed only inside a vector", loc=ins.get("loc"), path=getattr(cx, "path", ()),
                                   binders=[], proved=False, extent=None, trees=getattr(cx, "trees", ()), cond=v if v.sort == "b" else bnot(eq0(self.as_int(v)))))
            return
        if name == "vp_throw":
            ti = V(0)
            return Term_("throw", ti.args[0] if ti.op == "ptr" else "?", mem, None, ins.get("loc"))
        if name == "vp_realloc":
            return Term_("realloc", None, mem, None, ins.get("loc"))
        if name.startswith("_ZSt") and "__throw_" in name:
            return Term_("throw", "std:" + name, mem, None, ins.get("loc"))
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
            return Term_("throw", "terminate", mem, None, ins.get("loc"))
        if name in ("__assert_fail",):
            return Term_("throw", "assert", mem, None, ins.get("loc"))
        if name.startswith("cblas_") or name.startswith("LAPACKE_"):
            import blas
            return blas.call(self, name, ins, cx, mem)
        raise LiftError("call of " + name)

    def complex_arg(self, ops):
        v = [self.val(o, "double") for o in ops]
        if len(v) == 1 and v[0].op == "agg":
            d = dict(v[0].args[0])
            v = [d.get((0,)), d.get((1,))]
        if len(v) != 2 or any(x is None or x.sort != "f" for x in v):
            raise LiftError("complex argument")
        return v

    def complex_result(self, ins, re, im):
        self.env[ins["id"]] = mk("agg", "x", (((0,), re), ((1,), im)))

    def nonneg(self, v):
        """Is the real term a sum of squares, by shape?"""
        for m, c in items(v):
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not (a.op == "sqrt" or (a.op == "sum" and self.nonneg(a.args[2]))):
                    return False
        return True

    def resolve(self, p, cx):
        if p.op == "ite":
            p = simplify(p, cx)
        if p.op != "ptr":
            raise LiftError("ambiguous pointer in a bulk operation: " + show(p)[:300])
        return p

    def elem_size(self, *roots):
        for r in roots:
            if r in self.elem:
                return self.elem[r]
        return None

    def split_ptr(self, p, cx, mem, f):
        """Runs f(pointer, ctx, mem) for each possibility of a conditional pointer."""
        c = p.args[0]
        m1, m2 = dict(mem), dict(mem)
        f(p.args[1], self.assume(cx, c, True), m1)
        f(p.args[2], self.assume(cx, c, False), m2)
        for r in set(m1) | set(m2):
            mem[r] = ite(c, self.getmem(m1, r), self.getmem(m2, r))

    def memset(self, p, byte, n, ins, cx, mem):
        if n is ZERO or cx.infeas():
            return
        if p.op == "ite":
            p = simplify(p, self.assume(cx, bnot(eq0(n)), True))
            if p.op == "ite":
                return self.split_ptr(p, cx, mem, lambda q, c, m: self.memset(q, byte, n, ins, c, m))
        if has_op(n, ITE):
            n = simplify(n, cx)
        p = self.resolve(p, self.assume(cx, bnot(eq0(n)), True))
        root, off = p.args
        self.access("store", p, n, ins, self.assume(cx, bnot(eq0(n)), True))
        if root == "null":
            return
        if not (is_const(byte) and cval(byte) == 0):
            raise LiftError("memset of a non-zero byte")
        mem[root] = mk("fill", "m", self.getmem(mem, root), off, n)

    def memcpy(self, d, s, n, ins, cx, mem):
        if n is ZERO:
            return
        if has_op(n, ITE):
            n = simplify(n, cx)
        if cx.infeas():
            return
        cx2 = self.assume(cx, bnot(eq0(n)), True)
        if d.op == "ite":
            d = simplify(d, cx2)
            if d.op == "ite":
                return self.split_ptr(d, cx, mem, lambda q, c, m: self.memcpy(q, s, n, ins, c, m))
        if s.op == "ite":
            s = simplify(s, cx2)
            if s.op == "ite":
                return self.split_ptr(s, cx, mem, lambda q, c, m: self.memcpy(d, q, n, ins, c, m))
        d, s = self.resolve(d, cx2), self.resolve(s, cx2)
        self.access("load", s, n, ins, cx2)
        self.access("store", d, n, ins, cx2)
        if "null" in (d.args[0], s.args[0]):
            return
        self.bulk_copy(d, s, n, cx, mem)

    def bulk_copy(self, d, s, n, cx, mem):
        dr, do = d.args
        sr, so = s.args
        if is_const(n) and cval(n) <= 64 and (sr.startswith("obj") or dr.startswith("obj") or dr.startswith("tmp") or sr.startswith("tmp")) if isinstance(sr, str) and isinstance(dr, str) else False:
            k, src = 0, self.getmem(mem, sr)
            vals = []
            while k < cval(n):
                ty = self.guess_type(src, add(so, const(k)))
                vals.append((k, ty, load(src, add(so, const(k)), ty)))
                k += SIZE[ty]
            for k, ty, v in vals:
                mem[dr] = store(self.getmem(mem, dr), add(do, const(k)), ty, v)
            return
        sz = self.elem_size(sr, dr) or self.model.tsize
        ty = self.model.types.get(sr) or self.model.types.get(dr) or ("d" if sz == 8 else "f")
        if ty == "z":
            ty = "d"
        q = sym("q", "i", True, True)
        hi = fdiv(n, SIZE[ty])
        step = terms.scale(atom(q), SIZE[ty])
        src = self.getmem(mem, sr)
        c = cx.assume(le(ZERO, atom(q))).assume(lt(atom(q), hi))
        memory.CUR.insert(0, c)
        try:
            v = load(src, add(so, step), ty)
        finally:
            memory.CUR.pop(0)
        mem[dr] = map_(self.getmem(mem, dr), [(q, ZERO, hi)], TRUE, add(do, step), ty, v)

    def guess_type(self, m, off):
        while True:
            if m.op == "store":
                if m.args[1] is off:
                    return m.args[2]
                m = m.args[0]
            elif m.op == "ite":
                m = m.args[1]
            elif m.op == "init" and is_const(off):
                for ty in ("p", "i64", "d", "f", "i32"):
                    if (m.args[0], int(cval(off)), ty) in memory.INITVAL:
                        return ty
                return self.model.types.get(m.args[0], "d")
            else:
                return "d" if self.model.tsize == 8 else "f"

    # ------------------------------------------------------------ loops
    def loop(self, L, cx, mem0, inits):
        lp = self.loops[L]
        header = lp["header"]
        lblocks = set(lp["blocks"])
        phis = [ins for ins in self.blocks[header] if ins["op"] == "phi"]
        t = sym("t", "i", True, True)
        T = atom(t)
        closed = {}
        self.depth += 1
        if self.depth > 7:
            raise LiftError("loop nest too deep")
        # induction variables by their shape
        for ph in phis:
            lat = [o for o, p in ph["ops"] if p in lblocks]
            if len(lat) != 1 or lat[0].get("k") != "v":
                continue
            db, di = self.deftab.get(lat[0]["id"], (None, None))
            if di is None:
                continue
            iv = inits[ph["id"]]
            if iv is None:
                continue
            if di["op"] == "add" and di["ops"][0].get("k") == "v" and di["ops"][0]["id"] == ph["id"] and di["ops"][1].get("k") == "c":
                closed[ph["id"]] = add(self.as_int(iv), terms.scale(T, int(di["ops"][1]["v"])))
            elif di["op"] == "getelementptr" and di["ops"][0].get("k") == "v" and di["ops"][0]["id"] == ph["id"] and not di["vars"] and "off" in di:
                try:
                    closed[ph["id"]] = self.map_ptr(iv, lambda p: ptr(p.args[0], add(p.args[1], terms.scale(T, di["off"]))))
                except LiftError:
                    pass
        S = {}
        W = {}
        P = {}                  # pointer state: the array it points into
        inits = dict(inits)
        for rnd in range(12):
            mark = len(self.log)
            nf = self.nfresh
            mem = dict(mem0)
            for r in W:
                mem[r] = atomm(W[r])
            for ph in phis:
                k = ph["id"]
                if k in closed:
                    self.env[k] = closed[k]
                else:
                    if k not in S:
                        v = inits[k]
                        if v is None:
                            raise LiftError("loop value without initial value")
                        if v.sort == "p":
                            # a pointer into one array: its offset
                            if has_op(v, ITE):
                                v = simplify(v, cx)
                            if v.op != "ptr":
                                raise LiftError("pointer recurrence")
                            inits[k] = v
                            P[k] = v.args[0]
                        S[k] = sym("S", "i" if v.sort == "p" else v.sort, False, True)
                    self.env[k] = ptr(P[k], atom(S[k])) if k in P else atom(S[k]) if S[k].sort in ("i", "f") else S[k]
            tree = self.region(L, header, cx, mem, {})
            latch = self.select(tree, lambda e: isinstance(e, Edge) and e.dst == header)
            if latch is None:
                lmem, nx = None, {}
                break
            lmem = self.fold_mem(latch)
            changed = [r for r in lmem if lmem[r] is not mem.get(r, self.mem0(r)) and r not in W and self.outlives(r, mem0, nf)]
            nx = {}
            retry = False
            for ph in phis:
                if ph["id"] in closed:
                    continue
                o = [o for o, p in ph["ops"] if p in lblocks][0]
                vals = {p: oo for oo, p in ph["ops"] if p in lblocks}
                nx[ph["id"]] = self.fold(latch, lambda e: self.val(vals[e.src], ph["ty"]))
                if P.get(ph["id"]) in ("undef", "null"):
                    # not set before the first round: it points where the loop lets it point
                    new = {q for q in self.proots(nx[ph["id"]]) if q not in ("undef", "null")}
                    if len(new) == 1 and P[ph["id"]] == "undef":
                        inits[ph["id"]] = ptr(new.pop(), ZERO)
                        retry = True
                        continue
                if ph["id"] in P:
                    nx[ph["id"]] = self.offset_in(P[ph["id"]], nx[ph["id"]])
            if retry:
                del self.log[mark:]
                S, P = {}, {}
                continue
            ini = {k: inits[k].args[1] if k in P else v for k, v in inits.items()}
            again = False
            for k, v in nx.items():
                if v.sort == "i" and S[k].sort == "i":
                    d = sub(v, atom(S[k]))
                    if not (d.free & ({t} | set(S.values()) | set(W.values()))):
                        closed[k] = add(ini[k], mul(T, d))
                        if k in P:
                            closed[k] = ptr(P[k], closed[k])
                        again = True
                        continue
                if v.sort in ("i", "b") and ini[k].sort == v.sort and not (v.free & ({t} | set(S.values()) | set(W.values()))):
                    closed[k] = ite(ge0(sub(T, ONE)), v, ini[k])
                    if k in P:
                        closed[k] = ptr(P[k], closed[k])
                    again = True
            for r in changed:
                W[r] = sym("M:" + str(r), "m", False, True)
                again = True
            if not again:
                for r in lmem if self.life else ():
                    if r[:1] == "~" and not self.outlives(r, mem0, nf):
                        live = self.alive(lmem[r])
                        if live is not None and live is not FALSE:
                            self.log.append(Access(root=r[1:], off=None, size=None, kind="never released", loc=self.blocks[header][-1].get("loc"), path=getattr(cx, "path", ()),
                                                   binders=[], proved=False, extent=None, trees=getattr(cx, "trees", ()) + (reach(latch),), cond=bnot(live)))
                break
            del self.log[mark:]
            S = {k: v for k, v in S.items() if k not in closed}
        else:
            raise LiftError("loop summary did not stabilise")
        if latch is None:
            # the body never comes back: one pass
            self.depth -= 1
            sb = {t: ZERO}
            for k, s_ in S.items():
                sb[s_] = inits[k].args[1] if k in P else inits[k]
            for r, s_ in W.items():
                sb[s_] = mem0.get(r) or self.mem0(r)
            return self.finish(tree, lblocks, sb, header, None, None, mark, t, ONE, state=sb)
        out = self.summarise(L, cx, mem0, ini, tree, lmem, nx, S, W, t, header, lblocks, mark)
        self.depth -= 1
        return out

    def proots(self, v):
        if v.op == "ite":
            return self.proots(v.args[1]) | self.proots(v.args[2])
        return {v.args[0]} if v.op == "ptr" else {None}

    def offset_in(self, root, v):
        """The offset of a pointer known to point into one array."""
        if v.op == "ite":
            return ite(v.args[0], self.offset_in(root, v.args[1]), self.offset_in(root, v.args[2]))
        if v.op != "ptr" or v.args[0] != root:
            raise LiftError(f"pointer recurrence over several arrays: {root}, {show(v)[:200]}")
        return v.args[1]

    def outlives(self, r, mem0, nf):
        if str(r)[:1] == "~":
            r = r[1:]
        if isinstance(r, str) and r.startswith("new"):
            return int(r[3:]) <= nf
        return True

    def select(self, tree, pred):
        memo = {}

        def go(t):
            if t is None:
                return None
            if isinstance(t, (Edge, Term_)):
                return t if pred(t) else None
            k = id(t)
            if k not in memo:
                a, b = go(t[1]), go(t[2])
                memo[k] = None if a is None and b is None else (t[0], a, b)
            return memo[k]
        return go(tree)

    def summarise(self, L, cx, mem0, inits, tree, lmem, nx, S, W, t, header, lblocks, mark):
        T = atom(t)
        state = set(S.values()) | set(W.values())
        # the bound: the first decision, when it only looks at t
        N, main = None, None
        if isinstance(tree, tuple):
            c = tree[0]
            for pos, body, ex in ((True, tree[1], tree[2]), (False, tree[2], tree[1])):
                if ex is None or not self.only_exit(ex, header):
                    continue
                cc = c if pos else bnot(c)
                n = self.bound(cc, t, state, cx)
                if n is not None:
                    N, main = n, pos
                    break
        if main is not None:
            inner = tree[1] if main else tree[2]
        else:
            inner = tree
            N = INF
        E = self.fold_bool(inner, header)
        known = None
        if N is INF and E is not FALSE:
            known = self.bound(bnot(E), t, state, cx)
            if known is not None:
                inb = cx.assume(lt(T, known))
                for k in nx:
                    if nx[k] is not None and nx[k].sort in ("i", "f", "b"):
                        nx[k] = simplify(nx[k], inb)
                for r in lmem:
                    lmem[r] = simplify(lmem[r], inb)
        bctx = cx.assume(lt(T, N)) if N is not INF else cx if known is None else cx.assume(lt(T, known))
        if E is not FALSE and not bctx.infeas():
            # the next round starts only where the loop is not left
            E = simplify(E, bctx)
            if E is not FALSE:
                stay = bctx.assume(E, False)
                for k in nx:
                    if nx[k] is not None and nx[k].sort in ("i", "f", "b") and has_op(nx[k], ITE):
                        nx[k] = simplify(nx[k], stay)
        U = dict(S)          # unsolved scalars: phi -> sym
        M = dict(W)
        at = {}              # sym -> function T' -> term
        nextat = {}
        sub_sc = {}          # sym -> closed form at t
        progress = True
        par = {}
        while progress:
            progress = False
            un = set(U.values()) | set(M.values())
            for k in list(U):
                s_ = U[k]
                v = subst(nx[k], sub_sc)
                if v.sort in ("i", "f"):
                    d = sub(v, atom(s_))
                    if has_op(d, ITE) and s_ in d.free:
                        d = self.split_delta(v, s_)
                    if d is not None and not (d.free & un):
                        ini = inits[k]
                        u = sym("u", "i", True, True)
                        def cl(X, d=d, ini=ini, u=u):
                            return add(ini, summation(u, ZERO, X, subst(d, {t: atom(u)})))
                        at[s_] = cl
                        nextat[s_] = d
                        sub_sc[s_] = cl(T)
                        del U[k]
                        progress = True
                        continue
                if not (v.free & un):
                    ini = inits[k]
                    def cl2(X, v=v, ini=ini):
                        return ite(ge0(sub(X, ONE)), subst(v, {t: sub(X, ONE)}), ini)
                    at[s_] = cl2
                    sub_sc[s_] = cl2(T)
                    del U[k]
                    progress = True
            # arrays without loop-carried dependence
            cand = {}
            for r, s_ in M.items():
                m = self.subst_next(lmem[r], at, nextat, sub_sc, t, nx, S)
                w = flatten(m, s_)
                if w is None:
                    continue
                ok = True
                for qs, g, idx, ty, v in w:
                    ff = g.free | idx.free
                    for _, lo, hi in qs:
                        ff = ff | lo.free | hi.free
                    if ff & un:
                        ok = False
                if ok:
                    cand[s_] = (r, w)
            exprs = [subst(v, sub_sc) for k, v in nx.items() if k in U] + [E] + [lmem[r] for r in M]
            exprs = [subst(e, sub_sc) for e in exprs]
            while cand:
                bad = set()
                for s_, (r, w) in cand.items():
                    rest = un - set(cand)
                    if any((v.free & rest) for _, _, _, _, v in w):
                        bad.add(s_)
                        continue
                    if not self.order_ok(w, t, bctx, N):
                        bad.add(s_)
                        continue
                    rd = self.reads(exprs, s_, bctx)
                    if rd is None or not all(self.read_ok(x, w, t, N) for x in rd):
                        bad.add(s_)
                if not bad:
                    break
                for b in bad:
                    del cand[b]
            if cand:
                pre = {s_: (mem0.get(r) or self.mem0(r)) for s_, (r, w) in cand.items()}
                for s_, (r, w) in cand.items():
                    ws = [(qs, g, idx, ty, self.resub(v, pre, bctx, qs, g)) for qs, g, idx, ty, v in w]
                    base = pre[s_]
                    def clm(X, ws=ws, base=base):
                        return self.map_at(base, ws, t, X)
                    at[s_] = clm
                    del M[r]
                for s_ in pre:
                    sub_sc[s_] = pre[s_]
                par.update(pre)
                progress = True
                continue
            # an array touched by the loop at fixed places only: a scalar in memory
            for r, s_ in list(M.items()):
                w = flatten(lmem[r], s_)
                if not w:
                    continue
                if any(qs or t in idx.free or idx.free & state for qs, g, idx, ty, v in w):
                    continue
                locs = []
                for qs, g, idx, ty, v in w:
                    if (idx, ty) not in locs:
                        locs.append((idx, ty))
                ds = [sub(a, b) for i, (a, _) in enumerate(locs) for b, _ in locs[:i]]
                if not all(is_const(d) and abs(cval(d)) >= 8 or is_const(d) and abs(cval(d)) >= SIZE[locs[0][1]] for d in ds):
                    continue
                rd = self.reads([e for e in exprs], s_, bctx)
                if rd is None:
                    continue
                okr = True
                for e, ty, c in rd:
                    for idx, ty2 in locs:
                        d = sub(e, idx)
                        if is_const(d):
                            if 0 < abs(cval(d)) < SIZE[ty2] or (cval(d) == 0 and ty != ty2):
                                okr = False
                        elif c.decide(eq0(d)) is not False:
                            okr = False
                if not okr:
                    continue
                base = mem0.get(r) or self.mem0(r)
                chain = base
                proot = {}
                for j, (idx, ty) in enumerate(locs):
                    v0 = load(base, idx, ty)
                    if ty == "p":
                        if has_op(v0, ITE):
                            v0 = simplify(v0, cx)
                        if v0.op != "ptr":
                            raise LiftError("pointer recurrence in memory")
                        proot[j] = v0.args[0]
                        v0 = v0.args[1]
                    ns = sym("S", "i" if ty == "p" else SORT[ty], False, True)
                    key = ("m", r, j)
                    S[key] = U[key] = ns
                    inits[key] = v0
                    nx[key] = None
                    chain = store(chain, idx, ty, ptr(proot[j], atom(ns)) if j in proot else atom(ns) if ns.sort in ("i", "f") else ns)
                rep = {s_: chain}
                for k in nx:
                    if nx[k] is not None:
                        nx[k] = subst(nx[k], rep)
                for j, (idx, ty) in enumerate(locs):
                    v1 = load(subst(lmem[r], rep), idx, ty)
                    nx[("m", r, j)] = self.offset_in(proot[j], v1) if j in proot else v1
                for r2 in lmem:
                    if r2 != r:
                        lmem[r2] = subst(lmem[r2], rep)
                lmem[r] = subst(lmem[r], rep)
                E = subst(E, rep)
                syms_ = [(S[("m", r, j)], idx, ty, proot.get(j)) for j, (idx, ty) in enumerate(locs)]
                def clmem(X, base=base, syms_=syms_):
                    m = base
                    for s2, idx, ty, pr in syms_:
                        v2 = at[s2](X)
                        m = store(m, idx, ty, v2 if pr is None else ptr(pr, v2))
                    return m
                at[s_] = clmem
                sub_sc[s_] = chain
                state.add(s_)
                del M[r]
                progress = True
                break
        E2 = subst(E, {k: v for k, v in sub_sc.items()})
        for _ in range(3):
            E2 = subst(E2, sub_sc)
        stop, pre = None, {}
        un = set(U.values()) | set(M.values())
        if un:
            order = [U[k] for k in U] + [M[r] for r in sorted(M, key=str)]
            ini = [inits[k] for k in U] + [mem0.get(r) or self.mem0(r) for r in sorted(M, key=str)]
            nxt = [self.fixsub(nx[k], sub_sc) for k in U] + [self.fixsub(lmem[r], sub_sc) for r in sorted(M, key=str)]
            if N is not INF and not bctx.infeas():
                nxt = [simplify(x, bctx) if x.sort in ('m', 'i', 'f', 'b') else x for x in nxt]
            fx = make_fix(t, order, N, E2, ini, nxt)
            pre = {}
            if self.keeplog and mark < len(self.log):
                px = make_fix(t, order, T, FALSE, ini, nxt)       # the state before round t
                pre = {s_: atom(mk("fixout", s_.sort, px, j)) if s_.sort in ("i", "f") else mk("fixout", s_.sort, px, j) for j, s_ in enumerate(order)}
            if E2 is FALSE:
                stop = self.clamp(N, cx)
            elif known is not None:
                stop = self.clamp(known, cx)
            else:
                stop = atom(mk("fixstop", "i", fx))
            for j, s_ in enumerate(order):
                o = mk("fixout", s_.sort, fx, j)
                oo = atom(o) if s_.sort in ("i", "f") else o
                at[s_] = lambda X, oo=oo: oo
                if N is ONE and E2 is FALSE:
                    # a single round: the state after it is that of the body
                    once = {t: ZERO, **{a: v for a, v in zip(order, ini)}}
                    at[s_] = lambda X, oo=oo, v=nxt[j], once=once: subst(v, once) if X is ONE else oo
            # closed forms that still mention carried state are not closed
        else:
            if E2 is FALSE:
                stop = self.clamp(N, cx)
            elif known is not None:
                stop = self.clamp(known, cx)
            else:
                if N is not INF and not bctx.infeas():
                    E2 = simplify(E2, bctx)
                stop = atom(mk("first", "i", shift(N, 1), abstract(E2, [t])))
        if N is INF and E2 is FALSE:
            return None
        sb = {t: stop}
        memory.BOUND[:] = [self.bound]
        for s_, f in at.items():
            sb[s_] = f(stop)
        # state symbols may occur in closed forms of others
        for s_ in list(sb):
            for _ in range(4):
                if sb[s_].free & state:
                    sb[s_] = subst(sb[s_], {k: v for k, v in sb.items() if k is not s_})
        return self.finish(tree, lblocks, sb, header, main, (N, E2, bool(un)), mark, t, stop, sub_sc, pre)

    def fixsub(self, v, sub_sc):
        for _ in range(3):
            v = subst(v, sub_sc)
        return v

    def clamp(self, N, cx):
        if cx.ge(N):
            return N
        return ite(ge0(N), N, ZERO)

    def only_exit(self, tr, header):
        """Does every leaf leave the loop?"""
        if tr is None:
            return True
        if isinstance(tr, Edge):
            return tr.dst != header
        if isinstance(tr, Term_):
            return True
        return self.only_exit(tr[1], header) and self.only_exit(tr[2], header)

    def fold_bool(self, tr, header):
        memo = {}

        def go(t):
            if t is None:
                return None
            if isinstance(t, Edge):
                return FALSE if t.dst == header else TRUE
            if isinstance(t, Term_):
                return TRUE
            k = id(t)
            if k not in memo:
                a, b = go(t[1]), go(t[2])
                memo[k] = b if a is None else a if b is None else ite(t[0], a, b)
            return memo[k]
        r = go(tr)
        return FALSE if r is None else r

    def bound(self, c, t, state, cx):
        """N such that c(t) holds for t in [0, N) and fails at N."""
        if c.free & state or t not in c.free:
            return None
        if c.op == "ge0":
            p = c.args[0]
            co, rest = self.lin(p, t)
            if co is None or not is_const(co) or cval(co) >= 0 or t in rest.free:
                return None
            k = -cval(co)
            if k.denominator != 1:
                return None
            return add(fdiv(rest, int(k)), ONE)
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            co, rest = self.lin(p, t)
            if co is None or not is_const(co) or t in rest.free:
                return None
            n = terms.scale(rest, -1 / cval(co))
            if any(x.denominator != 1 for _, x in items(n)) and not terms._is_pronic(terms.scale(n, 2)):
                return None
            return n
        if c.op == "ucmp" and c.args[0] == "ult" and c.args[1] is atom(t):
            return wrap(c.args[2], c.args[3])
        if c.op == "ucmp" and c.args[0] == "ult" and t not in c.args[2].free:
            co, rest = self.lin(c.args[1], t)
            if co is not None and is_const(co) and cval(co) == 1 and cx.ge(rest):
                return sub(wrap(c.args[2], c.args[3]), rest)
        if c.op == "ucmp" and c.args[0] == "ule" and t not in c.args[2].free:
            co, rest = self.lin(c.args[1], t)
            if co is not None and is_const(co) and cval(co) == 1 and cx.ge(rest):
                return add(sub(wrap(c.args[2], c.args[3]), rest), ONE)
        if c.op == "and":
            # a strided test written as a conjunction
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if t not in x.free and cx.decide(x) is True:
                    return self.bound(y, t, state, cx)
                n = self.bound(y, t, state, cx)
                if n is not None and cx.assume(ge0(atom(t))).assume(lt(atom(t), n)).decide(x) is True:
                    return n
        return None

    def lin(self, p, t):
        co, rest = {}, {}
        for m, c in items(p):
            e = [k for a, k in m if a is t]
            if e:
                if e[0] != 1:
                    return None, None
                co[tuple((a, k) for a, k in m if a is not t)] = c
            else:
                rest[m] = c
        return terms._poly("i", co), terms._poly("i", rest)

    def split_delta(self, v, s_):
        """v - s where v is a decision over values of the form s + g."""
        sp = atom(s_)

        def go(x, depth):
            if depth > 12:
                return None
            d = sub(x, sp)
            if s_ not in d.free:
                return d
            for m, _ in items(x):
                for a, _e in m:
                    if a.op == "ite" and s_ in a.free:
                        c = a.args[0]
                        if s_ in c.free:
                            return None
                        A = go(self.set_ite(x, c, True), depth + 1)
                        B = go(self.set_ite(x, c, False), depth + 1)
                        if A is None or B is None:
                            return None
                        return ite(c, A, B)
            return None
        return go(v, 0)

    def set_ite(self, x, c, val):
        out = const(0, x.sort)
        for m, k in items(x):
            v = const(k, x.sort)
            for a, e in m:
                b = atom(a)
                if a.op == "ite" and a.args[0] is c:
                    b = a.args[1] if val else a.args[2]
                for _ in range(e):
                    v = mul(v, b)
            out = add(out, v)
        return out

    def subst_next(self, m, at, nextat, sub_sc, t, nx, S):
        """Substitutes solved scalars in an array state; values equal to 'next' become the sum up to t + 1."""
        if not (m.free & set(sub_sc)):
            return m
        rev = {v: k for k, v in S.items()}
        full = {}
        for s_ in nextat:
            if s_ in m.free and s_ in rev:
                full[s_] = nx[rev[s_]]
        if full:
            memo = {}

            def go(x, dep):
                if not (x.free & set(full)):
                    return x
                if x in memo:
                    return memo[x]
                r = None
                if x.op == "store":
                    m2, idx, ty, v = x.args
                    for s_, n in full.items():
                        if v.sort == n.sort and s_ in v.free:
                            d = sub(v, n)
                            if s_ not in d.free:
                                v = add(at[s_](add(atom(t), ONE)), d)
                                break
                    r = mk("store", "m", go(m2, dep), idx, ty, v)
                elif x.op == "ite" and x.sort == "m":
                    r = ite(x.args[0], go(x.args[1], dep), go(x.args[2], dep))
                else:
                    r = x
                memo[x] = r
                return r
            m = go(m, 0)
        return subst(m, sub_sc)

    def reads(self, exprs, s_, ctx):
        """Every read of the array state: (offset, type, context); None if it escapes otherwise."""
        out, seen, bad = [], set(), []

        def go(x, c, spine):
            if s_ not in x.free:
                return
            k = (x, id(c), spine)
            if k in seen:
                return
            seen.add(k)
            if x.op == "load":
                m, e, ty = x.args
                if m is s_:
                    out.append((e, ty, c))
                    go(e, c, False)
                    return
                # an unresolved read of an array that derives from the state: reads at the same place, at worst
                if s_ in m.free:
                    out.append((e, ty, c))
                    go(m, c, True)
                    go(e, c, False)
                    return
                go(e, c, False)
                return
            if x is s_:
                if not spine:
                    bad.append(x)
                return
            if x.op == "sum":
                u = sym("u", "i", True, True)
                lo, hi = shift(x.args[0], -1), shift(x.args[1], -1)
                go(lo, c, False)
                go(hi, c, False)
                c2 = c.assume(le(lo, atom(u))).assume(lt(atom(u), hi))
                go(instantiate(x.args[2], [atom(u)]), c2, False)
                return
            if x.op == "first":
                u = sym("u", "i", True, True)
                hi = shift(x.args[0], -1)
                go(hi, c, False)
                go(instantiate(x.args[1], [atom(u)]), c.assume(lt(atom(u), hi)), False)
                return
            if x.op == "map":
                m2, qs, g, idx, ty, v = open_map(x)
                go(m2, c, spine)
                c2 = c
                for q, lo, hi in qs:
                    go(lo, c2, False)
                    go(hi, c2, False)
                    c2 = c2.assume(le(lo, atom(q))).assume(lt(atom(q), hi))
                go(g, c2, False)
                c2 = c2.assume(g)
                go(idx, c2, False)
                go(v, c2, False)
                return
            if x.op == "store":
                go(x.args[0], c, spine)
                go(x.args[1], c, False)
                go(x.args[3], c, False)
                return
            if x.op == "fill":
                go(x.args[0], c, spine)
                go(x.args[1], c, False)
                go(x.args[2], c, False)
                return
            if x.op == "ite":
                go(x.args[0], c, False)
                go(x.args[1], c.assume(x.args[0]), spine)
                go(x.args[2], c.assume(x.args[0], False), spine)
                return
            if x.op in ("fix", "fixout", "fixstop", "prim"):
                bad.append(x)
                return
            for y in terms._children(x.op, x.args):
                go(y, c, False)
        for e in exprs:
            go(e, ctx, e.sort == "m")
        return None if bad else out

    def read_ok(self, rd, w, t, N):
        """The place read at iteration t is not written by an earlier iteration."""
        e, ty, c = rd
        t2 = sym("t", "i", True, True)
        for qs, g, idx, ty2, v in w:
            m = {t: atom(t2)}
            c2 = c.assume(lt(atom(t2), atom(t)))
            for q, lo, hi in qs:
                q2 = sym("q", "i", True, True)
                m[q] = atom(q2)
                c2 = c2.assume(le(subst(lo, m), atom(q2))).assume(lt(atom(q2), subst(hi, m)))
            c2 = c2.assume(subst(g, m))
            d = sub(subst(idx, m), e)
            if disjoint_residue(d, max(SIZE[ty], SIZE[ty2])):
                continue
            if c2.ge(sub(d, const(SIZE[ty]))) or c2.ge(sub(neg(d), const(SIZE[ty2]))) or c2.infeas():
                continue
            return False
        return True

    def order_ok(self, w, t, ctx, N):
        """An earlier-listed write of a later iteration never hits a later-listed write of an earlier one."""
        t2 = sym("t", "i", True, True)
        for i, (qs, g, idx, ty, v) in enumerate(w):
            for j, (qs2, g2, idx2, ty2, v2) in enumerate(w):
                if j <= i:
                    continue
                # w_i at t2 > t, w_j at t
                m = {t: atom(t2)}
                c = ctx.assume(lt(atom(t), atom(t2)))
                if N is not INF:
                    c = c.assume(lt(atom(t2), N))
                for q, lo, hi in qs:
                    q2 = sym("q", "i", True, True)
                    m[q] = atom(q2)
                    c = c.assume(le(subst(lo, m), atom(q2))).assume(lt(atom(q2), subst(hi, m)))
                for q, lo, hi in qs2:
                    c = c.assume(le(lo, atom(q))).assume(lt(atom(q), hi))
                c = c.assume(subst(g, m)).assume(g2)
                d = sub(subst(idx, m), idx2)
                if disjoint_residue(d, max(SIZE[ty], SIZE[ty2])):
                    continue
                if c.ge(sub(d, const(SIZE[ty2]))) or c.ge(sub(neg(d), const(SIZE[ty]))) or c.infeas():
                    continue
                if t not in idx.free and t not in idx2.free and idx is idx2 and not qs and not qs2 and g is TRUE and g2 is TRUE:
                    continue              # same fixed place, the last write of the last iteration wins
                if t not in idx.free and t not in idx2.free and is_const(d) and cval(d) != 0 and not qs and not qs2:
                    continue
                return False
        return True

    def resub(self, v, pre, ctx, qs, g):
        c = ctx
        for q, lo, hi in qs:
            c = c.assume(le(lo, atom(q))).assume(lt(atom(q), hi))
        c = c.assume(g)
        memory.CUR.insert(0, c)
        try:
            return subst(v, pre)
        finally:
            memory.CUR.pop(0)

    def map_at(self, base, ws, t, X):
        m = base
        for qs, g, idx, ty, v in ws:
            tfree = t not in idx.free and t not in g.free and not any(t in lo.free or t in hi.free for _, lo, hi in qs)
            if tfree:
                last = {t: sub(X, ONE)}
                vv = subst(v, last)
                m2 = map_(m, qs, g, idx, ty, vv)
                c = ge0(sub(X, ONE))
                if not qs and g is TRUE:
                    # one place: keep the state unconditional when the value degenerates to the old one
                    old = load(m, idx, ty)
                    nv = ite(c, vv, old)
                    if nv is vv:
                        m = store(m, idx, ty, vv)
                        continue
                m = ite(c, m2, m)
            else:
                m = map_(m, [(t, ZERO, X)] + qs, g, idx, ty, v)
        return m

    def finish(self, tree, lblocks, sb, header, main, info, mark, t, stop, sub_sc=None, state=None):
        """The exits of the loop at its last iteration; values and arrays leave with their final state."""
        sbk = dict(sb)
        # values defined in the loop, as seen outside
        memory_ctx = None
        for b in lblocks:
            for ins in self.blocks[b]:
                v = self.env.get(ins["id"])
                if v is not None and (v.free & sbk.keys()):
                    try:
                        self.env[ins["id"]] = subst(v, sbk)
                    except LiftError:
                        del self.env[ins["id"]]
        early = info is not None and info[1] is not FALSE
        memo = {}

        def leaf(l):
            k = id(l)
            if k not in memo:
                m = {r: (subst(x, sbk) if x.free & sbk.keys() else x) for r, x in l.mem.items()}
                # arrays written by the loop but untouched on this exit path keep their loop-final state
                if isinstance(l, Edge):
                    memo[k] = Edge(l.src, l.dst, m)
                else:
                    memo[k] = Term_(l.kind, l.what, m, subst(l.val, sbk) if l.val is not None else None, l.loc)
                memo[(k, "k")] = l
            return memo[k]

        def go(x):
            if x is None:
                return None
            if isinstance(x, Edge):
                return None if x.dst == header else leaf(x)
            if isinstance(x, Term_):
                return leaf(x)
            k = id(x)
            if k not in memo:
                a, b = go(x[1]), go(x[2])
                if a is None and b is None:
                    memo[k] = None
                elif a is None or b is None:
                    memo[k] = a or b
                else:
                    c = subst(x[0], sbk)
                    memo[k] = a if c is TRUE else b if c is FALSE else (c, a, b)
                memo[(k, "k")] = x
            return memo[k]
        # accesses of the body: quantified over the iteration
        hi = stop if not early else add(stop, ONE)
        for a in self.log[mark:] if self.keeplog else ():
            for _ in range(3):
                if sub_sc and a.free() & sub_sc.keys():
                    a.subst(sub_sc)
            if state and a.free() & state.keys():
                a.subst(state)
            a.binders.append((t, hi))
        if main is None:
            r = go(tree)
        else:
            body, ex = (tree[1], tree[2]) if main else (tree[2], tree[1])
            if not early:
                r = go(ex)
            else:
                a, b = go(body), go(ex)
                c = lt(stop, info[0])
                r = b if a is None else a if b is None else (c, a, b)
        self._k = getattr(self, "_k", [])
        self._k.append(tree)
        return r


def reach(t):
    """The part of a decision tree that matters for whether its leaves are reached."""
    memo = {}

    def go(t):
        if not isinstance(t, tuple):
            return t is not None
        k = id(t)
        if k not in memo:
            a, b = go(t[1]), go(t[2])
            memo[k] = a if isinstance(a, bool) and a is b else (t[0], a, b)
        return memo[k]
    return go(t)


def is_boolean(p):
    """0/1-valued, by shape."""
    return all(m == () and c in (0, 1) or (len(m) == 1 and m[0][0].op == "ite" and all(is_const(x) and cval(x) in (0, 1) for x in m[0][0].args[1:]))
               for m, c in items(p)) and len(items(p)) <= 1


def atomm(s):
    return s


def make_fix(t, syms, N, E, inits, nexts):
    body = abstract(mk("tup", "x", E, tuple(nexts)), [t] + list(syms))
    return mk("fix", "x", len(syms), shift(N, 1), tuple(shift(i, 1) for i in inits), body)
