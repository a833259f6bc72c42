"""Where pointers come from and what is written through them: a flow-insensitive inclusion-based
points-to analysis of one compiled operation (fields of objects kept apart at constant offsets).

Objects: the arguments ("A", what they own "A*"), globals ("@g"), locals and heap blocks ("%n")."""
from common import *

CALL = ("call", "invoke")
RO_INTR = ("llvm.fabs", "llvm.sqrt", "llvm.fmuladd", "llvm.fma", "llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin", "llvm.abs", "llvm.ctpop",
           "llvm.ctlz", "llvm.cttz", "llvm.umul", "llvm.uadd", "llvm.usub", "llvm.smul", "llvm.sadd", "llvm.ssub", "llvm.assume", "llvm.lifetime", "llvm.experimental", "llvm.dbg",
           "llvm.expect", "llvm.trap", "llvm.invariant", "llvm.launder", "llvm.strip", "llvm.vector", "llvm.is.constant", "llvm.objectsize", "llvm.eh")
# arguments written by external routines, by suffix after the type letter
BLAS_OUT = {"axpy": [4], "scal": [2], "copy": [3], "swap": [1, 3], "gemv": [10], "gemm": [12], "dotu_sub": [5], "dotc_sub": [5], "ger": [7], "trsv": [6], "trsm": [10], "symv": [9], "syrk": [9], "rot": [1, 3]}
LAPACK_OUT = {"potrf": [3], "potrs": [6], "gtsv": [3, 4, 5, 6], "posv": [4, 6], "getrf": [3, 5], "getrs": [7], "gesv": [3, 5, 6], "pttrf": [1, 2], "pptrf": [3], "pptrs": [5]}


def outs_of(name):
    if name.startswith("cblas_"):
        r = name[6:].lstrip("i")
        for k, v in BLAS_OUT.items():
            if r[1:] == k:
                return v
        return [] if r[1:] in ("dot", "nrm2", "asum", "amax") or r in ("scnrm2", "dznrm2", "sdsdot", "dsdot") else None
    if name.startswith("LAPACKE_"):
        for k, v in LAPACK_OUT.items():
            if name[9:] == k:
                return v
        return None
    return None


class Event:
    __slots__ = ("obj", "off", "ins", "fn", "block", "what")

    def __init__(self, obj, off, ins, fn, block, what):
        self.obj, self.off, self.ins, self.fn, self.block, self.what = obj, off, ins, fn, block, what


class Flow:
    def __init__(self, fn, argnames):
        self.fn, self.rest = fn, fn.get("rest", {})
        self.globals = fn["globals"]
        self.P = {}              # (function, value id) -> set of (object, offset or None)
        self.T = set()           # values that depend on the arguments
        self.C = {}              # object -> offset or None -> set of (object, offset)
        self.OT = set()          # objects whose contents depend on the arguments
        self.events = {}
        self.unknown = set()
        self.alive = {}
        self.argobjs = set(argnames)
        self.order = []
        self.collect(fn)
        for a, n in zip(fn["args"], argnames):
            self.P[(fn["name"], a["id"])] = {(n, 0)} if a["ty"] == "ptr" else set()
            self.T.add((fn["name"], a["id"]))
        self.argnames = argnames
        for o in argnames:
            self.OT |= {o, o + "*"}
        for k in range(40):
            self.changed = False
            for f in self.order:
                self.sweep(f)
            if not self.changed:
                break
        else:
            raise Broken("points-to analysis of " + fn["name"] + " does not settle")

    def collect(self, f):
        if f["name"] in self.alive:
            return
        self.alive[f["name"]] = f
        self.order.append(f)
        for B in f["blocks"]:
            for i in B:
                for c in self.callees(i):
                    self.collect(c)

    def callees(self, i):
        out = []
        if i["op"] in CALL:
            if i.get("callee") in self.rest:
                out.append(self.rest[i["callee"]])
            for o in i["ops"]:
                if isinstance(o, dict) and o.get("k") == "g" and o["name"] in self.rest and o["name"] != i.get("callee"):
                    out.append(self.rest[o["name"]])
        return out

    # ---- values
    def prov(self, f, o):
        k = o.get("k")
        if k == "v":
            return self.P.get((f["name"], o["id"]), set())
        if k == "g":
            return {("@" + o["name"], 0)}
        if k == "goff":
            return {(b, None if off is None else off + o["off"]) for b, off in self.prov(f, o["base"])}
        return set()

    def taint(self, f, o):
        return o.get("k") == "v" and (f["name"], o["id"]) in self.T

    def add(self, f, i, ps):
        if not ps:
            return
        s = self.P.setdefault((f["name"], i["id"]), set())
        self.merge(s, ps)

    def merge(self, s, ps):
        """Adds pointers to a set; an object with many offsets is taken at any offset."""
        new = {p for p in ps if p not in s and (p[1] is None or (p[0], None) not in s)}
        if not new:
            return
        self.changed = True
        s |= new
        for obj in {x for x, _ in new}:
            offs = [o for x, o in s if x == obj]
            if None in offs or len(offs) > 12:
                s -= {(obj, o) for o in offs}
                s.add((obj, None))

    def addT(self, f, i):
        k = (f["name"], i["id"])
        if k not in self.T:
            self.T.add(k)
            self.changed = True

    def contents(self, obj, off):
        out = set()
        c = self.C.get(obj)
        if c:
            if off is None:
                for s in c.values():
                    out |= s
            else:
                out |= c.get(off, set()) | c.get(None, set())
        if obj in self.argobjs:
            out.add((obj + "*", None))
        elif obj.endswith("*"):
            out.add((obj, None))
        elif obj.startswith("@") and not self.globals.get(obj[1:], {}).get("const", True):
            out.add((obj + "*", None))
        return out

    def put(self, obj, off, ps):
        if not ps:
            return
        c = self.C.setdefault(obj, {})
        if off is not None and off not in c and len(c) > 64:
            off = None
        self.merge(c.setdefault(off, set()), ps)

    def event(self, f, bi, i, obj, off, what="store"):
        k = (f["name"], i["id"], obj, what)
        if k not in self.events:
            self.events[k] = Event(obj, off, i, f, bi, what)

    def write(self, f, bi, i, ptr, vals, tainted, what="store"):
        for obj, off in list(self.prov(f, ptr)):
            self.event(f, bi, i, obj, off, what)
            self.put(obj, off, vals)
            if tainted and obj not in self.OT:
                self.OT.add(obj)
                self.changed = True

    # ---- transfer
    def sweep(self, f):
        for bi, B in enumerate(f["blocks"]):
            for i in B:
                self.step(f, bi, i)

    def step(self, f, bi, i):
        op, ops = i["op"], i.get("ops", [])
        if op == "phi":
            for v, _ in ops:
                self.add(f, i, self.prov(f, v))
                if self.taint(f, v):
                    self.addT(f, i)
        elif op == "alloca":
            self.add(f, i, {(f"%{f['name']}.{i['id']}", 0)})
        elif op == "getelementptr":
            off = i.get("off") if not i.get("vars") and not i.get("badgep") else None
            self.add(f, i, {(b, None if off is None or o is None else o + off) for b, o in self.prov(f, ops[0])})
            if any(self.taint(f, o) for o in ops) or any(self.taint(f, v[0]) for v in i.get("vars", [])):
                self.addT(f, i)
        elif op == "load":
            ps = list(self.prov(f, ops[0]))
            if i["ty"] == "ptr":
                for obj, off in ps:
                    self.add(f, i, self.contents(obj, off))
            if any(obj in self.OT for obj, _ in ps):
                self.addT(f, i)
        elif op == "store":
            self.write(f, bi, i, ops[1], self.prov(f, ops[0]), self.taint(f, ops[0]))
        elif op in ("atomicrmw", "cmpxchg"):
            self.write(f, bi, i, ops[0], set(), True, "atomic")
        elif op in CALL:
            self.call(f, bi, i, ops)
        elif op in ("ret", "br", "switch", "unreachable", "resume"):
            if op == "ret" and ops:
                self.put("ret:" + f["name"], 0, self.prov(f, ops[0]))
                if self.taint(f, ops[0]) and "ret:" + f["name"] not in self.OT:
                    self.OT.add("ret:" + f["name"])
                    self.changed = True
        else:
            if op not in ("icmp", "fcmp"):
                for o in ops:
                    if isinstance(o, dict):
                        self.add(f, i, self.prov(f, o))
            if any(isinstance(o, dict) and self.taint(f, o) for o in ops):
                self.addT(f, i)

    def call(self, f, bi, i, ops):
        n = i.get("callee") or ""
        anyT = any(self.taint(f, o) for o in ops)
        if n.startswith("llvm.threadlocal.address"):
            self.add(f, i, self.prov(f, ops[0]))
            return
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            vals, ts = set(), False
            big = ops[2].get("k") != "c"
            src = list(self.prov(f, ops[1]))
            for obj, off in src:
                ts = ts or obj in self.OT
            if not big:
                size = int(ops[2]["v"])
                for dobj, doff in list(self.prov(f, ops[0])):
                    self.event(f, bi, i, dobj, doff, "memcpy")
                    if (ts or self.taint(f, ops[2])) and dobj not in self.OT:
                        self.OT.add(dobj)
                        self.changed = True
                    for sobj, soff in src:
                        for k in range(0, min(size, 512), 8):
                            self.put(dobj, None if doff is None else doff + k, self.contents(sobj, None if soff is None else soff + k) if size >= 8 else set())
                return
            self.write(f, bi, i, ops[0], set(), ts or anyT, "memcpy")
            return
        if n.startswith("llvm.memset"):
            self.write(f, bi, i, ops[0], set(), anyT, "memset")
            return
        if n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "vp_new", "malloc", "calloc", "_ZnwmRKSt9nothrow_t", "__cxa_allocate_exception", "aligned_alloc"):
            self.add(f, i, {(f"%{f['name']}.{i['id']}", 0)})
            if anyT:
                self.addT(f, i)
            return
        if n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
            for obj, off in list(self.prov(f, ops[0])):
                self.event(f, bi, i, obj, off, "delete")
            return
        cs = self.callees(i)
        if cs:
            for g in cs:
                direct = g["name"] == n
                for k, a in enumerate(g["args"]):
                    srcs = [ops[k]] if direct and k < len(ops) else ops
                    for o in srcs:
                        ps = self.prov(f, o)
                        s = self.P.setdefault((g["name"], a["id"]), set())
                        self.merge(s, ps)
                        if self.taint(f, o) and (g["name"], a["id"]) not in self.T:
                            self.T.add((g["name"], a["id"]))
                            self.changed = True
                self.add(f, i, self.contents("ret:" + g["name"], 0))
                if "ret:" + g["name"] in self.OT:
                    self.addT(f, i)
            return
        outs = outs_of(n)
        if outs is not None:
            for k in outs:
                if k < len(ops):
                    self.write(f, bi, i, ops[k], set(), True, "call of " + n)
            self.addT(f, i)
            return
        if n.startswith(RO_INTR):
            if anyT:
                self.addT(f, i)
            return
        if n.startswith("_ZSt") and "terminate" in n or n.startswith("__clang_call_terminate"):
            return
        if any(obj in self.OT for o in ops for obj, _ in self.prov(f, o)) or anyT:
            self.addT(f, i)
        if n and n not in self.unknown:
            self.unknown.add(n)


def dominators(f):
    """block -> set of blocks that dominate it."""
    bl = f["blocks"]
    succ = []
    for B in bl:
        t = B[-1] if B else {}
        if t.get("op") == "switch":
            succ.append([x[1] for x in t["cases"]] + [t["default"]])
        else:
            succ.append(list(t.get("succ", [])))
    pred = [[] for _ in bl]
    for b, ss in enumerate(succ):
        for s in ss:
            pred[s].append(b)
    full = set(range(len(bl)))
    dom = [full] * len(bl)
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, len(bl)):
            ps = [dom[p] for p in pred[b]]
            d = (set.intersection(*ps) if ps else set(full)) | {b}
            if d != dom[b]:
                dom[b], ch = d, True
    return dom, succ, pred


def init_regions(f):
    """Blocks that only run when a guarded one-time initialisation is taken."""
    bl = f["blocks"]
    byid = {i["id"]: i for B in bl for i in B}

    def is_guard(i, d=0):
        if d > 6 or i is None:
            return False
        if i["op"] == "load":
            o = i["ops"][0]
            q = byid.get(o.get("id")) if o.get("k") == "v" else None
            s = str(o) + (str(q["ops"]) if q and (q.get("callee") or "").startswith("llvm.threadlocal") else "")
            return "_ZGV" in s or "__tls_guard" in s
        if i["op"] in CALL:
            return i.get("callee") == "__cxa_guard_acquire" or (i.get("callee") or "").startswith("llvm.threadlocal") and "_ZGV" in str(i["ops"])
        if i["op"] in ("icmp", "trunc", "zext", "and", "or", "xor", "phi"):
            for o in i["ops"]:
                o = o[0] if isinstance(o, list) else o
                if isinstance(o, dict) and o.get("k") == "v" and is_guard(byid.get(o["id"]), d + 1):
                    return True
        return False
    dom, succ, pred = dominators(f)
    heads = set()
    for b, B in enumerate(bl):
        t = B[-1]
        if t["op"] == "br" and t["ops"] and t["ops"][0].get("k") == "v" and is_guard(byid.get(t["ops"][0]["id"])):
            for s in succ[b]:
                if pred[s] == [b]:
                    heads.add(s)
    return {b for b in range(len(bl)) if dom[b] & heads}
