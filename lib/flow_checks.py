"""Checks over the control flow of the compiled operations that need no formulas:
where exceptions go (C07), what is written (C09)."""
import os, re, sys, tempfile
from common import *
import driver, ops_dense, ops_access, ops_sparse, ops_solver, ops_coo, ops_copy, ops_misc
from driver import Op
from opspec import Verifier
import provenance

GROUPS = [ops_dense.elementwise, ops_dense.mat_elementwise, ops_dense.products, ops_dense.matvec, ops_dense.matmat, ops_dense.checked,
          ops_access.dense, ops_access.structured, ops_access.growth, ops_sparse.spmv, ops_solver.cholesky, ops_solver.cholesky_lapack,
          ops_solver.tri_diag, ops_solver.ilu, ops_solver.substitution, ops_solver.orthogonal, ops_coo.coo, ops_coo.coo_sums, ops_coo.csr,
          ops_copy.copied_values, ops_misc.misc]


def jobs_of(tier):
    """(group, element type, backend, operations), each operation once per type and backend it exists in."""
    out = []
    for g in GROUPS:
        ops = g()
        want = ["double", "std::complex<double>"] if tier == "quick" else ["double", "float", "std::complex<double>", "std::complex<float>"]
        for T in want:
            for b in ("Internal", "BLAS", "LAPACK"):
                os_ = [o for o in ops if T in o.types and b in o.backends]
                if os_:
                    for i in range(0, len(os_), 60):
                        out.append((g.__name__, T, b, os_[i:i + 60]))
    return out


def compile_keep(j):
    g, T, b, ops = j
    for o in ops:
        o.refs, o.shim = {}, False
    return j, driver.compile_ops(ops, T, b, keep=True)


def loc(i):
    l = i.get("loc")
    return f"{os.path.relpath(l[0], REPO)}:{l[1]} ({l[2]})" if l else "?"


def in_lib(i):
    return bool(i.get("loc")) and "/include/lalib/" in i["loc"][0]


def normal(bl, b):
    """Where control goes from block b when nothing further is thrown."""
    t = bl[b][-1]
    if t["op"] == "invoke":
        return [t["succ"][0]]
    if t["op"] == "switch":
        return [x[1] for x in t["cases"]] + [t["default"]]
    return t.get("succ", [])


CALL = ("call", "invoke")
ENDS = {"_ZSt9terminatev": "std::terminate", "abort": "abort", "exit": "exit", "_exit": "_exit", "quick_exit": "quick_exit", "_Exit": "_Exit"}
BASES = {"_ZTISt9exception", "_ZTISt13runtime_error", "_ZTISt11logic_error", "*"}


def fate(bl, b):
    """What can happen once a landing pad is entered: subset of {terminate, leave, handled}."""
    seen, st, out = set(), [(b, False)], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        b, caught = x
        stop = False
        for i in bl[b]:
            if i["op"] in CALL:
                n = i.get("callee") or ""
                if n.startswith("__clang_call_terminate") or n == "_ZSt9terminatev":
                    out.add("terminate")
                    stop = True
                    break
                if n == "__cxa_begin_catch":
                    caught = True
                if n in ("__cxa_rethrow", "__cxa_throw") or ("_ZSt" in n and "__throw_" in n):
                    r = {"leave"} if i["op"] == "call" else fate(bl, i["succ"][1]) if (b, "r") not in seen else set()
                    seen.add((b, "r"))
                    out |= r
                    stop = True
                    break
            if i["op"] == "resume":
                out.add("leave")
                stop = True
                break
            if i["op"] == "ret":
                out.add("handled")
                stop = True
                break
        if not stop:
            st += [(s, caught) for s in normal(bl, b)]
    return out


def throws_of(t, acc):
    if isinstance(t, tuple):
        throws_of(t[1], acc)
        throws_of(t[2], acc)
    elif t is not None and t.kind == "throw":
        acc.append(t)
    return acc


def unreachable(o, T, b, site):
    """The array-dataflow analysis summarises the operation and finds no path that raises at this place (None: not summarised)."""
    try:
        fns, bad = driver.compile_ops([o], T, b)
        driver.set_layout(fns, T)
        fns[o.name]["refs"] = {}
        o.refs, spec, o.spec = {}, o.spec, (lambda x: None)
        o.kw.pop("alts", None)
        try:
            v = Verifier(o, T, b, fns[o.name])
        finally:
            o.spec = spec

        def live(t, ctx):
            if ctx.infeas():
                return False
            if isinstance(t, tuple):
                r = ctx.decide(t[0])
                if r is not None:
                    return live(t[1] if r else t[2], ctx)
                return live(t[1], ctx.assume(t[0])) or live(t[2], ctx.assume(t[0], False))
            return t is not None and t.kind == "throw" and (not t.loc or t.loc[:2] == site[:2])
        return not live(v.tree, v.base)
    except Exception:
        return None


def errors_reach_caller(c):
    c.rule = ("Every public operation is compiled through a one-line wrapper and inlined with its exceptional control flow kept. Each place in lalib that "
              "raises an exception is followed along its unwind edge: it must leave the wrapper (no enclosing noexcept function, destructor or handler "
              "stops it). A place that would end in std::terminate counts as unreachable only if the array-dataflow analysis shows that no sizes lead there. "
              "Calls of abort, exit or terminate in library code are violations as well. One obligation per operation, element type and backend.")
    c.assumptions = ["allocation succeeds (bad_alloc and length_error of the standard containers are not errors of lalib)", "assertions are off, as in a release build"]
    driver.tool("irlift")
    sites, n_through = set(), 0
    for (g, T, b, ops), (fns, bad) in pmap(compile_keep, jobs_of(c.tier)):
        for o in ops:
            name = f"{o.name} <{T}> {b}"
            if o.name in bad:
                c.unknown(name, "does not compile: " + bad[o.name][:200])
                continue
            f = fns.get(o.name)
            if f is None:
                c.unknown(name, "no code")
                continue
            bl, probs, k = f["blocks"], [], 0
            for B in bl:
                for i in B:
                    if i["op"] not in CALL or not in_lib(i):
                        continue
                    n = i.get("callee") or ""
                    if n in ENDS:
                        probs.append((i, f"{loc(i)} ends the program with {ENDS[n]} instead of reporting an error", False))
                        continue
                    if not (n == "__cxa_throw" or n.startswith("_ZSt24__throw_out_of_range")):
                        continue
                    k += 1
                    sites.add((tuple(i["loc"][:2])))
                    if i["op"] == "call":
                        continue
                    u = i["succ"][1]
                    r = fate(bl, u)
                    if "terminate" in r and "leave" not in r and "handled" not in r:
                        probs.append((i, f"the exception raised at {loc(i)} cannot reach the caller: a function on the way is noexcept (or a destructor), the program ends in std::terminate", True))
                    elif "handled" in r:
                        pad = next((x for x in bl[u] if x["op"] == "landingpad"), None)
                        ti = next((a.get("name") for a in i.get("ops", [])[1:2]), None)
                        if pad is None or set(pad.get("catches", [])) & (BASES | {ti}):
                            probs.append((i, f"the exception raised at {loc(i)} is caught inside the library and the call goes on as if nothing had happened", False))
            n_through += k
            live, open_ = [], []
            for i, t, may in probs:
                r = unreachable(o, T, b, i["loc"]) if may else False
                if r is None and any("SizeMismatched" in (a.get("name") or "") for a in i.get("ops", [])):
                    open_.append(t)          # internally generated sizes: whether they can differ is not known
                elif not r:
                    live.append(t)
            if open_ and not live:
                c.unknown(name, "; ".join(open_)[:300])
            elif live:
                c.violation(name, f"{o.body}\n" + "\n".join(sorted(set(live))))
            else:
                c.ok(name, f"{k} raising places, all leave the operation" + (f" ({len(probs)} shown unreachable)" if probs else ""))
    c.extra["raising_places"] = sorted(f"{os.path.relpath(a, REPO)}:{l}" for a, l in sites)
    c.extra["followed"] = n_through
    if len(sites) < 5 and not any(o[1] == "violation" for o in c.obl):
        raise Broken("the places that raise errors vanished")


class Const:
    """An argument declared const wherever the operation accepts it."""
    out = False

    def __init__(self, a):
        self.a, self.name = a, a.name

    def cpp(self, T):
        return "const " + self.a.cpp(T)


def is_const(a, T):
    s = a.cpp(T)
    return isinstance(a, Const) or (s.startswith("const ") and "&" in s)


def constified(ops, T, backend):
    """The operations with every argument declared const that the library takes by const reference."""
    lines, who = [], []
    for o in ops:
        for k, a in enumerate(o.args):
            s = a.cpp(T)
            if "&" in s and "&&" not in s and not s.startswith("const "):
                ps = ", ".join(("const " if j == k else "") + b.cpp(T) for j, b in enumerate(o.args))
                lines.append(f"{o.ret.replace('$T', T)} p{len(lines)}({ps}) {{ {' '.join(o.body.replace('$T', T).split())} }}")
                who.append((o.name, k))
    if not lines:
        return ops
    with tempfile.TemporaryDirectory(prefix="vp_cst") as td:
        src = os.path.join(td, "probe.cc")
        pre = driver.PRE
        open(src, "w").write(pre + "\n".join(lines) + "\n")
        p = run([CLANG, "-std=gnu++20", "-fsyntax-only", "-w", "-ferror-limit=0", "-DNDEBUG", *BACKENDS[backend], "-I" + INC, src])
    bad = {int(x) - pre.count("\n") - 1 for x in re.findall(r"probe\.cc:(\d+):", p.stdout)}
    if p.returncode and not bad:
        return ops
    cst = {w for n, w in enumerate(who) if n not in bad}
    out = []
    for o in ops:
        args = [Const(a) if (o.name, k) in cst else a for k, a in enumerate(o.args)]
        q = Op(o.name, args, o.body, ret=o.ret, types=o.types, backends=o.backends)
        out.append(q)
    return out


PROCESS_STATE = {"srand", "setlocale", "fesetround", "fesetenv", "setenv", "putenv", "omp_set_num_threads", "openblas_set_num_threads", "omp_set_dynamic", "omp_set_nested",
                 "signal", "sigaction", "chdir", "umask", "srand48", "srandom"}
NONDET = {"rand", "random", "drand48", "lrand48", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "getpid", "gettid",
          "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device9_M_getvalEv", "_ZNSt13random_device16_M_getval_pretr1Ev"}


def compile_const(j):
    g, T, b, ops = j
    for o in ops:
        o.refs, o.shim = {}, False
    ops = constified(ops, T, b)
    return (g, T, b, ops), driver.compile_ops(ops, T, b, keep="--flow")


def judge_writes(o, T, f):
    """-> (violations, number of write sites, number of const operands, unknown externals)"""
    names = [a.name for a in o.args]
    fl = provenance.Flow(f, names)
    cst = {a.name for a in o.args if is_const(a, T)}
    probs = []
    regions = {}
    owned, todo = set(), [x for x in list(fl.C) if x.startswith("@")]
    while todo:
        x = todo.pop()
        for s in fl.C.get(x, {}).values():
            for y, _ in s:
                if y.startswith("%") and y not in owned:
                    owned.add(y)
                    todo.append(y)
    for e in fl.events.values():
        base = e.obj.rstrip("*")
        if base in cst:
            probs.append(f"{loc(e.ins)}: {e.what} into {'the buffer of ' if e.obj.endswith('*') else ''}the operand {base}, which is passed as const")
            continue
        if not in_lib(e.ins):
            continue
        if base.startswith("@") or e.obj in owned:
            if "_ZGV" in base or "__tls_guard" in base or fl.globals.get(base[1:], {}).get("const"):
                continue
            if e.fn["name"] not in regions:
                regions[e.fn["name"]] = provenance.init_regions(e.fn)
            src = [x for x in e.ins.get("ops", []) if isinstance(x, dict)]
            dep = any(fl.taint(e.fn, x) for x in (src[:1] if e.ins["op"] == "store" else src)) or \
                (e.what == "memcpy" and any(ob in fl.OT for ob, _ in fl.prov(e.fn, src[1])))
            if e.block in regions[e.fn["name"]]:
                if dep:
                    probs.append(f"{loc(e.ins)}: the static object {base} is initialised from the arguments of the first call")
                continue
            if e.obj in owned and not base.startswith("@") and e.what == "delete":
                continue
            probs.append(f"{loc(e.ins)}: {e.what} into {'memory owned by ' if e.obj in owned else ''}a static object ({base}): state that outlives the call")
    for g in fl.alive.values():
        for B in g["blocks"]:
            for i in B:
                if i["op"] in CALL and in_lib(i):
                    n = i.get("callee") or ""
                    if n in PROCESS_STATE:
                        probs.append(f"{loc(i)}: {n} changes the state of the whole process")
                    elif n in NONDET:
                        probs.append(f"{loc(i)}: the result depends on {n}")
    return sorted(set(probs)), len(fl.events), len(cst), fl.unknown


_WORK = []


def _judge_job(k):
    x = _WORK[k]
    (g, T, b, ops), (fns, bad) = compile_const(x)
    out = []
    for o in ops:
        name = f"{o.name} <{T}> {b}"
        if o.name in bad or o.name not in fns:
            out.append((name, "unknown", "does not compile: " + bad.get(o.name, "")[:200], 0, 0, set()))
            continue
        p, n, k, u = judge_writes(o, T, fns[o.name])
        if p:
            out.append((name, "violation", o.body + "\n" + "\n".join(p), n, k, u))
        else:
            out.append((name, "ok", f"{n} written objects, {k} const operands, none of them written; no static object written", n, k, u))
    return out


def no_hidden_state(c):
    import concurrent.futures as cf
    c.rule = ("Every public operation is compiled through a one-line wrapper whose parameters are const wherever the library takes them by const reference, and "
              "inlined. An inclusion-based points-to analysis gives, for every store, copy, deletion and external routine, the objects it may write: an operand "
              "passed as const (or memory it owns), or a static, global or thread-local object (or memory it owns) outside a one-time initialisation that does not depend on the "
              "arguments, is a violation; so are calls that read the clock, the environment or a random source, or change process-wide settings. One obligation per operation, element type and backend.")
    c.assumptions = ["BLAS and LAPACK routines write the operands their interface names", "calls of other external functions (string formatting, streams) write no operand"]
    driver.tool("irlift")
    w = k = 0
    unk = set()
    import multiprocessing as mp
    _WORK[:] = jobs_of(c.tier)
    with cf.ProcessPoolExecutor(JOBS, mp_context=mp.get_context("fork")) as ex:
        for res in ex.map(_judge_job, range(len(_WORK))):
            for name, st, d, n, kc, u in res:
                c.obl.append((name, st, d))
                w += n
                k += kc
                unk |= u
    c.extra["written_objects"], c.extra["const_operands"] = w, k
    c.extra["external_functions_assumed_pure_or_local"] = sorted(unk)[:80]
    if k < 100:
        raise Broken("no const operands were found")


# ---------------------------------------------------------------- what is returned (C12)
ALLOC = ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc", "calloc", "_ZnwmRKSt9nothrow_t")


def judge_escapes(o, T, f):
    """-> (violations, pointers examined)"""
    names = [a.name for a in o.args]
    fl = provenance.Flow(f, names)
    local, heap = {}, {}
    for g in fl.alive.values():
        for B in g["blocks"]:
            for i in B:
                if i["op"] == "alloca":
                    local[f"%{g['name']}.{i['id']}"] = i
                elif i["op"] in CALL and i.get("callee") in ALLOC:
                    heap[f"%{g['name']}.{i['id']}"] = i
    args = {x for n in names for x in (n, n + "*")}
    kept, todo = set(args), list(args)
    while todo:
        x = todo.pop()
        for s in fl.C.get(x, {}).values():
            for y, _ in s:
                if y not in kept:
                    kept.add(y)
                    todo.append(y)
    probs, n = [], 0
    rets = [i for B in f["blocks"] for i in B if i["op"] == "ret"]
    where = loc(rets[0]) if rets else "?"
    if o.ret.endswith("*"):
        for obj, off in fl.contents("ret:" + f["name"], 0):
            n += 1
            if obj in local:
                probs.append(f"{loc(local[obj])}: the returned reference designates a local object")
            elif obj in heap and obj not in kept:
                probs.append(f"{loc(heap[obj])}: the returned reference designates storage that no operand owns")
    for a in args:
        for offs in fl.C.get(a, {}).values():
            for obj, off in offs:
                n += 1
                if obj in local:
                    probs.append(f"{loc(local[obj])}: {a.rstrip('*')} keeps a pointer to a local object")
    return sorted(set(probs)), n


def _escape_job(k):
    g, T, b, ops = _WORK[k]
    for o in ops:
        o.refs, o.shim = {}, False
    fns, bad = driver.compile_ops(ops, T, b, keep="--flow", quick=g == "references")
    out = []
    for o in ops:
        name = f"points-to: {o.name} <{T}> {b}"
        if o.name in bad or o.name not in fns:
            if not o.name.startswith("ref_"):
                out.append((name, "unknown", "does not compile: " + bad.get(o.name, "")[:200], 0))
            continue
        p, n = judge_escapes(o, T, fns[o.name])
        out.append((name, "violation" if p else "ok", o.body + "\n" + "\n".join(p) if p else f"{n} escaping pointers, none to a local object", n))
    return out


def escapes(c):
    import concurrent.futures as cf
    import multiprocessing as mp
    driver.tool("irlift")
    refs = ops_misc.references()
    jobs = [("references", T, "Internal", [o for o in refs if T in o.types][k::8]) for T in ("double", "std::complex<double>") for k in range(8)]
    jobs += [j for j in jobs_of("quick") if j[2] == "Internal" or (j[1] == "double" and j[2] == "LAPACK")]
    _WORK[:] = jobs
    n = 0
    with cf.ProcessPoolExecutor(JOBS, mp_context=mp.get_context("fork")) as ex:
        for res in ex.map(_escape_job, range(len(_WORK))):
            for name, st, d, k in res:
                c.obl.append((name, st, d))
                n += k
    c.extra["escaping_pointers"] = n
    if not any(x[0].startswith("points-to: ref_") for x in c.obl):
        raise Broken("no reference-returning operation compiles")
