"""Copying, moving, assigning and swapping the containers (C24)."""
import terms
from driver import *
from opspec import *
from ops_dense import F4, op
from ops_access import tri

U = "std::size_t"


def copies():
    L = []
    n_, k_, p_ = var("n"), var("k"), var("p")

    def kind(name, ct, args, make, old_args, make_old, length, elems, rows, cols, assign=True, data="data()", facts=None, shape=True, moved=(), stored=None, iters=False, grow=False):
        """args/make build the source b, old_args/make_old what the target holds before."""
        movable = set(moved)

        def fk(m):
            if facts:
                facts(m)
            m.facts.append(lt(m.size("q"), length(m.size)))

        def bounded(f):
            def g(m):
                f(m)
                for z in list(m.sizes):
                    m.facts.append(le(var(z), const(1 << 28)))
            return g
        src = f"{ct} b({make}); "
        old = f"{ct} a({make_old}); "
        hist = [("copy", args, src + f"{ct} a(std::as_const(b)); ", "a"),
                ("copy_kept", args, src + f"{{ {ct} a(std::as_const(b)); a.{data}[q] = $T(0); }} ", "b"),
                ("copy_then_change", args, src + f"{ct} a(std::as_const(b)); b.{data}[q] = $T(0); ", "a"),
                ("move", args, src + f"{ct} a(std::move(b)); ", "a")]
        if assign:
            both = args + old_args
            hist += [("assign", both, src + old + "a = std::as_const(b); ", "a"),
                     ("assign_kept", both, src + old + "a = std::as_const(b); ", "b"),
                     ("assign_then_change", both, src + old + f"a = std::as_const(b); b.{data}[q] = $T(0); ", "a"),
                     ("assign_self", args, src + "auto& a = b; a = std::as_const(b); ", "a"),
                     ("assign_move", both, src + old + "a = std::move(b); ", "a"),
                     ("assign_chain", both, src + old + f"{ct} z(std::as_const(a)); z = a = b; ", "z"),
                     ("swap", both, src + old + "std::swap(a, b); ", "a")]
        for h, A, body, who in hist:
            def val(x):
                x.res.skip_frame.update(movable)
                x.val(elems(x, x.n("q")))

            def irets(v):
                def f(x):
                    x.res.skip_frame.update(movable)
                    x.iret(v(x.n))
                return f
            if not (stored is None and data is None):
                op(L, f"{name}_{h}_value", A + [I("q"), Out("$T")], body + f"new(R) $T({who}.{data}[q]);", val, facts=fk)
            if iters:
                fz = fk if "[q]" in body else (facts or None)
                op(L, f"{name}_{h}_count", A + ([I("q")] if "[q]" in body else []), body + f"return static_cast<{U}>({who}.end() - {who}.begin());", irets(length), ret=U, facts=fz)
            if grow and who == "a":
                op(L, f"{name}_{h}_grown", A + [I("q"), Out("$T")], body + "a.extend_with_zero(); " + f"new(R) $T({who}.{data}[q]);", val, facts=bounded(fk))
            if shape:
                q0 = [I("q")] if "[q]" in body else []
                fz = fk if q0 else (facts or None)
                op(L, f"{name}_{h}_rows", A + q0, body + f"return {who}.{rows[0]};", irets(rows[1]), ret=U, facts=fz)
                if cols:
                    op(L, f"{name}_{h}_cols", A + q0, body + f"return {who}.{cols[0]};", irets(cols[1]), ret=U, facts=fz)
    s1, s2 = "shape().first", "shape().second"
    N = lambda s: s("n")
    M = lambda s: s("k")
    kind("dv", "DynVec<$T>", [VA("v", "n")], "std::as_const(v)", [VA("w", "p")], "std::as_const(w)", N, lambda x, q: x.E("v", q), ("size()", N), None, iters=True)
    kind("dm", "DynMat<$T>", [I("n"), I("k"), VA("v", mul(n_, k_))], "n, k, std::as_const(v)", [I("p"), VA("w", mul(p_, p_))], "p, p, std::as_const(w)",
         lambda s: mul(s("n"), s("k")), lambda x, q: x.E("v", q), (s1, N), (s2, M), iters=True)
    for k in (3, 20):
        kind(f"sv{k}", f"SizedVec<$T,{k}>", [AA("v", k)], "v", [AA("w", k)], "w", lambda s, k=k: const(k), lambda x, q: x.E("v", q), ("size()", lambda s, k=k: const(k)), None, iters=True)
    for n, k in ((2, 3), (5, 4)):
        kind(f"sm{n}{k}", f"SizedMat<$T,{n},{k}>", [AA("v", n * k)], "v", [AA("w", n * k)], "w", lambda s, n=n, k=k: const(n * k), lambda x, q: x.E("v", q),
             (s1, lambda s, n=n: const(n)), (s2, lambda s, k=k: const(k)), iters=True)
    tdf = lambda m: m.facts.extend([eq(add(m.size("m"), ONE), m.size("n")), eq(add(m.size("t"), ONE), m.size("p"))] if "t" in m.sizes else [eq(add(m.size("m"), ONE), m.size("n"))])
    vs, ws = [VA("dl", "m"), VA("d", "n"), VA("du", "m")], [VA("el", "t"), VA("e", "p"), VA("eu", "t")]
    for part, ln in (("dl", "m"), ("d", "n"), ("du", "m")):
        kind(f"td_{part}", "DynTriDiagMat<$T>", vs, "std::as_const(dl), std::as_const(d), std::as_const(du)", ws, "std::as_const(el), std::as_const(e), std::as_const(eu)",
             lambda s, ln=ln: s(ln), lambda x, q, part=part: x.E(part, q), (s1, N), (s2, N), data=f"data_{part}()", facts=lambda m: m.facts.append(eq(add(m.size("m"), ONE), m.size("n"))), shape=part == "d")
        kind(f"std_{part}", "SizedTriDiagMat<$T,4>", [AA("dl", 3), AA("d", 4), AA("du", 3)], "dl, d, du", [AA("el", 3), AA("e", 4), AA("eu", 3)], "el, e, eu",
             lambda s, part=part: const(4 if part == "d" else 3), lambda x, q, part=part: x.E(part, q), None, None, data=f"data_{part}()", shape=False)
    V, W = VA("v", tri(n_)), VA("w", tri(p_))
    TRI = lambda s: tri(s("n"))
    for nm, ct in (("low", "DynLowerTriMat<$T>"), ("herm", "DynHermiteMat<$T>")):
        kind(nm, ct, [I("n"), V], "n, std::move(v)", [I("p"), W], "p, std::move(w)", TRI, lambda x, q: x.E("v", q), (s1, N), (s2, N), data="lower_data()",
             moved=("obj:v", "obj:w", "v", "w"))
    for nm, ct in (("slow", "SizedLowerTriMat<$T,4>"), ("sherm", "SizedHermiteMat<$T,4>")):
        kind(nm, ct, [AA("v", 10)], "v", [AA("w", 10)], "w", lambda s: const(10), lambda x, q: x.E("v", q), (s1, lambda s: const(4)), (s2, lambda s: const(4)),
             data="lower_data()")
    kind("up", "DynUpperTriMat<$T>", [V], "std::move(v)", [], "", TRI, lambda x, q: x.E("v", q), (s1, N), (s2, N), assign=False, moved=("obj:v", "v"), facts=lambda m: m.size("n") and None, grow=True)
    HES = lambda s: terms.sub(fdiv(mul(s("n"), add(s("n"), const(3))), 2), ONE)
    kind("hes", "HessenbergMat<$T>", [VA("v", HES(lambda s: n_))], "std::move(v)", [], "", HES, lambda x, q: x.E("v", q), (s1, N), (s2, N), assign=False, moved=("obj:v", "v"),
         facts=lambda m: m.facts.append(lt(ZERO, m.size("n"))), grow=True)
    for o in L:
        o.backends = ["Internal"]
    return L


def copied_values():
    """The operations of copies() that read an element, for the analyses that do not look at results."""
    return [o for o in copies() if o.name.endswith("_value") and not (o.name.startswith("td_") and "chain" in o.name)]
