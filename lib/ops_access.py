"""Element access, shapes and constructors of vectors and matrices (C10, C11)."""
from driver import *
from opspec import *
from ops_dense import F4, op, vecarg, size_of, matarg, dims


def lim(*pairs):
    """Facts index < bound."""
    return lambda m: m.facts.extend(lt(m.size(i), m.size(b) if not isinstance(b, int) else const(b)) for i, b in pairs)


def sel(cases, default):
    """Num chosen by the first true condition."""
    out = default
    for c, v in reversed(cases):
        out = Num(ite(c, p, o) for p, o in zip(v.c, out.c))
    return out


# ---------------------------------------------------------------- dense (C10)
def dense():
    L = []
    INT = [o for o in ("i",)]
    for k in ("D", 3):
        a = vecarg(k, "a", "n")
        n = "n" if k == "D" else k
        for nm, body in (("index", "return &a[i];"), ("cindex", "return &std::as_const(a)[i];"), ("data", "return a.data() + i;"), ("cdata", "return std::as_const(a).data() + i;"),
                         ("begin", "return &*(a.begin() + i);"), ("cbegin", "return &*(std::as_const(a).begin() + i);"), ("cbegin2", "return &*(a.cbegin() + i);"),
                         ("end", "return &*(a.end() - (a.size() - i));"), ("cend", "return &*(std::as_const(a).end() - (a.size() - i));"), ("cend2", "return &*(a.cend() - (a.size() - i));")):
            op(L, f"v_{nm}_{k}", [a, I("i")], body, lambda x: x.retptr("a", x.n("i")), ret="const void*", facts=lim(("i", n)))
        op(L, f"v_size_{k}", [a], "return a.size();", lambda x, k=k: x.iret(size_of(k, "n", x)), ret="std::size_t")
        op(L, f"v_count_{k}", [a], "return a.end() - a.begin();", lambda x, k=k: x.iret(size_of(k, "n", x)), ret="std::size_t")
        op(L, f"v_ccount_{k}", [a], "return std::as_const(a).end() - std::as_const(a).begin();", lambda x, k=k: x.iret(size_of(k, "n", x)), ret="std::size_t")
    # constructors of vectors
    op(L, "v_copy", [Out("DynVec<$T>"), VA("v", "n")], "new(R) DynVec<$T>(std::as_const(v));", lambda x: x.new_vec(x.n("n"), lambda q: x.E("v", q)))
    def moved(x):
        x.new_vec(x.n("n"), lambda q: x.E("v", q))
        x.res.skip_frame.add("obj:v")
    op(L, "v_move", [Out("DynVec<$T>"), VA("v", "n")], "new(R) DynVec<$T>(std::move(v));", moved)
    op(L, "v_copyctor", [Out("DynVec<$T>"), DV("a", "n")], "new(R) DynVec<$T>(std::as_const(a));", lambda x: x.new_vec(x.n("n"), lambda q: x.E("a", q)))
    op(L, "v_filled", [Out("DynVec<$T>"), S("al"), I("n")], "new(R) DynVec<$T>(DynVec<$T>::filled(n, al));", lambda x: x.new_vec(x.n("n"), lambda q: x.S("al")))
    op(L, "v_uninit_size", [I("n")], "return DynVec<$T>::uninit(n).size();", lambda x: x.iret(x.n("n")), ret="std::size_t")
    op(L, "v_list", [Out("DynVec<$T>"), S("a"), S("b"), S("c")], "new(R) DynVec<$T>{a, b, c};",
       lambda x: x.new_vec(const(3), lambda q: sel([(eq(q, ZERO), x.S("a")), (eq(q, ONE), x.S("b"))], x.S("c"))))
    for k in (3, 20):
        ct = f"SizedVec<$T,{k}>"
        op(L, f"sv_arr_{k}", [Out(ct), AA("v", k)], f"new(R) {ct}(v);", lambda x, k=k: x.new_svec(k, lambda q: x.E("v", q)))
        op(L, f"sv_filled_{k}", [Out(ct), S("al")], f"new(R) {ct}({ct}::filled(al));", lambda x, k=k: x.new_svec(k, lambda q: x.S("al")))
        op(L, f"sv_copy_{k}", [Out(ct), SV("a", k)], f"new(R) {ct}(std::as_const(a));", lambda x, k=k: x.new_svec(k, lambda q: x.E("a", q)))
        def fromvec(x, k=k):
            x.throws(bnot(eq(x.n("n"), const(k))), "")
            x.new_svec(k, lambda q: x.E("v", q))
        op(L, f"sv_vec_{k}", [Out(ct), VA("v", "n")], f"new(R) {ct}(std::as_const(v));", fromvec)
    op(L, "sv_list", [Out("SizedVec<$T,3>"), S("a"), S("b"), S("c")], "new(R) SizedVec<$T,3>{a, b, c};",
       lambda x: x.new_svec(3, lambda q: sel([(eq(q, ZERO), x.S("a")), (eq(q, ONE), x.S("b"))], x.S("c"))))
    # matrices
    for k in ("D", (2, 3), (4, 5)):
        a = matarg(k, "a", "n", "k")
        t = "D" if k == "D" else "S%d%d" % k
        n, m = ("n", "k") if k == "D" else k
        for nm, body in (("call", "return &a(i, j);"), ("ccall", "return &std::as_const(a)(i, j);"), ("at", "return &std::as_const(a).at(i, j);"), ("mut_at", "return &a.mut_at(i, j);"),
                         ("data", f"return a.data() + i * a.shape().second + j;"), ("cdata", "return std::as_const(a).data() + i * a.shape().second + j;"),
                         ("begin", "return &*(a.begin() + (i * a.shape().second + j));"), ("cbegin", "return &*(std::as_const(a).begin() + (i * a.shape().second + j));"), ("cbegin2", "return &*(a.cbegin() + (i * a.shape().second + j));")):
            op(L, f"m_{nm}_{t}", [a, I("i"), I("j")], body, lambda x, k=k: x.retptr("a", add(mul(x.n("i"), dims(k, "n", "k", x)[1]), x.n("j"))), ret="const void*", facts=lim(("i", n), ("j", m)))
        op(L, f"m_rows_{t}", [a], "return a.shape().first;", lambda x, k=k: x.iret(dims(k, "n", "k", x)[0]), ret="std::size_t")
        op(L, f"m_cols_{t}", [a], "return a.shape().second;", lambda x, k=k: x.iret(dims(k, "n", "k", x)[1]), ret="std::size_t")
        for nm, body in (("count", "return a.end() - a.begin();"), ("ccount", "return std::as_const(a).end() - std::as_const(a).begin();"), ("ccount2", "return a.cend() - a.cbegin();")):
            op(L, f"m_{nm}_{t}", [a], body, lambda x, k=k: x.iret(mul(*dims(k, "n", "k", x))), ret="std::size_t")
    M = "DynMat<$T>"
    nk = lambda m: m.facts.append(eq(m.size("l"), mul(m.size("n"), m.size("k"))))
    op(L, "m_vec", [Out(M), I("n"), I("k"), VA("v", "l")], f"new(R) {M}(n, k, std::as_const(v));", lambda x: x.new_mat("n", "k", lambda i, j: x.E("v", add(mul(i, x.n("k")), j))), facts=nk)
    op(L, "m_list", [Out(M), S("a"), S("b")], f"new(R) {M}(2, 1, {{a, b}});", lambda x: x.new_mat(const(2), const(1), lambda i, j: sel([(eq(i, ZERO), x.S("a"))], x.S("b"))))
    op(L, "m_copy", [Out(M), DM("a", "n", "k")], f"new(R) {M}(std::as_const(a));", lambda x: x.new_mat("n", "k", lambda i, j: x.E("a", add(mul(i, x.n("k")), j))))
    op(L, "m_filled", [Out(M), S("al"), I("n"), I("k")], f"new(R) {M}({M}::filled(al, n, k));", lambda x: x.new_mat("n", "k", lambda i, j: x.S("al")))
    op(L, "m_diag", [Out(M), S("al"), I("n")], f"new(R) {M}({M}::diag(al, n));", lambda x: x.new_mat("n", "n", lambda i, j: sel([(eq(i, j), x.S("al"))], x.c(0))))
    op(L, "m_diagv", [Out(M), VA("v", "n")], f"new(R) {M}({M}::diag(std::as_const(v)));", lambda x: x.new_mat("n", "n", lambda i, j: sel([(eq(i, j), x.E("v", i))], x.c(0))))
    op(L, "m_identity", [Out(M), I("n")], f"new(R) {M}({M}::identity(n));", lambda x: x.new_mat("n", "n", lambda i, j: sel([(eq(i, j), x.c(1))], x.c(0))))
    for nm, f in (("rows", "first"), ("cols", "second")):
        op(L, f"m_uninit_{nm}", [I("n"), I("k")], f"return {M}::uninit(n, k).shape().{f};", lambda x, nm=nm: x.iret(x.n("n" if nm == "rows" else "k")), ret="std::size_t")
    for n, k in ((2, 3), (4, 4)):
        ct = f"SizedMat<$T,{n},{k}>"
        t = f"{n}{k}"
        op(L, f"sm_arr_{t}", [Out(ct), AA("v", n * k)], f"new(R) {ct}(v);", lambda x, n=n, k=k: x.new_smat(n, k, lambda i, j: x.E("v", add(scale(i, k), j))))
        op(L, f"sm_copy_{t}", [Out(ct), SM("a", n, k)], f"new(R) {ct}(std::as_const(a));", lambda x, n=n, k=k: x.new_smat(n, k, lambda i, j: x.E("a", add(scale(i, k), j))))
        op(L, f"sm_filled_{t}", [Out(ct), S("al")], f"new(R) {ct}({ct}::filled(al));", lambda x, n=n, k=k: x.new_smat(n, k, lambda i, j: x.S("al")))
        def fromvec(x, n=n, k=k):
            x.throws(bnot(eq(x.n("l"), const(n * k))), "")
            x.new_smat(n, k, lambda i, j: x.E("v", add(scale(i, k), j)))
        op(L, f"sm_vec_{t}", [Out(ct), VA("v", "l")], f"new(R) {ct}(std::as_const(v));", fromvec)
        if n == k:
            op(L, f"sm_diag_{t}", [Out(ct), S("al")], f"new(R) {ct}({ct}::diag(al));", lambda x, n=n: x.new_smat(n, n, lambda i, j: sel([(eq(i, j), x.S("al"))], x.c(0))))
            op(L, f"sm_diagv_{t}", [Out(ct), AA("v", n)], f"new(R) {ct}({ct}::diag(v));", lambda x, n=n: x.new_smat(n, n, lambda i, j: sel([(eq(i, j), x.E("v", i))], x.c(0))))
            op(L, f"sm_identity_{t}", [Out(ct)], f"new(R) {ct}({ct}::identity());", lambda x, n=n: x.new_smat(n, n, lambda i, j: sel([(eq(i, j), x.c(1))], x.c(0))))
    for o in L:
        o.backends = ["Internal"]
    return L


# ---------------------------------------------------------------- structured matrices (C11)
def tri(j):
    """j(j+1)/2"""
    return fdiv(mul(j, add(j, ONE)), 2)


def structured():
    L = []

    def acc(name, args, make, ctype, inside, data, size, mutable_zero=True, objs=(), facts=None, types=F4, enum=None):
        """inside(x, i, j): cases (condition, array, index); nothing else is stored.  data: accessor -> (array, length)."""
        A = [Out(ctype, "O")] + args
        pre = f"auto& a = {make}; "
        ij = [I("i"), I("j")]

        def within(*pairs):
            def f(m):
                if facts:
                    facts(m)
                for v, b in pairs:
                    b = size(m.size) if b is None else m.size(b) if isinstance(b, (str, int)) else b(m.size)
                    m.facts.append(lt(m.size(v), b))
            return f
        fij = within(("i", None), ("j", None))

        def skip(x):
            x.res.skip_frame.update("obj:" + o for o in objs)

        def read(x):
            skip(x)
            i, j = x.n("i"), x.n("j")
            x.val(sel([(c, x.E(r, k)) for c, r, k in inside(x, i, j)], x.c(0)))
        for nm, call in (("read", "std::as_const(a)(i, j)"), ("at", "std::as_const(a).at(i, j)")):
            op(L, f"{name}_{nm}", A + ij + [Out("$T")], pre + f"new(R) $T({call});", read, facts=fij, types=types, enum=enum and {k: enum for k in "ij"})

        def outside(x, i, j):
            r = TRUE
            for c, _, _ in inside(x, i, j):
                r = band(r, bnot(c))
            return r

        def mutz(x):
            skip(x)
            i, j = x.n("i"), x.n("j")
            if mutable_zero:
                x.throws(outside(x, i, j), "")
            x.val(sel([(c, x.E(r, k)) for c, r, k in inside(x, i, j)], x.c(0)))
        for nm, call in (("mread", "a(i, j)"), ("mut_at", "a.mut_at(i, j)")):
            op(L, f"{name}_{nm}", A + ij + [Out("$T")], pre + f"new(R) $T({call});", mutz, facts=fij, types=types, enum=enum and {k: enum for k in "ij"})

        # a write is seen by exactly the positions that share the stored element
        def wr(x):
            skip(x)
            i, j, p, q = (x.n(k) for k in "ijpq")
            if mutable_zero:
                x.throws(outside(x, i, j), "")
            cases = []
            for c, r, k in inside(x, p, q):
                same = False_()
                for c2, r2, k2 in inside(x, i, j):
                    if r2 == r:
                        same = bor(same, band(c2, eq(k, k2)))
                cases.append((c, Num(ite(same, s_, e_) for s_, e_ in zip(x.S("al").c, x.E(r, k).c))))
                x.res.skip_frame.add(r)
            x.val(sel(cases, x.c(0)))
        op(L, f"{name}_write", A + ij + [I("p"), I("q"), S("al"), Out("$T")], pre + "a(i, j) = al; new(R) $T(std::as_const(a)(p, q));", wr,
           facts=within(("i", None), ("j", None), ("p", None), ("q", None)), types=types, enum=enum and {k: enum for k in "ijpq"})
        for nm, (root, n) in data.items():
            for cst in (("", "c") if nm != "data" else ("",)):
                call = f"std::as_const(a).{nm}()" if cst else f"a.{nm}()"
                op(L, f"{name}_{cst}{nm}", A + [I("k"), Out("$T")], pre + f"new(R) $T({call}[k]);",
                   lambda x, root=root: (skip(x), x.val(x.E(root, x.n("k"))))[-1], facts=within(("k", n)), types=types)
        for k, nm in ((0, "rows"), (1, "cols")):
            op(L, f"{name}_{nm}", A, pre + f"return a.shape().{('first', 'second')[k]};", lambda x: (skip(x), x.iret(size(x.n)))[-1], ret="std::size_t", facts=facts, types=types)

    def False_():
        return bnot(TRUE)

    def tdcases(x, i, j):
        return [(eq(i, j), "d", i), (eq(add(i, ONE), j), "du", i), (eq(i, add(j, ONE)), "dl", j)]
    td = {"data_d": ("d", "n"), "data_dl": ("dl", "m"), "data_du": ("du", "m")}
    tdf = lambda m: m.facts.extend([eq(add(m.size("m"), ONE), m.size("n"))])
    vs = [VA("dl", "m"), VA("d", "n"), VA("du", "m")]
    N = lambda s: s("n")
    acc("td", vs, "*new(O) DynTriDiagMat<$T>(std::as_const(dl), std::as_const(d), std::as_const(du))", "DynTriDiagMat<$T>", tdcases, td, N, facts=tdf)
    acc("tdm", vs, "*new(O) DynTriDiagMat<$T>(std::move(dl), std::move(d), std::move(du))", "DynTriDiagMat<$T>", tdcases, td, N, objs=("dl", "d", "du"), facts=tdf)
    for n in (2, 5):
        acc(f"std{n}", [AA("dl", n - 1), AA("d", n), AA("du", n - 1)], f"*new(O) SizedTriDiagMat<$T,{n}>(dl, d, du)", f"SizedTriDiagMat<$T,{n}>", tdcases,
            {"data_d": ("d", n), "data_dl": ("dl", n - 1), "data_du": ("du", n - 1)}, lambda s, n=n: const(n))

    # packed lower triangles
    lowc = lambda x, i, j: [(le(j, i), "v", add(tri(i), j))]
    hermc = lambda x, i, j: [(le(j, i), "v", add(tri(i), j)), (lt(i, j), "v", add(tri(j), i))]
    TRI = lambda s: tri(s("n"))
    ld = {"lower_data": ("v", TRI)}
    n_ = var("n")
    V = VA("v", tri(n_))
    nf = lambda m: m.size("n") and None
    acc("low", [I("n"), V], "*new(O) DynLowerTriMat<$T>(n, std::move(v))", "DynLowerTriMat<$T>", lowc, ld, N, objs=("v",))
    acc("herm", [I("n"), V], "*new(O) DynHermiteMat<$T>(n, std::move(v))", "DynHermiteMat<$T>", hermc, ld, N, objs=("v",), mutable_zero=False, types=F4[:2])
    acc("hlow", [I("n"), V], "*new(O) DynLowerTriMat<$T>(DynHermiteMat<$T>(n, std::move(v)).into_lower_mat())", "DynLowerTriMat<$T>", lowc, ld, N, objs=("v",))
    for n in (1, 3, 6):
        k = n * (n + 1) // 2
        sld, sz = {"lower_data": ("v", k)}, lambda s, n=n: const(n)
        acc(f"slow{n}", [AA("v", k)], f"*new(O) SizedLowerTriMat<$T,{n}>(v)", f"SizedLowerTriMat<$T,{n}>", lowc, sld, sz)
        acc(f"sherm{n}", [AA("v", k)], f"*new(O) SizedHermiteMat<$T,{n}>(v)", f"SizedHermiteMat<$T,{n}>", hermc, sld, sz, mutable_zero=False, types=F4[:2])
        acc(f"shlow{n}", [AA("v", k)], f"*new(O) SizedLowerTriMat<$T,{n}>(SizedHermiteMat<$T,{n}>(v).into_lower_mat())", f"SizedLowerTriMat<$T,{n}>", lowc, sld, sz, enum=n if n <= 3 else None)

    # column-packed upper triangle and Hessenberg form: the size follows from the number of elements
    upc = lambda x, i, j: [(le(i, j), "v", add(tri(j), i))]
    hec = lambda x, i, j: [(le(i, add(j, ONE)), "v", add(add(tri(j), j), i))]
    HES = lambda s: terms.sub(fdiv(mul(s("n"), add(s("n"), const(3))), 2), ONE)
    hf = lambda m: m.facts.append(lt(ZERO, m.size("n")))
    acc("up", [V], "*new(O) DynUpperTriMat<$T>(std::move(v))", "DynUpperTriMat<$T>", upc, {"data": ("v", TRI)}, N, objs=("v",), facts=nf)
    acc("hes", [VA("v", HES(lambda s: n_))], "*new(O) HessenbergMat<$T>(std::move(v))", "HessenbergMat<$T>", hec, {"data": ("v", HES)}, N, objs=("v",), facts=hf)
    for o in L:
        o.backends = ["Internal"]
    return L


# ---------------------------------------------------------------- size inference and growth (C13)
def growth():
    L = []
    n_ = var("n")
    triv = VA("v", tri(n_))
    HES = lambda n: terms.sub(fdiv(mul(n, add(n, const(3))), 2), ONE)
    hesv = VA("v", HES(n_))
    kinds = {"up": ("DynUpperTriMat<$T>", triv, 1, lambda n: tri(n), lambda i, j: le(i, j), lambda i, j: add(tri(j), i)),
             "hes": ("HessenbergMat<$T>", hesv, 17, HES, lambda i, j: le(i, add(j, ONE)), lambda i, j: add(add(tri(j), j), i))}
    for nm, (ct, V, c0, ln, inside, idx) in kinds.items():
        def root_of(x, c0=c0):
            return isqrt(add(scale(x.n("l"), 8), const(c0)))

        def bad(x, c0=c0, root_of=root_of):
            r = root_of(x)
            b = bnot(eq(mul(r, r), add(scale(x.n("l"), 8), const(c0))))
            return band(bnot(eq(x.n("l"), ZERO)), b) if c0 == 17 else b

        def infer(x, nm=nm, root_of=root_of, bad=bad):
            x.throws(bad(x), "")
            x.res.skip_frame.add("obj:v")
            n = fdiv(terms.sub(root_of(x), const(1 if nm == "up" else 3)), 2)
            x.iret(n if nm == "up" else ite(eq(x.n("l"), ZERO), ZERO, n))
        sizes = [{"l": l} for l in range(0, 40)]
        op(L, f"{nm}_infer", [VA("v", "l")], f"return {ct}(std::move(v)).shape().first;", infer, ret="std::size_t", sizes=sizes)
        op(L, f"{nm}_capacity", [I("k")], f"return {ct}::with_capacity(k).shape().first;", lambda x: x.iret(ZERO), ret="std::size_t")
        pos = (lambda m: m.facts.append(lt(ZERO, m.size("n")))) if nm == "hes" else (lambda m: m.size("n") and None)

        def ext(m, pos=pos):
            pos(m)
            for k in "ij":
                m.facts.append(le(m.size(k), m.size("n")))

        def grown(x, new, inside=inside, idx=idx, ln=ln, nm=nm):
            x.res.skip_frame.update(("obj:v", "obj:w"))
            i, j, n = x.n("i"), x.n("j"), x.n("n")
            old = x.E("v", idx(i, j))
            isold = lt(j, n) if nm == "up" else bor(lt(add(j, ONE), n), band(eq(add(j, ONE), n), lt(i, n)))
            x.val(sel([(bnot(inside(i, j)), x.c(0)), (isold, old)], new(x, terms.sub(idx(i, j), ln(n)))))
        A = [Out(ct, "O"), V]
        pre = f"auto& a = *new(O) {ct}(std::move(v)); "
        op(L, f"{nm}_extzero", A + [I("i"), I("j"), Out("$T")], pre + "a.extend_with_zero(); new(R) $T(std::as_const(a)(i, j));",
           lambda x, grown=grown: grown(x, lambda x, k: x.c(0)), facts=ext)
        op(L, f"{nm}_extzero_n", A, pre + "a.extend_with_zero(); return a.shape().first;",
           lambda x: (x.res.skip_frame.add("obj:v"), x.iret(add(x.n("n"), ONE)))[-1], ret="std::size_t", facts=pos)
        op(L, f"{nm}_extzero2_n", A, pre + "a.extend_with_zero(); a.extend_with_zero(); return a.shape().second;",
           lambda x: (x.res.skip_frame.add("obj:v"), x.iret(add(x.n("n"), const(2))))[-1], ret="std::size_t", facts=pos)
        need = 1 if nm == "up" else 2

        def extw(x, grown=grown, need=need):
            x.throws(bnot(eq(x.n("l"), add(x.n("n"), const(need)))), "")
            grown(x, lambda x, k: x.E("w", k))
        op(L, f"{nm}_extwith", A + [VA("w", "l"), I("i"), I("j"), Out("$T")], pre + "a.extend_with(std::move(w)); new(R) $T(std::as_const(a)(i, j));", extw, facts=ext)

        def extn(x, need=need):
            x.res.skip_frame.update(("obj:v", "obj:w"))
            x.throws(bnot(eq(x.n("l"), add(x.n("n"), const(need)))), "")
            x.iret(add(x.n("n"), ONE))
        op(L, f"{nm}_extwith_n", A + [VA("w", "l")], pre + "a.extend_with(std::move(w)); return a.shape().first;", extn, ret="std::size_t", facts=pos)
        # grown from nothing
        op(L, f"{nm}_fromempty_n", [Out(ct, "O"), I("k")], f"auto& a = *new(O) {ct}({ct}::with_capacity(k)); a.extend_with_zero(); return a.shape().first;", lambda x: x.iret(ONE), ret="std::size_t")
        op(L, f"{nm}_fromempty", [Out(ct, "O"), Out("$T")], f"auto& a = *new(O) {ct}({ct}::with_capacity(0)); a.extend_with_zero(); new(R) $T(std::as_const(a)(0, 0));", lambda x: x.val(x.c(0)))
    # columns of the Hessenberg matrix
    def colf(m):
        m.facts.append(lt(m.size("j"), m.size("n")))
    ct = "HessenbergMat<$T>"
    pre = f"auto& a = *new(O) {ct}(std::move(v)); "
    A = [Out(ct, "O"), hesv, I("j")]
    # the last column has no sub-diagonal element
    clen = lambda x: ite(eq(add(x.n("j"), ONE), x.n("n")), x.n("n"), add(x.n("j"), const(2)))
    op(L, "hes_col_n", A, pre + "return std::as_const(a).get_col(j).size();", lambda x: (x.res.skip_frame.add("obj:v"), x.iret(clen(x)))[-1], ret="std::size_t", facts=colf)

    def colk(m):
        colf(m)
        m.size("k")
    def col(x):
        x.res.skip_frame.add("obj:v")
        x.val(x.E("v", add(add(tri(x.n("j")), x.n("j")), x.n("k"))))
    op(L, "hes_col", A + [I("k"), Out("$T")], pre + "new(R) $T(std::as_const(a).get_col(j)[k]);", col,
       facts=lambda m: (colf(m), m.facts.append(le(m.size("k"), add(m.size("j"), ONE))), m.facts.append(lt(m.size("k"), m.size("n"))))[0])
    for o in L:
        o.backends = ["Internal"]

        def bounded(m, f=o.facts):
            if f:
                f(m)
            for s in list(m.sizes):
                m.facts.append(le(var(s), const(1 << 28)))
        o.facts = bounded
    return L
