"""Objects without elements: default construction, capacity only, empty arrays, and growing from there (C27)."""
import terms
from driver import *
from opspec import *
from ops_dense import F4, op
from ops_coo import Buf, SHOW, trip, outs, coo_ints, SORT_, COUNT, three

U = "std::size_t"


def empties():
    L = []

    def count(name, args, body, value=0, **kw):
        op(L, name, args, body, lambda x: x.iret(const(value)), ret=U, **kw)
    S1 = "return a.shape().first * 1000 + a.shape().second;"
    count("dv_default", [], "DynVec<$T> a; return a.size() + (a.end() - a.begin()) + (a.cend() - a.cbegin());")
    count("dv_none", [], "DynVec<$T> a{std::vector<$T>()}; return a.size() + (a.end() - a.begin());")
    op(L, "dv_default_dot", [Out("$T")], "DynVec<$T> a, b; new(R) $T(dot(a, b));", lambda x: x.val(x.c(0)))
    op(L, "dv_default_mdot", [Out("$T")], "DynVec<$T> a, b; new(R) $T(a.dot(b));", lambda x: x.val(x.c(0)))
    op(L, "dv_default_norm", [Out("$T")], "DynVec<$T> a; new(R) $T(a.norm2());", lambda x: x.val(x.c(0)))
    count("dv_default_plus", [], "DynVec<$T> a, b; return (a + b).size() + (a - b).size() + (-a).size();")
    count("dv_default_scaled", [S("al")], "DynVec<$T> a; return (al * a).size() + scale(al, a).size();")
    op(L, "dv_default_assigned", [Out("DynVec<$T>"), DV("b", "n")], "auto& a = *new(R) DynVec<$T>(); a = std::as_const(b);", lambda x: x.new_vec("n", lambda q: x.E("b", q)))
    op(L, "dv_default_add", [DV("b", "n")], "DynVec<$T> a; a + b;", lambda x: x.throws(bnot(eq(x.n("n"), ZERO)), ""))
    count("dm_none", [], "DynMat<$T> a(0, 0, std::vector<$T>()); return a.shape().first * 1000 + a.shape().second + (a.end() - a.begin());")
    count("dm_norows", [], "DynMat<$T> a(0, 7, std::vector<$T>()); return a.shape().first * 1000 + a.shape().second + (a.end() - a.begin());", 7)
    count("dm_nocols", [], "DynMat<$T> a(7, 0, std::vector<$T>()); return a.shape().first * 1000 + a.shape().second + (a.end() - a.begin());", 7000)
    count("dm_mul_none", [], "DynMat<$T> a(0, 2, std::vector<$T>()), b(2, 0, std::vector<$T>()); auto c = a * b; return c.shape().first * 1000 + c.shape().second;")
    op(L, "dm_mul_inner_none", [Out("DynMat<$T>"), I("n"), I("k")], "DynMat<$T> a(n, 0, std::vector<$T>()), b(0, k, std::vector<$T>()); new(R) DynMat<$T>(a * b);", lambda x: x.new_mat("n", "k", lambda i, j: x.c(0)))
    op(L, "dm_vec_inner_none", [Out("DynVec<$T>"), I("n")], "DynMat<$T> a(n, 0, std::vector<$T>()); DynVec<$T> b; new(R) DynVec<$T>(a * b);", lambda x: x.new_vec("n", lambda i: x.c(0)))
    count("dm_identity_none", [], "auto a = DynMat<$T>::identity(0); " + S1)
    count("td_none", [], "DynTriDiagMat<$T> a(std::vector<$T>{}, std::vector<$T>{}, std::vector<$T>{}); " + S1)
    count("low_none", [], "DynLowerTriMat<$T> a(0, std::vector<$T>()); " + S1)
    count("herm_none", [], "DynHermiteMat<$T> a(0, std::vector<$T>()); " + S1)
    for nm, ct in (("up", "DynUpperTriMat<$T>"), ("hes", "HessenbergMat<$T>")):
        makes = [("none", f"{ct} a(std::vector<$T>{{}}); ", []), ("capacity", f"auto a = {ct}::with_capacity(k); ", [I("k")])]
        if nm == "up":
            makes.append(("default", f"{ct} a; ", []))
        for mk_, make, args in makes:
            fk = (lambda m: m.facts.append(lt(m.size("k"), const(1 << 28)))) if args else None
            count(f"{nm}_{mk_}", args, make + S1, facts=fk)
            count(f"{nm}_{mk_}_zero", args, make + "a.extend_with_zero(); " + S1, 1001, facts=fk)
            op(L, f"{nm}_{mk_}_zero_value", args + [Out("$T")], make + "a.extend_with_zero(); new(R) $T(std::as_const(a)(0, 0));", lambda x: x.val(x.c(0)), facts=fk)
            k = 1 if nm == "up" else 2

            def wrong(x, k=k):
                x.throws(bnot(eq(x.n("m"), const(k))), "invalid_argument")
                x.iret(const(1001))
                x.res.skip_frame.update(("obj:w", "w"))
            op(L, f"{nm}_{mk_}_with", args + [VA("w", "m")], make + "a.extend_with(std::move(w)); " + S1, wrong, ret=U, facts=fk, **({"sizes": [dict(k=c, m=v) for v in range(5) for c in (0, 1, 4)]} if args else {}))

            def first(x, k=k):
                x.val(x.E("w", ZERO))
                x.res.skip_frame.update(("obj:w", "w"))
            # growing a second time
            for q, (i, j) in enumerate(((0, 1), (1, 1)) if nm == "up" else ((1, 0), (0, 1), (1, 1))):
                def second(x, q=q):
                    x.val(x.E("w", const(q)))
                    x.res.skip_frame.update(("obj:w", "w"))
                f2 = lambda m, k=k: m.facts.extend([eq(m.size("m"), const(k + 1))] + ([lt(m.size("k"), const(1 << 28))] if "k" in m.sizes else []))
                op(L, f"{nm}_{mk_}_zero_with_{i}{j}", args + [VA("w", "m"), Out("$T")], make + f"a.extend_with_zero(); a.extend_with(std::move(w)); new(R) $T(std::as_const(a)({i}, {j}));", second, facts=f2, sizes=[dict(m=k + 1, k=c) for c in (0, 1, 4)])
            count(f"{nm}_{mk_}_zero_zero", args, make + "a.extend_with_zero(); a.extend_with_zero(); " + S1, 2002, facts=fk)
            op(L, f"{nm}_{mk_}_zero_zero_value", args + [I("i"), I("j"), Out("$T")], make + "a.extend_with_zero(); a.extend_with_zero(); new(R) $T(std::as_const(a)(i, j));", lambda x: x.val(x.c(0)),
               facts=lambda m, fk=fk: (fk(m) if fk else None, m.facts.extend([lt(m.size("i"), const(2)), lt(m.size("j"), const(2))]))[0])
            fw = lambda m, k=k: m.facts.extend([eq(m.size("m"), const(k))] + ([lt(m.size("k"), const(1 << 28))] if "k" in m.sizes else []))
            op(L, f"{nm}_{mk_}_with_value", args + [VA("w", "m"), Out("$T")], make + "a.extend_with(std::move(w)); new(R) $T(std::as_const(a)(0, 0));", first, facts=fw, sizes=[dict(m=k, k=c) for c in (0, 1, 4)])
    count("up_default_sub", [], "DynUpperTriMat<$T> a; std::vector<$T> y; a.back_sub(y); return y.size();")
    op(L, "up_default_sub_other", [VA("y", "m")], "DynUpperTriMat<$T> a; a.back_sub(y);", lambda x: x.throws(bnot(eq(x.n("m"), ZERO)), "invalid_argument"))
    for o in L:
        o.backends = ["Internal", "BLAS"] if o.name.startswith(("dv_", "dm_")) else ["Internal"]

    # sparse matrices
    n0 = len(L)
    shape = "return a.nnz() * 1000000 + a.shape().first * 1000 + a.shape().second + a.values().size() + a.col_indices().size();"
    count("coo_default", [], "SpCooMat<$T> a; " + shape)
    count("coo_none", [], "SpCooMat<$T> a(std::vector<$T>{}, std::vector<std::size_t>{}, std::vector<std::size_t>{}); " + shape)
    count("coo_unit_none", [], "auto a = SpCooMat<$T>::unit(0); " + shape)
    count("csr_default", [], "SpMat<$T> a; " + shape)
    count("csr_none", [], "SpMat<$T> a(std::vector<$T>{}, std::vector<std::size_t>{0}, std::vector<std::size_t>{}); " + shape)
    count("csr_unit_none", [], "auto a = SpMat<$T>::unit(0); " + shape)
    count("csr_of_default_coo", [], "SpCooMat<$T> b; SpMat<$T> a(b); " + shape)
    count("csr_of_default_coo_move", [], "SpCooMat<$T> b; SpMat<$T> a(std::move(b)); " + shape)
    count("csr_no_entries", [], "SpMat<$T> a(std::vector<$T>{}, std::vector<std::size_t>{0, 0, 0}, std::vector<std::size_t>{}); " + shape, 2000)
    for nm, e in (("at", "std::as_const(a).at(i, j)"), ("call", "std::as_const(a)(i, j)")):
        op(L, f"coo_default_{nm}", [I("i"), I("j"), Buf("o", 1)], f"SpCooMat<$T> a; o[0] = {e};", lambda x: x.vec("o", 1, lambda q: x.c(0)))
    op(L, "coo_default_mut", [I("i"), I("j")], "SpCooMat<$T> a; a.mut_at(i, j);", lambda x: x.throws(TRUE, "out_of_range"))
    count("coo_default_sum", [], "SpCooMat<$T> b, c; auto a = b + c; " + shape)
    count("coo_default_diff", [], "SpCooMat<$T> b, c; auto a = b - c; " + shape)
    count("coo_default_iadd", [], "SpCooMat<$T> a, c; a += c; " + shape)
    count("coo_default_scale", [S("al")], "SpCooMat<$T> a; scale(al, a); " + shape)
    count("csr_default_scale", [S("al")], "SpMat<$T> a; scale(al, a); " + shape)
    count("csr_default_times", [], "SpMat<$T> a; DynVec<$T> x; return (a * x).size();")
    show = f"return ({SHOW})(a, ov, oi, oc);"
    srt = SORT_ + "auto id = order(r, c); std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) { ov[k] = v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } return " + COUNT + ";"
    kw = dict(ret=U, ints=coo_ints([("r", "c", "l")], rows_far=False), refs={"def": srt})
    op(L, "coo_sum_default_right", trip() + outs(), "SpCooMat<$T> b(v, r, c), z; auto a = b + z; " + show, three(), **kw)
    op(L, "coo_sum_default_left", trip() + outs(), "SpCooMat<$T> b(v, r, c), z; auto a = z + b; " + show, three(), **kw)
    op(L, "coo_diff_default_right", trip() + outs(), "SpCooMat<$T> b(v, r, c), z; auto a = b - z; " + show, three(), **kw)
    op(L, "coo_iadd_default_right", trip() + outs(), "SpCooMat<$T> a(v, r, c), z; a += z; " + show, three(), **kw)
    op(L, "coo_iadd_default_left", trip() + outs(), "SpCooMat<$T> b(v, r, c), a; a += b; " + show, three(), **kw)
    for o in L[n0:]:
        o.backends, o.shim = ["Internal"], True
        o.types = [t for t in o.types if t != "std::complex<float>"]
    return L
