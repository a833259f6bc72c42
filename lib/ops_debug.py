"""Operations on operands whose shapes need not fit, in programs compiled with assertions (C28)."""
import terms
from driver import *
from opspec import *
from ops_dense import F4, op, vecarg, matarg, dims, size_of
import ops_sparse
from ops_solver import KINDS, IDX, pivots, TRIN

F2 = ("double", "float")


def shapes():
    L = []

    def differ(*pairs):
        """A mismatch: some pair of sizes differs."""
        def spec(x):
            for a, b in pairs:
                a, b = (x.n(v) if isinstance(v, str) else const(v) for v in (a, b))
                if a is not b:
                    x.throws(bnot(eq(a, b)), "")
        return spec

    # element-wise sums of matrices
    for fn in ("add", "sub"):
        op(L, f"{fn}_DDD", [DM("a", "n", "k"), DM("b", "p", "q"), DM("r", "s", "t")], f"return &{fn}(a, b, r);", differ(("n", "p"), ("k", "q"), ("n", "s"), ("k", "t")), ret="const void*")
        op(L, f"{fn}_SDS", [SM("a", 2, 3), DM("b", "p", "q"), SM("r", 2, 3)], f"return &{fn}(a, b, r);", differ(("p", 2), ("q", 3)), ret="const void*")
        op(L, f"{fn}_DSS", [DM("a", "n", "k"), SM("b", 2, 3), SM("r", 2, 3)], f"return &{fn}(a, b, r);", differ(("n", 2), ("k", 3)), ret="const void*")
        s = "+" if fn == "add" else "-"
        op(L, f"{fn}_op", [Out("DynMat<$T>"), DM("a", "n", "k"), DM("b", "p", "q")], f"new(R) DynMat<$T>(a {s} b);", differ(("n", "p"), ("k", "q")))
    # products
    for kA, kx, ky in (("D", "D", "D"), ("D", 3, "D"), ((4, 3), "D", 4)):
        n, m = ("n", "m") if kA == "D" else kA
        x_, y_ = ("p" if kx == "D" else kx), ("q" if ky == "D" else ky)
        t = f"{'D' if kA == 'D' else 'S%d%d' % kA}{kx}{ky}"
        sz = [dict(n=a, m=b, p=c, q=d) for a in (0, 1, 3) for b in (0, 1, 3) for c in (0, 1, 3) for d in (0, 1, 3)]
        op(L, f"mv_{t}", [S("al"), matarg(kA, "A", "n", "m"), vecarg(kx, "x", "p"), S("be"), vecarg(ky, "y", "q")], "return &mul(al, A, x, be, y);", differ((m, x_), (n, y_)), ret="const void*", sizes=sz)
        ct = "DynVec<$T>" if ky == "D" else f"SizedVec<$T,{ky}>"
        op(L, f"mvop_{t}", [Out(ct), matarg(kA, "A", "n", "m"), vecarg(kx, "x", "p")], f"new(R) {ct}(A * x);", differ((m, x_)), sizes=sz)
    for kA in ("D", (2, 4)):
        for kB in ("D", (4, 3)):
            for kC in ("D", (2, 3)):
                if "D" not in (kA, kB, kC):
                    continue
                (n, l), (l2, m), (n2, m2) = (("n", "l") if kA == "D" else kA), (("p", "m") if kB == "D" else kB), (("s", "t") if kC == "D" else kC)
                t = "".join("D" if k == "D" else "S" for k in (kA, kB, kC))
                base = dict(n=2, l=4, p=4, m=3, s=2, t=3)
                sz = [base] + [{**base, k: v} for k in base for v in (0, 1, 5, base[k] + 1)]
                op(L, f"mm_{t}", [S("al"), matarg(kA, "A", "n", "l"), matarg(kB, "B", "p", "m"), S("be"), matarg(kC, "C", "s", "t")], "return &mul(al, A, B, be, C);",
                   differ((l, l2), (n, n2), (m, m2)), ret="const void*", sizes=sz)
    op(L, "mmop", [Out("DynMat<$T>"), DM("A", "n", "l"), DM("B", "p", "m")], "new(R) DynMat<$T>(A * B);", differ(("l", "p")), sizes=[dict(n=a, l=b, p=c, m=d) for a in (0, 2) for b in (0, 1, 2) for c in (0, 1, 2) for d in (0, 2)])
    # cross products
    V = lambda k, nm, sy, d: DV(nm, sy) if k == "D" else SV(nm, d)
    for ka in "DS":
        for kb in "DS":
            if (ka, kb) in (("D", "S"), ("S", "D")):
                bad = differ(*[(s_, 2) for k, s_ in ((ka, "n"), (kb, "p")) if k == "D"])
                op(L, f"cross2_{ka}{kb}", [V(ka, "x", "n", 2), V(kb, "y", "p", 2), Out("$T")], "new(R) $T(cross(x, y));", bad)
                bad = differ(*[(s_, 3) for k, s_ in ((ka, "n"), (kb, "p")) if k == "D"])
                op(L, f"cross3_{ka}{kb}", [V(ka, "x", "n", 3), V(kb, "y", "p", 3), Out("SizedVec<$T,3>")], "new(R) SizedVec<$T,3>(cross(x, y));", bad)
            for kr in "DS":
                if "D" not in (ka, kb, kr):
                    continue
                bad = differ(*[(s_, 3) for k, s_ in ((ka, "n"), (kb, "p"), (kr, "q")) if k == "D"])
                for fn in ("cross", "cross_acc"):
                    op(L, f"{fn}_{ka}{kb}{kr}", [V(ka, "x", "n", 3), V(kb, "y", "p", 3), V(kr, "r", "q", 3)], f"return &{fn}(x, y, r);", bad, ret="const void*")
    # tri-diagonal and Cholesky solves
    mf = lambda m: m.facts.append(eq(add(m.size("m"), ONE), m.size("n")))
    td = [Out("DynTriDiagMat<$T>", "O"), VA("dl", "m"), VA("d", "n"), VA("du", "m"), Out("solver::TriDiag<DynTriDiagMat<$T>>", "P")]
    make = "auto& a = *new(O) DynTriDiagMat<$T>(dl, d, du); auto& s = *new(P) solver::TriDiag<DynTriDiagMat<$T>>(std::move(a)); return &s.solve_linear(std::as_const(b), x);"
    op(L, "td_v", td + [DV("b", "p"), DV("x", "q")], make, differ(("n", "p"), ("n", "q")), ret="const void*", types=F2, facts=mf, sizes=[dict(m=n - 1, n=n, p=p, q=q) for n in (1, 2, 3) for p in range(5) for q in range(5)])
    op(L, "td_m", td + [DM("b", "p", "k"), DM("x", "q", "t")], make, differ(("n", "p"), ("n", "q"), ("k", "t")), ret="const void*", types=F2, facts=mf,
       sizes=[dict(m=n - 1, n=n, p=p, q=q, k=k, t=t) for n in (1, 2) for p in range(4) for q in range(4) for k in (1, 2) for t in (1, 2)])
    for kn, (ct, V_, expr, lay, dec, sol) in KINDS.items():
        macro = f"auto IX = [&](std::size_t i, std::size_t j) {{ return {IDX[lay]}; }}; " + ("auto* A = v.data(); " if kn == "tri" else "auto w_ = std::as_const(v); auto* A = w_.data(); ")
        for rk, B in (("v", DV("b", "p")), ("m", DM("b", "p", "k"))):
            def spec(x):
                x.res.skip_frame.update(("obj:v", "v"))
                x.throws(bor(x.refs["def"].throws(), bnot(eq(x.n("n"), x.n("p")))), "")
            sz = [dict(n=n, p=p, k=2) for n in (1, 2, 3) for p in range(5)]
            k = dict(types=F2, sizes=sz, floats=pivots(lay, "mod" if kn == "mod" else "chol"), facts=lambda m: m.size("n") and None)
            op(L, f"ch_{kn}_mut_{rk}", [Out(ct, "P"), I("n"), V_, B], f"auto& f = *new(P) {ct}({expr}); return &std::as_const(f).solve_linear_mut(b);", spec, ret="const void*", refs={"def": macro + dec + "return &b;"}, **k)
            r = "DynVec<$T>" if rk == "v" else "DynMat<$T>"
            op(L, f"ch_{kn}_new_{rk}", [Out(ct, "P"), I("n"), V_, B, Out(r)], f"auto& f = *new(P) {ct}({expr}); new(R) {r}(std::as_const(f).solve_linear(std::as_const(b)));", spec, refs={"def": macro + dec}, **k)
    # compressed rows: the number of columns is that of the matrix itself
    pre = f"auto& a = {ops_sparse.CSR}; "

    def sp(rows):
        def spec(x):
            ops_sparse.moved(x, "v", "rp", "ci")
            x.throws(bnot(eq(x.refs["cols"].ret(), x.n("p"))), "")
            if rows:
                x.throws(bnot(eq(x.n("n"), x.n("q"))), "")
        return spec
    kw = dict(facts=ops_sparse.csr_facts(), ints=ops_sparse.csr_ints, refs={"cols": pre + "return a.shape().second;"}, sizes=[dict(n=n, l=l, k=k, p=p, q=q) for n in (1, 2) for l in (0, 1, 2) for k in (1, 2) for p in (0, 1, 2) for q in (1, 2)])
    op(L, "sp_mul", ops_sparse.csr_args() + [I("k"), S("al"), DV("x", "p"), S("be"), DV("y", "q")], pre + "mul(al, a, std::as_const(x), be, y); return 0;", sp(True), ret="std::size_t", **kw)
    op(L, "sp_times", ops_sparse.csr_args() + [I("k"), Out("DynVec<$T>"), DV("x", "p")], pre + "new(R) DynVec<$T>(std::as_const(a) * std::as_const(x)); return 0;", sp(False), ret="std::size_t", **kw)
    for o in L:
        o.backends = ["Internal", "BLAS"] if o.name.startswith(("add", "sub", "mv", "mm")) else ["Internal"]
    return L
