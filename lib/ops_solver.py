"""Solvers: tri-diagonal systems, Cholesky factorizations, back substitution, orthogonalisation.

The definitions are the textbook recurrences, written in C++ over plain arrays and summarised by the same
analysis; the LAPACK configuration has a second one, a direct call of the routine."""
from driver import *
from opspec import *
import terms
from ops_dense import F4, op

F2 = ["double", "float"]

# ---------------------------------------------------------------- tri-diagonal systems
# The Thomas algorithm for K right-hand sides stored by rows.
TDMA = """
for (std::size_t c = 0; c < K; ++c) {
    if (n == 0) { break; }
    if (n == 1) { X[c] = B[c] / D[0]; continue; }
    std::vector<$T> p, q;
    p.reserve(n); q.reserve(n);
    p.emplace_back(-DU[0] / D[0]);
    q.emplace_back(B[c] / D[0]);
    for (std::size_t i = 1; i < n - 1; ++i) {
        auto den = D[i] + DL[i - 1] * p[i - 1];
        p.emplace_back(-DU[i] / den);
        q.emplace_back((B[c + i * K] - DL[i - 1] * q[i - 1]) / den);
    }
    X[c + (n - 1) * K] = (B[c + (n - 1) * K] - DL[n - 2] * q[n - 2]) / (D[n - 1] + DL[n - 2] * p[n - 2]);
    for (int i = n - 2; i >= 0; --i) { X[c + i * K] = p[i] * X[c + (i + 1) * K] + q[i]; }
}
"""


def lap(T):
    return "s" if "float" in T else "d"


def tri_diag():
    L = []

    def add_op(name, n, k, mat, rhs, objs, alias=False, facts=None, lapack=False):
        """mat: arguments of the matrix and its construction; rhs: the kind of right-hand side."""
        args, make, ctype = mat
        A = [Out(ctype, "O")] + args + [Out(f"solver::TriDiag<{ctype}>", "P"), rhs("b")] + ([] if alias else [rhs("x")])
        x_ = "b" if alias else "x"
        body = f"auto& a = *new(O) {ctype}({make}); auto& s = *new(P) solver::TriDiag<{ctype}>(std::move(a)); return &s.solve_linear({'b' if alias else 'std::as_const(b)'}, {x_});"
        raw = f"auto* DL = dl.data(); auto* D = d.data(); auto* DU = du.data(); auto* B = b.data(); auto* X = {x_}.data(); std::size_t n = d.size(); std::size_t K = {'1' if k is None else 'b.shape().second'}; "

        def spec(x):
            r = x.refs["tdma"]
            x.res.skip_frame.update("obj:" + o for o in objs)
            ln = x.n(n) if k is None else mul(x.n(n), x.n(k))
            x.vec(x_, ln, lambda q: r.E(x_, q))
            x.same_object(x_)
        def spec_l(x):
            r = x.refs["lap"]
            x.res.skip_frame.update("obj:" + o for o in objs)
            x.throws(r.throws(), "runtime_error")
            x.res.throw_written.add(x_)
            ln = x.n(n) if k is None else mul(x.n(n), x.n(k))
            x.vec(x_, ln, lambda q: r.E(x_, q))
            x.same_object(x_)
        kw = dict(refs={"tdma": raw + TDMA + f" return &{x_};"})
        if lapack:
            name += "_L"
            kw["refs"]["lap"] = ("" if alias else "x = b; ") + f"{ctype} w_({make.replace('move', 'as_const')}); auto m_ = std::as_const(w_); " + \
                f"auto* X = {x_}.data(); if (lapacke_gtsv(LAPACK_ROW_MAJOR, m_.shape().first, {'1' if k is None else 'b.shape().second'}, m_.data_dl(), m_.data_d(), m_.data_du(), X, {'1' if k is None else f'{x_}.shape().second'}) != 0) throw std::runtime_error(\"failed\"); return &{x_};"
            kw["alts"] = [spec_l]
            kw["variants"] = [dict(seed=1), dict(seed=2), dict(seed=3)]
        op(L, name, A, body, spec, facts=facts, types=F2, ret="const void*", **kw)
        L[-1].backends = ["LAPACK" if lapack else "Internal"]
    ODD = lambda m: m.facts.append(eq(add(m.size("m"), ONE), m.size("n")))
    dyn = ([VA("dl", "m"), VA("d", "n"), VA("du", "m")], "std::move(dl), std::move(d), std::move(du)", "DynTriDiagMat<$T>")
    sized = lambda n: ([AA("dl", n - 1), AA("d", n), AA("du", n - 1)], "dl, d, du", f"SizedTriDiagMat<$T,{n}>")
    O3 = ("dl", "d", "du")
    for al in (False, True):
        for lp in (False, True):
            t = "_alias" if al else ""
            add_op("td_v" + t, "n", None, dyn, lambda nm: DV(nm, "n"), O3, al, ODD, lp)
            add_op("td_m" + t, "n", "k", dyn, lambda nm: DM(nm, "n", "k"), O3, al, ODD, lp)
            for n in (2, 5):
                add_op(f"std{n}_v" + t, n, None, sized(n), lambda nm, n=n: SV(nm, n), (), al, None, lp)
                add_op(f"std{n}_dv" + t, n, None, sized(n), lambda nm, n=n: DV(nm, n), (), al, None, lp)
                add_op(f"std{n}_m" + t, n, 3, sized(n), lambda nm, n=n: SM(nm, n, 3), (), al, None, lp)
    return L


# ---------------------------------------------------------------- Cholesky
IDX = {"sq": "(i) * n + (j)", "tri": "(i) * ((i) + 1) / 2 + (j)"}

CHOL = """
for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < i; ++j) {
        for (std::size_t k = 0; k < j; ++k) { A[IX(i, j)] -= A[IX(i, k)] * A[IX(j, k)]; }
        A[IX(i, j)] /= A[IX(j, j)];
    }
    for (std::size_t k = 0; k < i; ++k) { A[IX(i, i)] -= A[IX(i, k)] * A[IX(i, k)]; }
    if (!(A[IX(i, i)] > 0)) { throw std::runtime_error("not positive definite"); }
    A[IX(i, i)] = std::sqrt(A[IX(i, i)]);
}
"""
SOLVE = """
for (std::size_t c = 0; c < K; ++c) {
    for (std::size_t i = 0; i < n; ++i) {
        X[c + i * K] = B[c + i * K];
        for (std::size_t j = 0; j < i; ++j) { X[c + i * K] -= A[IX(i, j)] * X[c + j * K]; }
        X[c + i * K] /= A[IX(i, i)];
    }
    for (int i = n - 1; i >= 0; --i) {
        for (int j = i + 1; j < (int)n; ++j) { X[c + i * K] -= A[IX(j, i)] * X[c + j * K]; }
        X[c + i * K] /= A[IX(i, i)];
    }
}
"""
MCHOL = """
for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j <= i; ++j) {
        for (std::size_t k = 0; k < j; ++k) { A[IX(i, j)] -= A[IX(i, k)] * A[IX(j, k)] / A[IX(k, k)]; }
    }
    if (A[IX(i, i)] == 0) { throw std::runtime_error("zero pivot"); }
}
"""
MSOLVE = """
for (std::size_t c = 0; c < K; ++c) {
    for (std::size_t i = 0; i < n; ++i) {
        X[c + i * K] = B[c + i * K];
        for (std::size_t j = 0; j < i; ++j) { X[c + i * K] -= A[IX(i, j)] / A[IX(j, j)] * X[c + j * K]; }
    }
    for (int i = n - 1; i >= 0; --i) {
        for (std::size_t j = i + 1; j < n; ++j) { X[c + i * K] -= A[IX(j, i)] * X[c + j * K]; }
        X[c + i * K] /= A[IX(i, i)];
    }
}
"""
n_ = var("n")
TRIN = fdiv(mul(n_, add(n_, ONE)), 2)
KINDS = {  # name: (class, argument, expression, packed?, factorization, substitution)
    "tri": ("solver::DynTriCholeskyFactorization<$T>", VA("v", TRIN), "DynHermiteMat<$T>(n, std::move(v))", "tri", CHOL, SOLVE),
    "sq": ("solver::DynCholeskyFactorization<$T>", DM("v", "n", "n"), "std::move(v)", "sq", CHOL, SOLVE),
    "mod": ("solver::DynModCholeskyFactorization<$T>", DM("v", "n", "n"), "std::move(v)", "sq", MCHOL, MSOLVE),
}


def pivots(lay, kind="chol", fail=True):
    """Matrices for which the factorization succeeds, or fails at a chosen pivot; entries that are not read are unconstrained."""
    def gen(sizes, rng, m):
        n = sizes["n"]
        out = []
        for bad in [None] + (list(range(n)) if fail else []):
            Lm = [[rng.randint(-3, 3) if j < i else int(i == j) for j in range(n)] for i in range(n)]
            U = [[rng.randint(1, 4) if j > i else int(i == j) for j in range(n)] for i in range(n)] if kind == "lu" else [[Lm[j][i] for j in range(n)] for i in range(n)]
            D = [rng.randint(1, 4) ** 2 for _ in range(n)]
            if kind != "chol":
                D = [d * rng.choice((1, -1)) for d in D]
            if bad is not None:
                D[bad] = rng.choice((0, -1, -4, -9)) if kind == "chol" else 0
            A = [[sum(Lm[i][k] * D[k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            at = (lambda i, j: i * (i + 1) // 2 + j) if lay == "tri" else (lambda i, j: i * n + j)
            out.append({("v", at(i, j)): A[i][j] for i in range(n) for j in range(n) if kind == "lu" or j <= i})
        return out
    return gen


spd = pivots("sq", "chol", False)


def cholesky():
    L = []
    for kn, (ct, V, expr, lay, dec, sol) in KINDS.items():
        macro = f"auto IX = [&](std::size_t i, std::size_t j) {{ return {IDX[lay]}; }}; " + ("auto* A = v.data(); " if kn == "tri" else "auto w_ = std::as_const(v); auto* A = w_.data(); ")
        make = f"auto& f = *new(P) {ct}({expr}); "
        base = [Out(ct, "P"), I("n"), V]
        get = "f.lower_mat().lower_data()" if kn == "tri" else "f.factor_mat().data()"

        def fac(x, kn=kn):
            r = x.refs["def"]
            x.res.skip_frame.update(("obj:v", "v"))
            x.throws(r.throws(), "runtime_error")
            x.val(r.E("out:R", 0))
        ij = [I("i"), I("j"), Out("$T")]
        pos = IDX[lay].replace("(i)", "i").replace("(j)", "j")
        lower = lambda m: m.facts.extend([le(m.size("j"), m.size("i")), lt(m.size("i"), m.size("n"))])
        op(L, f"ch_{kn}_factor", base + ij, make + f"new(R) $T({get}[{pos}]);", fac, types=F2, facts=lower, sizes=[dict(n=n, i=i, j=j) for n in range(1, 6) for i in range(n) for j in range(i + 1)],
           refs={"def": macro + dec + f"new(R) $T(A[{pos}]);"})
        for rk, B, cols, ctor in (("v", DV("b", "n"), "1", "DynVec<$T>"), ("m", DM("b", "n", "k"), "b.shape().second", "DynMat<$T>")):
            ln = (lambda x: x.n("n")) if rk == "v" else (lambda x: mul(x.n("n"), x.n("k")))

            def mut(x, ln=ln):
                r = x.refs["def"]
                x.res.skip_frame.update(("obj:v", "v"))
                x.throws(r.throws(), "runtime_error")
                x.vec("b", ln(x), lambda q: r.E("b", q))
                x.same_object("b")
            op(L, f"ch_{kn}_mut_{rk}", base + [B], make + "return &std::as_const(f).solve_linear_mut(b);", mut, types=F2, ret="const void*", facts=lambda m: m.size("n") and None,
               refs={"def": macro + dec + f"auto* B = b.data(); auto* X = b.data(); std::size_t K = {cols}; " + sol + " return &b;"})

            def new(x, ln=ln, rk=rk):
                r = x.refs["def"]
                x.res.skip_frame.update(("obj:v", "v"))
                x.throws(r.throws(), "runtime_error")
                if rk == "v":
                    x.new_vec("n", lambda q: r.D(q))
                else:
                    x.new_mat("n", "k", lambda i, j: r.D(add(mul(i, x.n("k")), j), off=driver.layout("DynMat", "vec")))
            op(L, f"ch_{kn}_new_{rk}", base + [B, Out(ctor)], make + f"new(R) {ctor}(std::as_const(f).solve_linear(std::as_const(b)));", new, types=F2, facts=lambda m: m.size("n") and None,
               refs={"def": macro + dec + f"auto& r = *new(R) {ctor}(std::as_const(b)); auto* B = std::as_const(b).data(); auto* X = r.data(); std::size_t K = {cols}; " + sol})
        for o in L:
            o.kw.setdefault("floats", pivots(lay, "mod" if kn == "mod" else "chol"))
    for o in L:
        o.backends = ["Internal"]
    return L




def cholesky_lapack():
    """The square factorization in the LAPACK configuration."""
    L = []
    ct, V = "solver::DynCholeskyFactorization<$T>", DM("v", "n", "n")
    IX = "auto IX = [&](std::size_t i, std::size_t j) { return i * n + j; }; "
    make = f"auto& f = *new(P) {ct}(std::move(v)); "
    start = IX + "auto w_ = std::as_const(v); auto* A = w_.data(); "
    F = 'if (lapacke_potrf(LAPACK_ROW_MAJOR, \'L\', n, A, n) != 0) throw std::runtime_error("failed"); '
    base = [Out(ct, "P"), I("n"), V]
    kw = dict(types=F2, floats=spd, variants=[dict(seed=2), dict(seed=1), dict(seed=4), dict(seed=6), dict(seed=10, fault=1), dict(seed=10, fault=3), dict(seed=10, fault=-1), dict(seed=10, fault=-1011)])

    def both(goal, obj=None):
        def mk(which):
            def s(x):
                r = x.refs[which]
                x.res.skip_frame.update(("obj:v", "v"))
                if obj:
                    x.res.throw_written.add(obj)
                x.throws(r.throws(), "runtime_error")
                goal(x, r)
            return s
        return mk("def"), mk("lap")

    def add(name, args, body, goal, end_def, end_lap, obj=None, **k):
        s, l = both(goal, obj)
        op(L, name, args, make + body, s, alts=[l], refs={"def": start + CHOL + end_def, "lap": start + F + end_lap}, **{**kw, **k})
    lower = lambda m: m.facts.extend([le(m.size("j"), m.size("i")), lt(m.size("i"), m.size("n"))])
    e = "new(R) $T(A[i * n + j]);"
    add("ch_sq_factor_L", base + [I("i"), I("j"), Out("$T")], "new(R) $T(f.factor_mat().data()[i * n + j]);", lambda x, r: x.val(r.E("out:R", 0)), e, e, facts=lower)
    for rk, B, cols, ctor in (("v", DV("b", "n"), "1", "DynVec<$T>"), ("m", DM("b", "n", "k"), "b.shape().second", "DynMat<$T>")):
        ln = (lambda x: x.n("n")) if rk == "v" else (lambda x: mul(x.n("n"), x.n("k")))
        S = "if (lapacke_potrs(LAPACK_ROW_MAJOR, 'L', n, " + cols + ", A, n, {}.data(), " + cols + ") != 0) throw std::runtime_error(\"failed\"); "
        add(f"ch_sq_mut_{rk}_L", base + [B], "return &std::as_const(f).solve_linear_mut(b);",
            lambda x, r, ln=ln: (x.vec("b", ln(x), lambda q: r.E("b", q)), x.same_object("b")),
            f"auto* B = b.data(); auto* X = b.data(); std::size_t K = {cols}; " + SOLVE + " return &b;", S.format("b") + "return &b;", "b", ret="const void*", facts=lambda m: m.size("n") and None)

        def goal(x, r, rk=rk):
            if rk == "v":
                x.new_vec("n", lambda q: r.D(q))
            else:
                x.new_mat("n", "k", lambda i, j: r.D(terms.add(mul(i, x.n("k")), j), off=driver.layout("DynMat", "vec")))
        res = f"auto& r = *new(R) {ctor}(std::as_const(b)); "
        add(f"ch_sq_new_{rk}_L", base + [B, Out(ctor)], f"new(R) {ctor}(std::as_const(f).solve_linear(std::as_const(b)));", goal,
            res + f"auto* B = std::as_const(b).data(); auto* X = r.data(); std::size_t K = {cols}; " + SOLVE, res + S.format("r"), facts=lambda m: m.size("n") and None)
    for o in L:
        o.backends = ["LAPACK"]
    return L


def substitution():
    """Back substitution of an upper triangular matrix packed by columns."""
    L = []
    U = "DynUpperTriMat<$T>"
    for nm, y, data in (("v", VA("y", "m"), "y.data()"), ("d", DV("y", "m"), "y.data()"), ("span", VA("y", "m"), "y.data()")):
        def spec(x):
            r = x.refs["def"]
            x.res.skip_frame.update(("obj:v", "v"))
            x.throws(bnot(eq(x.n("m"), x.n("n"))), "invalid_argument")
            x.vec("y", x.n("m"), lambda q: r.E("y", q))
        arg = "std::span<$T>(y)" if nm == "span" else "y"
        op(L, f"bs_{nm}", [Out(U, "P"), I("n"), VA("v", TRIN), y], f"auto& u = *new(P) {U}(std::move(v)); std::as_const(u).back_sub({arg});", spec, types=F4, facts=lambda m: m.facts.append(lt(m.size("n"), const(1 << 28))),
           refs={"def": f"auto* U = v.data(); auto* Y = {data}; " + """
for (int i = n - 1; i >= 0; --i) {
    for (std::size_t j = i + 1; j < n; ++j) { Y[i] -= U[j * (j + 1) / 2 + i] * Y[j]; }
    Y[i] /= U[i * (i + 1) / 2 + i];
}"""})
    return L


def orthogonal():
    """Classical Gram-Schmidt on m vectors of K elements stored one after the other."""
    L = []
    for K in (1, 3):
        def spec(x, K=K):
            r = x.refs["def"]
            x.vec("v", scale(x.n("m"), K), lambda q: r.E("v", q))
        op(L, f"cgs_{K}", [I("m"), VA("v", scale(var("m"), K))], f"std::span<SizedVec<$T,{K}>> s(reinterpret_cast<SizedVec<$T,{K}>*>(v.data()), m); orth::cgs(s);", spec, types=F2,
           facts=lambda m: m.facts.append(lt(ZERO, m.size("m"))),
           refs={"def": f"constexpr std::size_t K = {K}; auto* V = v.data(); " + """
for (std::size_t j = 1; j < m; ++j) {
    SizedVec<$T, K> w_ = reinterpret_cast<SizedVec<$T, K>*>(V)[j];
    auto* w = w_.data();
    for (std::size_t k = 0; k < j; ++k) {
        $T a = 0, b = 0;
        for (std::size_t i = 0; i < K; ++i) { a += V[k * K + i] * w[i]; }
        for (std::size_t i = 0; i < K; ++i) { b += V[k * K + i] * V[k * K + i]; }
        for (std::size_t i = 0; i < K; ++i) { V[j * K + i] += -a / b * V[k * K + i]; }
    }
}"""})
    return L


ILU = """
for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < i; ++j) {
        if (A[i * n + j] != 0) {
            if (A[j * n + j] == 0) { throw std::runtime_error("singular"); }
            $T s = A[i * n + j];
            for (std::size_t k = 0; k < j; ++k) { s -= A[i * n + k] * A[k * n + j]; }
            A[i * n + j] = s / A[j * n + j];
        }
    }
    for (std::size_t j = i; j < n; ++j) {
        if (A[i * n + j] != 0) {
            $T s = A[i * n + j];
            for (std::size_t k = 0; k < i; ++k) { s -= A[i * n + k] * A[k * n + j]; }
            A[i * n + j] = s;
        }
    }
    if (A[i * n + i] == 0) { throw std::runtime_error("singular"); }
}
"""
LUSOLVE = """
for (std::size_t i = 0; i < n; ++i) {
    $T s = B[i];
    for (std::size_t j = 0; j < i; ++j) { s -= A[i * n + j] * Y[j]; }
    Y[i] = s;
}
for (int i = n - 1; i >= 0; --i) {
    $T s = Y[i];
    for (std::size_t j = i + 1; j < n; ++j) { s -= A[i * n + j] * X[j]; }
    X[i] = s / A[i * n + i];
}
"""


def ilu():
    L = []
    ct = "solver::Ilu<$T, DynMat<$T>>"
    base = [Out(ct, "P"), DM("v", "n", "n")]
    make = f"auto& f = *new(P) {ct}(std::move(v)); "
    ref = "auto w_ = std::as_const(v); auto* A = w_.data(); std::size_t n = w_.shape().first; " + ILU

    def common(x):
        r = x.refs["def"]
        x.res.skip_frame.update(("obj:v", "v"))
        x.throws(r.throws(), "runtime_error")
        return r
    vs = [dict(seed=1), dict(seed=2, zeros=0.3), dict(seed=3, zeros=0.6), dict(seed=4, zeros=0.1)]
    inb = lambda m: m.facts.extend([lt(m.size("i"), m.size("n")), lt(m.size("j"), m.size("n"))])
    op(L, "ilu_factor", base + [I("i"), I("j"), Out("$T")], make + "new(R) $T(f.mat().data()[i * f.mat().shape().first + j]);",
       lambda x: (lambda r: x.val(r.E("out:R", 0)))(common(x)), types=F2, facts=inb, variants=vs, floats=pivots("sq", "lu"), refs={"def": ref + "new(R) $T(A[i * n + j]);"})
    def solve(x):
        r = common(x)
        x.new_vec("n", lambda q: r.D(q))
    op(L, "ilu_solve", base + [DV("b", "n"), Out("DynVec<$T>")], make + "new(R) DynVec<$T>(std::as_const(f).solve(std::as_const(b)));", solve, types=F2, variants=vs, floats=pivots("sq", "lu"),
       refs={"def": ref + "auto y_ = DynVec<$T>::uninit(n); auto& r = *new(R) DynVec<$T>(DynVec<$T>::uninit(n)); auto* B = std::as_const(b).data(); auto* Y = y_.data(); auto* X = r.data(); " + LUSOLVE})
    return L


def repeated():
    """The second of two solves with one solver gives what a new solver gives (the library's own single solve is the
    definition here), and constant right-hand sides and the stored factors stay as they are."""
    L = []
    for lp in (False, True):
        t, bk = ("_L" if lp else ""), ["LAPACK" if lp else "Internal"]

        def solver(name, ct, pre, args, objs, first, rhs, second, ret, kind, again=None, facts=None, floats=None, types=F2):
            """first/second: expressions with the solver s; again: what must be unchanged after solving."""
            def spec(x):
                r = x.refs["once"]
                x.res.skip_frame.update(objs)
                x.res.partial = True
                x.res.written.update(("a", "x"))
                goal(x, r)
            if kind == "vec":
                goal = lambda x, r: x.new_vec("n", lambda q: r.D(q))
            elif kind == "mat":
                goal = lambda x, r: x.new_mat("n", "k", lambda i, j: r.D(terms.add(mul(i, x.n("k")), j), off=driver.layout("DynMat", "vec")))
            elif kind == "val":
                goal = lambda x, r: x.val(r.E("out:R", 0))
            else:
                goal = lambda x, r: x.vec("y", kind(x), lambda q: r.E("y", q))
            kw = {}
            if lp or "Ilu" in ct:
                kw["variants"] = [dict(seed=1), dict(seed=2, zeros=0.3 if "Ilu" in ct else 0), dict(seed=3), dict(seed=4)]
            if floats:
                kw["floats"] = floats
            op(L, name + t, args + rhs + ([Out(ret)] if ret else []), pre + first + second, spec, types=types, refs={"once": pre + second}, facts=facts, **kw)
            L[-1].backends = bk
        # tri-diagonal
        odd = lambda m: m.facts.append(eq(add(m.size("m"), ONE), m.size("n")))
        dyn = ([VA("dl", "m"), VA("d", "n"), VA("du", "m")], "std::move(dl), std::move(d), std::move(du)", "DynTriDiagMat<$T>", odd, {"obj:dl", "obj:d", "obj:du"})
        s5 = ([AA("dl", 4), AA("d", 5), AA("du", 4)], "dl, d, du", "SizedTriDiagMat<$T,5>", None, set())
        for tn, (args, make, mt, facts, objs), V, M, n, k in (("td", dyn, lambda nm: DV(nm, "n"), lambda nm: DM(nm, "n", "k"), "n", "k"), ("std5", s5, lambda nm: SV(nm, 5), lambda nm: SM(nm, 5, 3), 5, 3)):
            ct = f"solver::TriDiag<{mt}>"
            pre = f"auto& m_ = *new(O) {mt}({make}); auto& s = *new(P) {ct}(std::move(m_)); "
            base = [Out(mt, "O")] + args + [Out(ct, "P")]
            solver(tn + "_twice_v", ct, pre, base, objs, "s.solve_linear(std::as_const(a), x); ", [V("a"), V("b"), V("x"), V("y")], "s.solve_linear(std::as_const(b), y);", None, lambda x, n=n: x.n(n), facts=facts)
            solver(tn + "_twice_m", ct, pre, base, objs, "s.solve_linear(std::as_const(a), x); ", [M("a"), M("b"), M("x"), M("y")], "s.solve_linear(std::as_const(b), y);", None, lambda x, n=n, k=k: mul(x.n(n), x.n(k)), facts=facts)
            solver(tn + "_twice_alias", ct, pre, base, objs, "s.solve_linear(std::as_const(a), a); ", [V("a"), V("b"), V("y")], "s.solve_linear(std::as_const(b), y);", None, lambda x, n=n: x.n(n), facts=facts)
        # Cholesky
        for kn, (ct, V, expr, lay, dec, sol) in KINDS.items():
            if lp and kn != "sq":
                continue
            pre = f"auto& s = *new(P) {ct}({expr}); "
            base, objs = [Out(ct, "P"), I("n"), V], {"obj:v", "v"}
            fl = pivots(lay, "chol", False) if kn != "mod" else None
            fa = lambda m: m.size("n") and None
            pos = IDX[lay].replace("(i)", "i").replace("(j)", "j")
            lower = lambda m: m.facts.extend([le(m.size("j"), m.size("i")), lt(m.size("i"), m.size("n"))])
            get = "s.lower_mat().lower_data()" if kn == "tri" else "s.factor_mat().data()"
            firsts = (("mv", "s.solve_linear_mut(a); ", DV("a", "n")), ("mm", "s.solve_linear_mut(a); ", DM("a", "n", "k")),
                      ("nv", "{ auto u_ = s.solve_linear(std::as_const(a)); (void)u_; } ", DV("a", "n")), ("nm", "{ auto u_ = s.solve_linear(std::as_const(a)); (void)u_; } ", DM("a", "n", "k")))
            for fn, first, A in firsts:
                solver(f"ch_{kn}_{fn}_nv", ct, pre, base, objs, first, [A, DV("b", "n")], "new(R) DynVec<$T>(s.solve_linear(std::as_const(b)));", "DynVec<$T>", "vec", facts=fa, floats=fl)
                solver(f"ch_{kn}_{fn}_factor", ct, pre, base, objs, first, [A, I("i"), I("j")], f"new(R) $T({get}[{pos}]);", "$T", "val", facts=lower, floats=fl)
        if lp:
            continue
        # incomplete LU
        ct = "solver::Ilu<$T, DynMat<$T>>"
        pre = f"auto& s = *new(P) {ct}(std::move(v)); "
        base, objs = [Out(ct, "P"), DM("v", "n", "n")], {"obj:v", "v"}
        first = "{ auto u_ = s.solve(std::as_const(a)); (void)u_; } "
        solver("ilu_twice", ct, pre, base, objs, first, [DV("a", "n"), DV("b", "n")], "new(R) DynVec<$T>(s.solve(std::as_const(b)));", "DynVec<$T>", "vec")
        solver("ilu_twice_factor", ct, pre, base, objs, first, [DV("a", "n"), I("i"), I("j")], "new(R) $T(s.mat().data()[i * s.mat().shape().first + j]);", "$T", "val",
               facts=lambda m: m.facts.extend([lt(m.size("i"), m.size("n")), lt(m.size("j"), m.size("n"))]))
    return L
