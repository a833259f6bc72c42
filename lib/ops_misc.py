"""Public operations without a definition of their own: they take part in the flow checks only."""
from driver import Op, DV, SV, DM, SM, S, Out, I, VA

GM = "solver::Gmres<$T, {m}>"


def misc(types=("double",)):
    o = []

    def op(name, args, body, **kw):
        o.append(Op("misc_" + name, args, body, types=list(types), backends=["Internal", "BLAS"], **kw))
    raw = lambda n, ty: RawRef(n, ty)
    for k, m in (("dense", "DynMat<$T>"), ("csr", "SpMat<$T>")):
        op(f"gmres_{k}", [raw("g", f"const solver::Gmres<$T, {m}>"), DV("b", "n", True), Out("DynVec<$T>")], "new (R) DynVec<$T>(g.solve(b));")
        op(f"gmres_make_{k}", [raw("a", f"const {m}"), S("tol"), Out("G")], f"new (R) solver::Gmres<$T, {m}>({m}(a), tol);")
        op(f"ilu_make_{k}", [raw("a", f"const {m}"), Out("G")], f"new (R) solver::Ilu<$T, {m}>({m}(a));")
        op(f"ilu_solve_{k}", [raw("a", f"const solver::Ilu<$T, {m}>"), DV("b", "n", True), Out("G")], "new (R) DynVec<$T>(a.solve(b));")
    op("ilu_make_coo", [raw("a", "const SpCooMat<$T>"), Out("G")], "new (R) solver::Ilu<$T, SpCooMat<$T>>(SpCooMat<$T>(a));")
    op("ilu_solve_coo", [raw("a", "const solver::Ilu<$T, SpCooMat<$T>>"), DV("b", "n", True), Out("G")], "new (R) DynVec<$T>(a.solve(b));")
    return o


def references(types=("double", "std::complex<double>")):
    """Every member and function that returns a reference, a pointer or a view."""
    o = []
    raw = lambda n, ty: RawRef(n, ty)

    def op(name, ty, body, args=(), types=types):
        o.append(Op("ref_" + name, [raw("a", ty)] + list(args), body, ret="const void*", types=list(types), backends=["Internal"]))
    ij = [I("i"), I("j")]
    for k, ty in (("dyn", "DynVec<$T>"), ("sized", "SizedVec<$T, 4>")):
        for c in ("", "const "):
            t = k + ("_c" if c else "")
            op(t + "_index", c + ty, "return &a[i];", [I("i")])
            op(t + "_data", c + ty, "return a.data();")
            op(t + "_begin", c + ty, "return &*a.begin();")
            op(t + "_end", c + ty, "return &*(a.end() - 1);")
        op(k + "_cbegin", "const " + ty, "return &*a.cbegin();")
    mats = (("dense", "DynMat<$T>"), ("fixed", "SizedMat<$T, 3, 2>"), ("hermite", "DynHermiteMat<$T>"), ("lower", "DynLowerTriMat<$T>"), ("upper", "DynUpperTriMat<$T>"),
            ("hess", "HessenbergMat<$T>"), ("tri", "DynTriDiagMat<$T>"), ("shermite", "SizedHermiteMat<$T, 3>"), ("slower", "SizedLowerTriMat<$T, 3>"), ("stri", "SizedTriDiagMat<$T, 3>"),
            ("coo", "SpCooMat<$T>"), ("csr", "SpMat<$T>"))
    for k, ty in mats:
        for c in ("", "const "):
            t = k + ("_c" if c else "")
            op(t + "_call", c + ty, "return &a(i, j);", ij)
            op(t + "_at", c + ty, "return &a.at(i, j);", ij)
            op(t + "_data", c + ty, "return a.data();")
        op(k + "_mut_at", ty, "return &a.mut_at(i, j);", ij)
        op(k + "_assign", ty, "return &(a = b);", [raw("b", "const " + ty)])
        op(k + "_assign_move", ty, "return &(a = std::move(b));", [raw("b", ty)])
        op(k + "_plus", ty, "return &(a += b);", [raw("b", "const " + ty)])
    for k, ty in (("coo", "SpCooMat<$T>"), ("csr", "SpMat<$T>")):
        for f in ("values", "row_indices", "col_indices", "row_ptr"):
            op(f"{k}_{f}", "const " + ty, f"return &a.{f}();")
            op(f"{k}_{f}_data", "const " + ty, f"return a.{f}().data();")
    op("hess_col", "const HessenbergMat<$T>", "return a.get_col(j).data();", [I("j")])
    for k, ty in (("dense", "DynMat<$T>"), ("fixed", "SizedMat<$T, 3, 2>")):
        op(k + "_begin", ty, "return &*a.begin();")
        op(k + "_cbegin", "const " + ty, "return &*a.begin();")
    for f in ("main_diag", "upper_diag", "lower_diag", "d", "dl", "du", "diag_data", "lower_data", "upper_data"):
        for k, ty in mats:
            for c in ("", "const "):
                op(f"{k}_{'c' if c else ''}{f}", c + ty, f"return a.{f}();")
    for k, ty in (("tri", "solver::TriDiag<$T>"), ("chol", "solver::DynCholeskyFactorization<$T>"), ("mchol", "solver::DynModCholeskyFactorization<$T>"),
                  ("tchol", "solver::DynTriCholeskyFactorization<$T>"), ("ilu", "solver::Ilu<$T, DynMat<$T>>"), ("ilus", "solver::Ilu<$T, SpMat<$T>>")):
        for f in ("mat", "factor_mat", "lower_mat"):
            op(f"{k}_{f}", "const " + ty, f"return &a.{f}();", types=["double"])
        op(f"{k}_solve_mut", "const " + ty, "return &a.solve_linear_mut(b);", [raw("b", "DynVec<$T>")], types=["double"])
        op(f"{k}_solve_mut_m", "const " + ty, "return &a.solve_linear_mut(b);", [raw("b", "DynMat<$T>")], types=["double"])
    for k, ty, n in (("neg", "DynVec<$T>", 1), ("invert", "SizedMat<$T, 2, 2>", 1)):
        op(k, ty, f"return &{k}(a);")
    op("scale_coo", "SpCooMat<$T>", "return &scale(s, a);", [S("s")])
    op("scale_csr", "SpMat<$T>", "return &scale(s, a);", [S("s")])
    op("mul_csr", "DynVec<$T>", "return &mul(s, m, x, s, a);", [S("s"), raw("m", "const SpMat<$T>"), raw("x", "const DynVec<$T>")])
    op("mul_dense", "DynVec<$T>", "return &mul(s, m, x, s, a);", [S("s"), raw("m", "const DynMat<$T>"), raw("x", "const DynVec<$T>")])
    op("zero_of", "const DynVec<$T>", "return &Zero<$T>::value();")
    return o


class RawRef:
    """An argument the lifter does not model."""
    out = False

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def cpp(self, T):
        return f"{self.ty.replace('$T', T)}& {self.name}"

    def model(self, m):
        from terms import LiftError
        raise LiftError("not modelled: " + self.ty)
