"""Checks that compare the formula extracted from the compiled source with its definition."""
import functools, glob, os
from common import *
from opspec import verify, run_ops
import driver, ops_dense, ops_access, ops_sparse, ops_solver, ops_coo, ops_copy, ops_debug, ops_empty
from driver import Op, DV, Out

RULE = ("Each operation is compiled from the current headers through a one-line wrapper and lowered to LLVM IR; from the IR an array-dataflow "
        "analysis derives, without running anything, one closed formula per result (element of the destination, returned value, exception, "
        "other operands) as a function of symbolic sizes and symbolic element values. The obligation is that the formula equals the definition "
        "of the operation for every size (normal forms of polynomials over the elements, linear integer arithmetic over the sizes). A formula that "
        "is not shown equal is evaluated at small sizes and around every size threshold of the code; a difference there is reported with the size "
        "and the element. What cannot be summarised counts as undecided.")
ASSUME = ["element arithmetic is that of a field (rounding is not part of the property)",
          "the external BLAS/LAPACK routines do what their interface defines",
          "sizes and index products stay within the machine integers; allocation succeeds",
          "operands are distinct objects unless the operation says otherwise"]


def ops_check(c, groups, mode, filt=None, types=None, extra_backends=True, chunk=14):
    c.rule = RULE
    c.assumptions = list(ASSUME)
    ops = []
    for g in groups:
        for o in g():
            if filt and not filt(o):
                continue
            if types:
                o.types = [t for t in o.types if t in types]
            if c.tier == "thorough" and extra_backends and "BLAS" in o.backends and "LAPACK" not in o.backends:
                o.backends = list(o.backends) + ["LAPACK"]
            ops.append(o)
    run_ops(ops, c, c.tier, functools.partial(verify, mode=mode), chunk=chunk)
    c.extra["operations"] = len(ops)
    c.extra["functions_analysed"] = len(c.obl)


def elementwise(c):
    ops_check(c, [ops_dense.elementwise, ops_dense.mat_elementwise], "values")


def products(c):
    ops_check(c, [ops_dense.products], "values")
    # a two-operand cross product of dynamic vectors can be called
    for T in ops_dense.F4:
        o = Op("call", [DV("a", "n"), DV("b", "n")], "auto v = cross(a, b); (void)v;")
        fns, bad = driver.compile_ops([o], T, "Internal")
        name = f"cross-of-two-dynamic-vectors<{T}>"
        if bad:
            c.violation(name, "the call cross(a, b) with two dynamic vectors does not compile: " + bad["call"])
        else:
            c.ok(name, "the call compiles")


def matrix_products(c):
    ops_check(c, [ops_dense.matvec, ops_dense.matmat], "values")


def aliased(c):
    ops_check(c, [ops_dense.aliased, ops_sparse.spmv_aliased], "all")


def mismatch(c):
    ops_check(c, [ops_dense.checked], "throws")


def dense_access(c):
    ops_check(c, [ops_access.dense], "all", extra_backends=False)


def structured(c):
    ops_check(c, [ops_access.structured], "all", extra_backends=False)


def growth(c):
    ops_check(c, [ops_access.growth], "all", extra_backends=False)


def debug_judge(op, T, backend, fn, c, tier="quick", **kw):
    return verify(op, T, backend, fn, c, tier, mode=op.kw.get("judge", "throws"), **kw)


ASSERTED = [ops_dense.mat_elementwise, ops_dense.matvec, ops_dense.matmat, ops_solver.tri_diag, ops_solver.orthogonal]
PLAIN = [ops_dense.elementwise, ops_dense.products, ops_dense.aliased, ops_access.dense, ops_access.structured, ops_access.growth, ops_solver.cholesky, ops_solver.substitution, ops_solver.ilu,
         ops_copy.copied_values]


def assertions(c):
    """The operations as a program with assertions sees them."""
    c.rule = ("Every operation is compiled with assertions enabled and its formula extracted as for the other properties; a failing assertion is one of the outcomes. Obligations: with operands of "
              "fitting shapes no assertion can fail and (for operations with assertions) the results equal the definition; with operands of arbitrary, unrelated shapes the operation ends in a failed "
              "assertion or an exception exactly when the shapes do not fit, and nothing was written before.")
    c.assumptions = list(ASSUME)
    ops = []
    for g in [ops_debug.shapes] + ASSERTED + PLAIN:
        for o in g():
            if g in PLAIN:
                o.types = [t for t in o.types if t in ("double", "std::complex<double>")]
                o.backends = o.backends[:1]
            o.kw["judge"] = "all" if g in ASSERTED else "throws"
            o.name = ("any_" if g is ops_debug.shapes else "al_" if g is ops_dense.aliased else "") + o.name
            ops.append(o)
    run_ops(ops, c, c.tier, debug_judge, debug=True)
    c.extra["operations"] = len(ops)


def empty_objects(c):
    ops_check(c, [ops_empty.empties], "all", extra_backends=False, chunk=8)
    c.assumptions.append(SHIM_NOTE)


def copies(c):
    ops_check(c, [ops_copy.copies], "all", extra_backends=False)


def sparse_products(c):
    ops_check(c, [ops_sparse.spmv], "all")


def failures(c):
    ops_check(c, [ops_solver.cholesky, ops_solver.cholesky_lapack, ops_solver.tri_diag, ops_solver.ilu], "throws", extra_backends=False,
              filt=lambda o: not o.name.startswith(("td", "std")) or o.name.endswith("_L"))


def cholesky(c):
    ops_check(c, [ops_solver.cholesky, ops_solver.cholesky_lapack], "values", extra_backends=False)


def tridiagonal(c):
    ops_check(c, [ops_solver.tri_diag], "values", extra_backends=False)


def repeated_solves(c):
    ops_check(c, [ops_solver.repeated], "all", extra_backends=False)


def triangular(c):
    ops_check(c, [ops_solver.substitution, ops_solver.ilu], "all", extra_backends=False)


def gram_schmidt(c):
    ops_check(c, [ops_solver.orthogonal], "all", extra_backends=False)


SHIM_NOTE = "std::vector and the standard sorting and searching algorithms are represented by their specification (contents, order); growth strategy and rounding are not modelled"


def coordinate(c):
    ops_check(c, [ops_coo.coo], "all", extra_backends=False, chunk=6)
    c.assumptions.append(SHIM_NOTE)


def coordinate_sums(c):
    ops_check(c, [ops_coo.coo_sums], "all", extra_backends=False, chunk=3)
    c.assumptions.append(SHIM_NOTE)


def compressed(c):
    ops_check(c, [ops_coo.csr], "all", extra_backends=False, chunk=7)
    c.assumptions.append(SHIM_NOTE)
