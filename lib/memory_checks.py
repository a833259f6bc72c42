"""Memory safety of every operation: bounds and initialisation (C18), lifetimes (C12)."""
from common import *
import bounds, lifetime, flow_checks, compile_checks, ops_dense, ops_access, ops_sparse, ops_solver, ops_coo, ops_copy, ops_misc
from opspec import run_ops
from check_ops import ASSUME, SHIM_NOTE

GROUPS = [ops_dense.elementwise, ops_dense.mat_elementwise, ops_dense.products, ops_dense.matvec, ops_dense.matmat, ops_dense.aliased, ops_dense.checked,
          ops_access.dense, ops_access.structured, ops_access.growth, ops_sparse.spmv, ops_sparse.spmv_aliased, ops_solver.tri_diag, ops_solver.cholesky,
          ops_solver.cholesky_lapack, ops_solver.substitution, ops_solver.orthogonal, ops_solver.ilu, ops_solver.repeated, ops_coo.coo, ops_coo.coo_sums, ops_coo.csr, ops_copy.copied_values]

SPARSE_SUMS = ("coo_new", "coo_at", "coo_mut_at", "coo_assign_over", "coo_assign_move", "coo_add", "coo_iadd", "coo_scale")


def all_ops(c, sparse=True):
    out = []
    for g in GROUPS:
        for o in g():
            if g in (ops_coo.coo, ops_coo.coo_sums) and o.name not in SPARSE_SUMS:
                continue                                  # the others run the same code on other operands
            if o.name in {x.name for x in out}:
                o.name = g.__name__ + "_" + o.name
            o.refs = {}
            if c.tier == "thorough" and "BLAS" in o.backends and "LAPACK" not in o.backends and g.__module__ == "ops_dense":
                o.backends = list(o.backends) + ["LAPACK"]
            out.append(o)
    return out


def in_bounds(c):
    c.rule = ("From the compiled IR of every operation the array-dataflow analysis derives, for each load, store, block copy and BLAS/LAPACK array argument, its offset as a formula of sizes, "
              "loop counters and index contents, and the conditions under which it is reached. The obligation: offset and length lie inside the object for every size (linear and monotone "
              "bounds), external routines get valid leading dimensions and no element of a new array is read before it is written. What is not shown for all sizes is evaluated at "
              "small sizes and around the thresholds of the code; an access outside its object is reported with its place. One obligation per operation, element type and backend.")
    c.assumptions = list(ASSUME) + ["operands of one call satisfy the documented shape requirements where these are only asserted", SHIM_NOTE]
    ops = all_ops(c)
    run_ops(ops, c, c.tier, bounds.judge, extra=("-DVP_BOUNDS",), chunk=10)
    c.extra["operations"] = len(ops)


def lifetimes(c):
    c.rule = ("(1) The array-dataflow analysis follows allocation and release along every path of every operation: each load, store, copy and release must reach live storage, each block is released "
              "exactly once or owned by exactly one operand or result at a normal end, and a returned reference or a pointer kept in an operand or result designates live storage that is not a local "
              "object. (2) For all operations, and every member that returns a reference, pointer or view, an inclusion-based points-to analysis reports local objects and unowned blocks whose address escapes. "
              "(3) The compilers' lifetime diagnostics (returned addresses, temporaries bound to references and views) are errors in programs that use every operation. (4) A flow-sensitive "
              "typestate rule over the control-flow graphs of all instantiated functions reports iterators and references into a vector that are used after it may have moved its elements.")
    c.assumptions = ["the allocator and the standard library keep their contracts", "storage released while an exception propagates is not followed (destructors of standard containers do it)"]
    ops = [o for o in all_ops(c) if not o.shim]
    run_ops(ops, c, c.tier, lifetime.judge, chunk=12)
    flow_checks.escapes(c)
    compile_checks.dangling_diagnostics(c)
    compile_checks.stale_iterators(c)
    c.extra["operations"] = len(ops)
