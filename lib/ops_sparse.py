"""Sparse matrices: products with vectors, element access, conversions (C04, C05, C21, C23)."""
from driver import *
from opspec import *
from ops_dense import F4, op

BOTH = ["Internal", "BLAS"]


def at(root, k):
    """Entry k of an index array."""
    return load(init(root), scale(k, 8), "i64")


def csr_ints(sizes, rng, rp="rp", ci="ci", n="n", k="k", l="l"):
    """Index arrays of small CSR matrices with n rows and (at most) k columns."""
    nn, kk = sizes.get(n, 0), sizes.get(k, 0)
    if not kk and nn:
        kk = 0
    for d, shuffled in ((0.0, False), (0.4, False), (0.8, False), (0.7, True)):
        rows = [[c for c in range(kk) if rng.random() < d] for _ in range(nn)]
        if shuffled:                                  # the order of a row's entries is free
            for r in rows:
                rng.shuffle(r)
        ptr_, col = [0], []
        for r in rows:
            col += r
            ptr_.append(len(col))
        yield {rp: ptr_, ci: col, "_sizes": {l: len(col)}}


CSR = "*new(O) SpMat<$T>(std::move(v), std::move(rp), std::move(ci))"


def csr_args():
    n1 = add(var("n"), ONE)
    return [Out("SpMat<$T>", "O"), VA("v", "l"), VA("rp", n1, "std::size_t"), VA("ci", "l", "std::size_t")]


def csr_facts(cols="k"):
    """Row pointers rise from 0 to the number of entries; column indices are below the number of columns."""
    def f(m):
        n, l, k = m.size("n"), m.size("l"), m.size(cols)
        m.index["rp"] = dict(hi=l, sorted=True, ends=[(ZERO, ZERO), (scale(n, 8), l)])
        m.index["ci"] = dict(hi=terms.sub(k, ONE))
    return f


def moved(x, *names):
    x.res.skip_frame.update("obj:" + n for n in names)


def dotrow(x, i, al, xv="x"):
    a, b = at("rp", i), at("rp", add(i, ONE))
    return x.sum(terms.sub(b, a), lambda k: al * x.E("v", add(a, k)) * x.E(xv, at("ci", add(a, k))))


def spmv():
    L = []
    nf = csr_facts()
    pre = f"auto& a = {CSR}; "

    def mul_(x):
        moved(x, "v", "rp", "ci")
        al, be = x.S("al"), x.S("be")
        x.vec("y", "n", lambda q: be * x.E("y", q) + dotrow(x, q, al))
        x.same_object("y")
    op(L, "sp_mul", csr_args() + [S("al"), DV("x", "k"), S("be"), DV("y", "n")], pre + "return &mul(al, a, std::as_const(x), be, y);", mul_, ret="const void*", facts=nf, ints=csr_ints)

    def times(x):
        moved(x, "v", "rp", "ci")
        x.new_vec("n", lambda q: dotrow(x, q, x.c(1)))
    op(L, "sp_times", csr_args() + [Out("DynVec<$T>"), DV("x", "k")], pre + "new(R) DynVec<$T>(std::as_const(a) * std::as_const(x));", times, facts=nf, ints=csr_ints)
    for o in L:
        o.backends = BOTH
    return L


def spmv_aliased():
    L = []
    pre = f"auto& a = {CSR}; "
    def alias(x):
        moved(x, "v", "rp", "ci")
        al, be = x.S("al"), x.S("be")
        x.vec("y", "n", lambda q: be * x.E("y", q) + dotrow(x, q, al, "y"))
        x.same_object("y")
    op(L, "sp_mul_alias", csr_args() + [S("al"), S("be"), DV("y", "n")], pre + "return &mul(al, a, y, be, y);", alias, ret="const void*",
       facts=csr_facts("n"), ints=lambda s, r: csr_ints({**s, "k": s.get("n", 0)}, r))
    for o in L:
        o.backends = BOTH
    return L
