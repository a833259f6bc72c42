"""Effects of the external linear-algebra routines, as their interface defines them.

BLAS calls become the bulk operation the standard specifies, together with the preconditions the
standard puts on the caller (leading dimensions, no overlap between operands). LAPACK calls are
opaque functions of the values they read: the same routine on the same input gives the same output."""
from terms import *
import terms, memory
from lift import Access
from memory import *

ROW, COL = 101, 102
NOT, TRANS, CONJ = 111, 112, 113
KIND = {"s": ("f", 4, 1), "d": ("d", 8, 1), "c": ("f", 4, 2), "z": ("d", 8, 2)}


def call(L, name, ins, cx, mem):
    ops = [L.val(o) for o in ins["ops"]]
    if name.startswith("cblas_"):
        r = name[6:]
        k, f = r[0], r[1:]
        if k in KIND:
            h = {"axpy": axpy, "scal": scal, "dot": dot, "nrm2": nrm2, "gemv": gemv, "gemm": gemm, "copy": copy}.get(f)
            if h:
                return h(L, name, KIND[k], ops, ins, cx, mem)
    if name.startswith("LAPACKE_"):
        r = name[8:]
        k, f = r[0], r[1:]
        h = {"potrf": potrf, "potrs": potrs, "gtsv": gtsv}.get(f)
        if h and k in KIND:
            return h(L, name, KIND[k], ops, ins, cx, mem)
    raise LiftError("call of " + name)


def I(L, v, cx):
    v = L.as_int(v)
    return simplify(v, cx) if v.op == "poly" else v


def C(v, what):
    if not is_const(v):
        raise LiftError("non-constant " + what)
    return int(cval(v))


def require(L, name, what, cond, ins, cx):
    if cx.decide(cond) is not True:
        L.log.append(Access(root=name, off=None, size=None, kind=what, loc=ins.get("loc"), path=getattr(cx, "path", ()),
                            binders=[], proved=False, extent=None, trees=getattr(cx, "trees", ()), cond=cond))


def touch(L, kind, p, n, ins, cx):
    if n is not ZERO:
        L.access(kind, p, n, ins, L.assume(cx, bnot(eq0(n)), True))


def rd(L, mem, cx, p, off, ty):
    memory.CUR.insert(0, cx)
    try:
        return load(L.getmem(mem, p.args[0]), add(p.args[1], off), ty)
    finally:
        memory.CUR.pop(0)


def elem(L, mem, cx, p, idx, kd):
    ty, sz, comp = kd
    return [rd(L, mem, cx, p, add(scale(idx, sz * comp), const(sz * c)), ty) for c in range(comp)]


def cmul(a, b):
    if len(a) == 1:
        return [mul(a[0], b[0])]
    return [sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))]


def cadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def scalar(L, v, kd, mem, cx):
    if kd[2] == 1:
        return [v]
    p = L.resolve(v, cx)
    return elem(L, mem, cx, p, ZERO, kd)


def put(L, mem, cx, p, qs, idx, vals, kd):
    """mem[p] with element idx(q) := vals(q) for all q."""
    ty, sz, comp = kd
    root = p.args[0]
    m = L.getmem(mem, root)
    for c in range(comp):
        m = map_(m, qs, TRUE, add(p.args[1], add(scale(idx, sz * comp), const(sz * c))), ty, vals[c])
    mem[root] = m


def inc1(v, what):
    if C(v, what) != 1:
        raise LiftError("stride other than 1")


def rng(cx, q, n):
    return cx.assume(le(ZERO, atom(q))).assume(lt(atom(q), n))


def vecbytes(n, kd):
    return scale(n, kd[1] * kd[2])


def axpy(L, name, kd, ops, ins, cx, mem):
    n, a, x, ix, y, iy = ops
    n = I(L, n, cx)
    inc1(ix, "stride"), inc1(iy, "stride")
    cx1 = L.assume(cx, lt(ZERO, n), True)
    x, y = L.resolve(x, cx1), L.resolve(y, cx1)
    touch(L, "load", x, vecbytes(n, kd), ins, cx)
    touch(L, "store", y, vecbytes(n, kd), ins, cx)
    if "null" in (x.args[0], y.args[0]):
        return
    q = sym("q", "i", True, True)
    c = rng(cx, q, n)
    al = scalar(L, a, kd, mem, cx)
    v = cadd(cmul(al, elem(L, mem, c, x, atom(q), kd)), elem(L, mem, c, y, atom(q), kd))
    put(L, mem, cx, y, [(q, ZERO, n)], atom(q), v, kd)


def copy(L, name, kd, ops, ins, cx, mem):
    n, x, ix, y, iy = ops
    n = I(L, n, cx)
    inc1(ix, "stride"), inc1(iy, "stride")
    cx1 = L.assume(cx, lt(ZERO, n), True)
    x, y = L.resolve(x, cx1), L.resolve(y, cx1)
    touch(L, "load", x, vecbytes(n, kd), ins, cx)
    touch(L, "store", y, vecbytes(n, kd), ins, cx)
    if "null" in (x.args[0], y.args[0]):
        return
    q = sym("q", "i", True, True)
    put(L, mem, cx, y, [(q, ZERO, n)], atom(q), elem(L, mem, rng(cx, q, n), x, atom(q), kd), kd)


def scal(L, name, kd, ops, ins, cx, mem):
    n, a, x, ix = ops
    n = I(L, n, cx)
    inc1(ix, "stride")
    x = L.resolve(x, L.assume(cx, lt(ZERO, n), True))
    touch(L, "store", x, vecbytes(n, kd), ins, cx)
    if x.args[0] == "null":
        return
    q = sym("q", "i", True, True)
    c = rng(cx, q, n)
    put(L, mem, cx, x, [(q, ZERO, n)], atom(q), cmul(scalar(L, a, kd, mem, cx), elem(L, mem, c, x, atom(q), kd)), kd)


def dot(L, name, kd, ops, ins, cx, mem):
    if kd[2] != 1:
        raise LiftError("complex dot")
    n, x, ix, y, iy = ops
    n = I(L, n, cx)
    inc1(ix, "stride"), inc1(iy, "stride")
    cx1 = L.assume(cx, lt(ZERO, n), True)
    x, y = L.resolve(x, cx1), L.resolve(y, cx1)
    touch(L, "load", x, vecbytes(n, kd), ins, cx)
    touch(L, "load", y, vecbytes(n, kd), ins, cx)
    u = sym("u", "i", True, True)
    c = rng(cx, u, n)
    if "null" in (x.args[0], y.args[0]):
        L.env[ins["id"]] = const(0, "f")
        return
    L.env[ins["id"]] = summation(u, ZERO, n, mul(elem(L, mem, c, x, atom(u), kd)[0], elem(L, mem, c, y, atom(u), kd)[0]))


def nrm2(L, name, kd, ops, ins, cx, mem):
    if kd[2] != 1:
        raise LiftError("complex norm")
    n, x, ix = ops
    n = I(L, n, cx)
    inc1(ix, "stride")
    x = L.resolve(x, L.assume(cx, lt(ZERO, n), True))
    touch(L, "load", x, vecbytes(n, kd), ins, cx)
    if x.args[0] == "null":
        L.env[ins["id"]] = const(0, "f")
        return
    u = sym("u", "i", True, True)
    e = elem(L, mem, rng(cx, u, n), x, atom(u), kd)[0]
    L.env[ins["id"]] = sqrt(summation(u, ZERO, n, mul(e, e)))


def overlap(L, name, what, a, na, b, nb, ins, cx):
    if a.args[0] != b.args[0] or a.args[0] == "null":
        return False
    c = band(lt(a.args[1], add(b.args[1], nb)), lt(b.args[1], add(a.args[1], na)))
    c = band(c, band(lt(ZERO, na), lt(ZERO, nb)))
    if cx.decide(c) is False:
        return False
    require(L, name, what + " must not overlap", bnot(c), ins, cx)
    return True


def unspecified(L, name, mem, root, ins):
    L.nfresh += 1
    m = L.getmem(mem, root)
    mem[root] = mk("primmem", "m", f"{name}!{L.nfresh}", (), m, ZERO, const(1 << 40))


def at(layout, trans, ld, i, j):
    """Element (i, j) of op(A) as stored."""
    if trans != NOT:
        i, j = j, i
    return add(mul(i, ld), j) if layout == ROW else add(i, mul(j, ld))


def conjg(v, trans):
    return [v[0], neg(v[1])] if trans == CONJ and len(v) == 2 else v


def extent(layout, r, c, ld):
    """Elements spanned by a stored r x c matrix."""
    a, b = (r, c) if layout == ROW else (c, r)
    return add(mul(sub(a, ONE), ld), b)


def gemv(L, name, kd, ops, ins, cx, mem):
    layout, trans, m, n, alpha, A, lda, x, ix, beta, y, iy = ops
    layout, trans = C(layout, "layout"), C(trans, "transposition")
    m, n, lda = I(L, m, cx), I(L, n, cx), I(L, lda, cx)
    inc1(ix, "stride"), inc1(iy, "stride")
    least = n if layout == ROW else m
    require(L, name, "leading dimension of the matrix", band(le(ONE, lda), le(least, lda)), ins, cx)
    ny, nx = (m, n) if trans == NOT else (n, m)
    cx1 = cx.assume(lt(ZERO, m)).assume(lt(ZERO, n))
    if cx1.infeas() and cx.decide(lt(ZERO, ny)) is False:
        return
    A, x, y = L.resolve(A, cx1), L.resolve(x, cx1), L.resolve(y, cx1)
    p = L.assume(L.assume(cx, lt(ZERO, m), True), lt(ZERO, n), True)
    L.access("load", A, vecbytes(extent(layout, m, n, lda), kd), ins, p)
    L.access("load", x, vecbytes(nx, kd), ins, p)
    L.access("store", y, vecbytes(ny, kd), ins, p)
    if "null" in (A.args[0], x.args[0], y.args[0]):
        return
    if overlap(L, name, "the operand and the result", x, vecbytes(nx, kd), y, vecbytes(ny, kd), ins, cx):
        return unspecified(L, name, mem, y.args[0], ins)
    overlap(L, name, "the matrix and the result", A, vecbytes(extent(layout, m, n, lda), kd), y, vecbytes(ny, kd), ins, cx)
    al, be = scalar(L, alpha, kd, mem, cx), scalar(L, beta, kd, mem, cx)
    lda = I(L, lda, cx1)                     # elements are touched only if neither dimension is zero
    q, u = sym("q", "i", True, True), sym("u", "i", True, True)
    c = rng(cx, q, ny)
    cu = rng(c, u, nx)
    a = conjg(elem(L, mem, cu, A, at(layout, trans, lda, atom(q), atom(u)), kd), trans)
    s = [summation(u, ZERO, nx, v) for v in cmul(a, elem(L, mem, cu, x, atom(u), kd))]
    v = cadd(cmul(be, elem(L, mem, c, y, atom(q), kd)), cmul(al, s))
    # an empty operand: BLAS returns at once when either dimension is zero
    quick = lambda old, new: ite(lt(ZERO, nx), new, old)
    old = elem(L, mem, c, y, atom(q), kd)
    v = [quick(o, w) for o, w in zip(old, v)]
    put(L, mem, cx, y, [(q, ZERO, ny)], atom(q), v, kd)


def gemm(L, name, kd, ops, ins, cx, mem):
    layout, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, Cc, ldc = ops
    layout, ta, tb = C(layout, "layout"), C(ta, "transposition"), C(tb, "transposition")
    m, n, k, lda, ldb, ldc = (I(L, v, cx) for v in (m, n, k, lda, ldb, ldc))
    ar, ac = (m, k) if ta == NOT else (k, m)
    br, bc = (k, n) if tb == NOT else (n, k)
    for what, ld, r, c_ in (("A", lda, ar, ac), ("B", ldb, br, bc), ("C", ldc, m, n)):
        least = c_ if layout == ROW else r
        require(L, name, "leading dimension of " + what, band(le(ONE, ld), le(least, ld)), ins, cx)
    cx1 = cx.assume(lt(ZERO, m)).assume(lt(ZERO, n))
    if cx1.infeas():
        return
    Cc = L.resolve(Cc, cx1)
    cx2 = cx1.assume(lt(ZERO, k))
    A, B = L.resolve(A, cx2), L.resolve(B, cx2)
    p = L.assume(L.assume(cx, lt(ZERO, m), True), lt(ZERO, n), True)
    pk = L.assume(p, lt(ZERO, k), True)
    na, nb, nc = (vecbytes(extent(layout, r, c_, ld), kd) for r, c_, ld in ((ar, ac, lda), (br, bc, ldb), (m, n, ldc)))
    L.access("load", A, na, ins, pk)
    L.access("load", B, nb, ins, pk)
    L.access("store", Cc, nc, ins, p)
    if "null" in (A.args[0], B.args[0], Cc.args[0]):
        return
    o1 = overlap(L, name, "the first operand and the result", A, na, Cc, nc, ins, pk)
    o2 = overlap(L, name, "the second operand and the result", B, nb, Cc, nc, ins, pk)
    if o1 or o2:
        return unspecified(L, name, mem, Cc.args[0], ins)
    al, be = scalar(L, alpha, kd, mem, cx), scalar(L, beta, kd, mem, cx)
    lda, ldb, ldc = I(L, lda, cx2), I(L, ldb, cx2), I(L, ldc, cx1)
    i, j, u = sym("q", "i", True, True), sym("q", "i", True, True), sym("u", "i", True, True)
    c = rng(rng(cx, i, m), j, n)
    cu = rng(c, u, k)
    a = conjg(elem(L, mem, cu, A, at(layout, ta, lda, atom(i), atom(u)), kd), ta)
    b = conjg(elem(L, mem, cu, B, at(layout, tb, ldb, atom(u), atom(j)), kd), tb)
    s = [summation(u, ZERO, k, v) for v in cmul(a, b)]
    idx = at(layout, NOT, ldc, atom(i), atom(j))
    v = cadd(cmul(be, elem(L, mem, c, Cc, idx, kd)), cmul(al, s))
    put(L, mem, cx, Cc, [(i, ZERO, m), (j, ZERO, n)], idx, v, kd)


# ---- LAPACK: opaque, deterministic ---------------------------------------------------------
def region(L, mem, p, n, ty):
    m = L.getmem(mem, p.args[0])
    if is_const(n) and 0 <= cval(n) <= 32:       # a few elements: by value
        r = memory.fresh("region")
        for k in range(int(cval(n))):
            r = memory.store(r, const(memory.SIZE[ty] * k), ty, memory.load(m, add(p.args[1], const(memory.SIZE[ty] * k)), ty))
        return mk("region", "x", r, ZERO, n, ty)
    return mk("region", "x", m, p.args[1], n, ty)


# LAPACKE copies row-major arguments, so that there a leading dimension of 0 is valid for empty ones
def opaque(L, name, ins, mem, args, outs, kd):
    """outs: [(pointer, elements)] overwritten; the result code is a function of the same values."""
    args = tuple(args)
    L.prims.append(name)
    new = {}
    for k, (p, n) in enumerate(outs):
        r = p.args[0]
        base = new.get(r) or L.getmem(mem, r)
        new[r] = mk("primmem", "m", f"{name}.{k}", args, base, p.args[1], scale(n, kd[1] * kd[2]))
    mem.update(new)
    L.env[ins["id"]] = atom(mk("primval", "i", name + ".info", args))


def potrf(L, name, kd, ops, ins, cx, mem):
    layout, uplo, n, a, lda = ops
    n, lda = I(L, n, cx), I(L, lda, cx)
    require(L, name, "leading dimension", le(n, lda) if C(layout, "layout") == ROW else band(le(ONE, lda), le(n, lda)), ins, cx)
    a = L.resolve(a, L.assume(cx, lt(ZERO, n), True))
    cnt = add(mul(sub(n, ONE), lda), n)
    L.access("store", a, vecbytes(cnt, kd), ins, L.assume(cx, lt(ZERO, n), True))
    opaque(L, name, ins, mem, [L.as_int(layout), L.as_int(uplo), n, lda, region(L, mem, a, scale(cnt, kd[2]), kd[0])], [(a, cnt)], kd)


def potrs(L, name, kd, ops, ins, cx, mem):
    layout, uplo, n, nrhs, a, lda, b, ldb = ops
    n, nrhs, lda, ldb = (I(L, v, cx) for v in (n, nrhs, lda, ldb))
    row = C(layout, "layout") == ROW
    require(L, name, "leading dimension of the factor", le(n, lda) if row else band(le(ONE, lda), le(n, lda)), ins, cx)
    require(L, name, "leading dimension of the right-hand side", le(nrhs, ldb) if row else band(le(ONE, ldb), le(n, ldb)), ins, cx)
    p = L.assume(L.assume(cx, lt(ZERO, n), True), lt(ZERO, nrhs), True)
    a, b = L.resolve(a, p), L.resolve(b, p)
    na = add(mul(sub(n, ONE), lda), n)
    nb = extent(ROW if row else COL, n, nrhs, ldb)
    L.access("load", a, vecbytes(na, kd), ins, p)
    L.access("store", b, vecbytes(nb, kd), ins, p)
    opaque(L, name, ins, mem, [L.as_int(layout), L.as_int(uplo), n, nrhs, lda, ldb,
                               region(L, mem, a, scale(na, kd[2]), kd[0]), region(L, mem, b, scale(nb, kd[2]), kd[0])], [(b, nb)], kd)


def gtsv(L, name, kd, ops, ins, cx, mem):
    layout, n, nrhs, dl, d, du, b, ldb = ops
    n, nrhs, ldb = (I(L, v, cx) for v in (n, nrhs, ldb))
    row = C(layout, "layout") == ROW
    require(L, name, "leading dimension of the right-hand side", le(nrhs, ldb) if row else band(le(ONE, ldb), le(n, ldb)), ins, cx)
    p1 = L.assume(cx, lt(ZERO, n), True)
    p2 = L.assume(cx, lt(ONE, n), True)
    p3 = L.assume(p1, lt(ZERO, nrhs), True)
    dl, d, du, b = L.resolve(dl, p2), L.resolve(d, p1), L.resolve(du, p2), L.resolve(b, p3)
    off = ite(lt(ZERO, n), sub(n, ONE), ZERO)
    nb = extent(ROW if row else COL, n, nrhs, ldb)
    L.access("store", dl, vecbytes(sub(n, ONE), kd), ins, p2)
    L.access("store", d, vecbytes(n, kd), ins, p1)
    L.access("store", du, vecbytes(sub(n, ONE), kd), ins, p2)
    L.access("store", b, vecbytes(nb, kd), ins, p3)
    args = [L.as_int(layout), n, nrhs, ldb] + [region(L, mem, q, scale(c, kd[2]), kd[0]) for q, c in ((dl, off), (d, n), (du, off), (b, nb))]
    opaque(L, name, ins, mem, args, [(dl, off), (d, n), (du, off), (b, nb)], kd)
