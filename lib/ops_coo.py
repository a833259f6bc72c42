"""Sparse matrices: coordinate lists, their sums, conversion to compressed rows, element access (C21-C23)."""
from driver import *
from opspec import *
from ops_dense import F4, op

BOTH = ["Internal"]


class Buf(Arg):
    """A plain output array."""
    def __init__(self, name, n):
        self.name, self.n = name, n

    def cpp(self, T):
        return f"{T}* {self.name}"

    def model(self, m):
        m.array(self.name, m.size(self.n))
        m.args.append(ptr(self.name, ZERO))


U = "std::size_t"
SHOW = "[](const auto& a, $T* ov, $T* oi, $T* oc) -> std::size_t { const auto& v = a.values(); const auto& p = a.row_indices(); const auto& q = a.col_indices(); " \
       "for (std::size_t k = 0; k < v.size(); ++k) { ov[k] = v[k]; } for (std::size_t k = 0; k < p.size(); ++k) { oi[k] = $T(p[k]); } for (std::size_t k = 0; k < q.size(); ++k) { oc[k] = $T(q[k]); } " \
       "return a.nnz() + 1000 * p.size() + 1000000 * q.size() + 1000000000 * v.size(); }"
COUNT = "std::size_t(1001001001) * n"
SORT_ = "auto order = [](const std::vector<std::size_t>& r, const std::vector<std::size_t>& c) { std::vector<std::size_t> id(r.size()); for (std::size_t k = 0; k < id.size(); ++k) { id[k] = k; } " \
        "std::sort(id.begin(), id.end(), [&](std::size_t a, std::size_t b) { if (r[a] == r[b]) { return c[a] < c[b]; } return r[a] < r[b]; }); return id; }; "


def positions(rng, n, rows, cols):
    cells = [(i, j) for i in range(rows) for j in range(cols)]
    rng.shuffle(cells)
    return cells[:n]


def coo_ints(pairs, extra=None, rows_far=True):
    """Distinct positions for each (row array, column array, size)."""
    def gen(sizes, rng):
        for rows, cols in ((2, 3), (4, 2), (3, 3), (1, 6), (6, 1), (5, 5)):
            out, ok = {}, True
            for r, c, n in pairs:
                k = sizes.get(n, 0) if isinstance(n, str) else n
                if k > rows * cols:
                    ok = False
                    break
                ps = positions(rng, k, rows, cols)
                out[r], out[c] = [p[0] for p in ps], [p[1] for p in ps]
            if not ok:
                continue
            if extra:
                for e in extra(sizes, rng, rows, cols):
                    yield {**out, "_sizes": e}
            else:
                yield out
        if extra:
            return
        # distant positions: neither row nor column order survives in 32 bits
        for _ in range(2):
            out, ok = {}, True
            for r, c, n in pairs:
                k = sizes.get(n, 0) if isinstance(n, str) else n
                if k > 9:
                    ok = False
                    break
                ps = positions(rng, k, 3, 3)
                far = lambda p: (p << 32) + 9 - p
                out[r], out[c] = [far(p[0]) if rows_far else p[0] for p in ps], [far(p[1]) for p in ps]
            if ok:
                yield out
    return gen


def few(gen):
    """Two of the patterns for each size: a close one and any other one."""
    def g(sizes, rng):
        a = list(gen(sizes, rng))
        k = rng.randrange(len(a)) if a else 0
        return a[:1] + a[max(1, k):][:2]
    return g


def trip(v="v", r="r", c="c", l="l"):
    return [VA(v, l, None, True), VA(r, l, U, True), VA(c, l, U, True)]


def mtrip(v="v", r="r", c="c", l="l"):
    return [VA(v, l), VA(r, l, U), VA(c, l, U)]


def outs(n="l"):
    return [Buf("ov", n), Buf("oi", n), Buf("oc", n)]


def three(n="l", ref="def", movable=()):
    def spec(x):
        d = x.refs[ref]
        for o in ("ov", "oi", "oc"):
            x.vec(o, n, lambda q, o=o: d.E(o, q))
        x.iret(d.ret())
        for o in movable:
            x.res.skip_frame.update({o, "obj:" + o})
    return spec


def coo():
    L = []
    show = f"return ({SHOW})(a, ov, oi, oc);"
    srt = SORT_ + "auto id = order(r, c); std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) { ov[k] = v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } return " + COUNT + ";"
    g = coo_ints([("r", "c", "l")])
    kw = dict(ret=U, ints=g, refs={"def": srt})
    op(L, "coo_new", trip() + outs(), "SpCooMat<$T> a(v, r, c); " + show, three(), **kw)
    op(L, "coo_new_move", mtrip() + outs(), "SpCooMat<$T> a(std::move(v), std::move(r), std::move(c)); " + show, three(movable=("v", "r", "c")), **kw)
    op(L, "coo_copy", trip() + outs(), "SpCooMat<$T> b(v, r, c); SpCooMat<$T> a(b); " + show, three(), **kw)
    op(L, "coo_copy_kept", trip() + outs(), "SpCooMat<$T> a(v, r, c); SpCooMat<$T> b(a); b = SpCooMat<$T>(); " + show, three(), **kw)
    op(L, "coo_move", trip() + outs(), "SpCooMat<$T> b(v, r, c); SpCooMat<$T> a(std::move(b)); " + show, three(), **kw)
    op(L, "coo_assign", trip() + outs(), "SpCooMat<$T> b(v, r, c); SpCooMat<$T> a; a = b; " + show, three(), **kw)
    op(L, "coo_assign_over", trip() + outs(), "SpCooMat<$T> b(v, r, c); SpCooMat<$T> a = SpCooMat<$T>::unit(3); a = b; " + show, three(), **kw)
    op(L, "coo_assign_self", trip() + outs(), "SpCooMat<$T> a(v, r, c); auto& b = a; a = b; " + show, three(), **kw)
    op(L, "coo_assign_move", trip() + outs(), "SpCooMat<$T> b(v, r, c); SpCooMat<$T> a = SpCooMat<$T>::unit(2); a = std::move(b); " + show, three(), **kw)
    op(L, "coo_reserve", trip() + outs() + [I("z")], "SpCooMat<$T> a(v, r, c); a.reserve(z); " + show, three(), **kw)

    def unit(x):
        n = x.n("l")
        x.vec("ov", "l", lambda q: x.c(1))
        for o in ("oi", "oc"):
            x.vec(o, "l", lambda q: Num([atom(mk("i2f", "f", q))] + [const(0, "f")] * (x.nc - 1)))
        x.iret(scale(n, 1001001001))
    op(L, "coo_unit", [I("l")] + outs(), "SpCooMat<$T> a = SpCooMat<$T>::unit(l); " + show, unit, ret=U)

    op(L, "coo_shape", trip(), "SpCooMat<$T> a(v, r, c); return a.shape().first * 1000 + a.shape().second;", lambda x: x.iret(x.refs["def"].ret()), ret=U, ints=g, alts=[lambda x: x.iret(x.refs["ord"].ret())],
       refs={"ord": SORT_ + "auto id = order(r, c); std::vector<std::size_t> p(id.size()), q(id.size()); for (std::size_t k = 0; k < id.size(); ++k) { p[k] = r[id[k]]; q[k] = c[id[k]]; } "
             "std::size_t n = p.empty() ? 0 : *std::ranges::max_element(p) + 1, m = q.empty() ? 0 : *std::ranges::max_element(q) + 1; return n * 1000 + m;",
             "def": "std::size_t n = 0, m = 0; for (std::size_t k = 0; k < r.size(); ++k) { n = std::max(n, r[k] + 1); m = std::max(m, c[k] + 1); } return n * 1000 + m;"})

    def cells(sizes, rng, rows, cols):
        for _ in range(3):
            yield dict(i=rng.randrange(rows + 1), j=rng.randrange(cols + 1))
        yield dict(i=rows - 1, j=0)
        yield dict(i=0, j=cols - 1)
    gi = coo_ints([("r", "c", "l")], cells)
    find = "$T z = Zero<$T>::value(); for (std::size_t k = 0; k < v.size(); ++k) { if (r[k] == i && c[k] == j) { z = v[k]; } } "
    def one(k):
        return lambda x: x.vec("o", 1, lambda q: x.refs[k].E("o", q))
    for nm, e in (("at", "std::as_const(a).at(i, j)"), ("call", "std::as_const(a)(i, j)")):
        op(L, f"coo_{nm}", trip() + [I("i"), I("j"), Buf("o", 1)], f"SpCooMat<$T> a(v, r, c); o[0] = {e};", one("def"), ints=gi, alts=[one("ord")],
           refs={"def": find + "o[0] = z;", "ord": SORT_ + "auto id = order(r, c); for (std::size_t k = 0; k < v.size(); ++k) { if (r[id[k]] == i && c[id[k]] == j) { o[0] = v[id[k]]; return; } } o[0] = Zero<$T>::value();"})

    def mut(x, k="def"):
        d = x.refs[k]
        x.throws(d.throws(), "out_of_range")
        x.res.throw_written = {"ov", "oi", "oc"}
        for o in ("ov", "oi", "oc"):
            x.vec(o, "l", lambda q, o=o: d.E(o, q))
        x.iret(d.ret())
    op(L, "coo_mut_at", trip() + [I("i"), I("j"), S("w")] + outs(), "SpCooMat<$T> a(v, r, c); a.mut_at(i, j) = w; " + show, mut, ret=U, ints=gi, alts=[lambda x: mut(x, "ord")],
       refs={"ord": SORT_ + "auto id = order(r, c); std::size_t n = v.size(), h = 0; for (; h < n; ++h) { if (r[id[h]] == i && c[id[h]] == j) { break; } } if (h == n) { throw std::out_of_range(\"\"); } "
             "for (std::size_t k = 0; k < n; ++k) { ov[k] = v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } ov[h] = w; return " + COUNT + ";",
             "def": SORT_ + "auto id = order(r, c); std::size_t n = v.size(); bool hit = false; for (std::size_t k = 0; k < n; ++k) { ov[k] = v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); "
             "if (r[id[k]] == i && c[id[k]] == j) { ov[k] = w; hit = true; } } if (!hit) { throw std::out_of_range(\"\"); } return " + COUNT + ";"})
    op(L, "coo_data", trip() + [S("w"), I("i")] + outs(), "SpCooMat<$T> a(v, r, c); if (i < v.size()) { a.data()[i] = w; } " + show, three(), ret=U,
       ints=coo_ints([("r", "c", "l")], lambda s, rng, a, b: [dict(i=rng.randrange(4))]),
       refs={"def": SORT_ + "auto id = order(r, c); std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) { ov[k] = k == i ? w : v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } return " + COUNT + ";"})

    def mism(x):
        x.throws(bnot(band(eq(x.n("l"), x.n("p")), eq(x.n("l"), x.n("q")))), "runtime_error")
        x.res.skip_frame.update({"v", "r", "c", "obj:v", "obj:r", "obj:c"})
    mg = lambda sizes, rng: iter([dict(r=list(range(sizes.get("p", 0))), c=[0] * sizes.get("q", 0)), dict(r=list(range(sizes.get("p", 0)))[::-1], c=list(range(sizes.get("q", 0))))])
    op(L, "coo_mismatch", [VA("v", "l", None, True), VA("r", "p", U, True), VA("c", "q", U, True)], "SpCooMat<$T> a(v, r, c);", mism, ints=mg)
    op(L, "coo_mismatch_move", [VA("v", "l"), VA("r", "p", U), VA("c", "q", U)], "SpCooMat<$T> a(std::move(v), std::move(r), std::move(c));", mism, ints=mg)
    for o in L:
        o.backends, o.shim = BOTH, True
        o.types = [t for t in o.types if t != "std::complex<float>"]
    return L


def coo_sums():
    L = []
    show = f"return ({SHOW})(s, ov, oi, oc);"
    two = trip() + trip("w", "s_", "t", "m")
    ab = "SpCooMat<$T> a(v, r, c); SpCooMat<$T> b(w, s_, t); "
    o2 = [Buf(k, add(var("l"), var("m"))) for k in ("ov", "oi", "oc")]
    def ref(sg):
        # the union of the positions in order; elements at the same position are added
        return (SORT_ + "std::vector<$T> x; std::vector<std::size_t> p, q; for (std::size_t k = 0; k < v.size(); ++k) { x.push_back(v[k]); p.push_back(r[k]); q.push_back(c[k]); } "
                + f"for (std::size_t k = 0; k < w.size(); ++k) {{ x.push_back({sg}w[k]); p.push_back(s_[k]); q.push_back(t[k]); }} "
                + "auto id = order(p, q); std::size_t n = 0; for (std::size_t k = 0; k < id.size(); ++k) { "
                "bool same = k != 0 && p[id[k]] == p[id[k - 1]] && q[id[k]] == q[id[k - 1]]; if (same) { ov[n - 1] += x[id[k]]; } else { ov[n] = x[id[k]]; oi[n] = $T(p[id[k]]); oc[n] = $T(q[id[k]]); ++n; } } "
                "return " + COUNT + ";")

    def spec(x):
        d = x.refs["def"]
        n = x.sym_n = fdiv(d.ret(), 1001001001)
        for o in ("ov", "oi", "oc"):
            x.vec(o, n, lambda q, o=o: d.E(o, q))
        x.iret(d.ret())
    g = few(coo_ints([("r", "c", "l"), ("s_", "t", "m")], rows_far=False))
    pairs = [dict(l=a, m=b) for a in range(4) for b in range(4)] + [dict(l=a, m=b) for a, b in ((4, 4), (5, 5), (6, 2), (2, 6), (6, 6), (5, 6), (6, 5), (4, 1), (1, 4), (7, 3), (3, 7), (7, 7), (8, 9))]
    kw = dict(ret=U, ints=g, sizes=pairs, variants=[dict(seed=1, budget=1 << 22), dict(seed=2, zeros=0.5, budget=1 << 22)])
    for nm, body, sg in (("add", ab + "auto s = a + b; ", ""), ("sub", ab + "auto s = a - b; ", "-"), ("iadd", ab + "auto& s = (a += b); ", ""),
                         ("iadd_neg", ab + "auto s = a; s += -b; ", "-"), ("iadd_obj", ab + "a += b; auto& s = a; ", "")):
        op(L, "coo_" + nm, two + o2, body + show, spec, refs={"def": ref(sg)}, **kw)
    srt = SORT_ + "auto id = order(r, c); std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) { ov[k] = @E; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } return " + COUNT + ";"
    keep = srt.replace("@E", "v[id[k]]")
    # the operands stay as they are
    for nm, body in (("add", "auto u = a + b; "), ("sub", "auto u = a - b; "), ("iadd", "a += b; ")):
        if nm != "iadd":
            op(L, f"coo_{nm}_left", two + o2, ab + body + "auto& s = a; " + show, three(), refs={"def": keep}, **kw)
        op(L, f"coo_{nm}_right", [*trip("w", "s_", "t", "m"), *trip()] + o2, "SpCooMat<$T> a(w, s_, t); SpCooMat<$T> b(v, r, c); " + body + "auto& s = b; " + show, three(), refs={"def": keep}, **kw)
    one = trip()
    o1 = outs()
    g1 = coo_ints([("r", "c", "l")], rows_far=False)
    for nm, body, e in (("neg", "auto s = -a; ", "-v[id[k]]"), ("twice", "a += a; auto& s = a; ", "v[id[k]] + v[id[k]]"), ("neg_left", "auto u = -a; auto& s = a; ", "v[id[k]]"),
                        ("add_self", "auto s = a + a; ", "v[id[k]] + v[id[k]]"), ("sub_self", "auto s = a - a; ", "v[id[k]] - v[id[k]]")):
        op(L, "coo_" + nm, one + o1, "SpCooMat<$T> a(v, r, c); " + body + show, three(), ret=U, ints=g1, refs={"def": srt.replace("@E", e)})
    for nm, body, e in (("scale", "auto& s = scale(al, a); if (&s != &a) { return 0; } ", "al * v[id[k]]"), ("times", "auto s = al * a; ", "al * v[id[k]]"), ("times_left", "auto u = al * a; auto& s = a; ", "v[id[k]]")):
        op(L, "coo_" + nm, one + [S("al")] + o1, "SpCooMat<$T> a(v, r, c); " + body + show, three(), ret=U, ints=g1, refs={"def": srt.replace("@E", e)})
    for o in L:
        o.backends, o.shim = BOTH, True
        o.types = [t for t in o.types if t != "std::complex<float>"]
    return L


# ---- compressed rows -------------------------------------------------------------------------
SHOWC = "[](const auto& a, $T* ov, $T* op, $T* oc) -> std::size_t { const auto& v = a.values(); const auto& p = a.row_ptr(); const auto& q = a.col_indices(); " \
        "for (std::size_t k = 0; k < v.size(); ++k) { ov[k] = v[k]; } for (std::size_t k = 0; k < p.size(); ++k) { op[k] = $T(p[k]); } for (std::size_t k = 0; k < q.size(); ++k) { oc[k] = $T(q[k]); } " \
        "return a.nnz() + 1000 * p.size() + 1000000 * q.size() + 1000000000 * v.size(); }"
COUNTC = "std::size_t(1001000001) * v.size() + 1000 * (n + 1)"


def csr_i(sizes, rng):
    from ops_sparse import csr_ints
    for cols in (1, 3, 5, 9):
        yield from csr_ints({**sizes, "k": cols}, rng)


def csr_cells(sizes, rng):
    for d in csr_i(sizes, rng):
        n = sizes.get("n", 0)
        if not n:
            continue
        sz = d.pop("_sizes")
        for _ in range(4):
            i = rng.randrange(n)
            row = d["ci"][d["rp"][i]:d["rp"][i + 1]]
            yield {**d, "_sizes": {**sz, "i": i, "j": rng.choice(row) if row and rng.random() < 0.7 else rng.randrange(10)}}


def csr():
    from ops_sparse import csr_facts
    L = []
    show = f"return ({SHOWC})(a, ov, op, oc);"
    n1 = add(var("n"), ONE)
    cvec = lambda c=True: [VA("v", "l", None, c), VA("rp", n1, U, c), VA("ci", "l", U, c)]
    o3 = [Buf("ov", "l"), Buf("op", n1), Buf("oc", "l")]
    same = "std::size_t n = rp.size() - 1; for (std::size_t k = 0; k < v.size(); ++k) { ov[k] = @E; oc[k] = $T(ci[k]); } for (std::size_t k = 0; k < n + 1; ++k) { op[k] = $T(rp[k]); } return " + COUNTC + ";"
    keep = same.replace("@E", "v[k]")

    def arrs(x, k="def", movable=()):
        d = x.refs[k]
        x.vec("ov", "l", lambda q: d.E("ov", q))
        x.vec("oc", "l", lambda q: d.E("oc", q))
        x.vec("op", n1, lambda q: d.E("op", q))
        x.iret(d.ret())
        for o in movable:
            x.res.skip_frame.update({o, "obj:" + o})
    nf = csr_facts("k")

    def facts_(m):
        n, l = m.size("n"), m.size("l")
        m.index["rp"] = dict(hi=l, sorted=True, ends=[(ZERO, ZERO), (scale(n, 8), l)])
    kw = dict(ret=U, ints=csr_i, refs={"def": keep}, facts=facts_)
    new = "SpMat<$T> a(v, rp, ci); "
    op(L, "csr_new", cvec() + o3, new + show, arrs, **kw)
    op(L, "csr_new_move", cvec(False) + o3, "SpMat<$T> a(std::move(v), std::move(rp), std::move(ci)); " + show, lambda x: arrs(x, movable=("v", "rp", "ci")), **kw)
    for nm, body in (("copy", "SpMat<$T> b(v, rp, ci); SpMat<$T> a(b); "), ("copy_kept", "SpMat<$T> a(v, rp, ci); SpMat<$T> b(a); b = SpMat<$T>::unit(1); "),
                     ("move", "SpMat<$T> b(v, rp, ci); SpMat<$T> a(std::move(b)); "), ("assign", "SpMat<$T> b(v, rp, ci); SpMat<$T> a; a = b; "),
                     ("assign_over", "SpMat<$T> b(v, rp, ci); SpMat<$T> a = SpMat<$T>::unit(3); a = b; "), ("assign_self", "SpMat<$T> a(v, rp, ci); auto& b = a; a = b; "),
                     ("assign_move", "SpMat<$T> b(v, rp, ci); SpMat<$T> a = SpMat<$T>::unit(2); a = std::move(b); ")):
        op(L, "csr_" + nm, cvec() + o3, body + show, arrs, **kw)
    op(L, "csr_reserve", cvec() + o3 + [I("z"), I("y")], new + "a.reserve(z, y); " + show, arrs, sizes=[dict(n=a, l=0, z=b, y=2) for a in range(4) for b in (0, 9)], **kw)
    op(L, "csr_scale", cvec() + o3 + [S("al")], new + "auto& r = scale(al, a); if (&r != &a) { return 0; } " + show, arrs, **{**kw, "refs": {"def": same.replace("@E", "al * v[k]")}})
    op(L, "csr_times", cvec() + o3 + [S("al")], "SpMat<$T> b(v, rp, ci); auto a = al * b; " + show, arrs, **{**kw, "refs": {"def": same.replace("@E", "al * v[k]")}})
    op(L, "csr_times_kept", cvec() + o3 + [S("al")], "SpMat<$T> a(v, rp, ci); auto b = al * a; " + show, arrs, **kw)
    op(L, "csr_neg", cvec() + o3, "SpMat<$T> b(v, rp, ci); auto a = -b; " + show, arrs, **{**kw, "refs": {"def": same.replace("@E", "-v[k]")}})
    op(L, "csr_data", cvec() + o3 + [S("w"), I("i")], new + "if (i < v.size()) { a.data()[i] = w; } " + show, arrs, **{**kw, "refs": {"def": same.replace("@E", "k == i ? w : v[k]")},
       "ints": lambda s, r: ({**d, "_sizes": {**d["_sizes"], "i": r.randrange(3)}} for d in csr_i(s, r))})

    def unit(x):
        n = x.n("n")
        i2f = lambda q: Num([atom(mk("i2f", "f", q))] + [const(0, "f")] * (x.nc - 1))
        x.vec("ov", "n", lambda q: x.c(1))
        x.vec("oc", "n", i2f)
        x.vec("op", n1, i2f)
        x.iret(add(scale(n, 1001001001), const(1000)))
    op(L, "csr_unit", [I("n"), Buf("ov", "n"), Buf("op", n1), Buf("oc", "n")], "SpMat<$T> a = SpMat<$T>::unit(n); " + show, unit, ret=U)
    op(L, "csr_shape", cvec(), new + "return a.shape().first * 1000 + a.shape().second;", lambda x: x.iret(x.refs["def"].ret()), ret=U, ints=csr_i, facts=facts_,
       alts=[lambda x: x.iret(x.refs["max"].ret())],
       refs={"def": "std::size_t m = 0; for (std::size_t k = 0; k < ci.size(); ++k) { m = std::max(m, ci[k] + 1); } return (rp.size() - 1) * 1000 + m;",
             "max": "std::size_t m = ci.empty() ? 0 : *std::ranges::max_element(ci) + 1; return (rp.size() - 1) * 1000 + m;"})

    def row(m):
        facts_(m)
        m.facts.append(lt(m.size("i"), m.size("n")))
    def at_(x):
        d = x.refs["def"]
        x.vec("o", 1, lambda q: d.E("o", q))
    look = "std::size_t h = rp[i]; for (; h < rp[i + 1]; ++h) { if (ci[h] == j) { break; } } "
    for nm, e in (("at", "std::as_const(a).at(i, j)"), ("call", "std::as_const(a)(i, j)")):
        op(L, "csr_" + nm, cvec() + [I("i"), I("j"), Buf("o", 1)], new + f"o[0] = {e};", at_, ints=csr_cells, facts=row,
           refs={"def": look + "o[0] = h < rp[i + 1] ? v[h] : Zero<$T>::value();"})

    def mut(x):
        d = x.refs["def"]
        x.throws(d.throws(), "out_of_range")
        x.res.throw_written = {"ov", "op", "oc"}
        arrs(x)
    op(L, "csr_mut_at", cvec() + [I("i"), I("j"), S("w")] + o3, new + "a.mut_at(i, j) = w; " + show, mut, ret=U, ints=csr_cells, facts=row,
       refs={"def": look + "if (h == rp[i + 1]) { throw std::out_of_range(\"\"); } " + same.replace("@E", "k == h ? w : v[k]")})

    def mism(x):
        x.throws(bnot(eq(x.n("l"), x.n("q"))), "runtime_error")
        x.res.skip_frame.update({"v", "rp", "ci", "obj:v", "obj:rp", "obj:ci"})
    mg = lambda sizes, rng: iter([dict(rp=[0, sizes.get("l", 0)] + [sizes.get("l", 0)] * sizes.get("n", 0), ci=list(range(sizes.get("q", 0))))])
    for nm, c, e in (("", True, "v, rp, ci"), ("_move", False, "std::move(v), std::move(rp), std::move(ci)")):
        op(L, "csr_mismatch" + nm, [VA("v", "l", None, c), VA("rp", n1, U, c), VA("ci", "q", U, c)], f"SpMat<$T> a({e});", mism, ints=mg)

    # from coordinates: the entries row by row
    buf = [Buf("ov", "l"), Buf("op", 64), Buf("oc", "l")]
    body = SORT_ + "auto id = order(r, c); std::size_t n = 0; for (std::size_t k = 0; k < r.size(); ++k) { n = std::max(n, r[k] + 1); } for (std::size_t k = 0; k < v.size(); ++k) { ov[k] = v[id[k]]; oc[k] = $T(c[id[k]]); } " \
           "for (std::size_t i = 0; i < n + 1; ++i) { std::size_t z = 0; for (std::size_t k = 0; k < r.size(); ++k) { z += r[k] < i; } op[i] = $T(z); } return " + COUNTC + ";"
    scan = SORT_ + "auto id = order(r, c); std::vector<std::size_t> rs(r.size()), rp; for (std::size_t k = 0; k < r.size(); ++k) { rs[k] = r[id[k]]; } " \
           "rp.push_back(0); const std::size_t* at = rs.data(); const std::size_t* z = rs.data() + rs.size(); for (std::size_t i = 0; at < z; ++i) { at = std::upper_bound(at, z, i); rp.push_back(at - rs.data()); } " \
           "std::size_t n = rp.size() - 1; for (std::size_t k = 0; k < v.size(); ++k) { ov[k] = v[id[k]]; oc[k] = $T(c[id[k]]); } for (std::size_t k = 0; k < rp.size(); ++k) { op[k] = $T(rp[k]); } return " + COUNTC + ";"

    def conv(k):
        def spec(x):
            d = x.refs[k]
            x.vec("ov", "l", lambda q: d.E("ov", q))
            x.vec("oc", "l", lambda q: d.E("oc", q))
            rows = fdiv(terms.sub(x.refs[k].ret(), scale(x.n("l"), 1001000001)), 1000)
            x.vec("op", rows, lambda q: d.E("op", q))
            x.iret(d.ret())
        return spec
    g = coo_ints([("r", "c", "l")], rows_far=False)
    for nm, b in (("copy", "SpCooMat<$T> b(v, r, c); SpMat<$T> a(b); "), ("move", "SpCooMat<$T> b(v, r, c); SpMat<$T> a(std::move(b)); ")):
        op(L, "csr_of_coo_" + nm, trip() + buf, b + show, conv("def"), ret=U, ints=g, refs={"def": body, "scan": scan}, alts=[conv("scan")])
    op(L, "csr_of_coo_kept", trip() + outs(), "SpCooMat<$T> a(v, r, c); SpMat<$T> b(a); " + f"return ({SHOW})(a, ov, oi, oc);", three(), ret=U, ints=g,
       refs={"def": SORT_ + "auto id = order(r, c); std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) { ov[k] = v[id[k]]; oi[k] = $T(r[id[k]]); oc[k] = $T(c[id[k]]); } return " + COUNT + ";"})
    op(L, "csr_of_coo_value", trip() + [I("i"), I("j"), Buf("o", 1)], "SpCooMat<$T> b(v, r, c); SpMat<$T> a(b); o[0] = i < a.shape().first ? std::as_const(a).at(i, j) : Zero<$T>::value();",
       lambda x: x.vec("o", 1, lambda q: x.refs["def"].E("o", q)), ints=coo_ints([("r", "c", "l")], lambda s, rng, a, b: [dict(i=rng.randrange(a + 1), j=rng.randrange(b + 1)) for _ in range(4)]),
       refs={"def": "$T z = Zero<$T>::value(); for (std::size_t k = 0; k < v.size(); ++k) { if (r[k] == i && c[k] == j) { z = v[k]; } } o[0] = z;"})
    for o in L:
        o.backends, o.shim = BOTH, True
        o.types = [t for t in o.types if t != "std::complex<float>"]
    return L
