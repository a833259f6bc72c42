"""Dense vector and matrix operations and their definitions."""
from driver import *
from opspec import *

F4 = ["double", "float", "std::complex<double>", "std::complex<float>"]
SM_ = "SizeMismatched"
BK = ["Internal", "BLAS"]


def op(lst, name, args, body, spec, **kw):
    kw.setdefault("types", F4)
    lst.append(Op(name, args, body, spec=spec, **kw))


def vecarg(kind, name, sym):
    """kind D: dynamic, of symbolic size; a number: fixed."""
    return DV(name, sym) if kind == "D" else SV(name, kind)


def size_of(kind, sym, x):
    return x.n(sym) if kind == "D" else const(kind)


def mismatch(x, a, b):
    if a is not b:
        x.throws(bnot(eq(a, b)), SM_)


# ---------------------------------------------------------------- element-wise (C01), with the size contract (C06)
def elementwise():
    L = []
    E = lambda r: (lambda x, q: x.E(r, q))

    def unary(nm, body, f, kinds, extra=(), dest="r"):
        for k in kinds:
            a = [vecarg(k, "a", "n")]
            if dest == "r":
                a.append(vecarg(k, "r", "l"))

            def spec(x, k=k):
                n = size_of(k, "n", x)
                if dest == "r":
                    mismatch(x, n, size_of(k, "l", x))
                d = dest if dest == "r" else "a"
                x.vec(d, n, lambda q: f(x, q))
                x.same_object(d)
            op(L, f"{nm}_{k}", list(extra) + a, body, spec, ret="const void*")
    KS = ["D", 3, 20]
    unary("neg", "return &neg(a, r);", lambda x, q: -x.E("a", q), KS)
    unary("scale", "return &scale(al, a);", lambda x, q: x.S("al") * x.E("a", q), KS, [S("al")], "a")

    def newv(nm, body, f, two=False, extra=()):
        for k in KS:
            a = [vecarg(k, "a", "n")] + ([vecarg(k, "b", "m")] if two else [])
            ct = "DynVec<$T>" if k == "D" else f"SizedVec<$T,{k}>"

            def spec(x, k=k):
                n = size_of(k, "n", x)
                if two:
                    mismatch(x, n, size_of(k, "m", x))
                (x.new_vec if k == "D" else x.new_svec)(n if k == "D" else k, lambda q: f(x, q))
            op(L, f"{nm}_{k}", [Out(ct)] + list(extra) + a, f"new(R) {ct}({body});", spec)
    newv("uminus", "-a", lambda x, q: -x.E("a", q))
    newv("plus", "a + b", lambda x, q: x.E("a", q) + x.E("b", q), True)
    newv("minus", "a - b", lambda x, q: x.E("a", q) - x.E("b", q), True)
    newv("scaled", "scaled(al, a)", lambda x, q: x.S("al") * x.E("a", q), extra=[S("al")])
    newv("smul", "al * a", lambda x, q: x.S("al") * x.E("a", q), extra=[S("al")])
    newv("muls", "a * al", lambda x, q: x.S("al") * x.E("a", q), extra=[S("al")])
    newv("div", "a / al", lambda x, q: x.E("a", q) / x.S("al"), extra=[S("al")])

    for nm, f in (("add", lambda u, v: u + v), ("sub", lambda u, v: u - v)):
        for ka, kb, kr in (("D", "D", "D"), (3, 3, 3), (20, 20, 20), (3, "D", 3), ("D", 3, 3), (20, "D", 20), ("D", 20, 20)):
            def spec(x, ka=ka, kb=kb, kr=kr, f=f):
                na, nb, nr = size_of(ka, "n", x), size_of(kb, "m", x), size_of(kr, "l", x)
                mismatch(x, na, nb)
                mismatch(x, na, nr)
                x.vec("r", na, lambda q: f(x.E("a", q), x.E("b", q)))
                x.same_object("r")
            op(L, f"{nm}_{ka}{kb}{kr}", [vecarg(ka, "a", "n"), vecarg(kb, "b", "m"), vecarg(kr, "r", "l")], f"return &{nm}(a, b, r);", spec, ret="const void*")
    for k in KS:
        def spec(x, k=k):
            n, m = size_of(k, "n", x), size_of(k, "m", x)
            mismatch(x, n, m)
            x.vec("y", m, lambda q: x.S("al") * x.E("x", q) + x.E("y", q))
            x.same_object("y")
        op(L, f"axpy_{k}", [S("al"), vecarg(k, "x", "n"), vecarg(k, "y", "m")], "return &axpy(al, x, y);", spec, ret="const void*")
    return L


def matarg(kind, name, n, k):
    return DM(name, n, k) if kind == "D" else SM(name, *kind)


def dims(kind, n, k, x):
    return (x.n(n), x.n(k)) if kind == "D" else (const(kind[0]), const(kind[1]))


def mat_elementwise():
    L = []
    KS = ["D", (2, 3), (4, 5)]
    for nm, f in (("madd", lambda u, v: u + v), ("msub", lambda u, v: u - v)):
        fn = nm[1:]
        for ka, kb, kr in (("D", "D", "D"), ((2, 3),) * 3, ((4, 5),) * 3, ((2, 3), "D", (2, 3)), ("D", (2, 3), (2, 3))):
            t = "".join("D" if k == "D" else "S%d%d" % k for k in (ka, kb, kr))
            sized = next((k for k in (ka, kb, kr) if k != "D"), None)
            facts = None
            if sized and "D" in (ka, kb):
                facts = lambda m, s=sized: m.facts.extend([eq(m.size("n"), const(s[0])), eq(m.size("k"), const(s[1]))])

            def spec(x, ka=ka, f=f):
                n, k = dims(ka, "n", "k", x)
                x.vec("r", mul(n, k), lambda q: f(x.E("a", q), x.E("b", q)))
                x.same_object("r")
            kw = {"sizes": [dict(n=sized[0], k=sized[1])]} if facts else {}
            op(L, f"{nm}_{t}", [matarg(ka, "a", "n", "k"), matarg(kb, "b", "n", "k"), matarg(kr, "r", "n", "k")], f"return &{fn}(a, b, r);", spec, ret="const void*", facts=facts, **kw)
    def newm(nm, body, f, two=False, extra=()):
        for k in KS:
            t = "D" if k == "D" else "S%d%d" % k
            ct = "DynMat<$T>" if k == "D" else f"SizedMat<$T,{k[0]},{k[1]}>"

            def spec(x, k=k):
                n, m = dims(k, "n", "k", x)
                if k == "D":
                    x.new_mat(n, m, lambda i, j: f(x, add(mul(i, m), j)))
                else:
                    x.new_smat(k[0], k[1], lambda i, j: f(x, add(mul(i, m), j)))
            op(L, f"{nm}_{t}", [Out(ct)] + list(extra) + [matarg(k, "a", "n", "k")] + ([matarg(k, "b", "n", "k")] if two else []), f"new(R) {ct}({body});", spec)
    newm("mplus", "a + b", lambda x, q: x.E("a", q) + x.E("b", q), True)
    newm("mminus", "a - b", lambda x, q: x.E("a", q) - x.E("b", q), True)
    newm("mneg", "-a", lambda x, q: -x.E("a", q))
    newm("msmul", "al * a", lambda x, q: x.S("al") * x.E("a", q), extra=[S("al")])
    for k in KS:
        t = "D" if k == "D" else "S%d%d" % k

        def spec(x, k=k):
            n, m = dims(k, "n", "k", x)
            x.vec("a", mul(n, m), lambda q: x.S("al") * x.E("a", q))
            x.same_object("a")
        op(L, f"mscale_{t}", [S("al"), matarg(k, "a", "n", "k")], "return &scale(al, a);", spec, ret="const void*")
    return L


# ---------------------------------------------------------------- reductions and products (C02)
def products():
    L = []
    for ka, kb, body, nm in (("D", "D", "dot(a, b)", "dot"), (5, 5, "dot(a, b)", "dot"), (18, 18, "dot(a, b)", "dot"), ("D", "D", "a.dot(b)", "mdot"),
                             (5, 5, "a.dot(b)", "mdot"), (5, "D", "a.dot(b)", "mdot"), ("D", 5, "a.dot(b)", "mdot")):
        def spec(x, ka=ka, kb=kb):
            n, m = size_of(ka, "n", x), size_of(kb, "m", x)
            mismatch(x, n, m)
            x.val(x.sum(n, lambda u: x.E("a", u) * x.E("b", u)))
        op(L, f"{nm}_{ka}{kb}", [Out("$T"), vecarg(ka, "a", "n"), vecarg(kb, "b", "m")], f"new(R) $T({body});", spec)
    for k in ("D", 1, 5):
        def spec(x, k=k):
            x.val(x.sum(size_of(k, "n", x), lambda u: x.E("a", u).abs2()).sqrt())
        op(L, f"norm2_{k}", [Out("$T"), vecarg(k, "a", "n")], "new(R) $T(a.norm2());", spec)
    fix = lambda *ss: (lambda m: m.facts.extend(eq(m.size(s), const(v)) for s, v in ss if s in m.sizes))

    def cross3(x, q, acc):
        a, b = (lambda i: x.E("a", i)), (lambda i: x.E("b", i))
        out = None
        for k in range(3):
            i, j = (k + 1) % 3, (k + 2) % 3
            v = a(i) * b(j) - b(i) * a(j)
            if acc:
                v = v + x.E("r", k)
            out = v if out is None else Num(ite(eq(q, const(k)), p, o) for p, o in zip(v.c, out.c))
        return out
    for ka, kb in ((2, 2), (2, "D"), ("D", 2)):
        def spec(x):
            x.val(x.E("a", 0) * x.E("b", 1) - x.E("b", 0) * x.E("a", 1))
        op(L, f"cross2_{ka}{kb}", [Out("$T"), vecarg(ka, "a", "n"), vecarg(kb, "b", "m")], "new(R) $T(cross(a, b));", spec,
           facts=fix(("n", 2), ("m", 2)), sizes=[{s: 2 for s, k in (("n", ka), ("m", kb)) if k == "D"}])
    for ka, kb in ((3, 3), (3, "D"), ("D", 3)):
        def spec(x):
            x.new_svec(3, lambda q: cross3(x, q, False))
        op(L, f"cross3_{ka}{kb}", [Out("SizedVec<$T,3>"), vecarg(ka, "a", "n"), vecarg(kb, "b", "m")], "new(R) SizedVec<$T,3>(cross(a, b));", spec,
           facts=fix(("n", 3), ("m", 3)), sizes=[{s: 3 for s, k in (("n", ka), ("m", kb)) if k == "D"}])
    for nm in ("cross", "cross_acc"):
        for ka in (3, "D"):
            for kb in (3, "D"):
                for kr in (3, "D"):
                    def spec(x, nm=nm):
                        x.vec("r", const(3), lambda q: cross3(x, q, nm == "cross_acc"))
                        x.same_object("r")
                    op(L, f"{nm}3_{ka}{kb}{kr}", [vecarg(ka, "a", "n"), vecarg(kb, "b", "m"), vecarg(kr, "r", "l")], f"return &{nm}(a, b, r);", spec,
                       ret="const void*", facts=fix(("n", 3), ("m", 3), ("l", 3)), sizes=[{s: 3 for s, k in (("n", ka), ("m", kb), ("l", kr)) if k == "D"}])
    return L


# ---------------------------------------------------------------- matrix products (C03)
def matvec():
    L = []
    def val(x, i, m, beta=True):
        s = x.sum(m, lambda u: x.E("A", add(mul(i, m), u)) * x.E("x", u))
        if not beta:
            return s
        return x.S("be") * x.E("y", i) + x.S("al") * s

    for kA, kx, ky in (("D", "D", "D"), ("D", 3, "D"), ((4, 3), 3, 4), ((4, 3), "D", 4), ((1, 7), 7, 1), ((7, 1), 1, 7)):
        t = f"{'D' if kA == 'D' else 'S%d%d' % kA}{kx}{ky}"
        facts = None
        kw = {}
        if kA == "D" and kx != "D":
            facts = lambda m, v=kx: m.facts.append(eq(m.size("m"), const(v)))
            kw["sizes"] = [dict(n=i, m=kx) for i in range(5)]
        if kA != "D" and kx == "D":
            facts = lambda m, v=kA[1]: m.facts.append(eq(m.size("m"), const(v)))
            kw["sizes"] = [dict(m=kA[1])]

        def spec(x, kA=kA):
            n, m = dims(kA, "n", "m", x)
            x.vec("y", n, lambda i: val(x, i, m))
            x.same_object("y")
        op(L, f"mv_{t}", [S("al"), matarg(kA, "A", "n", "m"), vecarg(kx, "x", "m"), S("be"), vecarg(ky, "y", "n")], "return &mul(al, A, x, be, y);", spec,
           ret="const void*", facts=facts, **kw)

        def spec2(x, kA=kA, ky=ky):
            n, m = dims(kA, "n", "m", x)
            (x.new_vec if ky == "D" else x.new_svec)(n if ky == "D" else ky, lambda i: val(x, i, m, False))
        ct = "DynVec<$T>" if ky == "D" else f"SizedVec<$T,{ky}>"
        op(L, f"mvop_{t}", [Out(ct), matarg(kA, "A", "n", "m"), vecarg(kx, "x", "m")], f"new(R) {ct}(A * x);", spec2, facts=facts, **kw)
    return L


def matmat():
    L = []
    def val(x, i, j, m, l, beta=True):
        s = x.sum(l, lambda u: x.E("A", add(mul(i, l), u)) * x.E("B", add(mul(u, m), j)))
        if not beta:
            return s
        return x.S("be") * x.E("C", add(mul(i, m), j)) + x.S("al") * s
    N, M, K = 2, 3, 4
    for kA in ("D", "S"):
        for kB in ("D", "S"):
            for kC in ("D", "S"):
                # sizes fixed by the static operands
                n = N if "S" in (kA, kC) else None
                m = M if "S" in (kB, kC) else None
                l = K if "S" in (kA, kB) else None
                fx = [(s, v) for s, v in (("n", n), ("m", m), ("l", l)) if v is not None]
                facts = lambda mo, fx=fx: mo.facts.extend(eq(mo.size(s), const(v)) for s, v in fx if s in mo.sizes)
                kw = {}
                if fx:
                    free = [s for s, v in (("n", n), ("m", m), ("l", l)) if v is None]
                    kw["sizes"] = [{**dict(fx), **{s: v for s in free}} for v in (0, 1, 2, 3, 5)]

                def spec(x, n=n, m=m, l=l):
                    nn, mm, ll = (const(v) if v is not None else x.n(s) for s, v in (("n", n), ("m", m), ("l", l)))
                    x.mat("C", nn, mm, lambda i, j: val(x, i, j, mm, ll))
                    x.same_object("C")
                A = matarg("D" if kA == "D" else (N, K), "A", "n", "l")
                B = matarg("D" if kB == "D" else (K, M), "B", "l", "m")
                C = matarg("D" if kC == "D" else (N, M), "C", "n", "m")
                op(L, f"mm_{kA}{kB}{kC}", [S("al"), A, B, S("be"), C], "return &mul(al, A, B, be, C);", spec, ret="const void*", facts=facts, **kw)
    def specD(x):
        n, m, l = x.n("n"), x.n("m"), x.n("l")
        x.new_mat(n, m, lambda i, j: val(x, i, j, m, l, False))
    op(L, "mmop_D", [Out("DynMat<$T>"), DM("A", "n", "l"), DM("B", "l", "m")], "new(R) DynMat<$T>(A * B);", specD)
    def specS(x):
        x.new_smat(N, M, lambda i, j: val(x, i, j, const(M), const(K), False))
    op(L, "mmop_S", [Out("SizedMat<$T,2,3>"), SM("A", N, K), SM("B", K, M)], "new(R) SizedMat<$T,2,3>(A * B);", specS)
    def inv2(x, i, j):
        a = [x.E("A", k) for k in range(4)]
        d = (a[0] * a[3] - a[1] * a[2]).inv()
        v = [a[3] * d, -a[1] * d, -a[2] * d, a[0] * d]
        q = add(scale(i, 2), j)
        out = v[0]
        for k in (1, 2, 3):
            out = Num(ite(eq(q, const(k)), p, o) for p, o in zip(v[k].c, out.c))
        return out
    op(L, "inverted", [Out("SizedMat<$T,2,2>"), SM("A", 2, 2)], "new(R) SizedMat<$T,2,2>(inverted(A));", lambda x: x.new_smat(2, 2, lambda i, j: inv2(x, i, j)))
    def sinv(x):
        x.mat("A", const(2), const(2), lambda i, j: inv2(x, i, j))
        x.same_object("A")
    op(L, "invert_in_place", [SM("A", 2, 2)], "return &invert(A);", sinv, ret="const void*")
    def sinv2(x):
        x.mat("B", const(2), const(2), lambda i, j: inv2(x, i, j))
        x.new_smat(2, 2, lambda i, j: inv2(x, i, j))
    op(L, "invert_to", [Out("SizedMat<$T,2,2>"), SM("A", 2, 2), SM("B", 2, 2)], "new(R) SizedMat<$T,2,2>(invert(A, B));", sinv2)
    return L


# ---------------------------------------------------------------- destination is an operand (C05)
def aliased():
    """Operations called with one object in two roles; the result is that of distinct copies."""
    L = []
    KS = ["D", 3, 20]

    def v(nm, args, body, dest, n, f, k):
        def spec(x):
            d = size_of(k, n, x)
            x.vec(dest, d, lambda q: f(x, q))
            x.same_object(dest)
        op(L, f"{nm}_{k}", args, body, spec, ret="const void*")
    for k in KS:
        a, b = vecarg(k, "a", "n"), vecarg(k, "b", "n")
        v("al_neg", [a], "return &neg(a, a);", "a", "n", lambda x, q: -x.E("a", q), k)
        for nm, f in (("add", lambda u, w: u + w), ("sub", lambda u, w: u - w)):
            v(f"al_{nm}_aba", [a, b], f"return &{nm}(a, b, a);", "a", "n", lambda x, q, f=f: f(x.E("a", q), x.E("b", q)), k)
            v(f"al_{nm}_abb", [a, b], f"return &{nm}(a, b, b);", "b", "n", lambda x, q, f=f: f(x.E("a", q), x.E("b", q)), k)
            v(f"al_{nm}_aab", [a, b], f"return &{nm}(a, a, b);", "b", "n", lambda x, q, f=f: f(x.E("a", q), x.E("a", q)), k)
            v(f"al_{nm}_aaa", [a], f"return &{nm}(a, a, a);", "a", "n", lambda x, q, f=f: f(x.E("a", q), x.E("a", q)), k)
        v("al_axpy", [S("al"), a], "return &axpy(al, a, a);", "a", "n", lambda x, q: x.S("al") * x.E("a", q) + x.E("a", q), k)
    # mixed kinds
    for nm, f in (("add", lambda u, w: u + w), ("sub", lambda u, w: u - w)):
        for k in (3, 20):
            fx = lambda m, k=k: m.facts.append(eq(m.size("m"), const(k)))
            for t, body in (("SD", f"return &{nm}(a, b, a);"), ("DS", f"return &{nm}(b, a, a);")):
                def spec(x, k=k, f=f, t=t):
                    g = (lambda q: f(x.E("a", q), x.E("b", q))) if t == "SD" else (lambda q: f(x.E("b", q), x.E("a", q)))
                    x.vec("a", const(k), g)
                    x.same_object("a")
                op(L, f"al_{nm}_{t}{k}", [SV("a", k), DV("b", "m")], body, spec, ret="const void*", facts=fx, sizes=[dict(m=k)])
    # matrices
    for k in ("D", (4, 5)):
        t = "D" if k == "D" else "S"
        A, B = matarg(k, "a", "n", "k"), matarg(k, "b", "n", "k")

        def m(nm, args, body, dest, f, k=k):
            def spec(x):
                n, c = dims(k, "n", "k", x)
                x.vec(dest, mul(n, c), lambda q: f(x, q))
                x.same_object(dest)
            op(L, f"{nm}_{t}", args, body, spec, ret="const void*")
        for nm, f in (("add", lambda u, w: u + w), ("sub", lambda u, w: u - w)):
            m(f"al_m{nm}_aba", [A, B], f"return &{nm}(a, b, a);", "a", lambda x, q, f=f: f(x.E("a", q), x.E("b", q)))
            m(f"al_m{nm}_abb", [A, B], f"return &{nm}(a, b, b);", "b", lambda x, q, f=f: f(x.E("a", q), x.E("b", q)))
            m(f"al_m{nm}_aaa", [A], f"return &{nm}(a, a, a);", "a", lambda x, q, f=f: f(x.E("a", q), x.E("a", q)))
    # matrix times vector, the vector being the destination
    for k in ("D", 3, 7):
        def spec(x, k=k):
            n = size_of(k, "n", x)
            x.vec("x", n, lambda i: x.S("be") * x.E("x", i) + x.S("al") * x.sum(n, lambda u: x.E("A", add(mul(i, n), u)) * x.E("x", u)))
            x.same_object("x")
        op(L, f"al_mv_{k}", [S("al"), DM("A", "n", "n") if k == "D" else SM("A", k, k), S("be"), vecarg(k, "x", "n")], "return &mul(al, A, x, be, x);", spec, ret="const void*")
    # matrix times matrix, a factor being the destination
    for k in ("D", 4):
        n_ = lambda x, k=k: x.n("n") if k == "D" else const(k)
        M = lambda nm, k=k: DM(nm, "n", "n") if k == "D" else SM(nm, k, k)

        def mm(nm, args, a, b, cc, k=k, n_=n_):
            def spec(x):
                n = n_(x)
                x.mat(cc, n, n, lambda i, j: x.S("be") * x.E(cc, add(mul(i, n), j)) + x.S("al") * x.sum(n, lambda u: x.E(a, add(mul(i, n), u)) * x.E(b, add(mul(u, n), j))))
                x.same_object(cc)
            op(L, f"al_mm_{nm}_{k}", [S("al"), S("be")] + args, f"return &mul(al, {a}, {b}, be, {cc});", spec, ret="const void*")
        mm("aba", [M("a"), M("b")], "a", "b", "a")
        mm("abb", [M("a"), M("b")], "a", "b", "b")
        mm("aab", [M("a"), M("b")], "a", "a", "b")
        mm("aaa", [M("a")], "a", "a", "a")
    def inv2(x, i, j):
        a = [x.E("A", k) for k in range(4)]
        d = (a[0] * a[3] - a[1] * a[2]).inv()
        v = [a[3] * d, -a[1] * d, -a[2] * d, a[0] * d]
        q = add(scale(i, 2), j)
        out = v[0]
        for k in (1, 2, 3):
            out = Num(ite(eq(q, const(k)), p, o) for p, o in zip(v[k].c, out.c))
        return out
    op(L, "al_invert", [Out("SizedMat<$T,2,2>"), SM("A", 2, 2)], "new(R) SizedMat<$T,2,2>(invert(A, A));",
       lambda x: (x.mat("A", const(2), const(2), lambda i, j: inv2(x, i, j)), x.new_smat(2, 2, lambda i, j: inv2(x, i, j))))
    # a scalar argument that is an element of the destination
    for k in KS:
        fx = (lambda m: m.facts.append(le(ONE, m.size("n")))) if k == "D" else None
        def spec(x, k=k):
            x.vec("a", size_of(k, "n", x), lambda q: x.E("a", 0) * x.E("a", q))
            x.same_object("a")
        op(L, f"al_scale_elem_{k}", [vecarg(k, "a", "n")], "return &scale(a[0], a);", spec, ret="const void*", facts=fx)
        def spec(x, k=k):
            x.vec("y", size_of(k, "n", x), lambda q: x.E("y", 0) * x.E("x", q) + x.E("y", q))
            x.same_object("y")
        op(L, f"al_axpy_elem_{k}", [vecarg(k, "x", "n"), vecarg(k, "y", "n")], "return &axpy(y[0], x, y);", spec, ret="const void*", facts=fx)
    return L


# ---------------------------------------------------------------- operations that check their sizes (C06)
def checked():
    """The operations whose definition has a size condition."""
    out = []
    for g in (elementwise, products):
        for o in g():
            m = o.model("double")
            x = X(m)
            memory.INITVAL.clear(); memory.INITVAL.update(m.initval)
            memory.CUR[:] = [Ctx()]
            o.spec(x)
            if x.res.throws:
                out.append(o)
    return out
