"""Driver programs: one wrapper per library operation, with a model of its arguments.

The wrapper only calls the public interface; the model says what the arguments look like in
memory (which array holds the elements, how many there are) in terms of symbolic sizes."""
import hashlib, json, os, re, subprocess, tempfile
from common import *
from terms import *
import memory

ES = {"double": 8, "float": 4, "std::complex<double>": 16, "std::complex<float>": 8}


class Model:
    def __init__(self, T):
        self.T = T
        self.es = ES[T]
        self.tsize = 8 if "double" in T else 4
        self.tty = "d" if "double" in T else "f"
        self.args, self.extent, self.elem, self.types = [], {}, {}, {}
        self.initval, self.facts = {}, []
        self.sizes = []                 # size symbols, for instances
        self.arrays = {}                # element array root -> (kind, length)
        self.objs = {}
        self.index = {}                 # index array -> what is known of its entries

    def size(self, n):
        if isinstance(n, int):
            return const(n)
        if isinstance(n, Term):
            return n
        v = var(n)
        if n not in self.sizes:
            self.sizes.append(n)
        return v

    def array(self, root, length, es=None, ty=None):
        es = es or self.es
        self.extent[root] = scale(length, es)
        self.types[root] = ty or self.tty
        self.elem[root] = memory.SIZE[self.types[root]]
        self.arrays[root] = (self.types[root], length)

    def stdvec(self, obj, off, root, length, es=None, ty=None):
        es = es or self.es
        self.array(root, length, es, ty)
        b = scale(length, es)
        self.initval[(obj, off, "p")] = ptr(root, ZERO)
        self.initval[(obj, off + 8, "p")] = ptr(root, b)
        self.initval[(obj, off + 16, "p")] = ptr(root, b)

    def obj(self, name, size):
        r = "obj:" + name
        self.extent[r] = const(size)
        self.types[r] = self.tty
        return r


# ---- where the members of a class lie: read off its accessors ---------------------------------
LAY = {"DynMat": {"vec": 0, "n": 24, "m": 32}}
LAYSIZE = {"DynMat": 40}
PROBES = {"DynMat": {"vec": ("const void*", "return a.data();"), "n": ("std::size_t", "return a.shape().first;"), "m": ("std::size_t", "return a.shape().second;")}}


def probe_src(T):
    out = ""
    for cls, ps in PROBES.items():
        out += f'extern "C" std::size_t w_zz_{cls}_size() {{ return sizeof({cls}<{T}>); }}\n'
        for k, (ret, body) in ps.items():
            out += f'extern "C" {ret} w_zz_{cls}_{k}(const {cls}<{T}>& a) {{ {body} }}\n'
    return out


def set_layout(fns, T):
    """Members that moved (as their accessors tell); the known layout where the accessors do not tell."""
    from lift import Lifter
    for cls, ps in PROBES.items():
        def value(k, args):
            m = Model(T)
            if args:
                o = m.obj("probe", 64 + LAYSIZE[cls])
                for off in range(0, 64 + LAYSIZE[cls], 8):
                    m.initval[(o, off, "p")] = ptr(f"cand{off}", ZERO)
                    m.initval[(o, off, "i64")] = var(f"cand{off}")
                    m.extent[f"cand{off}"] = const(1 << 20)
                    m.types[f"cand{off}"] = m.tty
                m.args.append(ptr(o, ZERO))
            memory.INITVAL.clear()
            memory.INITVAL.update(m.initval)
            L = Lifter(fns[f"zz_{cls}_{k}"], m)
            t = L.run()
            if isinstance(t, tuple) or t is None or t.kind != "ret":
                raise LiftError("probe")
            return t.val
        got = {}
        try:
            size = int(cval(value("size", False)))
        except Exception:
            size = None
        for k in ps:
            try:
                v = value(k, True)
                if v.op == "ptr":
                    got[k] = int(v.args[0][4:]) if v.args[0].startswith("cand") and v.args[1] is ZERO else None
                else:
                    got[k] = next((off for off in range(0, 64 + LAYSIZE[cls], 8) if v is var(f"cand{off}")), None)
            except Exception:
                got[k] = None
        if all(isinstance(x, int) for x in got.values()) and len(set(got.values())) == len(got):
            LAY[cls] = got
        elif size is not None and size != LAYSIZE[cls]:
            LAY[cls] = None
        if size is not None:
            LAYSIZE[cls] = size


def layout(cls, key):
    if LAY[cls] is None:
        raise LiftError("layout of " + cls)
    return LAY[cls][key]


# ---- argument kinds: (C++ parameter, model) -------------------------------------------------
class Arg:
    out = False

    def cpp(self, T):
        raise NotImplementedError


class S(Arg):
    """A scalar, passed by reference."""
    def __init__(self, name):
        self.name = name

    def cpp(self, T):
        return f"const {T}& {self.name}"

    def model(self, m):
        r = "s:" + self.name
        m.extent[r] = const(m.es)
        m.types[r] = m.tty
        m.args.append(ptr(r, ZERO))


class I(Arg):
    """An index."""
    def __init__(self, name):
        self.name = name

    def cpp(self, T):
        return f"std::size_t {self.name}"

    def model(self, m):
        m.args.append(m.size(self.name))


class DV(Arg):
    def __init__(self, name, n, const_=False):
        self.name, self.n, self.const = name, n, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}DynVec<{T}>& {self.name}"

    def model(self, m):
        o = m.obj(self.name, 24)
        m.stdvec(o, 0, self.name, m.size(self.n))
        m.args.append(ptr(o, ZERO))
        m.objs[self.name] = ("vec", m.size(self.n))


class SV(Arg):
    def __init__(self, name, n, const_=False):
        self.name, self.n, self.const = name, n, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}SizedVec<{T},{self.n}>& {self.name}"

    def model(self, m):
        m.array(self.name, const(self.n))
        m.args.append(ptr(self.name, ZERO))
        m.objs[self.name] = ("vec", const(self.n))


class VA(Arg):
    """A std::vector of elements, or of another scalar type."""
    def __init__(self, name, n, ty=None, const_=False):
        self.name, self.n, self.ty, self.const = name, n, ty, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}std::vector<{self.ty or T}>& {self.name}"

    def model(self, m):
        o = m.obj(self.name, 24)
        n = m.size(self.n)
        if self.ty in (None,):
            m.stdvec(o, 0, self.name, n)
        else:
            m.stdvec(o, 0, self.name, n, 8, "i64")
        m.args.append(ptr(o, ZERO))
        m.objs[self.name] = ("vec", n)


class AA(Arg):
    """A std::array of elements."""
    def __init__(self, name, n, const_=True):
        self.name, self.n, self.const = name, n, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}std::array<{T},{self.n}>& {self.name}"

    def model(self, m):
        m.array(self.name, const(self.n))
        m.args.append(ptr(self.name, ZERO))
        m.objs[self.name] = ("vec", const(self.n))


class DM(Arg):
    def __init__(self, name, n, k, const_=False):
        self.name, self.n, self.k, self.const = name, n, k, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}DynMat<{T}>& {self.name}"

    def model(self, m):
        o = m.obj(self.name, LAYSIZE["DynMat"])
        n, k = m.size(self.n), m.size(self.k)
        m.stdvec(o, layout("DynMat", "vec"), self.name, mul(n, k))
        m.initval[(o, layout("DynMat", "n"), "i64")] = n
        m.initval[(o, layout("DynMat", "m"), "i64")] = k
        m.args.append(ptr(o, ZERO))
        m.objs[self.name] = ("mat", n, k)


class SM(Arg):
    def __init__(self, name, n, k, const_=False):
        self.name, self.n, self.k, self.const = name, n, k, const_

    def cpp(self, T):
        return f"{'const ' if self.const else ''}SizedMat<{T},{self.n},{self.k}>& {self.name}"

    def model(self, m):
        m.array(self.name, const(self.n * self.k))
        m.args.append(ptr(self.name, ZERO))
        m.objs[self.name] = ("mat", const(self.n), const(self.k))


class Out(Arg):
    """Where the returned object is constructed."""
    out = True

    def __init__(self, ctype, name="R"):
        self.ctype, self.name = ctype, name

    def cpp(self, T):
        return f"void* {self.name}"

    def model(self, m):
        r = "out:" + self.name
        m.extent[r] = const(4096)
        m.types[r] = m.tty
        m.args.append(ptr(r, ZERO))


class Op:
    def __init__(self, name, args, body, **kw):
        self.name, self.args, self.body = name, args, body
        self.ret = kw.pop("ret", "void")
        self.types = kw.pop("types", ["double"])
        self.backends = kw.pop("backends", ["Internal", "BLAS"])
        self.includes = kw.pop("includes", [])
        self.spec = kw.pop("spec", None)
        self.facts = kw.pop("facts", None)
        self.refs = kw.pop("refs", {})          # name -> body of a definition in C++ with the same arguments
        self.shim = kw.pop("shim", False)       # compiled with /verif/shim: contents of vectors, sorting as one primitive
        self.kw = kw

    def cpp(self, T):
        ps = ", ".join(a.cpp(T) for a in self.args)
        body = self.body.replace("$T", T)
        ret = self.ret.replace("$T", T)
        out = f'extern "C" {ret} w_{self.name}({ps}) {{ {body} }}\n'
        for k, b in self.refs.items():
            out += f'extern "C" {ret} w_{self.name}__{k}({ps}) {{ {b.replace("$T", T)} }}\n'
        return out

    def model(self, T):
        m = Model(T)
        for a in self.args:
            a.model(m)
        if self.facts:
            self.facts(m)
        return m


PRE = """#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include <new>
#if defined(LALIB_LAPACK_BACKEND)
#include <lapacke.h>
inline int lapacke_gtsv(int o, int n, int k, double* a, double* b, double* c, double* x, int l) { return LAPACKE_dgtsv(o, n, k, a, b, c, x, l); }
inline int lapacke_gtsv(int o, int n, int k, float* a, float* b, float* c, float* x, int l) { return LAPACKE_sgtsv(o, n, k, a, b, c, x, l); }
inline int lapacke_potrf(int o, char u, int n, double* a, int l) { return LAPACKE_dpotrf(o, u, n, a, l); }
inline int lapacke_potrf(int o, char u, int n, float* a, int l) { return LAPACKE_spotrf(o, u, n, a, l); }
inline int lapacke_potrs(int o, char u, int n, int k, const double* a, int l, double* b, int m) { return LAPACKE_dpotrs(o, u, n, k, a, l, b, m); }
inline int lapacke_potrs(int o, char u, int n, int k, const float* a, int l, float* b, int m) { return LAPACKE_spotrs(o, u, n, k, a, l, b, m); }
#endif
using namespace lalib;
"""


SHIM = f'#include "{VERIF}/shim/vp_shim.hpp"\n' + PRE


def tool(name, flags=()):
    """Builds a tool of /verif/tools if it is not there yet."""
    src = os.path.join(VERIF, "tools", name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"{name}-{h}")
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cx = run(["/usr/bin/llvm-config-18", "--cxxflags"]).stdout.split()
        tmp = exe + f".{os.getpid()}"
        p = run([GXX, "-O1", *cx, "-std=c++17", "-fno-rtti", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", *flags, "-lLLVM-18"])
        if p.returncode:
            raise Broken("cannot build " + name + ": " + p.stdout[-2000:])
        os.replace(tmp, exe)
    return exe


def compile_ops(ops, T, backend, extra=(), keep=False, pre=PRE, debug=False, quick=False):
    """-> {op name: function json}, plus the names of the operations that do not compile."""
    exe = tool("irlift")
    if pre is PRE and any(o.shim for o in ops):
        pre = SHIM
    with tempfile.TemporaryDirectory(prefix="vp_drv") as td:
        src = os.path.join(td, "d.cc")
        good = list(ops)
        bad = {}
        for attempt in range(6 if quick else 0):
            # the lines named by the errors are left out until the others compile
            head = pre + probe_src(T)
            at, n = {}, head.count("\n") + 1
            body = ""
            for o in good:
                t = o.cpp(T)
                for k in range(max(1, t.count("\n"))):
                    at.setdefault(n + k, o)
                n += t.count("\n")
                body += t
            open(src, "w").write(head + body)
            q = run([CLANG, "-std=gnu++20", "-fsyntax-only", "-w", "-ferror-limit=0", *([] if debug else ["-DNDEBUG"]), *BACKENDS[backend], *extra, "-I" + INC, src])
            hit = {at[int(x)].name for x in re.findall(r"\bd\.cc:(\d+):", q.stdout) if int(x) in at}
            if q.returncode == 0 or not hit:
                break
            bad.update({h: "does not compile" for h in hit})
            good = [o for o in good if o.name not in hit]
        for attempt in range(2):
            open(src, "w").write(pre + probe_src(T) + "".join(o.cpp(T) for o in good))
            cmd = [CLANG, "-std=gnu++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-ffp-contract=off", "-fno-math-errno", "-w",
                   *([] if debug else ["-DNDEBUG"]), *BACKENDS[backend], *extra, "-I" + INC, "-emit-llvm", "-c", src, "-o", os.path.join(td, "d.bc")]
            if "complex" in T:
                cmd.insert(1, "-fno-honor-nans")
            p = run(cmd)
            if p.returncode == 0:
                break
            if attempt:
                raise Broken("driver does not compile: " + p.stdout[:1500])
            # find the wrappers that do not compile, keep the others
            def one(o):
                s = os.path.join(td, f"one_{o.name}.cc")
                open(s, "w").write(pre + o.cpp(T))
                q = run([CLANG, "-std=gnu++20", "-fsyntax-only", "-w", *([] if debug else ["-DNDEBUG"]), *BACKENDS[backend], *extra, "-I" + INC, s])
                return o, q
            keepers = []
            for o, q in pmap(one, good):
                if q.returncode:
                    bad[o.name] = q.stdout[:600]
                else:
                    keepers.append(o)
            good = keepers
            if not good:
                return {}, bad
        out = os.path.join(td, "d.json")
        p = run([exe, os.path.join(td, "d.bc"), out] + ([keep if isinstance(keep, str) else "--keep-invoke"] if keep else []))
        if p.returncode:
            raise Broken("irlift: " + p.stdout[-1500:])
        js = json.load(open(out))
        if os.environ.get("VP_LL"):
            subprocess.run([exe, os.path.join(td, "d.bc"), out], env={**os.environ, "IRLIFT_LL": os.environ["VP_LL"]})
        gl = {g["name"]: g for g in js["globals"]}
        for f in js["functions"]:
            f["globals"] = gl
        rest = {f["name"]: f for f in js["functions"] if not f["name"].startswith("w_")}
        for f in js["functions"]:
            f["rest"] = rest
        return {f["name"][2:]: f for f in js["functions"] if f["name"].startswith("w_")}, bad
