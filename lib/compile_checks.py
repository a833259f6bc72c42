"""Type-level deciders: witness programs that only build if the property holds (C19),
self-contained headers and linkage rules over the IR of the whole library (C20)."""
import os, re, tempfile
from common import *

WITNESS = ["w_vec", "w_mat", "w_solver"]
DIALECTS = [("gcc", [GXX, "-std=gnu++20", "-fopenmp", "-Wno-unused"]), ("clang", [CLANG, "-std=gnu++20"])]


def first_error(out):
    errs = [l for l in out.splitlines() if " error: " in l or "fatal error:" in l]
    lib = [l for l in out.splitlines() if "include/lalib" in l and (" error: " in l or "required from" in l)]
    return "\n".join((errs[:3] + lib[:3])) or out[-800:]


def element_types(c):
    c.rule = ("Witness translation units instantiate every documented operation for float, double and both complex "
              "types; each must type-check in every backend, with and without assertions, under gcc and clang. "
              "One obligation per unit x element type x backend x assertion mode x compiler.")
    c.assumptions = ["the witness programs use every public operation (vectors, matrices, sparse matrices, solvers) once per element type"]
    jobs = []
    for w in WITNESS:
        src = open(os.path.join(VERIF, "witness", w + ".cc")).read()
        types = ["float", "double"] + ([] if w == "w_solver" else ["std::complex<float>", "std::complex<double>"])
        for t in types:
            for b, defs in BACKENDS.items():
                for dbg in ("", "-DNDEBUG"):
                    for comp, cmd in DIALECTS:
                        jobs.append((w, t, b, defs, dbg, comp, cmd))

    def one(j):
        w, t, b, defs, dbg, comp, cmd = j
        src = os.path.join(VERIF, "witness", w + ".cc")
        p = run(cmd + defs + ([dbg] if dbg else []) + ["-DW_T=" + t, "-I" + INC, "-fsyntax-only", src])
        return j, p.returncode, p.stdout
    for j, rc, out in pmap(one, jobs):
        w, t, b, defs, dbg, comp, _ = j
        name = f"{w}<{t}> {b} {'release' if dbg else 'debug'} {comp}"
        if rc == 0:
            c.ok(name)
        elif "include/lalib" in out and not re.search(r"cc1plus.*(terminated|killed)|internal compiler error", out):
            c.violation(name, "the program that uses every operation does not build:\n" + first_error(out))
        else:
            raise Broken(f"{name}: {out[-1500:]}")
    if len(jobs) < 100:
        raise Broken("witness matrix shrank")


def headers_and_linkage(c):
    c.rule = ("(1) every header compiles as the only include of a translation unit, gcc and clang, every backend; "
              "(2) every header can be included twice; (3) in the LLVM IR of a unit that includes every header and instantiates nothing, "
              "no function or variable defined by the library has strong external linkage, so that any number of "
              "translation units link together; (4) every function the headers declare is defined in them. One obligation per header x compiler x backend, plus one per definition.")
    hs = headers()
    if len(hs) < 20:
        raise Broken("headers vanished")
    with tempfile.TemporaryDirectory(prefix="vp_hdr") as td:
        jobs = [(h, b, comp, cmd) for h in hs for b in BACKENDS for comp, cmd in DIALECTS]

        def needs(h):
            return "lapack" in os.path.relpath(h, INC)

        def one(j):
            h, b, comp, cmd = j
            rel = os.path.relpath(h, INC)
            s = os.path.join(td, f"{abs(hash(j[:3]))}.cc")
            open(s, "w").write(f'#include "{rel}"\n#include "{rel}"\n')
            p = run(cmd + BACKENDS[b] + ["-I" + INC, "-fsyntax-only", s])
            return j, p.returncode, p.stdout
        for (h, b, comp, _), rc, out in pmap(one, jobs):
            rel = os.path.relpath(h, INC)
            name = f"self-contained {rel} {b} {comp}"
            if rc == 0:
                c.ok(name)
            else:
                c.violation(name, "a program whose first include is this header does not build:\n" + first_error(out))
        # linkage
        allsrc = os.path.join(td, "all.cc")
        open(allsrc, "w").write("".join(f'#include "{os.path.relpath(h, INC)}"\n' for h in hs))
        for b, defs in BACKENDS.items():
            ll = os.path.join(td, b + ".ll")
            p = run([CLANG, "-std=gnu++20", "-O0", "-DNDEBUG", *defs, "-I" + INC, "-S", "-emit-llvm", "-o", ll, allsrc])
            if p.returncode:
                if any(o[1] == "violation" for o in c.obl):
                    continue
                c.violation(f"linkage {b}", "a unit that includes every header does not build:\n" + first_error(p.stdout))
                continue
            n = 0
            for line in open(ll):
                m = re.match(r"define (.*?)@(\"[^\"]*\"|[\w.$]+)\(", line)
                v = re.match(r"@(\"[^\"]*\"|[\w.$]+) = (.*?)(global|constant) ", line)
                if m:
                    quals, sym = m.group(1), m.group(2)
                elif v:
                    quals, sym = v.group(2), v.group(1)
                else:
                    continue
                n += 1
                if re.search(r"\b(linkonce_odr|weak_odr|linkonce|weak|internal|private|external|appending|available_externally|common|extern_weak)\b", quals):
                    continue
                c.violation(f"linkage {b} {sym}", "strong external definition in a header: two translation units that include it do not link together")
            c.ok(f"linkage {b}: {n} definitions inspected")
    undefined_functions(c)


def libcheck():
    """Results of tools/libcheck over the witness programs: {unit: {functions, undefined}}."""
    import json, driver, subprocess
    exe = driver.tool("libcheck", ["-l:libclang-cpp.so.18.1"])
    res = run([CLANG, "-print-resource-dir"]).stdout.strip()

    def one(j):
        w, b = j
        with tempfile.TemporaryDirectory(prefix="vp_lib") as td:
            src = os.path.join(VERIF, "witness", w + ".cc") if w else os.path.join(td, "all.cc")
            if not w:
                open(src, "w").write("".join(f'#include "{os.path.relpath(h, INC)}"\n' for h in headers()))
            with open(os.path.join(td, "out"), "w") as f:
                p = subprocess.run([exe, INC, "--", "-std=gnu++20", "-w", "-DNDEBUG", "-DW_T=double", *BACKENDS[b], "-I" + INC, "-resource-dir", res, src],
                                   stdout=f, stderr=subprocess.PIPE, text=True)
            t = open(os.path.join(td, "out")).read()
        return (w, b), (json.loads(t) if p.returncode == 0 and t else None), p.stderr
    return pmap(one, [(w, b) for w in WITNESS + [""] for b in BACKENDS])


def stale_iterators(c):
    n = u = 0
    for (w, b), o, err in libcheck():
        if o is None:
            c.unknown(f"stale iterators: {w or 'all headers'} {b}", "does not parse: " + err[:200])
            continue
        n += len(o["functions"])
        u += sum(f["uses"] for f in o["functions"])
        bad = [v for f in o["functions"] for v in f["violations"]]
        if bad:
            c.violation(f"stale iterators: {w or 'all headers'} {b}", "\n".join(sorted(set(v.replace(REPO + "/", "") for v in bad))[:6]))
        else:
            c.ok(f"stale iterators: {w or 'all headers'} {b}: {len(o['functions'])} functions")
    c.extra["functions_checked_for_stale_iterators"], c.extra["iterator_uses"] = n, u
    if n < 100:
        raise Broken("no function was analysed")


def undefined_functions(c):
    seen = {}
    for (w, b), o, err in libcheck():
        if o is None:
            continue
        for x in o["undefined"]:
            seen.setdefault((x["name"], x["file"].replace(REPO + "/", ""), x["line"], x["type"]), b)
    for (name, f, line, ty), b in sorted(seen.items()):
        c.violation(f"undefined:{name}:{ty}".replace(" ", ""), f"{f}:{line}: {name} is declared but defined nowhere: programs that use it do not link")
    c.ok("declared functions have definitions", "all declarations of the headers inspected")


DANGLING = {"clang": ["return-stack-address", "dangling", "dangling-gsl", "dangling-field", "dangling-initializer-list"], "gcc": ["return-local-addr"]}


def dangling_diagnostics(c):
    """The compilers' lifetime diagnostics over the witness programs; a diagnostic in a library header is the violation."""
    jobs = []
    for w in WITNESS:
        for t in ["double"] + ([] if w == "w_solver" else ["std::complex<double>"]):
            for b, defs in BACKENDS.items():
                for comp, cmd in DIALECTS:
                    jobs.append((w, t, b, defs, comp, cmd))

    def one(j):
        w, t, b, defs, comp, cmd = j
        src = os.path.join(VERIF, "witness", w + ".cc")
        fl = ["-O1", "-o", "/dev/null", "-S"] if comp == "gcc" else ["-fsyntax-only"]
        p = run(cmd + defs + ["-DNDEBUG"] + (["-Wno-everything"] if comp == "clang" else []) + ["-W" + x for x in DANGLING[comp]] + ["-DW_T=" + t, "-I" + INC] + fl + [src])
        return j, p.returncode, p.stdout
    for (w, t, b, defs, comp, _), rc, out in pmap(one, jobs):
        name = f"lifetime diagnostics: {w}<{t}> {b} {comp}"
        got = [l for l in out.splitlines() if re.search(r"include/lalib/.*(warning|error): .*\[-W(error=)?(" + "|".join(DANGLING[comp]) + r")\]", l)]
        if got:
            c.violation(name, "\n".join(sorted(set(got))[:6]))
        elif rc:
            c.unknown(name, "does not build: " + first_error(out)[:200])
        else:
            c.ok(name)
