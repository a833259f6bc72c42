"""Dependence rules over the OpenMP loops of the headers (C08)."""
import json, os, tempfile
from common import *
import driver


def parallel_loops(c):
    c.rule = ("The headers are parsed with OpenMP enabled, in every backend. For each parallel, worksharing, simd, teams and target directive the syntax tree of the loop is analysed: "
              "a variable shared by the iterations is only written through a matching reduction, a privatising clause or a guarded section, a reduction variable is only combined "
              "with its declared operator, a private variable is not used after the loop, the element of an array that an iteration writes has an affine index that differs "
              "between iterations, no iteration reads an element that another one writes, no exception leaves a region, written arrays are mapped back, and "
              "no alignment is promised that callers need not provide. One obligation per directive and backend.")
    c.assumptions = ["different pointer parameters of one loop do not overlap, other than being equal", "calls in loop bodies do not write operands"]
    exe = driver.tool("ompcheck", ["-l:libclang-cpp.so.18.1"])
    res = run([CLANG, "-print-resource-dir"]).stdout.strip()
    n = checked = 0
    with tempfile.TemporaryDirectory(prefix="vp_omp") as td:
        src = os.path.join(td, "all.cc")
        open(src, "w").write("".join(f'#include "{os.path.relpath(h, INC)}"\n' for h in headers()))

        def one(b):
            out = os.path.join(td, b + ".json")
            with open(out, "w") as f, open(out + ".err", "w") as e:
                r = subprocess.run([exe, INC, "--", "-std=gnu++20", "-fopenmp", "-w", "-DNDEBUG", *BACKENDS[b], "-I" + INC, "-resource-dir", res, src], stdout=f, stderr=e, cwd=td)
            return b, r.returncode, open(out).read(), open(out + ".err").read()
        for b, rc, out, err in pmap(one, list(BACKENDS)):
            if rc:
                raise Broken(f"the headers do not parse ({b}): " + err[:1200])
            for o in json.loads(out):
                n += 1
                checked += o["checked"]
                name = f"{os.path.relpath(o['file'], INC)} {o['function']} ({o['directive']}) {b}"
                if o["violations"]:
                    c.violation(name, "\n".join(v.replace(REPO + "/", "") for v in o["violations"]))
                else:
                    c.ok(name, f"line {o['line']}: {o['checked']} accesses and clauses checked, {o['open']} not covered by a rule")
    c.extra["directives"], c.extra["rules_applied"] = n, checked
    if n == 0:
        c.ok("no OpenMP directives", "no loop is marked for parallel execution")
