"""Shared plumbing of the checks: locations, obligations, verdicts, evidence."""
import json, os, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "include")
CLANG = "/usr/bin/clang++-18"
GXX = "/usr/bin/g++"
BUILD = os.path.join(VERIF, "build")           # ignored by git: built tools and IR
BACKENDS = {
    "Internal": ["-DLALIB_INTERNAL_BACKEND"],
    "BLAS": ["-DLALIB_BLAS_BACKEND"],
    "LAPACK": ["-DLALIB_BLAS_BACKEND", "-DLALIB_LAPACK_BACKEND"],
}
JOBS = 8


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, tool failure)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def pmap(fn, items):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(INC, "lalib")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h"))]
    return sorted(out)


class Check:
    """Collects the obligations of one property and gives the verdict."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.obl = []            # (name, status, detail)
        self.assumptions, self.extra = [], {}
        self.rule = ""

    def ok(self, name, detail=""):
        self.obl.append((name, "ok", detail))

    def unknown(self, name, detail=""):
        self.obl.append((name, "unknown", detail))

    def violation(self, name, detail, key=None):
        self.obl.append((name, "violation", detail if key is None else detail + f"\n[key {key}]"))

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding: property="):
                    f = line.split(None, 3)
                    if f[1] == "property=" + self.prop:
                        out.append((f[2].removeprefix("key="), f[3]))
        return out

    def finish(self):
        wall = time.time() - self.t0
        cnt = {s: sum(1 for o in self.obl if o[1] == s) for s in ("ok", "unknown", "violation")}
        known = self.known()
        viol, listed = [], []
        for o in self.obl:
            if o[1] != "violation":
                continue
            hit = [k for k in known if k[0] == o[0]]
            (listed if hit else viol).append((o, hit))
        for o, hit in listed:
            print(f"KNOWN-FINDING: property={self.prop} {o[0]}: {hit[0][1]}")
        if not self.obl:
            raise Broken("no obligation was generated: the anchors of this check vanished")
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obl),
            "discharged": cnt["ok"],
            "undecided": cnt["unknown"],
            "violated": len(viol),
            "known_findings": len(listed),
            "samples": [{"obligation": o[0], "status": o[1], "detail": o[2][:400]} for o in pick(self.obl)],
            "undecided_list": [o[0] + ": " + o[2][:200] for o in self.obl if o[1] == "unknown"][:60],
        }
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 2),
              "violations": [{"obligation": o[0], "detail": o[2]} for o, _ in viol]}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print(f"{self.prop}: {len(self.obl)} obligations, {cnt['ok']} discharged, {cnt['unknown']} undecided, "
              f"{len(viol)} violated, {len(listed)} known findings, {wall:.1f}s")
        if viol:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for o, _ in viol:
                    f.write(f"{o[0]}\n{o[2]}\n\n")
            for o, _ in viol[:20]:
                print("  " + o[0] + "\n    " + o[2].replace("\n", "\n    ")[:1500])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0


def pick(obl, n=6):
    bad = [o for o in obl if o[1] != "ok"][:n]
    good = [o for o in obl if o[1] == "ok"]
    step = max(1, len(good) // n)
    return bad + good[::step][:n]
