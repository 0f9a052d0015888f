"""What every check shares: the analysed tree, building the tools, reporting."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENGINE = os.path.join(VERIF, "engine")
REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
JOBS = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 4)))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"


class AnalysisBroken(Exception):
    """the check cannot give an answer"""


def headers():
    out = []
    for d, _, fs in os.walk(INC):
        out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inl", ".ipp"))]
    return sorted(out)


def thresholds(limit=300):
    """Small integer literals of the library: sizes at which its code may change its mind. They only add instances."""
    t = set()
    for h in headers():
        txt = open(h, errors="replace").read()
        txt = re.sub(r"//[^\n]*|/\*.*?\*/", " ", txt, flags=re.S)
        txt = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', " ", txt)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlLzZ]*(?![\w.])", txt):
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1), 8)
            if 2 <= v <= limit:
                t.add(v)
    return sorted(t)


class Work:
    """a scratch directory that goes away"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-check-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def build_tools():
    r = subprocess.run(["bash", os.path.join(ENGINE, "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("building the analysis tools failed:\n" + r.stderr[-3000:])


def sanity(work):
    """the library must be something a compiler accepts; otherwise there is nothing to analyse"""
    if not os.path.isfile(os.path.join(INC, "k3", "tok3n.h")):
        raise AnalysisBroken("no include/k3/tok3n.h in " + REPO)
    f = os.path.join(work, "sanity.cpp")
    open(f, "w").write('#include <k3/tok3n.h>\nusing namespace k3::tok3n;\nauto a = "ab"_all.parse("abc"); auto b = (+"x"_any >> ~"y"_all).lookahead("xx");\n')
    r = subprocess.run([CLANG, "-std=c++20", "-I" + INC, "-fsyntax-only", f], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("the library does not compile:\n" + r.stderr[:3000])


def short(s, n=400):
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


class Report:
    """collects what a check explored and what it found, and writes the verdict"""
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        if self.tier == "quick": os.environ["VP_T0"] = str(int(self.t0))  # see tokflow's main
        self.violations = []   # (id, text)
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
        self.known = load_known(prop)

    def violation(self, ident, text):
        self.violations.append((ident, text))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = [(i, t) for i, t in self.violations if i in self.known]
        new = [(i, t) for i, t in self.violations if i not in self.known]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        if self.undecided:
            ev["coverage"]["undecided"] = [short(u, 300) for u in self.undecided[:50]]
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, _ in known:
            print(f"KNOWN-FINDING: property={self.prop} {i}: {self.known[i]}")
        print(f"{self.prop} [{self.tier}]: {json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, bool))})}, {len(self.undecided)} undecided, {time.time() - self.t0:.1f} s")
        for u in self.undecided[:5]:
            print("  undecided:", short(u, 250))
        if new:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".txt")
            with open(path, "w") as f:
                for i, t in new:
                    f.write(f"== {i}\n{t}\n\n")
            for i, t in new[:12]:
                print("  violation:", i, "-", short(t, 600))
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0


def load_known(prop):
    """known findings: 'known: property=<id> <violation id> <text>'; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
