"""Engine A: obligations decided by abstract interpretation of the instantiated library."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import AnalysisBroken, short

sys.path.insert(0, os.path.join(common.ENGINE, "gen"))
import cases as gen  # noqa: E402

TOK = os.path.join(common.ENGINE, "tokflow")


def flags(ce=False):
    f = ["-std=c++20", "-isystem", os.path.join(TOK, "stubs"), "-I" + TOK, "-I" + common.INC, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fignore-exceptions",
         "-D_GLIBCXX_ASSERTIONS", "-w", "-ferror-limit=0", "-fconstexpr-steps=20000000", "-ftemplate-depth=2000", "-fbracket-depth=2000"]
    return f + (["-DVP_CE"] if ce else [])


class Flow:
    def __init__(self, work, ce=False, tlimit=8, prelude=""):
        self.work, self.ce, self.tlimit, self.prelude = work, ce, tlimit, prelude
        self.pch = os.path.join(work, "vp_ce.pch" if ce else "vp.pch")
        r = subprocess.run([common.CLANG] + flags(ce) + ["-x", "c++-header", os.path.join(TOK, "vp.h"), "-o", self.pch], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("the harness does not compile against the library:\n" + r.stderr[:3000])
        self.results = {}    # entry -> tokflow record
        self.illformed = {}  # case name -> message
        self.functions = set()

    def _compile(self, base, codes):
        with open(base + ".cpp", "w") as f:
            f.write(self.prelude + "using namespace vp;\n" + "\n".join(codes) + "\n")
        r = subprocess.run([common.CLANG] + flags(self.ce) + ["-include-pch", self.pch, "-emit-llvm", "-c", base + ".cpp", "-o", base + ".bc"], capture_output=True, text=True)
        return r.returncode, r.stderr

    def _analyse(self, base):
        r = subprocess.run([os.path.join(common.BUILD, "tokflow"), base + ".bc", "-t", str(self.tlimit)], capture_output=True, text=True)
        out = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
        return out, r.returncode, r.stderr

    def _job(self, arg):
        k, cs = arg
        base = os.path.join(self.work, f"{'ce' if self.ce else 'm'}{self.round}_{k}")
        recs, bad = [], {}
        rc, err = self._compile(base, [code for _, code in cs])
        groups = [(base, cs)]
        if rc:
            if len(cs) == 1:
                bad[cs[0][0].name] = err
                groups = []
            else:
                groups = []
                for j, (c, code) in enumerate(cs):
                    b = f"{base}_{j}"
                    rc1, err1 = self._compile(b, [code])
                    if rc1: bad[c.name] = err1
                    else: groups.append((b, [(c, code)]))
        lost = []
        for b, sub in groups:
            out, rc2, err2 = self._analyse(b)
            recs += out
            if rc2:
                lost.append(f"analyser ended with {rc2}: {short(err2, 300)}")
            for ext in (".bc", ".cpp"):
                try: os.remove(b + ext)
                except OSError: pass
        return recs, bad, lost

    def confirm_illformed(self, cases, modes):
        """The build's own compiler has the last word on what is well-formed: the cases among those clang refused that g++ accepts."""
        gcc = shutil.which("g++")
        if not gcc: return set()

        def one(c):
            f = os.path.join(self.work, f"g_{c.name}.cpp")
            with open(f, "w") as h:
                h.write('#include "vp.h"\n' + self.prelude + "using namespace vp;\n" + c.code(modes) + "\n")
            fl = ["-std=c++20", "-isystem", os.path.join(TOK, "stubs"), "-I" + TOK, "-I" + common.INC, "-w", "-fsyntax-only", "-ftemplate-depth=2000"] + (["-DVP_CE"] if self.ce else [])
            r = subprocess.run([gcc] + fl + [f], capture_output=True, text=True)
            os.remove(f)
            return r.returncode == 0
        with ThreadPoolExecutor(common.JOBS) as ex:
            return {c.name for c, ok in zip(cases, ex.map(one, cases)) if ok}

    round = 0

    def run(self, chosen, modes, per=14):
        self.round += 1
        pairs = [(c, c.code(modes)) for c in chosen]
        n = max(1, min(len(pairs), max(common.JOBS, len(pairs) // per)))
        jobs = [(k, pairs[k::n]) for k in range(n)]
        lost = []
        with ThreadPoolExecutor(common.JOBS) as ex:
            for recs, bad, l in ex.map(self._job, jobs):
                for r in recs:
                    self.results[r["entry"]] = r
                    self.functions.update(r["functions"])
                self.illformed.update(bad)
                lost += l
        return lost


def first_error(err):
    for line in err.splitlines():
        if "error:" in line:
            return line.strip()
    return err.strip()[:200]

