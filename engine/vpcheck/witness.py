"""Engine B: obligations that the compiler's type checker decides.

Every obligation is a line of declarations; it is discharged when the compiler accepts that line ("holds")
or, for programs that must be rejected, when it refuses it ("refused", with a control that is accepted).
"""
import os
import re
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass

from . import common
from .common import AnalysisBroken, short

HERE = os.path.join(common.ENGINE, "witness")


@dataclass
class Ob:
    ident: str      # stable name of what is claimed
    label: str      # for people
    text: str       # declarations; '§' is replaced by a unique number
    refused: bool = False
    rule: str = ""


def holds(ident, label, cond, rule=""): return Ob(ident, label, f"static_assert({cond});", False, rule)
def same(ident, label, expr, expected, rule=""): return Ob(ident, label, f"static_assert(w::same<std::remove_cvref_t<decltype({expr})>, {expected}>);", False, rule)


class Witness:
    def __init__(self, work, extra_flags=(), compiler=None):
        self.work = work
        self.cc = compiler or common.CLANG
        self.flags = ["-std=c++20", "-I" + common.INC, "-I" + HERE, "-w", "-fsyntax-only"] + list(extra_flags)
        self.clang = "clang" in self.cc
        if self.clang:
            self.flags += ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fconstexpr-steps=50000000", "-ftemplate-depth=2000", "-fbracket-depth=2000", "-fno-caret-diagnostics", "-fno-color-diagnostics"]
            self.pch = os.path.join(work, "w.pch")
            r = subprocess.run([self.cc] + [f for f in self.flags if f != "-fsyntax-only"] + ["-x", "c++-header", os.path.join(HERE, "w.h"), "-o", self.pch], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("the library does not compile:\n" + r.stderr[:3000])
            self.inc = ["-include-pch", self.pch]
        else:
            self.flags += ["-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-ftemplate-depth=2000", "-fdiagnostics-color=never"]
            self.inc = ["-include", os.path.join(HERE, "w.h")]
        self.n = 0
        self.compiled = 0

    def _cc(self, obs):
        """compile these obligations; the lines with an error, and errors that could not be placed"""
        self.n += 1
        f = os.path.join(self.work, f"w{self.n}_{id(self) & 0xffff}_{threading.get_ident()}_{id(obs) & 0xffff}.cpp")
        base = 3
        with open(f, "w") as fh:
            fh.write("namespace tk = w::tk; namespace t3 = w::t3; using namespace k3::tok3n;\n#line 1\n\n\n")
            for k, o in enumerate(obs):
                fh.write(o.text.replace("\n", " ").replace("§", str(k)) + "\n")
        r = subprocess.run([self.cc] + self.flags + self.inc + [f], capture_output=True, text=True)
        os.remove(f)
        if r.returncode < 0 or "PLEASE submit a bug report" in r.stderr:
            return None, r.stderr
        bad, lost = {}, []
        if r.returncode:
            name = re.escape(os.path.basename(f))
            block, blocks = [], []
            for line in r.stderr.splitlines():
                if re.search(r"(^|:\s)(fatal )?error:", line):
                    # gcc names the place where a template was required before the error
                    pre = []
                    if not self.clang:
                        while block and not re.search(r"error:", block[-1]) and re.search(r"required (from|by)|In instantiation|In substitution|In file included|from ", block[-1]): pre.insert(0, block.pop())
                    if block: blocks.append(block)
                    block = pre + [line]
                elif block or not self.clang:
                    block.append(line)
            if block: blocks.append(block)
            for b in blocks:
                if not any("error:" in l for l in b): continue
                ln = [int(m.group(1)) for l in b for m in re.finditer(name + r":(\d+)", l)]
                msg = next(l for l in b if "error:" in l)
                ln = [x for x in ln if base <= x < base + len(obs)]
                if ln: bad.setdefault(ln[-1] - base, msg)
                else: lost.append(msg)
            if not bad and not lost: lost.append(r.stderr[:500])
        return bad, lost

    def _accepts(self, obs):
        """indices of obligations that the compiler refuses"""
        out, live = {}, list(range(len(obs)))
        for _ in range(8):
            if not live: return out
            bad, lost = self._cc([obs[i] for i in live])
            if bad is None: break
            if not bad and not lost: return out
            if not bad: break
            for k, msg in bad.items(): out[live[k]] = msg
            live = [i for k, i in enumerate(live) if k not in bad]
        else:
            pass
        # what is left could not be placed: one at a time
        for i in live:
            bad, lost = self._cc([obs[i]])
            if bad is None: out[i] = "the compiler gave up: " + short(lost, 200)
            elif bad or lost: out[i] = (list(bad.values()) + lost)[0]
        return out

    def run(self, obs, per=120):
        """-> list of (obligation, message) that are not discharged"""
        groups = []
        for kind in (False, True):
            sel = [o for o in obs if o.refused == kind]
            n = max(1, -(-len(sel) // per))
            if len(sel) > common.JOBS: n = max(n, common.JOBS)
            groups += [sel[k::n] for k in range(n) if sel[k::n]]

        def job(g):
            bad = self._accepts(g)
            if not g[0].refused: return [(g[i], m) for i, m in sorted(bad.items())]
            res = []
            for i, o in enumerate(g):
                if i in bad: continue
                b, lost = self._cc([o])
                if b == {} and not lost: res.append((o, "the compiler accepts it"))
            return res
        out = []
        with ThreadPoolExecutor(common.JOBS) as ex:
            for r in ex.map(job, groups): out += r
        self.compiled += len(obs)
        return out

    def alone(self, obs):
        """those of these obligations that are not discharged when each is compiled on its own"""
        def one(o):
            bad, lost = self._cc([o])
            failed = bad is None or bool(bad) or bool(lost)
            return o.refused == failed
        with ThreadPoolExecutor(common.JOBS) as ex:
            return [o for o, ok in zip(obs, ex.map(one, obs)) if not ok]


def decide(work, obs, both):
    """-> (failed [(ob, msg)], notes). The build's own compiler (gcc) has the last word; clang is the fast one."""
    gcc = shutil.which("g++")
    notes, failed = [], []
    try:
        cl = Witness(work)
        failed = cl.run(obs)
    except AnalysisBroken as e:
        if not gcc: raise
        notes.append("clang does not accept the library, gcc decides alone: " + short(str(e), 200))
        both = True
    if not gcc:
        sure = {o.ident for o in cl.alone([o for o, _ in failed[:40]])}
        return [(o, m) for i, (o, m) in enumerate(failed) if i >= 40 or o.ident in sure], notes
    gw = Witness(work, compiler="g++")
    if both:
        return gw.run(obs), notes
    first = failed[:40]
    sure = {o.ident for o in gw.alone([o for o, _ in first])}
    notes += [f"clang alone does not discharge {o.ident}: {short(m, 200)}" for o, m in first if o.ident not in sure]
    out = [(o, m) for o, m in first if o.ident in sure]
    if len(failed) > 40 and (out or not sure):
        rest = gw.run([o for o, _ in failed[40:]])
        out += rest
    return out, notes
