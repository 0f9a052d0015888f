"""Properties decided by engine A."""
import os
import re
import sys

from . import common, irprops
from .common import AnalysisBroken, Report, Work, short
from .flow import Flow, first_error, gen

sys.path.insert(0, os.path.join(common.ENGINE, "witness"))

EVERY = ["prim", "seq", "cho", "rep", "del", "ada", "tra", "join", "nest", "rand", "conc", "val", "some-elem"]
MISMATCH = {"success", "remaining-data", "remaining-size", "fail-remaining-data", "fail-remaining-size", "value", "calls", "other"}
WRONG = MISMATCH | {"range", "foreign", "oob", "uninit", "lifetime", "assert", "nontermination"}


def own(prop):
    return lambda c: c.node.outer == prop


def quiet(c):
    return re.search(r"\b[NM]<\d", c.node.L) is not None


# groups of instances; which of them; the parts of an instance must be right themselves for it to count (parts);
# entries (p parse, l lookahead, a parse against lookahead, u lookahead of filter/join against its operand's); which findings
TABLE = {
    "C01": dict(groups=["prim"], own=own("C01"), modes="pl", cats=WRONG),
    "C02": dict(groups=EVERY, own=lambda c: True, modes="pl", cats={"fail-remaining-data", "fail-remaining-size"}, cross=True),
    "C03": dict(groups=EVERY, own=lambda c: True, modes="pl", cats={"remaining-data", "remaining-size", "range", "foreign"}, cross=True, spans=True),
    "C04": dict(groups=EVERY, own=lambda c: True, modes="lau", cats=set(), cross=True, agree=True),
    "C05": dict(groups=["seq", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C05"), parts=True, modes="pl", cats=WRONG),
    "C06": dict(groups=["cho", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C06"), parts=True, modes="pl", cats=WRONG),
    "C07": dict(groups=["rep", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C07"), parts=True, modes="pl", cats=WRONG),
    "C08": dict(groups=["rep", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C08"), parts=True, modes="pl", cats=WRONG),
    "C09": dict(groups=["del", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C09"), parts=True, modes="pl", cats=WRONG),
    "C10": dict(groups=["ada", "nest", "rand", "tra", "conc", "val", "elem"], own=own("C10"), parts=True, modes="pl", cats=WRONG),
    "C11": dict(groups=["tra", "nest", "rand", "conc", "val", "elem"], own=own("C11"), parts=True, modes="pl", cats=WRONG),
    "C12": dict(groups=["join", "nest", "rand", "conc", "val", "elem"], own=own("C12"), parts=True, modes="pl", cats=WRONG),
    "C13": dict(groups=["join", "elem"], own=own("C13"), modes="pl", cats=WRONG),
    "C14": dict(groups=EVERY, own=lambda c: True, modes="pl", cats={"oob", "uninit", "lifetime", "assert", "foreign"}, cross=True),
    "C15": dict(groups=EVERY, own=lambda c: True, modes="pl", cats={"nontermination"}, cross=True),
    "C16": dict(groups=["prim", "seq", "cho", "rep", "del", "ada", "tra", "join", "val", "some-elem"], own=lambda c: True, modes="pl", cats=WRONG, ce=True),
    "C17": dict(groups=EVERY, own=lambda c: True, modes="pl", cats={"purity"}, cross=True),
    "C26": dict(groups=["seq", "cho", "rep", "del", "ada", "tra", "nest", "val"], own=quiet, modes="pl", cats={"copy"}, moved=True),
    "C29": dict(groups=["seq", "cho", "rep", "del", "ada", "tra", "join", "nest", "rand", "conc", "val", "some-elem"], own=lambda c: True, modes="q", cats={"calls"}),
}
MIN_INSTANCES = {"C01": 60, "C13": 40}


def base(v): return v["cat"].replace("+ce", "").replace("+rt", "")


def only_when(v, e, r, fl):
    """a deviation that is there only during, or only outside of, constant evaluation"""
    if v["cat"].endswith("+ce"):
        return not any(w["cat"] == base(v) for w in fl.results.get(e, {"violations": []})["violations"])
    if v["cat"].endswith("+rt"):
        return not r["unsupported"] and len(r["violations"]) < 20 and not any(w["cat"] == base(v) + "+ce" for w in r["violations"])
    return False


def judge(spec, entry, v, case):
    """does the finding v of an obligation break the property?"""
    cat = base(v)
    mode = entry[-1]
    if spec.get("agree"):
        if mode == "l": return cat == "calls"
        return cat in MISMATCH
    if cat in spec["cats"]:
        return True
    if spec.get("spans") and cat == "value" and case.node.spanny and "span" in v["msg"]:
        return True
    if spec.get("moved") and cat in ("value", "calls") and "moved-from" in v["msg"]:
        return True
    return False


def run_flow(rep, prop, spec, work):
    thorough = rep.tier == "thorough"
    maker = gen.build(spec["groups"], rep.tier, rep.seed, common.thresholds())
    chosen = [c for c in maker.cases if spec["own"](c)]
    n_own = len(chosen)
    if n_own < MIN_INSTANCES.get(prop, 20):
        raise AnalysisBroken(f"only {n_own} instances of {prop}")
    if spec.get("parts"):
        chosen = maker.with_controls(chosen)
    fl = Flow(work, ce=False, tlimit=40 if thorough else 5)
    lost = fl.run(chosen, spec["modes"])
    ce = None
    if spec.get("ce"):
        ce = Flow(work, ce=True, tlimit=40 if thorough else 5)
        lost += ce.run(chosen, spec["modes"])
    by_name = {c.name: c for c in chosen}
    if len(fl.illformed) >= len(chosen):
        raise AnalysisBroken("no instance compiles; first: " + first_error(next(iter(fl.illformed.values()))))

    def bad(name):
        return name in fl.illformed or any(r["violations"] for e, r in fl.results.items() if e[:-3] == name)
    badnames = {e[:-3] for e, r in fl.results.items() if r["violations"]} | set(fl.illformed)
    owned = [c for c in maker.cases if c.name in by_name and spec["own"](c) and c in chosen[:n_own]]
    source = ce or fl
    decided = 0
    refused = [c for c in owned if c.name in source.illformed and not (ce and c.name in fl.illformed)]
    fine = source.confirm_illformed(refused[:24], spec["modes"]) if refused and not spec.get("cross") else set()
    for c in owned:
        blamed_part = next((k for k in c.controls if k in badnames), None)
        if c.name in source.illformed and not (ce and c.name in fl.illformed):
            if spec.get("cross") or blamed_part: continue
            if c.name in fine or (fine and c not in refused[:24]):
                rep.undecided.append(f"{c.name}: clang refuses what g++ accepts: {first_error(source.illformed[c.name])}")
                continue
            rep.violation(f"illformed:{c.node.L}", f"the expression {c.node.L} is no longer accepted by the compiler: {first_error(source.illformed[c.name])}")
            continue
        for mode in "plauqk":
            e = f"{c.name}__{mode}"
            r = source.results.get(e)
            if r is None: continue
            decided += 1
            for u in r["unsupported"]:
                rep.undecided.append(f"{e}: {u}")
            for v in r["violations"]:
                if ce and not only_when(v, e, r, fl):
                    continue
                if not judge(spec, e, v, c): continue
                if blamed_part: continue
                what = {"p": "parse", "l": "lookahead", "a": "parse against lookahead", "u": "lookahead against that of the operand", "q": "the operands run by parse", "k": "the operands run by lookahead"}[mode]
                fns = [f for f in r["functions"]]
                rep.violation(f"{v['cat']}:{what.replace(' ', '-')}:{c.node.L}",
                              f"{what} of {c.node.L} over {c.elem}: {v['cat']}: {v['msg']}\n at {v['loc']}\n on the path: {v['path'] or '(every path)'}\n in one of: " + "; ".join(fns))
    for l in lost:
        rep.undecided.append(l)
    res = [r for e, r in source.results.items()]
    und = sum(1 for r in res if r["unsupported"])
    if decided == 0:
        raise AnalysisBroken("nothing was decided")
    if und > max(3, len(res) // 4) and not rep.violations:
        raise AnalysisBroken(f"{und} of {len(res)} obligations could not be decided; first: {rep.undecided[0]}")
    st = sum(r["states"] for r in res)
    bounded = [e for e, r in source.results.items() if r["bound"] >= 0 or by_name[e[:-3]].maxlen]
    rep.coverage.update({
        "obligations": len(res), "instances_of_the_property": n_own, "abstract_states": st, "states_merged": sum(r["merged"] for r in res),
        "paths": sum(r["paths"] for r in res), "observations_compared": sum(r["compared"] for r in res),
        "obligations_for_bounded_input_only": len(bounded), "undecided_obligations": und,
        "library_functions_analysed": len(source.functions),
        "functions": sorted(source.functions)[:400],
        "samples": [{"library": c.node.L, "specification": c.node.R, "element": c.elem} for c in owned[:: max(1, len(owned) // 6)][:6]],
        "explanation": EXPL,
    })
    rep.assumptions += ASSUME


EXPL = ("Static: the library, instantiated with opaque operands, and the specification of the construct are translated to LLVM IR by clang and interpreted abstractly side by side "
        "(zone domain over positions, provenance terms for values, bounds- and lifetime-checked memory), all abstract states to a fixpoint; an obligation is one construct over one choice of operand kinds, "
        "discharged when on every abstract path both sides agree on every observation. Obligations whose fixpoint is out of reach are decided for inputs of bounded length (counted).")
ASSUME = ["opaque operands obey the contract of a parser: deterministic, a failure leaves the whole input, a success leaves a suffix", "standard library vector is modelled; tuple, variant, optional, array, span are analysed as they are",
          "clang 18 on x86-64 translates the headers faithfully", "element values outside the 8-bit range are represented by the boundary values of their type and of the constants compared with"]


RAW = {
    "C24": dict(build="results", prelude='#include "vp_result.h"\n', least=10),
    "C25": dict(build="inputs", prelude='#include "vp_span.h"\n', least=150),
}
EXPL_RAW = {
    "C24": "Static: the result class template, driven by an unknown and unbounded sequence of operations (construction, copy, move, assignment, conversion, change in place, taking the value out), is translated to LLVM IR and interpreted abstractly next to a model; all abstract states to a fixpoint.",
    "C25": "Static: views constructed from every category of input, parsers of every kind fed with every category, and comparisons of views, translated to LLVM IR and interpreted abstractly for unknown length and contents against the definition; to a fixpoint.",
}


def run_raw(rep, prop, spec, work):
    import raw
    thorough = rep.tier == "thorough"
    cases = getattr(raw, spec["build"])(rep.tier, common.thresholds())
    if len(cases) < spec["least"]:
        raise AnalysisBroken(f"only {len(cases)} instances of {prop}")
    fl = Flow(work, tlimit=60 if thorough else 10, prelude=spec["prelude"])
    lost = fl.run(cases, "")
    if len(fl.illformed) > len(cases) // 2:
        raise AnalysisBroken("most instances do not compile; first: " + first_error(next(iter(fl.illformed.values()))))
    refused = [c for c in cases if c.name in fl.illformed]
    fine = fl.confirm_illformed(refused[:24], "") if refused else set()
    for c in cases:
        if c.name in fine or (fine and c in refused[24:]):
            rep.undecided.append(f"{c.name}: clang refuses what g++ accepts: {first_error(fl.illformed[c.name])}")
        elif c.name in fl.illformed:
            rep.violation(f"illformed:{c.name}", f"{c.label} is no longer accepted by the compiler: {first_error(fl.illformed[c.name])}")
        for e, r in fl.results.items():
            if e[:-3] != c.name: continue
            for u in r["unsupported"]:
                rep.undecided.append(f"{e}: {u}")
            for v in r["violations"]:
                if v["cat"] == "copy": continue
                rep.violation(f"{v['cat']}:{e}", f"{c.label}: {v['cat']}: {v['msg']}\n at {v['loc']}\n on the path: {v['path'] or '(every path)'}\n in one of: " + "; ".join(r["functions"]))
    rep.undecided += lost
    res = list(fl.results.values())
    if not res:
        raise AnalysisBroken("nothing was decided")
    und = sum(1 for r in res if r["unsupported"])
    if und > max(3, len(res) // 4) and not rep.violations:
        raise AnalysisBroken(f"{und} of {len(res)} obligations could not be decided; first: {rep.undecided[0]}")
    rep.coverage.update({
        "obligations": len(res), "abstract_states": sum(r["states"] for r in res), "states_merged": sum(r["merged"] for r in res), "paths": sum(r["paths"] for r in res),
        "observations_compared": sum(r["compared"] for r in res), "undecided_obligations": und, "library_functions_analysed": len(fl.functions), "functions": sorted(fl.functions)[:400],
        "samples": [{"obligation": c.label} for c in cases[:: max(1, len(cases) // 8)]], "explanation": EXPL_RAW[prop]})
    rep.assumptions += ASSUME[1:]


WITNESS = {
    "C16": dict(build=["constants"], least=5000),
    "C17": dict(build=["stateless"], least=1200),
    "C18": dict(build=["operators"], least=15000),
    "C19": dict(build=["set_algebra"], least=3500),
    "C20": dict(build=["literals"], least=3000),
    "C21": dict(build=["notations"], least=12000),
    "C22": dict(build=["substitutions"], least=2400),
    "C23": dict(build=["rejections"], least=18000),
    "C27": dict(build=["result_types"], least=3400),
    "C34": dict(build=["foreign"], least=4000),
}
EXPL_W = ("Static: each obligation is a declaration (a static_assert on types and compile-time values, or a program that must be refused next to a control that must be accepted) generated from a model of the library's algebra written independently of it "
          "and decided by the compiler's type checker (clang; gcc, the build's own compiler, has the last word) on the current headers; no parser is run.")
ASSUME_W = ["the type checkers of clang 18 and gcc 13", "the expected types are computed by engine/witness/wmodel.py", "the obligations are instances: complete over the listed kinds, sizes and element types, seeded beyond"]


def run_witness(rep, prop, spec, work):
    import obligations
    from . import witness
    obs = []
    for b in spec["build"]:
        obs += getattr(obligations, b)(rep.tier, rep.seed, common.thresholds())
    obs = list({o.ident: o for o in obs}.values())
    if len(obs) < spec["least"]:
        raise AnalysisBroken(f"only {len(obs)} obligations of {prop}")
    failed, notes = witness.decide(work, obs, both=rep.tier == "thorough")
    rep.undecided += notes
    by_rule = {}
    for o in obs:
        k = o.rule or re.split(r"[:]", o.ident)[0]
        by_rule[k] = by_rule.get(k, 0) + 1
    for o, m in failed:
        rep.violation("witness:" + o.ident, f"{o.label}: not so. {'The program that must be refused' if o.refused else 'The obligation'}:\n  {o.text}\n the compiler: {m}")
    rep.coverage.update({
        "witness_obligations": len(obs), "programs_to_refuse": sum(o.refused for o in obs), "witness_obligations_discharged": len(obs) - len(failed), "obligations_by_rule": by_rule,
        "witness_samples": [{"rule": o.label, "declaration": short(o.text, 500), "must_be": "refused" if o.refused else "accepted"} for o in obs[:: max(1, len(obs) // 6)][:6]],
    })
    rep.coverage.setdefault("obligations", len(obs))
    rep.coverage["explanation"] = (rep.coverage.get("explanation", "") + " " + EXPL_W).strip()
    rep.assumptions += ASSUME_W


def check(prop, extra=None):
    rep = Report(prop, "other")
    spec = TABLE.get(prop)
    with Work() as work:
        common.sanity(work)
        if spec:
            common.build_tools()
            run_flow(rep, prop, spec, work)
        if prop in RAW:
            common.build_tools()
            run_raw(rep, prop, RAW[prop], work)
        if prop in WITNESS:
            run_witness(rep, prop, WITNESS[prop], work)
        if prop in ("C30", "C31", "C32"):
            common.build_tools()
            irprops.run(rep, prop, work)
        if prop == "C33":
            common.build_tools()
            irprops.headers(rep, prop, work)
        if extra:
            extra(rep, work)
    return rep.finish()
