"""Properties decided on the call graph of the instantiated library (C30, C31, C32), and on its headers (C33)."""
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import AnalysisBroken, short
from .flow import first_error, gen, TOK

IR = os.path.join(common.ENGINE, "irscan")


def flags(throwing):
    return ["-std=c++20", "-I" + IR, "-I" + TOK, "-I" + common.INC, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-ferror-limit=0",
            "-ftemplate-depth=2000", "-fbracket-depth=2000"] + (["-DVP_THROWING"] if throwing else [])


class Scan:
    def __init__(self, work, throwing):
        self.work, self.throwing = work, throwing
        self.pch = os.path.join(work, f"irh{int(throwing)}.pch")
        r = subprocess.run([common.CLANG] + flags(throwing) + ["-x", "c++-header", os.path.join(IR, "irh.h"), "-o", self.pch], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("the harness does not compile against the library:\n" + r.stderr[:3000])
        self.results, self.illformed, self.strong, self.functions = {}, {}, set(), set()

    def _compile(self, base, ents):
        with open(base + ".cpp", "w") as f:
            f.write("using namespace vp;\nusing SP = tk::output_span<char>;\n" + "\n".join(f"VP_ENT({n}, {e}, {l})" for n, e, l in ents) + "\n")
        return subprocess.run([common.CLANG] + flags(self.throwing) + ["-include-pch", self.pch, "-emit-llvm", "-c", base + ".cpp", "-o", base + ".bc"], capture_output=True, text=True)

    def _job(self, arg):
        k, ents = arg
        base = os.path.join(self.work, f"s{int(self.throwing)}_{k}")
        todo, bad, out, lost = [(base, ents)], {}, [], []
        while todo:
            b, es = todo.pop()
            r = self._compile(b, es)
            if r.returncode:
                if len(es) == 1: bad[es[0][0]] = r.stderr
                else: todo += [(b + "a", es[:len(es) // 2]), (b + "b", es[len(es) // 2:])]
                continue
            r = subprocess.run([os.path.join(common.BUILD, "irscan"), b + ".bc"], capture_output=True, text=True)
            out += [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
            if r.returncode: lost.append(f"analyser ended with {r.returncode}: {short(r.stderr, 300)}")
            os.remove(b + ".bc")
        return out, bad, lost

    def run(self, ents, per=24):
        n = max(1, min(len(ents), max(common.JOBS, len(ents) // per)))
        lost = []
        with ThreadPoolExecutor(common.JOBS) as ex:
            for out, bad, l in ex.map(self._job, [(k, ents[k::n]) for k in range(n)]):
                for r in out:
                    if "strong" in r: self.strong |= set(r["strong"]); continue
                    self.results[r["entry"]] = r
                    self.functions.update(r["functions"])
                self.illformed.update(bad)
                lost += l
        return lost


EVERY = ["prim", "seq", "cho", "rep", "del", "ada", "tra", "join", "nest", "rand", "conc", "val", "some-elem"]
CAT = {"C30": "recurse", "C31": "unwind", "C32": "alloc"}
WHAT = {"p": "parse", "l": "lookahead"}


def lists(n, by_join=False):
    """is a list of values built anywhere in it? (none by the optimised joins, and none under ignore if its operand is only looked at: not relied on)"""
    if n.outer == "C13": return any(lists(k) for k in n.kids[0].kids)
    if n.kind != "void" and re.match(r"tk::(one_or_more|zero_or_more|delimit)_parser<", n.L): return True
    return any(lists(k) for k in n.kids)


EXTRA = [("te_any", "tk::any_of_parser<tk::static_array<Te,2>(Te{1},Te{2})>"), ("te_none", "tk::none_of_parser<tk::static_array<Te,2>(Te{1},Te{2})>"), ("te_all", "tk::all_of_parser<tk::static_array<Te,2>(Te{1},Te{2})>")]


def run(rep, prop, work):
    thorough = rep.tier == "thorough"
    maker = gen.build(EVERY, rep.tier, rep.seed, common.thresholds())
    ents = [(c.name, c.elem, c.node.L) for c in maker.cases]
    label = {c.name: f"{c.node.L} over {c.elem}" for c in maker.cases}
    node = {c.name: c.node for c in maker.cases}
    if prop in ("C30", "C31"):
        more = [(f"rec{i}{v[0]}", "char", f"Rec<{i},{v}>") for i, v in ((0, "void"), (0, "V<1>"), (1, "void"), (2, "void"), (3, "V<1>"))]
        more += [(n, "Te", l) for n, l in EXTRA]
        for n, l in EXTRA:
            for w, f in (("maybe", "tk::maybe_parser<{}>"), ("plus", "tk::one_or_more_parser<{}>"), ("star", "tk::zero_or_more_parser<{}>"), ("ex2", "tk::exactly_parser<{},tk::index_c<2>>")):
                more.append((f"j_{w}_{n}", "Te", f"tk::join_parser<{f.format(l)}>"))
        ents += more
        label.update({n: l for n, _, l in more})
    if len(ents) < 1000:
        raise AnalysisBroken(f"only {len(ents)} instances")
    scans = [Scan(work, False)] + ([Scan(work, True)] if prop == "C31" else [])
    sites = thr = reach = n = 0
    seen = set()
    for sc in scans:
        rep.undecided += sc.run(ents)
        if len(sc.illformed) > len(ents) // 4:
            raise AnalysisBroken("too many instances do not compile; first: " + first_error(next(iter(sc.illformed.values()))))
        for nm, m in sorted(sc.illformed.items()):
            rep.undecided.append(f"{nm}: not accepted by clang: {first_error(m)}")
        for e, r in sorted(sc.results.items()):
            nm, mode = e[4:-3], e[-1]
            if prop == "C32" and mode == "p" and lists(node[nm]): continue
            n += 1; sites += r["sites"]; thr += r["throwing_sites"]; reach += r["reachable"]
            for v in r["violations"]:
                if v["cat"] != CAT[prop]: continue
                key = (v["msg"][:120], v["loc"]) if prop != "C32" else (v["loc"], v["path"].split(" -> ")[2:4].__repr__())
                ident = f"{v['cat']}:{WHAT[mode]}:{label[nm]}"
                if key in seen: continue
                seen.add(key)
                rep.violation(ident, f"{WHAT[mode]} of {label[nm]}{' (values whose moves and copies may throw)' if sc.throwing else ''}: {v['msg']}\n at {v['loc']}\n by way of: {v['path']}")
    if n < 500 or thr + reach < 10000:
        raise AnalysisBroken(f"only {n} entries analysed")
    fns = set().union(*[sc.functions for sc in scans])
    if len(fns) < 300: raise AnalysisBroken(f"only {len(fns)} library functions analysed")
    rep.coverage.update({"entries": n, "obligations": n, "functions_reached": reach, "call_sites": sites, "throwing_call_sites": thr, "library_functions_analysed": len(fns), "functions": sorted(fns)[:400],
                         "instances_not_accepted": sum(len(s.illformed) for s in scans), "rule": RULE[prop], "samples": [{"entry": label[x[0]]} for x in ents[:: len(ents) // 6][:6]],
                         "explanation": "Static: the library, instantiated with opaque operands and the real standard library, is translated to LLVM IR with exceptions and without optimisation; the rule is decided on its call graph (calls through pointers go to every function of that type whose address is taken), whatever the input."})
    rep.assumptions += ["clang 18 and libstdc++ 13 on x86-64; the instances (kinds, arities, element types) are enumerated", "opaque operands stand for every operand: the functions of an instance do not depend on what the operand does"]


RULE = {
    "C30": "no cycle of calls through a function of the library other than through a user-derived rule, and no stack allocation of variable size",
    "C31": "at every call through which an exception of the user's (operand, function, predicate, constructor, move, copy, comparison of elements) or of an allocation may come, it continues to the caller: no landing pad on its way ends in a return or in the termination of the program, and no function on its way is marked as not throwing",
    "C32": "no allocation function is reachable from a lookahead, nor from a parse whose value contains no list",
}

# ------------------------------------------------------------------------------------------------ headers
PRE = """
#include <cstddef>
#include <tuple>
#include <utility>
struct In { const char* d; std::size_t n; using value_type = char; };
namespace tk = k3::tok3n::detail;
using namespace k3::tok3n;
namespace k3::tok3n::detail { // where the operators are found
template <int I, class T = int> struct Op
{
	using value_type = char;
	template <class W> using result_for = T;
	static constexpr tk::parser_family family = tk::custom_family;
	template <class R> static constexpr auto parse(R&& r) { tk::input_span in{ std::forward<R>(r) }; if constexpr (std::is_void_v<T>) return tk::result<void, char>{ tk::success_tag, in }; else return tk::result<T, char>{ tk::success_tag, T{}, in }; }
	template <class R> static constexpr auto lookahead(R&& r) { tk::input_span in{ std::forward<R>(r) }; return tk::result<void, char>{ tk::success_tag, in }; }
};
}
using tk::Op;
using Sp = Op<9, tk::output_span<char>>;
using Tu = Op<8, std::tuple<int, int>>;
inline constexpr auto none_ = [](auto&&...) { return 1; };
inline constexpr auto yes = [](auto&&...) { return true; };
template <class P> void use(P) { auto r = P::parse("ab"); auto s = P::lookahead("ab"); (void)bool(r); (void)bool(s); (void)r.remaining(); }
struct Mk { int i = 0; constexpr Mk(auto&&...) {} };
"""
USES = {
    "k3/tok3n/basic.h": [("literals", 'use("ab"_any); use("ab"_any_of); use("ab"_none); use("ab"_none_of); use("ab"_all); use("ab"_all_of); use("ab"_ign);'),
                         ("factories", "use(any<\"ab\">); use(none<\"ab\">); use(all<\"ab\">); use(ign<\"ab\">); use(any_of<'a', 'b'>); use(none_of<'a', 'b'>); use(all_of<'a', 'b'>);"),
                         ("wide", 'auto r = decltype(L"ab"_any)::parse(L"ab"); auto s = decltype(U"ab"_all)::parse(U"ab"); (void)bool(r); (void)bool(s);'),
                         ("views", 'auto r = decltype("ab"_all)::parse("ab"); (void)(*r == "ab"); (void)(r.remaining() != "ab"); auto b = (*r).begin(); (void)b;')],
    "k3/tok3n/operators.h": [("sequence", "use(Op<1>{} >> Op<2>{}); use(Op<1>{} >> Op<2, void>{} >> Op<3>{});"), ("choice", "use(Op<1>{} | Op<2>{}); use(Op<1>{} | Op<2, void*>{} | Op<3>{});"), ("maybe", "use(~Op<1>{}); use(~~Op<1>{});"),
                             ("one or more", "use(+Op<1>{});"), ("zero or more", "use(*Op<1>{}); use(+*Op<1>{});"), ("epsilon", "use(Op<1>{} | eps);"), ("nested", "use(~(Op<1>{} >> +Op<2>{}) | *Op<3>{});")],
    "k3/tok3n/modifiers.h": [("apply", "use(apply<none_>(Tu{}));"), ("apply_filter", "use(apply_filter<yes>(Tu{}));"), ("apply_into", "use(apply_into<Mk>(Tu{}));"),
                             ("complete", "use(complete(Op<1>{}));"), ("constant", "use(constant<5>(Op<1>{}));"), ("defaulted", "use(defaulted<int>(Op<1>{}));"), ("delimit", "use(delimit(Op<1>{}, Op<2>{})); use(delimit(Op<2>{})(Op<1>{}));"),
                             ("delimit_keep", "use(delimit_keep(Op<1>{}, Op<2>{})); use(delimit_keep(Op<2>{})(Op<1>{}));"), ("exactly", "use(exactly<2>(Op<1>{}));"), ("filter", "use(filter<yes>(Op<1>{}));"), ("ignore", "use(ignore(Op<1>{}));"), ("into", "use(into<Mk>(Op<1>{}));"),
                             ("join", "use(join(Sp{}));"), ("map", "use(map<none_>(Op<1>{}));"), ("name", "use(name<\"n\">(Op<1>{}));"), ("sub", "use(sub(name<\"n\"> = ignore)(name<\"n\">(Op<1>{})));"), ("nested", "use(ignore(complete(exactly<2>(map<none_>(Op<1>{})))));")],
    "k3/tok3n/parsers.h": [("basic", "use(tk::any_of_parser<\"ab\">{}); use(tk::none_of_parser<\"ab\">{}); use(tk::all_of_parser<\"ab\">{}); use(tk::anything_parser<char>{}); use(tk::epsilon_parser<char>{});"),
                           ("compound", "use(tk::sequence_parser<Op<1>, Op<2>>{}); use(tk::choice_parser<Op<1>, Op<2, void*>>{});"), ("repeat", "use(tk::maybe_parser<Op<1>>{}); use(tk::one_or_more_parser<Op<1>>{}); use(tk::zero_or_more_parser<Op<1>>{}); use(tk::exactly_parser<Op<1>, tk::index_c<2>>{});"),
                           ("delimit", "use(tk::delimit_parser<Op<1>, Op<2>>{});"), ("adapt", "use(tk::ignore_parser<Op<1>>{}); use(tk::complete_parser<Op<1>>{}); use(tk::named_parser<Op<1>, \"n\">{}); use(tk::join_parser<Sp>{});"),
                           ("join", "use(tk::join_parser<tk::one_or_more_parser<tk::any_of_parser<\"ab\">>>{}); use(tk::join_parser<tk::zero_or_more_parser<tk::all_of_parser<\"ab\">>>{}); use(tk::join_parser<tk::maybe_parser<tk::all_of_parser<\"ab\">>>{}); use(tk::join_parser<tk::exactly_parser<tk::none_of_parser<\"ab\">, tk::index_c<2>>>{});"),
                           ("function", "use(tk::map_parser<Op<1>, tk::integral_constant<none_>>{}); use(tk::filter_parser<Op<1>, tk::integral_constant<yes>>{}); use(tk::apply_map_parser<tk::sequence_parser<Op<1>, Op<2>>, tk::integral_constant<none_>>{});"),
                           ("aliases", "use(tk::into_parser<Op<1>, Mk>{}); use(tk::apply_into_parser<tk::sequence_parser<Op<1>, Op<2>>, Mk>{}); use(tk::constant_parser<Op<1>, tk::integral_constant<5>>{}); use(tk::defaulted_parser<Op<1>, int>{}); use(tk::apply_filter_parser<tk::sequence_parser<Op<1>, Op<2>>, tk::integral_constant<yes>>{});"),
                           ("custom", "struct C; use(Cu{});")],
}
EXTRA_PRE = {"k3/tok3n/parsers.h": "struct Cu : custom_parser<Cu> { static constexpr auto get_parser() { return Op<1>{}; } };\n"}

# the same program after different inclusions: every definition that its translation units share has to be the same one
SHARED = {
    "basic": ['"ab"_any', '"ab"_none', '"ab"_all', '"ab"_ign', '""_all', "(any_of<'a', 'b'>)", '"b"_all'],
    "operators": ['"ab"_all >> "c"_any', '"ab"_any | "c"_all >> "d"_none', '~"ab"_all', '+"ab"_any', '*"ab"_none', '~(+"ab"_all)', '!"ab"_any', '!"ab"_any | "b"_any', '"a"_any | eps', '*("ab"_all | "c"_any >> ~"x"_any)', '"a"_all >> "b"_all', '*(*"a"_any)', '"ab"_any | "ab"_any'],
    "modifiers": ['complete("ab"_any)', 'ignore("ab"_all)', 'exactly<3>("ab"_any)', 'delimit("ab"_any, ","_ign)', 'delimit("ab"_any, ","_all)', 'delimit_keep("ab"_any, ","_all)', 'map<one_>("ab"_any)', 'filter<yes_>("ab"_any)', 'into<Mk>("ab"_any)', 'constant<3>("ab"_any)', 'defaulted<int>("ab"_any)', 'name<"n">("ab"_any)', 'sub(name<"n"> = ignore)(name<"n">("ab"_any))', 'sub(name<"n"> = exactly<2>, name<"m"> = complete)(ignore(name<"n">("ab"_any)))', 'join("ab"_all)',
                  'join(exactly<3>("ab"_any))', 'join(exactly<2>("ab"_all))', 'join(exactly<2>("ab"_none))', 'join(delimit("ab"_any, ","_ign))'],
    "both": ['join(%s%s)' % (o, b) for o in "+*~" for b in ('"ab"_any', '"ab"_all', '"ab"_none', '("ab"_any >> "c"_any)', '("ab"_any | "cd"_all)')] + ['"ab"_any % exactly<2> % join % complete', '"ab"_any % (exactly<2> % join) % complete', 'apply<one_>("a"_any >> "b"_any)', 'apply_filter<yes_>("a"_any >> "b"_any)', 'apply_into<Mk>("a"_any >> "b"_any)', 'join("ab"_any >> +"c"_any)', 'join(~("ab"_any >> "c"_any) >> *"d"_all)', '*("ab"_any % join) % delimit(","_ign)', 'delimit(+"ab"_any % join, ","_ign)'],
}


def shared_programs(thorough):
    import itertools
    full = lambda n: f"k3/tok3n/{n}.h"
    out = []
    for need in (["basic"], ["basic", "operators"], ["basic", "modifiers"], ["basic", "operators", "modifiers"]):
        exprs = sum((SHARED[n] for n in need), []) + (SHARED["both"] if len(need) == 3 else [])
        orders = list(itertools.permutations(need)) if thorough or len(need) < 3 else [tuple(need), tuple(reversed(need))]
        orders = [[full(n) for n in o] for o in orders]
        others = [n for n in ("operators", "modifiers", "parsers") if n not in need]
        more = [[full(x)] + [full(n) for n in need] for x in others] + [[full(n) for n in need] + [full(x)] for x in others]
        out.append((need, exprs, orders + more + [["k3/tok3n.h"]]))
    return out


def shared(rep, work):
    scan = os.path.join(common.BUILD, "irscan")
    todo = []
    for g, (need, exprs, orders) in enumerate(shared_programs(rep.tier == "thorough")):
        for half in range(0, len(exprs), 18):
            for o, order in enumerate(orders): todo.append((g, half, o, order, exprs[half:half + 18]))

    def one(a):
        g, half, o, order, exprs = a
        b = os.path.join(work, f"o{g}_{half}_{o}")
        with open(b + ".cpp", "w") as f:
            f.write("#include <string_view>\n" + "".join(f"#include <{h}>\n" for h in order) + "using namespace k3::tok3n;\nstruct Mk { int i = 0; constexpr Mk(auto&&...) {} };\ninline constexpr auto one_ = [](auto&&...) { return 1; };\ninline constexpr auto yes_ = [](auto&&...) { return true; };\n"
                    "template <class P> void g(P, std::string_view s) { auto r = P::parse(s); auto t = P::lookahead(s); (void)bool(r); (void)bool(t); }\nvoid f(const char* p, std::size_t n)\n{\n" + "".join(f"\tg({e}, {{ p, n }});\n" for e in exprs) + "}\n")
        r = subprocess.run([common.CLANG, "-std=c++20", "-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-I" + common.INC, "-emit-llvm", "-c", b + ".cpp", "-o", b + ".bc"], capture_output=True, text=True)
        if r.returncode: return a, None, first_error(r.stderr)
        r = subprocess.run([scan, "--bodies", b + ".bc"], capture_output=True, text=True)
        os.remove(b + ".bc")
        if r.returncode: raise AnalysisBroken("irscan --bodies failed: " + short(r.stderr, 300))
        d = {}
        for l in r.stdout.splitlines():
            x = json.loads(l)
            d.setdefault(x["name"], {})[x["hash"]] = x["at"]
        return a, d, None
    with ThreadPoolExecutor(common.JOBS) as ex:
        res = list(ex.map(one, todo))
    base, compared, keys, told = {}, 0, set(), set()
    for (g, half, o, order, exprs), d, err in reversed(res):  # the last order is the whole library
        inc = " and ".join(order)
        if d is None:
            if order == ["k3/tok3n.h"]: raise AnalysisBroken(f"a program of the analysis does not compile after the whole library: {err}")
            rep.violation(f"shared:{'+'.join(order)}:{half}", f"a program is refused after including {inc}, which it is not after including k3/tok3n.h: {err}\n it uses: {'; '.join(exprs)}")
            continue
        if order == ["k3/tok3n.h"]: base[g, half] = d; keys.update(d); continue
        for n, hs in d.items():
            other = base.get((g, half), {}).get(n)
            if other is None: continue
            compared += 1
            if set(hs) & set(other): continue
            at = sorted(set(hs.values()) - set(other.values())) or sorted(hs.values())
            key = (at[0], sorted(other.values())[0])
            if key in told: continue
            told.add(key)
            rep.violation(f"odr:{'+'.join(order)}:{n[:200]}", f"{n}: one thing ({at[0]}) after including {inc}, another ({sorted(other.values())[0]}) after including k3/tok3n.h, in programs that may be linked together")
    if len(keys) < 300 or compared < 2000: raise AnalysisBroken(f"only {len(keys)} shared definitions compared ({compared} comparisons)")
    return {"shared_definitions": len(keys), "comparisons": compared, "inclusion_orders": sum(len(o) for _, _, o in shared_programs(rep.tier == "thorough"))}


def headers(rep, prop, work):
    pub = sorted("k3/" + os.path.relpath(h, os.path.join(common.INC, "k3")) for h in common.headers() if os.sep + "detail" + os.sep not in h)
    for must in list(USES) + ["k3/tok3n.h"]:
        if must not in pub: rep.violation(f"missing:{must}", f"the public header {must} is gone")
    progs = []
    for h in pub:
        progs.append((f"alone:{h}", f"including {h} alone, twice", f"#include <{h}>\n#include <{h}>\n", [h]))
        for k in pub:
            if k != h: progs.append((f"pair:{h}:{k}", f"including {h} and then {k}", f"#include <{h}>\n#include <{k}>\n" + (PRE + "void f() { use(Op<1>{}); }\n"), [h, k]))
    for h, us in USES.items():
        for orders in ([[h]], [["k3/tok3n.h"]], [["k3/tok3n.h", h]], [[h, "k3/tok3n.h"]]):
            inc = orders[0]
            for nm, code in us:
                progs.append((f"use:{'+'.join(inc)}:{nm}", f"{nm} after including {' and '.join(inc)}", "".join(f"#include <{i}>\n" for i in inc) + PRE + EXTRA_PRE.get(h, "") + "void f() { " + code + " }\n", inc))
    gcc = shutil.which("g++")

    def one(a):
        k, (ident, label, code, inc) = a
        f = os.path.join(work, f"h{k}.cpp")
        with open(f, "w") as o: o.write(code)
        first = [gcc] if gcc else [common.CLANG]
        r = subprocess.run(first + ["-std=c++20", "-w", "-I" + common.INC, "-fsyntax-only", f], capture_output=True, text=True)
        c = subprocess.run([common.CLANG, "-std=c++20", "-w", "-I" + common.INC, "-fsyntax-only", f], capture_output=True, text=True) if rep.tier == "thorough" or ident.startswith("alone") else None
        os.remove(f)
        return r, c
    with ThreadPoolExecutor(common.JOBS) as ex:
        res = list(ex.map(one, enumerate(progs)))
    whole = {i: r.returncode for (i, _, _, inc), (r, _) in zip(progs, res) if inc == ["k3/tok3n.h"]}
    for (ident, label, code, inc), (r, c) in zip(progs, res):
        if r.returncode:
            rep.violation(ident, f"{label}: refused: {first_error(r.stderr)}\n the program:\n{code}")
        elif c and c.returncode:
            rep.undecided.append(f"{ident}: clang refuses what g++ accepts: {first_error(c.stderr)}")
    # what a second translation unit would define again
    sc = Scan(work, False)
    maker = gen.build(["prim", "seq", "cho", "rep", "del", "ada", "tra", "join"], rep.tier, rep.seed, common.thresholds())
    rep.undecided += sc.run([(c.name, c.elem, c.node.L) for c in maker.cases])
    for s in sorted(sc.strong):
        rep.violation(f"strong:{s}", f"the {s} is defined by a header so that only one translation unit may include it")
    if len(sc.functions) < 300: raise AnalysisBroken("too few functions analysed")
    sh = shared(rep, work)
    rep.coverage.update({**sh, "obligations": len(progs) + len(sc.functions) + sh["comparisons"], "public_headers": len(pub), "programs": len(progs), "library_functions_analysed": len(sc.functions), "samples": [{"program": p[1]} for p in progs[:: len(progs) // 6][:6]],
                         "rule": "each public header compiles alone, after and before any other, and provides what it declares; nothing of the library is defined with a linkage that two translation units cannot share; the same program has the same definitions after every order of inclusion",
                         "explanation": "Static: programs that include the public headers in every order and use what they declare are given to the compiler's type checker (not run); the linkage of every library function and variable is read off the LLVM IR of the instances; definitions are compared by the hash of their LLVM IR."})
    rep.assumptions += ["gcc 13 decides what is accepted"]
