"""A model of the library's parser types and of what its operators and modifiers make of them.

A parser is a tuple (kind, *fields); sub-parsers are tuples themselves. cxx() spells its type.
"""
import random

CHARS = {"char", "wchar_t", "char8_t", "char16_t", "char32_t", "signed char", "unsigned char"}
WIDTH = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "char8_t": (0, 255), "wchar_t": (-2**31, 2**31 - 1), "char16_t": (0, 65535), "char32_t": (0, 2**32 - 1),
         "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 65535), "long": (-2**63, 2**63 - 1), "unsigned": (0, 2**32 - 1), "unsigned long": (0, 2**64 - 1), "bool": (0, 1),
         "w::St": (-1000, 1000), "w::Rev": (-1000, 1000), "w::En": (0, 7)}


def lit(e, v):
    if e in ("w::St", "w::Rev"): return f"{e}{{{v}}}"
    if e == "bool": return "true" if v else "false"
    if v == -2**63: return "(long)(-9223372036854775807L-1)"
    suffix = "UL" if v > 2**63 - 1 else "L" if abs(v) > 2**31 - 1 else ""
    return f"({e}){v}{suffix}" if v >= 0 else f"({e})({v}{suffix})"


def arr(e, vals): return f"w::arr<{', '.join([e] + [lit(e, v) for v in vals])}>"
def order(e): return (lambda v: -v) if e == "w::Rev" else (lambda v: v)
def canon(e, vals): return tuple(sorted(set(vals), key=order(e)))


# constructors
def any_(e, vals): return ("any", e, canon(e, vals))
def none_(e, vals): return ("none", e, canon(e, vals))
def all_(e, vals): return ("all", e, tuple(vals))
def anything(e): return ("anything", e)
def eps(e): return ("eps", e)


def elem(p):
    if p[0] in ("any", "none", "all", "anything", "eps", "val"): return p[1]
    if p[0] in ("seq", "cho"): return elem(p[1][0])
    if p[0] == "cu0": return "char"
    return elem(p[1])


NAMES = {"maybe": "maybe_parser", "plus": "one_or_more_parser", "star": "zero_or_more_parser", "ignore": "ignore_parser", "complete": "complete_parser", "join": "join_parser"}
FNS = {"map": "map_parser", "filter": "filter_parser", "apply": "apply_map_parser", "apply_filter": "apply_filter_parser", "constant": "constant_parser"}


def cxx(p):
    k = p[0]
    if k in ("any", "none", "all"): return f"tk::{k}_of_parser<{arr(p[1], p[2])}>"
    if k in ("anything",): return f"tk::anything_parser<{p[1]}>"
    if k == "eps": return f"tk::epsilon_parser<{p[1]}>"
    if k in ("seq", "cho"): return f"tk::{'sequence' if k == 'seq' else 'choice'}_parser<{', '.join(cxx(x) for x in p[1])}>"
    if k in NAMES: return f"tk::{NAMES[k]}<{cxx(p[1])}>"
    if k == "exactly": return f"tk::exactly_parser<{cxx(p[1])}, tk::index_c<{p[2]}>>"
    if k == "delim": return f"tk::delimit_parser<{cxx(p[1])}, {cxx(p[2])}>"
    if k in FNS: return f"tk::{FNS[k]}<{cxx(p[1])}, tk::integral_constant<{p[2]}>>"
    if k in ("into", "apply_into", "defaulted"): return f"tk::{k}_parser<{cxx(p[1])}, {p[2]}>"
    if k == "named": return f"tk::named_parser<{cxx(p[1])}, {arr(p[2][0], p[2][1])}>"
    if k == "cu": return f"w::Cu<{cxx(p[1])}>"
    if k == "cu2": return f"w::Cu2<{cxx(p[1])}, {cxx(p[2])}>"
    if k == "cun": return f"w::CuN<{cxx(p[1])}, {p[2]}>"
    if k == "cu0": return "w::Cu0"
    if k == "val": return f"w::P<{p[2]}, {p[1]}, {p[3]}>"
    if k == "cut": return f"w::CuT<{cxx(p[1])}, {p[2]}>"
    raise KeyError(k)


# what the operators make
def seq(a, b):
    if a[0] == b[0] == "all" and a[1] == b[1]: return ("all", a[1], a[2] + b[2])
    x = a[1] if a[0] == "seq" else (a,)
    y = b[1] if b[0] == "seq" else (b,)
    return ("seq", x + y)


def cho(a, b):
    if a == b: return a
    if a[0] in ("any", "none") and b[0] in ("any", "none"):
        e, s, t = a[1], set(a[2]), set(b[2])
        if a[0] == b[0] == "any": return any_(e, s | t)
        if a[0] == b[0] == "none": return none_(e, s & t)
        return none_(e, t - s) if a[0] == "any" else none_(e, s - t)
    x = a[1] if a[0] == "cho" else (a,)
    y = b[1] if b[0] == "cho" else (b,)
    return ("cho", x + y)


def maybe(p): return p if p[0] in ("maybe", "star") else ("star", p[1]) if p[0] == "plus" else ("maybe", p)
def plus(p): return p if p[0] in ("plus", "star") else ("star", p[1]) if p[0] == "maybe" else ("plus", p)
def star(p): return ("star", p[1]) if p[0] in ("maybe", "plus", "star") else ("star", p)
def neg(p): return {"any": ("none",) + p[1:], "none": ("any",) + p[1:]}[p[0]]
def choeps(p): return cho(p, eps(elem(p)))


UN = {"~": maybe, "+": plus, "*": star}

# what modifiers make: a modifier is (name, *arguments)
def mod_apply(m, p):
    k = m[0]
    if k in ("complete", "join", "ignore"): return p if p[0] == k else (k, p)
    if k == "exactly": return ("exactly", p, m[1])
    if k == "delimit": return ("delim", p, ("ignore", m[1]))
    if k == "delimit_keep": return ("delim", p, m[1])
    if k in ("map", "filter", "apply", "apply_filter", "constant", "into", "apply_into", "defaulted"): return (k, p, m[1])
    if k == "name": return ("named", p, m[1])
    if k == "multi":
        for x in m[1]: p = mod_apply(x, p)
        return p
    if k == "sub":
        for s in m[1]: p = substitute(s, p)
        return p
    raise KeyError(k)


def substitute(s, p):
    """s = (name, modifier)"""
    k = p[0]
    if k == "named":
        inner = substitute(s, p[1])
        return mod_apply(s[1], inner) if p[2] == s[0] else ("named", inner, p[2])
    if k in ("seq", "cho"): return (k, tuple(substitute(s, x) for x in p[1]))
    if k in NAMES: return (k, substitute(s, p[1]))
    if k in ("delim", "cu2"): return (k, substitute(s, p[1]), substitute(s, p[2]))
    if k == "exactly" or k in FNS or k in ("into", "apply_into", "defaulted"): return (k, substitute(s, p[1]), p[2])
    if k == "cu": return (k, substitute(s, p[1]))
    return p   # leaves, and templates that do not take types alone


def modtext(m):
    """the public spelling of a modifier"""
    k = m[0]
    if k in ("complete", "join", "ignore"): return f"t3::{k}"
    if k in ("delimit", "delimit_keep"): return f"t3::{k}({cxx(m[1])}{{}})"
    if k == "exactly": return f"t3::exactly<{m[1]}>"
    if k in ("map", "filter", "apply", "apply_filter", "constant", "into", "apply_into", "defaulted"): return f"t3::{k}<{m[1]}>"
    if k == "name": return f"t3::name<{arr(*m[1])}>"
    if k == "multi": return "(" + " % ".join(modtext(x) for x in m[1]) + ")"
    if k == "sub": return "t3::sub(" + ", ".join(f"t3::name<{arr(*s[0])}> = {modtext(s[1])}" for s in m[1]) + ")"
    raise KeyError(k)


# ---------------------------------------------------------------- types of values
VOID = "void"


def vt(p, e):
    """the type of the value that parser p yields for input over e"""
    k = p[0]
    if k in ("any", "none", "all", "anything", "join"): return f"tk::output_span<{e}>"
    if k in ("eps", "ignore"): return VOID
    if k == "val": return p[2]
    if k == "seq":
        ts = [t for t in (vt(x, e) for x in p[1]) if t != VOID]
        return VOID if not ts else ts[0] if len(ts) == 1 else f"std::tuple<{', '.join(ts)}>"
    if k == "cho":
        ts = []
        for x in p[1]:
            t = vt(x, e)
            if t != VOID and t not in ts: ts.append(t)
        return VOID if not ts else ts[0] if len(ts) == 1 else f"std::variant<{', '.join(ts)}>"
    if k in ("complete", "named", "filter", "apply_filter", "cu"): return vt(p[1], e)
    if k == "cu2": return vt(("seq", (p[1], p[2])), e)
    if k == "cun": return vt(p[1], e)
    if k == "cut": return p[2]
    if k == "cu0": return f"tk::output_span<{e}>"
    if k in ("map", "apply"):
        f = p[2]
        if f.startswith("w::To<"): return f[6:-3]
        if f.startswith("w::F<"): return "int"
        ts = comps(p[1], e) if k == "apply" else [t for t in (vt(p[1], e),) if t != VOID]
        return f"w::Box<{', '.join(t + '&&' for t in ts)}>"
    if k == "constant": return {"'": "char", "t": "bool", "f": "bool"}.get(p[2][0], "w::En" if p[2].startswith("w::En") else "long" if p[2].endswith("L") else "int")
    if k in ("into", "apply_into", "defaulted"): return p[2]
    t = vt(p[1], e)
    if k == "maybe": return VOID if t == VOID else f"std::optional<{t}>"
    if k in ("plus", "star"): return VOID if t == VOID else f"std::vector<{t}>"
    if k == "exactly": return VOID if t == VOID else f"std::array<{t}, {p[2]}>"
    if k == "delim":
        d = vt(p[2], e)
        if t == VOID and d == VOID: return VOID
        if t == VOID: return f"std::vector<{d}>"
        if d == VOID: return f"std::vector<{t}>"
        return f"std::pair<std::vector<{t}>, std::vector<{d}>>"
    raise KeyError(k)


def comps(p, e):
    """the components of a tuple-like value; None when it is not one"""
    k = p[0]
    if k == "seq":
        ps = [x for x in p[1] if vt(x, e) != VOID]
        if len(ps) == 1: return comps(ps[0], e)
        return [vt(x, e) for x in ps] if ps else None
    if k == "exactly": t = vt(p[1], e); return None if t == VOID else [t] * p[2]
    if k == "delim": a, b = vt(p[1], e), vt(p[2], e); return [f"std::vector<{a}>", f"std::vector<{b}>"] if VOID not in (a, b) else None
    if k in ("complete", "named", "filter", "apply_filter", "cu"): return comps(p[1], e)
    return None


def joinable(p, e):
    k = p[0]
    t = vt(p, e)
    if t == VOID: return False
    if t.startswith("tk::output_span"): return True
    if k == "seq": return all(joinable(x, e) for x in p[1] if vt(x, e) != VOID)
    if k in ("maybe", "plus", "star", "exactly", "complete", "named", "filter", "cu", "apply_filter"): return joinable(p[1], e)
    if k == "delim": return joinable(p[1], e) if vt(p[2], e) == VOID else False
    return False
