"""Obligations that are not about one parser expression: histories of results (C24), kinds of input (C25)."""
from exprs import Raw
import exprs as X

HISTORIES = [("V<1>", "V<1>", "char"), ("std::optional<V<1>>", "V<1>", "char"), ("std::variant<V<1>,V<2>>", "V<2>", "char"), ("std::variant<V<1>,V<2>>", "V<1>", "wchar_t"), ("M<1>", "M<1>", "char"),
             ("std::optional<M<1>>", "M<1>", "int"), ("X<1>", "X<1>", "char32_t"), ("void", "void", "char"), ("void", "void", "int"), ("long", "char", "char16_t"), ("N<1>", "N<1>", "char"), ("bool", "bool", "char8_t")]
HISTORIES_T = HISTORIES + [(t, u, e) for t, u in (("V<1>", "V<1>"), ("std::optional<V<1>>", "V<1>"), ("std::variant<V<1>,V<2>>", "V<2>"), ("M<1>", "M<1>"), ("X<1>", "X<1>"), ("void", "void"), ("long", "short"))
                           for e in ("char", "wchar_t", "char8_t", "char16_t", "char32_t", "int", "unsigned char", "St", "En")]


def results(tier, thr):
    out, seen = [], set()
    for i, h in enumerate(HISTORIES_T if tier == "thorough" else HISTORIES):
        if h in seen: continue
        seen.add(h)
        out.append(Raw(f"h{i}", f"result<{h[0]}>, converted from result<{h[1]}>", f"VP_HISTORY(h{i}__h, {', '.join(t if ',' not in t else f'VP_T({t})' for t in h)})", elem=h[2]))
    return out


CATS = ["STD_SPAN", "STD_SPAN_MUT", "STD_SPAN_TEMP", "STD_SPAN_FIXED", "STRING_VIEW", "RANGE", "RANGE_CONST", "RANGE_TEMP", "ARRAY", "ARRAY_MUT", "STD_ARRAY", "STD_ARRAY_MUT", "POINTER", "INPUT_SPAN", "OUTPUT_SPAN"]
CHARS = {"char", "wchar_t", "char8_t", "char16_t", "char32_t"}


def can(elem, cat): return elem in CHARS or cat not in ("POINTER", "STRING_VIEW")


def kinds():
    """one parser of every kind; what it does with its input's beginning and end shows the whole view"""
    a, b = X.any_("ab"), X.none_("a")
    S = X
    return [("any", a), ("none", b), ("all", X.all_("ab")), ("anything", X.anything()), ("eps", X.eps()),
            ("seq", X.seq(X.V(1), X.V(2))), ("cho", X.choice(X.V(1), X.U(2), X.V(3))), ("maybe", X.maybe(X.V(1))), ("ex", X.exactly(X.V(1), 2)), ("plus", X.plus(X.V(1))), ("star", X.star(X.V(1))),
            ("del", X.delim(X.V(1), X.V(2))), ("ign", X.ignore(X.V(1))), ("com", X.complete(X.V(1))), ("join", X.join(X.seq(X.all_("a"), X.any_("ab")))), ("jplus", X.join(X.plus(a), True)), ("jstar", X.join(X.star(a), True)),
            ("jmaybe", X.join(X.maybe(a), True)), ("jex", X.join(X.exactly(a, 2), True)), ("map", X.map_(X.V(1), 1)), ("fil", X.filter_(X.V(1), 1)), ("app", X.apply_(X.seq(X.V(1), X.V(2)), 1)), ("apf", X.apply_filter(X.seq(X.V(1), X.V(2)), 1)),
            ("api", X.apply_into(X.seq(X.V(1), X.V(2)), 7)), ("into", X.into(X.V(1), 7)), ("const", X.constant(X.V(1), 5)), ("def", X.defaulted(X.V(1), 6)), ("nam", X.named(X.V(1))), ("cus", X.custom(X.V(1)))]


def inputs(tier, thr):
    out = []
    for nm, n in kinds():
        for c in CATS:
            if nm not in ("any", "all", "seq", "cho", "star", "fil", "cus") and tier != "thorough" and c not in ("ARRAY", "ARRAY_MUT", "STD_SPAN_MUT", "RANGE_TEMP", "POINTER", "STRING_VIEW"): continue
            name = f"k_{nm}_{c}"
            ml = " static constexpr long maxlen=4;" if n.wild_spans else ""
            out.append(Raw(name, f"{n.L} given a {c}", f"struct {name} {{ using E=char; using SP=tk::output_span<E>; using L={n.L}; using R={n.R}; static constexpr long seeds[]={{97,98}};{ml} }}; VP_CAT({name}, {c})"))
    for e in ["char", "wchar_t", "char8_t", "char16_t", "char32_t", "int", "unsigned char", "St", "En", "long"]:
        for c in CATS:
            if not can(e, c): continue
            for sp in ("input_span", "output_span"):
                name = f"v_{e.replace(' ', '')}_{c}_{sp[0]}"
                out.append(Raw(name, f"{sp}<{e}> made of a {c}", f"VP_VIEW({name}__v, {e}, {c}, {sp})", elem=e))
    for e in ["bool", "short", "signed char", "char32_t", "unsigned long"]:
        for c in ("ARRAY", "ARRAY_MUT", "STD_ARRAY", "RANGE", "STD_SPAN_FIXED"):
            if (e, c) == ("bool", "RANGE"): continue
            name = f"v_{e.replace(' ', '')}_{c}_i"
            if any(o.name == name for o in out): continue
            out.append(Raw(name, f"input_span<{e}> made of a {c}", f"VP_VIEW({name}__v, {e}, {c}, input_span)", elem=e))
    eqcats = ["STD_SPAN", "STD_SPAN_MUT", "STD_SPAN_FIXED", "STRING_VIEW", "RANGE", "RANGE_CONST", "STD_ARRAY", "INPUT_SPAN", "OUTPUT_SPAN", "POINTER", "ARRAY"]
    k = 0
    for e in ["char", "wchar_t", "char8_t", "int", "unsigned char", "St"] if tier == "thorough" else ["char", "wchar_t", "int", "St"]:
        for c in eqcats:
            if not can(e, c) or c == "ARRAY" and e not in CHARS | {"unsigned char", "signed char"}: continue
            for sp in ("input_span", "output_span"):
                for swap in ("false", "true"):
                    for neg in ("false", "true"):
                        k += 1
                        name = f"e_{e.replace(' ', '')}_{c}_{sp[0]}_{swap[0]}{neg[0]}"
                        if tier != "thorough" and (k * 7) % 3 and e != "char": continue
                        out.append(Raw(name, f"{sp}<{e}> {'!=' if neg == 'true' else '=='} {c}{' (swapped)' if swap == 'true' else ''}", f"VP_EQ({name}__e, {e}, {e}, {c}, {sp}, {swap}, {neg})", elem=e))
    for e1, e2 in (("int", "char"), ("char", "int"), ("wchar_t", "char"), ("long", "int"), ("unsigned char", "signed char"), ("int", "unsigned char"), ("char", "unsigned char"), ("char", "char8_t"), ("wchar_t", "char32_t"), ("short", "char16_t"), ("signed char", "char")):
        for c in ("INPUT_SPAN", "OUTPUT_SPAN"):
            for neg in ("false", "true"):
                name = f"x_{e1.replace(' ', '')}_{e2.replace(' ', '')}_{c}_{neg[0]}"
                out.append(Raw(name, f"output_span<{e1}> compared with {c} of {e2}", f"VP_EQ({name}__e, {e1}, {e2}, {c}, output_span, false, {neg})", elem=e1))
    return out
