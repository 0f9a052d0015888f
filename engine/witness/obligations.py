"""The obligations of engine B, by property. Each function: (tier, seed, thresholds) -> [Ob]"""
import itertools
import random

import wmodel as W
from wmodel import cxx, arr, lit
from vpcheck.witness import Ob, holds, same


def c(p): return cxx(p) + "{}"
def ords(s): return tuple(ord(x) for x in s)


def kinds(e="char"):
    """at least one parser of every kind over elements e"""
    o = (lambda s: ords(s)) if e not in ("w::En", "bool") else (lambda s: tuple(ord(x) % (8 if e == "w::En" else 2) for x in s))
    A, N, L = W.any_, W.none_, W.all_
    ab, bc, na, nb = A(e, o("ab")), A(e, o("bc")), N(e, o("ab")), N(e, o("bd"))
    l, l2, l0 = L(e, o("ab")), L(e, o("c")), L(e, ())
    out = {
        "any": ab, "any2": bc, "any0": A(e, ()), "none": na, "none2": nb, "none0": N(e, ()), "all": l, "all1": l2, "all0": l0, "anything": W.anything(e), "eps": W.eps(e),
        "seq": ("seq", (ab, l)), "seq3": ("seq", (l, na, W.anything(e))), "seqall": ("seq", (l, l2)), "cho": ("cho", (ab, l)), "cho3": ("cho", (l, W.anything(e), W.eps(e))), "choany": ("cho", (ab, bc)),
        "maybe": ("maybe", l), "maybeany": ("maybe", ab), "plus": ("plus", l), "star": ("star", ab), "starseq": ("star", ("seq", (ab, l))), "exactly": ("exactly", l, 3), "delim": ("delim", ab, l), "delimi": ("delim", l, ("ignore", l2)),
        "ignore": ("ignore", l), "ignoreany": ("ignore", ab), "complete": ("complete", l), "join": ("join", ("plus", ab)), "joinseq": ("join", ("seq", (ab, l))), "map": ("map", ab, "w::F<1>{}"), "mapall": ("map", l, "w::F<2>{}"), "filter": ("filter", ab, "w::B<1>{}"),
        "apply": ("apply", ("seq", (ab, l)), "w::F<1>{}"), "apply_filter": ("apply_filter", ("seq", (ab, l)), "w::B<1>{}"), "into": ("into", ab, "w::Any<1>"), "apply_into": ("apply_into", ("seq", (ab, l)), "w::Any<1>"),
        "constant": ("constant", l, "5"), "defaulted": ("defaulted", l, "int"), "named": ("named", ab, ("char", ords("nm"))), "namedall": ("named", l, ("char", ords("nm"))), "cu": ("cu", l), "cuany": ("cu", ab), "cu2": ("cu2", ab, l), "cun": ("cun", l, 3),
        "mmaybe": ("maybe", ("maybe", l)), "pmaybe": ("plus", ("maybe", l)), "mplus": ("maybe", ("plus", l)), "mseq": ("maybe", ("seq", (l, ab))), "mcho": ("maybe", ("cho", (ab, l))), "sseq": ("star", ("seq", (l, l2))), "plusplus": ("plus", ("plus", l)),
        "exany": ("exactly", ab, 2), "seqseq": ("seq", (("seq", (l, ab)), l)), "chocho": ("cho", (("cho", (l, ab)), l)), "seqcho": ("seq", (("cho", (l, ab)), l)), "choseq": ("cho", (("seq", (l, ab)), l)), "ignseq": ("ignore", ("seq", (l, ab))), "seqign": ("seq", (("ignore", l), ab)),
        "choeps": ("cho", (l, W.eps(e))), "comcho": ("complete", ("cho", (l, ab))), "nameseq": ("named", ("seq", (l, ab)), ("char", ords("x"))), "namecho": ("named", ("cho", (l, ab)), ("char", ords("y"))), "cho_dup": ("cho", (l, ab, l)), "seq_dup": ("seq", (ab, ab)), "cho_none": ("cho", (na, l)),
    }
    if e == "char": out["cu0"] = ("cu0",)
    return out


ELEMS = ["wchar_t", "char8_t", "char16_t", "char32_t", "signed char", "unsigned char", "int", "long", "short", "w::St", "w::En", "bool"]


# ---------------------------------------------------------------- C18
def operators(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 18)
    thorough = tier == "thorough"

    def unary(e, nm, p):
        for op, f in W.UN.items():
            obs.append(same(f"{op}:{e}:{nm}", f"{op}{nm} over {e}", f"{op}{c(p)}", cxx(f(p))))
        if p[0] in ("any", "none"):
            obs.append(same(f"!:{e}:{nm}", f"!{nm} over {e}", f"!{c(p)}", cxx(W.neg(p))))
        obs.append(same(f"|eps:{e}:{nm}", f"{nm} | eps over {e}", f"{c(p)} | t3::eps", cxx(W.choeps(p))))

    def binary(e, n1, p1, n2, p2):
        obs.append(same(f">>:{e}:{n1}:{n2}", f"{n1} >> {n2} over {e}", f"{c(p1)} >> {c(p2)}", cxx(W.seq(p1, p2))))
        obs.append(same(f"|:{e}:{n1}:{n2}", f"{n1} | {n2} over {e}", f"{c(p1)} | {c(p2)}", cxx(W.cho(p1, p2))))
    ks = kinds()
    for nm, p in ks.items(): unary("char", nm, p)
    for n1, p1 in ks.items():
        for n2, p2 in ks.items(): binary("char", n1, p1, n2, p2)
    for e in ELEMS:
        ke = kinds(e)
        for nm, p in ke.items(): unary(e, nm, p)
        pairs = list(itertools.product(ke.items(), ke.items()))
        simple = [x for x in pairs if x[0][0].rstrip("0123") in ("any", "none", "all") and x[1][0].rstrip("0123") in ("any", "none", "all")]
        for (n1, p1), (n2, p2) in (pairs if thorough else simple + rng.sample(pairs, 60)): binary(e, n1, p1, n2, p2)

    # operands need not be temporaries
    for q in ("constexpr auto", "const auto", "auto", "auto&&"):
        a, b = ks["any"], ks["all"]
        for op, exp in ((">>", W.seq(a, b)), ("|", W.cho(a, b))):
            obs.append(Ob(f"lv:{op}:{q}", f"{op} of named operands ({q})", f"namespace n§ {{ inline auto f() {{ {q} a = {c(a)}; {q} b = {c(b)}; return a {op} b; }} static_assert(w::same<decltype(f()), {cxx(exp)}>); }}"))

    # random expressions over all operators
    base = list(ks.values())

    def gen(d):
        if d == 0 or rng.random() < 0.12:
            p = rng.choice(base[:11] if rng.random() < 0.6 else base)
            return c(p), p
        r = rng.random()
        if r < 0.3:
            (t1, p1), (t2, p2) = gen(d - 1), gen(d - 1)
            return f"({t1} >> {t2})", W.seq(p1, p2)
        if r < 0.62:
            (t1, p1), (t2, p2) = gen(d - 1), gen(d - 1)
            if rng.random() < 0.15: t2, p2 = t1, p1
            return f"({t1} | {t2})", W.cho(p1, p2)
        t, p = gen(d - 1)
        if r < 0.68: return f"({t} | t3::eps)", W.choeps(p)
        if r < 0.76 and p[0] in ("any", "none"): return f"(!{t})", W.neg(p)
        op = rng.choice("~+*")
        return f"({op}{t})", W.UN[op](p)
    for i in range(3000 if thorough else 500):
        t, p = gen(rng.choice((2, 3, 3, 4)))
        obs.append(same(f"tree:{t}", t, t, cxx(p)))
    # long chains, grouped to the left, to the right and in the middle
    for k in sorted({3, 4, 6, 9, 17} | {t + d for t in thr for d in (-1, 0, 1) if 2 < t + d < 70}):
        for op, f, parts in ((">>", W.seq, [W.all_("char", (97 + i % 5,)) for i in range(k)]), (">>", W.seq, [W.any_("char", (97 + i,)) for i in range(k)]), ("|", W.cho, [W.any_("char", (97 + (i * 7) % 26,)) for i in range(k)]),
                             ("|", W.cho, [W.none_("char", (97 + (i * 7) % 26, 97)) for i in range(k)]), ("|", W.cho, [W.all_("char", (97 + i,)) for i in range(k)]), (">>", W.seq, [base[(i * 5) % len(base)] for i in range(k)]), ("|", W.cho, [base[(i * 3) % len(base)] for i in range(k)])):
            ts = [c(p) for p in parts]
            L = parts[0]
            for p in parts[1:]: L = f(L, p)
            R = parts[-1]
            for p in reversed(parts[:-1]): R = f(p, R)
            lt = f" {op} ".join(ts)
            rt = f" {op} (".join(ts) + ")" * (k - 1)
            obs.append(same(f"chain:{op}:l:{k}:{lt[:200]}", f"{k} parsers joined by {op}, from the left", lt, cxx(L)))
            obs.append(same(f"chain:{op}:r:{k}:{lt[:200]}", f"{k} parsers joined by {op}, from the right", rt, cxx(R)))
    return obs


# ---------------------------------------------------------------- C19
def set_algebra(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 19)
    thorough = tier == "thorough"

    def pair(e, ident, s, t, both=True):
        for ka, fa in (("any", W.any_), ("none", W.none_)):
            for kb, fb in (("any", W.any_), ("none", W.none_)):
                a, b = fa(e, s), fb(e, t)
                obs.append(same(f"{ka}|{kb}:{e}:{ident}", f"{ka}{sorted(set(s))} | {kb}{sorted(set(t))} over {e}", f"{c(a)} | {c(b)}", cxx(W.cho(a, b))))

    def compl(e, ident, s):
        for f in (W.any_, W.none_):
            a = f(e, s)
            obs.append(same(f"!:{a[0]}:{e}:{ident}", f"the complement of {a[0]}{sorted(set(s))} over {e}", f"!{c(a)}", cxx(W.neg(a))))
            obs.append(same(f"!!:{a[0]}:{e}:{ident}", f"the complement of the complement of {a[0]}{sorted(set(s))} over {e}", f"!!{c(a)}", cxx(a)))
    n = 7 if thorough else 5
    for k in range(n + 1):
        for word in itertools.product("LRB", repeat=k):
            s = [97 + i for i, x in enumerate(word) if x in "LB"]
            t = [97 + i for i, x in enumerate(word) if x in "RB"]
            pair("char", "".join(word), s, t)
    for e in ["char"] + ELEMS + ["w::Rev", "unsigned", "unsigned long", "unsigned short"]:
        lo, hi = W.WIDTH[e]
        pool = [x for x in {lo, lo + 1, hi, hi - 1, 0, 1, 2, 97, 98, -1, -97, 127, 128, 255, 256, 300, -300, 65535, 0x10FFFF} if lo <= x <= hi]
        small = [x for x in range(97, 110) if lo <= x <= hi] or list(range(lo, hi + 1))
        compl(e, "0", []); compl(e, "1", pool[:1]); compl(e, "p", pool); compl(e, "s", small)
        for i in range(200 if thorough else 14):
            src = pool if i % 2 else small
            s = rng.sample(src, rng.randint(0, min(len(src), 6))); t = rng.sample(src, rng.randint(0, min(len(src), 6)))
            pair(e, f"r{i}", s, t)
        pair(e, "same", pool, pool); pair(e, "sub", pool, pool[:2]); pair(e, "empty", pool, []); pair(e, "empty2", [], pool); pair(e, "bounds", [lo], [hi]); pair(e, "bounds2", [hi, lo], [lo])
        if e != "char":
            for k in range(4 if thorough else 3):
                for word in itertools.product("LRB", repeat=k):
                    v = sorted(rng.sample(pool if len(pool) > k else small, k), key=W.order(e)) if len(pool) >= k else None
                    if v is not None: pair(e, "w" + "".join(word), [v[i] for i, x in enumerate(word) if x in "LB"], [v[i] for i, x in enumerate(word) if x in "RB"])
    # big sets, sizes around those the library's code mentions
    for k in sorted({8, 16, 31, 33, 64, 100, 128} | {t + d for t in thr for d in (-1, 0, 1) if 2 < t + d < 257} | ({200, 255, 256} if thorough else set())):
        allv = list(range(-128, 128))
        for i in range(4 if thorough else 2):
            s = rng.sample(allv, min(k, 256)); t = rng.sample(allv, min(max(k - i, 1), 256))
            pair("char", f"big{k}_{i}", s, t); compl("char", f"big{k}_{i}", s)
        pair("int", f"bigi{k}", rng.sample(range(-500, 500), k), rng.sample(range(-500, 500), k))
    pair("char", "all", range(-128, 128), []); pair("char", "all2", range(-128, 128), range(-128, 128)); pair("char", "halves", range(-128, 0), range(0, 128)); compl("char", "all", range(-128, 128))
    # chains of sets: every bracketing matches the same elements
    for i in range(400 if thorough else 80):
        k = rng.choice((3, 3, 4))
        ps = [rng.choice((W.any_, W.none_))("char", rng.sample(range(97, 104), rng.randint(0, 5))) for _ in range(k)]

        def br(lo, hi):
            if hi - lo == 1: return c(ps[lo]), ps[lo]
            m = rng.randint(lo + 1, hi - 1)
            (t1, p1), (t2, p2) = br(lo, m), br(m, hi)
            t, p = f"({t1} | {t2})", W.cho(p1, p2)
            return (f"(!{t})", W.neg(p)) if rng.random() < 0.2 else (t, p)
        t, p = br(0, k)
        obs.append(same(f"chain:{t}", t, t, cxx(p)))
    return obs


# ---------------------------------------------------------------- C20
PREFIX = {"char": "", "wchar_t": "L", "char8_t": "u8", "char16_t": "u", "char32_t": "U"}


def literal(e, vals):
    """a string literal of exactly these elements"""
    out = []
    for v in vals:
        bits = {"char": 8, "char8_t": 8, "char16_t": 16, "wchar_t": 32, "char32_t": 32}[e]
        v %= 1 << bits
        ch = chr(v) if 32 <= v < 127 and chr(v) not in '"\\?' else None
        prev_hex = out and out[-1].startswith("\\x")
        if ch is not None and not (prev_hex and ch in "0123456789abcdefABCDEF"): out.append(ch)
        elif ch is not None: out.append(f"\\{v:03o}")
        elif v < 512 and bits == 8 or v < 64: out.append(f"\\{v:03o}")
        else:
            out.append(f"\\x{v:x}")
    # a hexadecimal escape swallows hexadecimal digits: end it by an octal escape, never by a digit
    return PREFIX[e] + '"' + "".join(out) + '"'


def literals(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 20)
    thorough = tier == "thorough"

    def lits(e, vals, forms=("udl", "tpl", "list")):
        a, n, l = W.any_(e, vals), W.none_(e, vals), W.all_(e, vals)
        what = f"{list(vals)} over {e}"
        key = f"{e}:{','.join(map(str, vals))}"
        if e in PREFIX and "udl" in forms:
            t = literal(e, vals)
            for suf, p in (("any", a), ("any_of", a), ("none", n), ("none_of", n), ("all", l), ("all_of", l), ("ign", ("ignore", l))):
                obs.append(same(f"_{suf}:{key}", f'the literal {t}_{suf}', f"{t}_{suf}", cxx(p)))
        if e in PREFIX and "tpl" in forms:
            t = literal(e, vals)
            for suf, p in (("any", a), ("none", n), ("all", l), ("ign", ("ignore", l))):
                obs.append(same(f"{suf}<>:{key}", f'{suf}<{t}>', f"t3::{suf}<{t}>", cxx(p)))
        if vals and "list" in forms:
            vs = ", ".join(lit(e, v) for v in vals)
            for suf, p in (("any_of", a), ("none_of", n), ("all_of", l)):
                obs.append(same(f"{suf}<..>:{key}", f'{suf}<{vs}>', f"t3::{suf}<{vs}>", cxx(p)))
    for k in range((6 if thorough else 5)):
        for word in itertools.product((97, 98, 99), repeat=k):
            if k == 4 and not thorough and rng.random() < 0.5: continue
            lits("char", word)
    lits("char", ())
    for e in PREFIX:   # zeros anywhere
        for k in range(1, 6 if e == "char" or thorough else 5):
            for word in itertools.product((0, 97), repeat=k): lits(e, word, ("udl", "tpl") if k < 4 else ("udl",))
    for e in ["char", "wchar_t", "char8_t", "char16_t", "char32_t"]:
        lo, hi = W.WIDTH[e]
        pool = sorted({x for x in (0, 0, 1, 97, 98, 122, 65, 48, lo, hi, 127, 128, 255, -1, -128, -127, 200, 0x161, 0x8061, 0x10061) if lo <= x <= hi and not (e in ("char32_t", "wchar_t") and x > 0x10FFFF) and not (e == "wchar_t" and x < 0)})
        lits(e, ()); lits(e, (0,)); lits(e, (97, 0, 98)); lits(e, (0, 0)); lits(e, (0, 97)); lits(e, (97, 0)); lits(e, tuple(pool)); lits(e, tuple(reversed(pool))); lits(e, tuple(pool + pool[::-1]))
        for i in range(60 if thorough else 12):
            lits(e, tuple(rng.choice(pool) for _ in range(rng.randint(1, 8))))
    for k in sorted({5, 10, 33, 65, 128, 300} | {t + d for t in thr for d in (-1, 0, 1) if 2 < t + d < 302} | ({500, 1000} if thorough else set())):
        v = tuple(rng.choice(range(97, 123)) for _ in range(k)); lits("char", v, ("udl", "tpl") if k > 70 else ("udl", "tpl", "list"))
        v = tuple(rng.sample(range(-128, 128), min(k, 256))); lits("char", v, ("udl", "tpl"))
        lits("char", tuple(sorted(v, reverse=True)), ("udl", "tpl")); lits("char", tuple(sorted(v)), ("udl", "tpl"))
        if k <= 70:
            w = list(range(33, 33 + min(k, 90))); w[-1:] = w[-1:] * 2; lits("char", tuple(w), ("udl",)); lits("char", tuple([w[-1]] + w), ("udl",))   # one duplicate, at the end; one out of place
            w = list(range(33, 33 + min(k, 90))); w[len(w) // 2], w[len(w) // 2 - 1] = w[len(w) // 2 - 1], w[len(w) // 2]; lits("char", tuple(w), ("udl",))   # two neighbours swapped
    for e in ["int", "long", "short", "signed char", "unsigned char", "unsigned", "w::St", "w::En", "w::Rev", "bool"]:
        lo, hi = W.WIDTH[e]
        pool = [x for x in (0, 1, 2, 5, 7, 97, 98, -5, -1, 100, lo, hi, 255, 256, 1000) if lo <= x <= hi]
        for i in range(60 if thorough else 10):
            lits(e, tuple(rng.choice(pool) for _ in range(rng.randint(1, 6))), ("list",))
        lits(e, tuple(pool), ("list",)); lits(e, tuple(reversed(pool)), ("list",))
        # the same from an explicit array
        for vals in (pool, pool[::-1], pool + pool[:2]):
            for f, p in (("any", W.any_(e, vals)), ("none", W.none_(e, vals)), ("all", W.all_(e, vals)), ("ign", ("ignore", W.all_(e, vals)))):
                obs.append(same(f"{f}<array>:{e}:{vals}", f"{f} of an array {vals} over {e}", f"t3::{f}<{arr(e, vals)}>", cxx(p)))
    # values of several types: the first one's type counts
    for first, rest, e, vals in (("97", "'b', 'a'", "int", (97, 98, 97)), ("L'a'", "'b'", "wchar_t", (97, 98)), ("300L", "'b', 7", "long", (300, 98, 7)), ("(short)5", "'b'", "short", (5, 98))):
        for f, p in (("any_of", W.any_(e, vals)), ("none_of", W.none_(e, vals)), ("all_of", W.all_(e, vals))):
            obs.append(same(f"{f}<mixed>:{first}:{rest}", f"{f}<{first}, {rest}>", f"t3::{f}<{first}, {rest}>", cxx(p)))
    # an explicit array in a parser's type, as users write it
    for e, vals in (("char", (97, 98)), ("int", (-5, 7)), ("wchar_t", (97, 0x161)), ("w::St", (1, 2))):
        vs = ", ".join(lit(e, v) for v in vals)
        obs.append(holds(f"array:{e}", f"an array of {vals} over {e}", f"w::identical<tk::static_array<{e}, {len(vals)}>{{{vs}}}, {arr(e, vals)}>"))
        obs.append(holds(f"array-ctad:{e}", f"an array of {vals} over {e}, its type deduced", f"w::identical<tk::static_array{{{vs}}}, {arr(e, vals)}>"))
    for e in PREFIX:
        for vals in ((), (97,), (97, 98), (97, 0, 98), (0,), (97, 0), tuple(range(97, 120))):
            obs.append(holds(f"array-literal:{e}:{vals}", f"an array made of a literal {vals} over {e}", f"w::identical<tk::static_array({literal(e, vals)}), {arr(e, vals)}>"))
    return obs


# ---------------------------------------------------------------- C21
def mods(e="char"):
    d1, d2 = W.all_(e, ords(",") if e not in ("w::En", "bool") else (1,)), W.any_(e, ords(";:") if e not in ("w::En", "bool") else (0, 1))
    nm, nw = ("char", ords("nm")), ("wchar_t", ords("w"))
    return [("complete",), ("join",), ("ignore",), ("exactly", 1), ("exactly", 3), ("delimit", d1), ("delimit", ("seq", (d1, d2))), ("delimit", ("ignore", d1)), ("delimit_keep", d2), ("delimit_keep", ("ignore", d2)), ("map", "w::F<1>{}"), ("map", "w::F<2>{}"), ("filter", "w::B<1>{}"), ("apply", "w::F<3>{}"), ("apply_filter", "w::B<2>{}"),
            ("constant", "7"), ("constant", "'x'"), ("into", "w::Any<1>"), ("apply_into", "w::Any<2>"), ("defaulted", "int"), ("defaulted", "w::Any<3>"), ("name", nm), ("name", nw),
            ("sub", ((nm, ("ignore",)),)), ("sub", ((nm, ("exactly", 2)), (nw, ("complete",))))]


def notations(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 21)
    thorough = tier == "thorough"
    ap = W.mod_apply

    def every(e, p, ms, tag):
        """all notations of applying ms to p, one after another"""
        q = p
        for m in ms: q = ap(m, q)
        want, t, x = cxx(q), c(p), [modtextp(m) for m in ms]
        forms = []
        if len(ms) == 1: forms = [f"{x[0]}({t})", f"{t} % {x[0]}"]
        elif len(ms) == 2: forms = [f"{t} % {x[0]} % {x[1]}", f"{t} % ({x[0]} % {x[1]})", f"({x[0]} % {x[1]})({t})", f"{x[1]}({x[0]}({t}))", f"{x[1]}({t} % {x[0]})", f"{x[0]}({t}) % {x[1]}"]
        elif len(ms) == 3:
            a, b, d = x
            forms = [f"{t} % {a} % {b} % {d}", f"({t} % ({a} % {b})) % {d}", f"{t} % (({a} % {b}) % {d})", f"{t} % ({a} % ({b} % {d}))", f"({t} % {a}) % ({b} % {d})", f"(({a} % {b}) % {d})({t})", f"({a} % ({b} % {d}))({t})", f"({b} % {d})({a}({t}))", f"{d}(({a} % {b})({t}))"]
        else:
            def br(lo, hi):
                if hi - lo == 1: return x[lo]
                k = rng.randint(lo + 1, hi - 1)
                return f"({br(lo, k)} % {br(k, hi)})"
            forms = [f"{t} % " + " % ".join(x), f"{t} % {br(0, len(x))}", f"{br(0, len(x))}({t})"]
            k = rng.randint(1, len(x) - 1)
            forms += [f"({t} % {br(0, k)}) % {br(k, len(x))}", f"{br(k, len(x))}({br(0, k)}({t}))"]
        for i, f in enumerate(forms):
            obs.append(same(f"{tag}:{e}:{i}:{f}", f, f, want))

    def modtextp(m): return W.modtext(m)
    ks = kinds()
    ms = mods()
    for nm, p in ks.items():
        for m in ms: every("char", p, (m,), f"one:{nm}")
        every("char", p, (ms[0], ms[0]), "twice"); every("char", p, (ms[1], ms[1]), "twice"); every("char", p, (ms[2], ms[2]), "twice")
    some = list(ks.items())
    for m1, m2 in itertools.product(ms, ms):
        for nm, p in (some if thorough else rng.sample(some, 1)): every("char", p, (m1, m2), f"two:{nm}")
    for i in range(3000 if thorough else 300):
        nm, p = rng.choice(some); every("char", p, [rng.choice(ms) for _ in range(3)], f"three:{nm}")
    for i in range(1500 if thorough else 150):
        nm, p = rng.choice(some); every("char", p, [rng.choice(ms) for _ in range(rng.randint(4, 9 if thorough else 6))], f"more:{nm}")
    for e in ELEMS:
        ke = list(kinds(e).items()); me = mods(e)
        for m in me:
            nm, p = rng.choice(ke); every(e, p, (m,), f"one:{nm}")
        for i in range(200 if thorough else 12):
            nm, p = rng.choice(ke); every(e, p, [rng.choice(me) for _ in range(rng.choice((2, 3)))], f"x:{nm}")
    # the notations with the parser as first argument
    for nm, p in some:
        for d in (W.all_("char", ords(",")), W.any_("char", ords(";:")), ("ignore", W.all_("char", ords(",")))):
            obs.append(same(f"delimit2:{nm}:{cxx(d)}", f"delimit({nm}, ..)", f"t3::delimit({c(p)}, {c(d)})", cxx(ap(("delimit", d), p))))
            obs.append(same(f"delimit_keep2:{nm}:{cxx(d)}", f"delimit_keep({nm}, ..)", f"t3::delimit_keep({c(p)}, {c(d)})", cxx(ap(("delimit_keep", d), p))))
        for s in (ms[-1], ms[-2]):
            obs.append(same(f"sub2:{nm}:{len(s[1])}", f"sub({nm}, ..)", W.modtext(s).replace("t3::sub(", f"t3::sub({c(p)}, ", 1), cxx(ap(s, p))))
    # a chain is itself a modifier: kept, named, given to sub
    for i in range(60 if thorough else 20):
        chain = [rng.choice(ms[:-2]) for _ in range(rng.randint(2, 4))]
        nm, p = rng.choice(some)
        q = ap(("multi", tuple(chain)), p)
        tx = " % ".join(W.modtext(m) for m in chain)
        obs.append(Ob(f"kept:{tx}:{nm}", f"a kept chain {tx}", f"namespace n§ {{ inline constexpr auto m = {tx}; static_assert(w::same<decltype({c(p)} % m), {cxx(q)}>); static_assert(w::same<decltype(m({c(p)})), {cxx(q)}>); static_assert(tk::modifier<decltype(m)> and std::is_empty_v<decltype(m)>); }}"))
    return obs


# ---------------------------------------------------------------- C22
def substitutions(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 22)
    thorough = tier == "thorough"
    names = [("char", ords("a")), ("char", ords("ab")), ("char", ords("b")), ("wchar_t", ords("a")), ("char", (97, 0)), ("char8_t", ords("a")), ("char32_t", ords("ab")), ("char", ords("a long name with spaces")), ("char16_t", (0x161,)), ("char", (97, 0, 98)), ("char", ()), ("char16_t", (0x61,)), ("char", (97, 0, 99)), ("char", (0, 97)), ("char", (0, 98)), ("char", (0,)), ("char", ords("A")), ("char", (-31,)), ("char", ords("aa")), ("char", ords("ba")),
             ("char", ords("a long name with spaced")), ("char", ords("a long nume with spaces")), ("char", ords("b long name with spaces")), ("char", ords("a long name with space")), ("unsigned char", ords("a")), ("signed char", ords("a"))]
    leaves = [W.all_("char", ords("x")), W.any_("char", ords("yz")), W.none_("char", ords("q")), W.anything("char"), W.eps("char"), ("cu0",)]
    smods = [m for m in mods() if m[0] not in ("sub", "name")] + [("multi", (("ignore",), ("exactly", 2))), ("multi", (("exactly", 2), ("map", "w::F<9>{}"), ("complete",))), ("name", names[0]), ("name", names[2]), ("multi", (("ignore",), ("name", names[1])))]

    def gen(d):
        if d == 0 or rng.random() < 0.1: p = rng.choice(leaves)
        else:
            k = rng.choice(["seq", "cho", "maybe", "plus", "star", "exactly", "delim", "ignore", "complete", "join", "map", "filter", "apply", "constant", "into", "defaulted", "cu", "cu2", "cun", "named", "seq", "cho"])
            if k in ("seq", "cho"): p = (k, tuple(gen(d - 1) for _ in range(rng.randint(1, 3))))
            elif k in ("delim", "cu2"): p = (k, gen(d - 1), gen(d - 1))
            elif k == "exactly": p = (k, gen(d - 1), rng.randint(1, 4))
            elif k in ("map", "apply"): p = (k, gen(d - 1), "w::F<1>{}")
            elif k == "filter": p = (k, gen(d - 1), "w::B<1>{}")
            elif k == "constant": p = (k, gen(d - 1), "5")
            elif k in ("into", "defaulted"): p = (k, gen(d - 1), "w::Any<4>")
            elif k == "cun": p = (k, gen(d - 1), 3)
            elif k == "named": p = ("named", gen(d - 1), rng.choice(names))
            else: p = (k, gen(d - 1))
        return ("named", p, rng.choice(names[:6] if rng.random() < 0.8 else names)) if rng.random() < 0.35 else p
    # every construct with the name directly in each of its places
    x, y = W.all_("char", ords("x")), W.any_("char", ords("yz"))
    nx = ("named", x, names[0])
    places = [("seq", (nx,)), ("seq", (nx, y)), ("seq", (y, nx)), ("seq", (y, nx, x, nx)), ("cho", (nx, y)), ("cho", (y, nx)), ("cho", (y, x, nx)), ("maybe", nx), ("plus", nx), ("star", nx), ("exactly", nx, 2), ("delim", nx, y), ("delim", y, nx), ("delim", nx, nx), ("ignore", nx), ("complete", nx), ("join", nx),
              ("map", nx, "w::F<1>{}"), ("filter", nx, "w::B<1>{}"), ("apply", nx, "w::F<1>{}"), ("apply_filter", nx, "w::B<1>{}"), ("constant", nx, "5"), ("into", nx, "w::Any<1>"), ("apply_into", nx, "w::Any<1>"), ("defaulted", nx, "int"), ("named", nx, names[1]), ("named", nx, names[0]), ("named", ("seq", (nx, ("named", y, names[1]))), names[2]),
              ("cu", nx), ("cu2", nx, y), ("cu2", y, nx), ("cun", nx, 2), nx, x, ("named", x, names[3]), ("named", x, names[4])]
    for n1 in names:
        for n2 in names:
            s = ("sub", ((n2, ("exactly", 2)),))
            obs.append(same(f"pair:{n1}:{n2}", f"substituting {n2} where the name is {n1}", f"{c(('named', x, n1))} % {W.modtext(s)}", cxx(W.mod_apply(s, ("named", x, n1)))))
    for p in places:
        for m in smods:
            s = ("sub", ((names[0], m),))
            obs.append(same(f"place:{cxx(p)}:{W.modtext(m)}", f"{cxx(p)} % {W.modtext(s)}", f"{c(p)} % {W.modtext(s)}", cxx(W.mod_apply(s, p))))
        for n in names:
            s = ("sub", ((n, ("exactly", 2)),))
            obs.append(same(f"name:{cxx(p)}:{n}", f"{cxx(p)} % {W.modtext(s)}", f"{c(p)} % {W.modtext(s)}", cxx(W.mod_apply(s, p))))
    for i in range(6000 if thorough else 700):
        p = gen(rng.choice((2, 3, 4, 5)))
        subs = tuple((rng.choice(names[:6] if rng.random() < 0.8 else names), rng.choice(smods)) for _ in range(rng.choice((1, 1, 2, 3))))
        s = ("sub", subs)
        want = cxx(W.mod_apply(s, p))
        st = W.modtext(s)
        key = f"{i}:{cxx(p)}:{st}"
        obs.append(same(f"rand:{key}", f"{cxx(p)} % {st}", f"{c(p)} % {st}", want))
        if len(subs) > 1:
            one = " % ".join(W.modtext(("sub", (x,))) for x in subs)
            obs.append(same(f"split:{key}", f"{cxx(p)} % {one}", f"{c(p)} % {one}", want))
        if i % 3 == 0: obs.append(same(f"call:{key}", f"{st} called on {cxx(p)}", f"{st}({c(p)})", want))
        if i % 3 == 1: obs.append(same(f"arg:{key}", f"sub of {cxx(p)} with {st}", st.replace("t3::sub(", f"t3::sub({c(p)}, ", 1), want))
    # names written as literals
    lt = {"char": 't3::name<"a">', "wchar_t": 't3::name<L"a">', "char8_t": 't3::name<u8"a">', "char16_t": 't3::name<u"a">', "char32_t": 't3::name<U"a">'}
    for e1, t1 in lt.items():
        for e2, t2 in lt.items():
            p = ("named", x, (e1, ords("a")))
            want = W.mod_apply(("sub", (((e2, ords("a")), ("exactly", 2)),)), p)
            obs.append(same(f"lit:{e1}:{e2}", f"x % {t1} % sub({t2} = exactly<2>)", f"{c(x)} % {t1} % t3::sub({t2} = t3::exactly<2>)", cxx(want)))
    for e in ELEMS:
        ke = kinds(e)
        p = ("seq", (("named", ke["all"], names[0]), ke["any"], ("star", ("named", ke["none"], names[1]))))
        s = ("sub", ((names[0], ("ignore",)), (names[1], ("exactly", 2))))
        obs.append(same(f"elem:{e}", f"substitution in a parser over {e}", f"{c(p)} % {W.modtext(s)}", cxx(W.mod_apply(s, p))))
    return obs


# ---------------------------------------------------------------- C27
COMPAT = {"char": ["char", "wchar_t", "int", "char8_t", "char16_t", "char32_t", "signed char", "unsigned char", "long", "short", "w::Tok"], "int": ["int", "long", "char", "short", "wchar_t"], "wchar_t": ["wchar_t", "char", "int", "char32_t"], "w::St": ["w::St"], "w::En": ["w::En"]}


def result_types(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 27)
    thorough = tier == "thorough"
    seen = set()

    def claim(p, e, tag, wh=True):
        x = cxx(p)
        if (x, e) in seen: return
        seen.add((x, e))
        obs.append(holds(f"{tag}:{e}:{x}", f"the result types of {x} for input over {e}", f"w::delivers<{x}, {e}, {W.vt(p, e)}>"))

    def values(e): return [("val", e, t, i) for i, t in enumerate(["w::Val<1>", "w::Val<2>", "void", "int", "w::Val<1>", "bool", "std::optional<int>", "std::vector<w::Val<1>>", "std::tuple<int, w::Val<1>>", "w::Mov<1>", "std::variant<int, w::Val<2>>"])]
    for e in COMPAT:
        o = (lambda s: ords(s)) if e != "w::En" else (lambda s: tuple(ord(q) % 8 for q in s))
        prims = [W.any_(e, o("ab")), W.none_(e, o("a")), W.all_(e, o("ab")), W.all_(e, ()), W.anything(e), W.eps(e)]
        vs = values(e)
        base = prims + vs
        ins = COMPAT[e] if thorough or e == "char" else COMPAT[e][:3]

        def one(p, d):
            """every construct over p"""
            out = [("seq", (p,)), ("seq", (p, vs[1])), ("seq", (vs[2], p)), ("seq", (p, vs[2], p)), ("cho", (p,)), ("cho", (p, vs[1])), ("cho", (vs[2], p)), ("cho", (vs[0], p, vs[1])), ("maybe", p), ("plus", p), ("star", p), ("exactly", p, 1), ("exactly", p, 3), ("delim", p, vs[2]), ("delim", vs[2], p), ("delim", p, vs[0]), ("delim", vs[0], p), ("delim", p, p),
                   ("ignore", p), ("complete", p), ("map", p, "w::BoxOf{}"), ("map", p, "w::To<void>{}"), ("map", p, "w::To<w::Val<9>>{}"), ("filter", p, "w::B<1>{}"), ("constant", p, "7"), ("constant", p, "'x'"), ("constant", p, "true"), ("constant", p, "9000000000L"), ("into", p, "w::Any<1>"), ("defaulted", p, "int"), ("defaulted", p, "w::Val<7>"), ("named", p, ("char", ords("n"))), ("cu", p), ("cu2", p, vs[1]), ("cun", p, 2)]
            if W.vt(p, e) != "void": out.append(("cut", p, W.vt(p, e)))
            if W.joinable(p, e): out += [("join", p), ("join", ("maybe", p)), ("join", ("plus", p)), ("join", ("star", p)), ("join", ("exactly", p, 2)), ("join", ("seq", (p, vs[2], p)))]
            if W.comps(p, e): out += [("apply", p, "w::BoxOf{}"), ("apply", p, "w::To<void>{}"), ("apply_filter", p, "w::B<1>{}"), ("apply_into", p, "w::Any<1>")]
            return out
        for p in base:
            for i in ins: claim(p, i, "leaf")
        lvl1 = []
        for p in base:
            q = [x for x in one(p, 1)]
            lvl1 += q
        lvl1 = list(dict.fromkeys(lvl1))
        for q in lvl1:
            for i in (ins if thorough else rng.sample(ins, min(2, len(ins))) if e == "char" else ins[:1] if rng.random() < 0.4 else []):
                if "Tok" in i and q[0] == "cut": continue
                if q[0] == "cut" and W.vt(q[1], i) != W.vt(q, i): continue
                claim(q, i, "one")
        pool = [x for x in lvl1 if x[0] != "cut"]
        for _ in range((6000 if e == "char" else 800) if thorough else (500 if e == "char" else 60)):
            p = rng.choice(pool)
            for _ in range(rng.choice((1, 1, 2))):
                p = rng.choice([x for x in one(p, 2) if x[0] != "cut"])
            claim(p, rng.choice(ins), "more")
    # the function is called as the constant that it is
    for e in (COMPAT if thorough else ("char", "int")):
        for nm, p in kinds(e).items():
            if nm.startswith("apply") or nm == "cu0": continue
            for f, t in (("w::FnC{}", "w::Val<3>"), ("w::FnV{}", "w::Val<4>"), ("w::FnL{}", "w::Val<5>")):
                obs.append(holds(f"called:{e}:{nm}:{f}", f"the result types of {nm} mapped by an overloaded function", f"w::delivers<{cxx(('map', p, f))}, {e}, {t}>", "the function is called as a constant"))
    # the kind of input does not matter
    inputs = [("const char*", "char"), ("const char(&)[4]", "char"), ("char(&)[4]", "char"), ("std::string_view", "char"), ("std::string&", "char"), ("const std::string&", "char"), ("std::string", "char"), ("std::vector<char>&", "char"), ("const std::vector<char>&", "char"), ("std::array<char, 3>&", "char"), ("const std::array<const char, 3>&", "char"), ("std::span<char>", "char"),
              ("std::span<const char>", "char"), ("const std::span<const char, 5>&", "char"), ("tk::input_span<char>&", "char"), ("const tk::input_span<char>", "char"), ("tk::output_span<char>", "char"), ("std::wstring_view", "wchar_t"), ("const wchar_t*", "wchar_t"), ("std::u8string&", "char8_t"), ("const char16_t(&)[2]", "char16_t"), ("std::vector<int>&", "int"), ("std::span<const int>", "int"), ("std::vector<w::Tok>", "w::Tok"), ("const char* const&", "char"), ("std::string_view&", "char"), ("const std::string_view&&", "char")]
    for nm, p in kinds().items():
        if nm in ("apply", "apply_filter", "apply_into"): p = (p[0], ("seq", (W.any_("char", ords("ab")), W.all_("char", ords("ab")))), p[2])
        for In, e in (inputs if thorough or nm in ("any", "all", "seq", "cho", "star", "maybe", "ignore", "cu", "map", "filter", "join", "delim", "eps") else rng.sample(inputs, 4)):
            if nm == "cu0" and e == "w::Tok": continue
            obs.append(holds(f"input:{nm}:{In}", f"the result types of {nm} for a {In}", f"w::delivers_for<{cxx(p)}, {e}, {In}, {W.vt(p, e)}>"))
    return obs


# ---------------------------------------------------------------- C23
def rejections(tier, seed, thr):
    obs = []
    rng = random.Random(seed * 1000 + 23)
    thorough = tier == "thorough"

    def no(ident, label, cond): obs.append(holds(ident, label, f"not ({cond})", "rejected, detectably"))
    def yes(ident, label, cond): obs.append(holds("control:" + ident, label, cond, "accepted"))
    def refuse(ident, label, text, control):
        """text must not compile, control (the same program with an acceptable part) must"""
        obs.append(Ob(ident, label, text, True, "rejected"))
        obs.append(Ob("control:" + ident, "control of: " + label, control, False, "accepted"))
    elems = ["char"] + ELEMS
    K = {e: kinds(e) for e in elems}
    # different element types
    for e1, e2 in itertools.permutations(elems, 2):
        names = list(K[e1]) if thorough else ["any", "none", "all", "all0", "eps", "anything"] + rng.sample(list(K[e1]), 4)
        for n1 in names:
            n2 = rng.choice(names)
            if n1 == "cu0" or n2 == "cu0": continue
            a, b = cxx(K[e1][n1]), cxx(K[e2][n2])
            no(f"seq:{e1}:{n1}:{e2}:{n2}", f"{n1} over {e1} >> {n2} over {e2}", f"w::can_seq<{a}, {b}>")
            no(f"cho:{e1}:{n1}:{e2}:{n2}", f"{n1} over {e1} | {n2} over {e2}", f"w::can_cho<{a}, {b}>")
            no(f"sequence:{e1}:{n1}:{e2}:{n2}", f"sequence_parser of {n1} over {e1} and {n2} over {e2}", f"w::can_sequence<{a}, {b}> or w::can_sequence<{a}, {a}, {b}>")
            no(f"choice:{e1}:{n1}:{e2}:{n2}", f"choice_parser of {n1} over {e1} and {n2} over {e2}", f"w::can_choice<{a}, {b}> or w::can_choice<{a}, {a}, {b}>")
            no(f"delim:{e1}:{n1}:{e2}:{n2}", f"delimit_parser of {n1} over {e1} and {n2} over {e2}", f"w::can_delimit<{a}, {b}>")
            no(f"dmod:{e1}:{n1}:{e2}:{n2}", f"{n1} over {e1} delimited by {n2} over {e2}", f"w::can_mod<{a}, decltype(t3::delimit({b}{{}}))> or w::can_mod<{a}, decltype(t3::delimit_keep({b}{{}}))> or w::can_call<decltype(t3::delimit), {a}, {b}> or w::can_call<decltype(t3::delimit_keep), {a}, {b}> or w::can_call<decltype(t3::delimit({b}{{}})), {a}> or w::can_mod<{a}, decltype(t3::complete % t3::delimit({b}{{}}))> or w::can_mod<{a}, decltype(t3::delimit({b}{{}}) % t3::complete)>")
    for e in elems:
        for n1, p in K[e].items():
            a = cxx(p)
            n2 = rng.choice(list(K[e])); b = cxx(K[e][n2])
            yes(f"compose:{e}:{n1}:{n2}", f"{n1} and {n2} over {e} compose", f"w::can_seq<{a}, {b}> and w::can_cho<{a}, {b}> and w::can_sequence<{a}, {b}> and w::can_choice<{a}, {b}> and w::can_delimit<{a}, {b}> and w::can_mod<{a}, decltype(t3::delimit({b}{{}}))> and w::can_wrap<{a}> and w::can_maybe<{a}> and w::can_plus<{a}> and w::can_star<{a}>")
            for f in ("FnN", "FnR") if n1 not in ("apply", "apply_filter", "apply_into") else ():
                no(f"called:{e}:{n1}:{f}", f"{n1} over {e} mapped or filtered by a function that a constant cannot call", f"w::has_result<{cxx(('map', p, f'w::{f}{{}}'))}, {e}> or w::has_result<{cxx(('filter', p, f'w::{f}{{}}'))}, {e}>")
            # the complement of what is no set; the empty operator on the left
            if p[0] not in ("any", "none"): no(f"not:{e}:{n1}", f"!{n1} over {e}", f"w::can_not<{a}>")
            else: yes(f"not:{e}:{n1}", f"!{n1} over {e}", f"w::can_not<{a}>")
            no(f"eps:{e}:{n1}", f"eps | {n1} over {e}", f"w::can_cho<tk::epsilon_operator, {a}>")
            yes(f"eps:{e}:{n1}", f"{n1} | eps over {e}", f"w::can_cho<{a}, tk::epsilon_operator>")
            # input over elements that do not compare
            other = "w::St" if e != "w::St" else "int"
            for f in ("can_parse", "can_look"):
                no(f"{f}:{e}:{n1}", f"{n1} over {e} reading {other}", f"w::{f}<{a}, tk::input_span<{other}>> or w::{f}<{a}, const std::vector<{other}>&> or w::{f}<{a}, int> or w::{f}<{a}, w::NotAParser>")
            no(f"parser_for:{e}:{n1}", f"{n1} over {e} is a parser for {other}", f"tk::parser_for<{a}, {other}>")
            no(f"result_for:{e}:{n1}", f"{n1} over {e} has a result type for {other}", f"w::has_result<{a}, {other}>")
            if p[0] in ("any", "none", "all", "anything", "seq", "cho", "maybe", "star") and "apply" not in a: yes(f"parser_for:{e}:{n1}", f"{n1} over {e} is a parser for {e}", f"tk::parser_for<{a}, {e}> and w::can_parse<{a}, tk::input_span<{e}>> and w::can_look<{a}, const std::vector<{e}>&>" if e != "bool" else f"tk::parser_for<{a}, {e}>")
            # a parser is no modifier, a modifier no parser
            no(f"pp:{e}:{n1}", f"{n1} % {n2}", f"w::can_mod<{a}, {b}>")
            for t in ("w::NotAParser", "int", "decltype(t3::complete)", "w::NotEmpty"):
                no(f"mix:{e}:{n1}:{t}", f"{n1} combined with {t}", f"w::can_seq<{a}, {t}> or w::can_cho<{a}, {t}> or w::can_seq<{t}, {a}> or w::can_cho<{t}, {a}> or w::can_sequence<{a}, {t}> or w::can_choice<{t}, {a}> or w::can_delimit<{a}, {t}> or w::can_delimit<{t}, {a}> or w::can_mod<{t}, {a}>")
    # explicit sets out of order or with duplicates
    def sets(e, vals, good):
        t = arr(e, vals)
        (yes if good else no)(f"set:{e}:{vals}", f"an explicit set {vals} over {e}", f"w::can_any<{t}> or w::can_none<{t}>" if not good else f"w::can_any<{t}> and w::can_none<{t}>")
    for k in range(6 if thorough else 5):
        for word in itertools.product((97, 98, 99), repeat=k): sets("char", word, tuple(sorted(set(word))) == word)
    for e in elems + ["w::Rev"]:
        lo, hi = W.WIDTH[e]
        pool = [x for x in (0, 1, 2, 5, 97, 98, -1, -5, lo, hi, 127, 128, 255) if lo <= x <= hi]
        for i in range(60 if thorough else 12):
            v = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
            sets(e, tuple(v), list(v) == list(W.canon(e, v)))
            sets(e, W.canon(e, v), True)
    for k in sorted({8, 17, 33, 64} | {t + d for t in thr for d in (-1, 0, 1) if 2 < t + d < 256}):
        good = list(range(33 - min(k, 20), 33 - min(k, 20) + k)) if k < 110 else list(range(-128, -128 + k))
        sets("char", tuple(good), True)
        for where in (0, k // 2, k - 2):
            bad = list(good); bad[where], bad[where + 1] = bad[where + 1], bad[where]; sets("char", tuple(bad), False)
            bad = list(good); bad[where + 1] = bad[where]; sets("char", tuple(bad), False)
    # no repetitions, no default, no construction
    A = cxx(W.any_("char", ords("ab"))); S2 = cxx(("seq", (W.any_("char", ords("ab")), W.all_("char", ords("c"))))); Pv = "w::P<w::Val<1>>"
    Nd = "w::P<w::NoDef, char>"
    for n1, p in K["char"].items():
        a = cxx(p)
        no(f"exactly0:{n1}", f"exactly zero of {n1}", f"w::can_exactly<{a}, tk::index_c<0>>")
        no(f"exactlybad:{n1}", f"exactly of {n1} with something that is no count", f"w::can_exactly<{a}, int> or w::can_exactly<{a}, std::integral_constant<int, 2>>")
        yes(f"exactly:{n1}", f"exactly one or many of {n1}", f"w::can_exactly<{a}, tk::index_c<1>> and w::can_exactly<{a}, tk::index_c<1000>>")
        no(f"defaulted:{n1}", f"{n1} defaulted to what has no default", f"w::can_default<{a}, w::NoDef> or w::can_default<{a}, int&> or w::can_default<{a}, void>")
        yes(f"defaulted:{n1}", f"{n1} defaulted", f"w::can_default<{a}, int> and w::can_default<{a}, w::Mov<1>> and w::can_default<{a}, std::vector<int>>")
    refuse("exactly<0>", "the modifier exactly<0>", "auto x§ = t3::exactly<0>;", "auto x§ = t3::exactly<1>;")
    refuse("exactly<0>2", "the modifier exactly<0> applied", f"auto x§ = {A}{{}} % t3::exactly<0>;", f"auto x§ = {A}{{}} % t3::exactly<2>;")
    refuse("defaulted<NoDef>", "the modifier defaulted<T> without default", "auto x§ = t3::defaulted<w::NoDef>;", "auto x§ = t3::defaulted<w::Val<1>>;")
    for nm, v in (("unsorted", (98, 97)), ("duplicate", (97, 97)), ("unsorted3", (97, 99, 98))):
        for k in ("any", "none"):
            refuse(f"explicit:{k}:{nm}", f"{k}_of_parser of an {nm} array", f"tk::{k}_of_parser<{arr('char', v)}> x§;", f"tk::{k}_of_parser<{arr('char', sorted(set(v)))}> x§;")
    # functions that do not accept the value
    for ident, par, arg, good, bad in [("span", A, "tk::output_span<char>", "w::Only<tk::output_span<char>>{}", "w::Only<int>{}"), ("value", Pv, "w::Val<1>", "w::Only<w::Val<1>>{}", "w::Only<w::Val<2>>{}"), ("none", cxx(W.eps("char")), "", "w::Only<>{}", "w::Only<int>{}"),
                                       ("tuple", S2, "std::tuple", "w::Only<std::tuple<tk::output_span<char>, tk::output_span<char>>>{}", "w::Only<tk::output_span<char>, tk::output_span<char>>{}"), ("arity", Pv, "", "w::Only<w::Val<1>>{}", "w::Only<>{}"), ("noarg", f"tk::ignore_parser<{Pv}>", "", "w::Only<>{}", "w::Only<w::Val<1>>{}")]:
        m, mb = (f"tk::map_parser<{par}, tk::integral_constant<{x}>>" for x in (good, bad))
        yes(f"map:{ident}", f"map by a function that accepts the value ({ident})", f"w::has_result<{m}, char> and tk::parser_for<{m}, char>")
        no(f"map:{ident}", f"map by a function that does not accept the value ({ident})", f"w::has_result<{mb}, char>")
        refuse(f"mapcall:{ident}", f"parsing with a map by a function that does not accept the value ({ident})", f"auto x§ = {mb}::parse(\"abc\");", f"auto x§ = {m}::parse(\"abc\");")
        g, b = good.replace("Only", "OnlyB"), bad.replace("Only", "OnlyB")
        f, fb = (f"tk::filter_parser<{par}, tk::integral_constant<{x}>>" for x in (g, b))
        yes(f"filter:{ident}", f"filter by a function that accepts the value ({ident})", f"w::has_result<{f}, char> and tk::parser_for<{f}, char>")
        no(f"filter:{ident}", f"filter by a function that does not accept the value ({ident})", f"w::has_result<{fb}, char>")
        refuse(f"filtercall:{ident}", f"parsing with a filter by a function that does not accept the value ({ident})", f"auto x§ = {fb}::parse(\"abc\");", f"auto x§ = {f}::parse(\"abc\");")
    fv = f"tk::filter_parser<{Pv}, tk::integral_constant<w::To<void>{{}}>>"
    no("filter:void", "filter by a function without verdict", f"w::has_result<{fv}, char>")
    fs = f"tk::filter_parser<{Pv}, tk::integral_constant<w::To<w::St>{{}}>>"
    no("filter:struct", "filter by a function whose result is no verdict", f"w::has_result<{fs}, char>")
    refuse("apply:scalar", "apply on a value that is no tuple", f"auto x§ = ({Pv}{{}} % t3::apply<w::F<1>{{}}>).parse(\"ab\");", f"auto x§ = ({S2}{{}} % t3::apply<w::F<1>{{}}>).parse(\"ab\");")
    refuse("apply:arity", "apply of a function of another arity", f"auto x§ = ({S2}{{}} % t3::apply<w::Only<tk::output_span<char>>{{}}>).parse(\"ab\");", f"auto x§ = ({S2}{{}} % t3::apply<w::Only<tk::output_span<char>, tk::output_span<char>>{{}}>).parse(\"ab\");")
    refuse("apply_filter:scalar", "apply_filter on a value that is no tuple", f"auto x§ = ({Pv}{{}} % t3::apply_filter<w::B<1>{{}}>).parse(\"ab\");", f"auto x§ = ({S2}{{}} % t3::apply_filter<w::B<1>{{}}>).parse(\"ab\");")
    refuse("into:construct", "into a type that cannot be constructed from the value", f"auto x§ = ({Pv}{{}} % t3::into<w::NoDef>).parse(\"ab\");", f"auto x§ = (w::P<int>{{}} % t3::into<w::NoDef>).parse(\"ab\");")
    refuse("into:void", "into a type that cannot be constructed from nothing", "auto x§ = (w::P<void>{} % t3::into<w::NoDef>).parse(\"ab\");", "auto x§ = (w::P<void>{} % t3::into<w::Val<1>>).parse(\"ab\");")
    refuse("apply_into:construct", "apply_into a type that cannot be constructed from the parts", f"auto x§ = ({S2}{{}} % t3::apply_into<w::NoDef>).parse(\"ab\");", f"auto x§ = ({S2}{{}} % t3::apply_into<std::pair<tk::output_span<char>, tk::output_span<char>>>).parse(\"ab\");")
    # joins of what does not yield views
    for ident, bad, good in (("value", Pv, A), ("void", cxx(W.eps("char")), A), ("int", "w::P<int>", A), ("seq", f"tk::sequence_parser<{A}, {Pv}>", f"tk::sequence_parser<{A}, w::P<void>>"), ("maybe", f"tk::maybe_parser<{Pv}>", f"tk::maybe_parser<{A}>"), ("plus", f"tk::one_or_more_parser<{Pv}>", f"tk::one_or_more_parser<{A}>"),
                             ("star", f"tk::zero_or_more_parser<w::P<int>>", f"tk::zero_or_more_parser<{S2}>"), ("exactly", f"tk::exactly_parser<{Pv}, tk::index_c<2>>", f"tk::exactly_parser<{S2}, tk::index_c<2>>"), ("variant", f"tk::choice_parser<{A}, {Pv}>", f"tk::choice_parser<{A}, tk::all_of_parser<{arr('char', (99,))}>>"), ("mapped", f"tk::map_parser<{A}, tk::integral_constant<w::F<1>{{}}>>", A), ("constant", f"tk::constant_parser<{A}, tk::integral_constant<5>>", A)):
        refuse(f"join:{ident}", f"joining a parser that does not yield views ({ident})", f"auto x§ = tk::join_parser<{bad}>::parse(\"abc\");", f"auto x§ = tk::join_parser<{good}>::parse(\"abc\");")
    # what is no modifier or substitution
    for t in ("int", "w::NotAParser", A, "w::F<1>"):
        no(f"nomod:{t}", f"a parser % {t}", f"w::can_mod<{A}, {t}>")
        no(f"nomod2:{t}", f"complete % {t}", f"w::can_mod<decltype(t3::complete), {t}>")
        no(f"name:{t}", f"name = {t}", f"w::can_assign<decltype(t3::name<\"x\">), {t}>" if t != A else f"w::can_assign<decltype(t3::name<\"x\">), {A}>")
        no(f"sub:{t}", f"sub({t})", f"w::can_call<decltype(t3::sub), {t}> or w::can_call<decltype(t3::sub), {A}, {t}>")
        no(f"call:{t}", "a modifier called on what is no parser", f"w::can_call<decltype(t3::complete), {t}> or w::can_call<decltype(t3::ignore), {t}> or w::can_call<decltype(t3::exactly<2>), {t}> or w::can_call<decltype(t3::map<w::F<1>{{}}>), {t}> or w::can_call<decltype(t3::delimit), {t}, {t}>" if t != A else "false")
    no("sub:none", "sub without arguments", f"w::can_call<decltype(t3::sub)> or w::can_call<decltype(t3::sub), {A}>")
    no("sub:order", "sub with the parser last", f"w::can_call<decltype(t3::sub), decltype(t3::name<\"x\"> = t3::ignore), {A}>")
    yes("sub", "sub", f"w::can_call<decltype(t3::sub), decltype(t3::name<\"x\"> = t3::ignore)> and w::can_call<decltype(t3::sub), {A}, decltype(t3::name<\"x\"> = t3::ignore), decltype(t3::name<\"y\"> = t3::complete)>")
    no("concept:parser", "things that are no parsers", "tk::parser<int> or tk::parser<w::NotAParser> or tk::parser<w::NotEmpty> or tk::parser<decltype(t3::complete)> or tk::parser<tk::epsilon_operator>")
    no("concept:modifier", "things that are no modifiers", f"tk::modifier<{A}>")
    no("wrap", "combinators over what is no parser", "w::can_wrap<int> or w::can_wrap<w::NotAParser> or w::can_wrap<w::NotEmpty> or w::can_sequence<int> or w::can_choice<w::NotEmpty> or w::can_sequence<> or w::can_choice<>")
    # user-defined parsers
    refuse("custom:none", "a custom parser without get_parser", "auto x§ = w::NoGet{}.parse(\"a\");", "auto x§ = w::Cu0{}.parse(\"a\");")
    refuse("custom:look", "looking ahead with a custom parser without get_parser", "auto x§ = w::NoGet{}.lookahead(\"a\");", "auto x§ = w::Cu0{}.lookahead(\"a\");")
    refuse("custom:elem", "a custom parser over another element type than announced", "auto x§ = w::OtherElem{}.parse(L\"a\");", "auto x§ = w::Cu0{}.parse(L\"a\");")
    # value lists of incompatible types
    refuse("list:incompatible", "a value list of incompatible types", "auto x§ = t3::any_of<'a', w::St{1}>;", "auto x§ = t3::any_of<w::St{2}, w::St{1}>;")
    refuse("list:incompatible2", "a value list of incompatible types", "auto x§ = t3::all_of<w::En::a, 1>;", "auto x§ = t3::all_of<w::En::a, w::En::b>;")
    refuse("list:incompatible3", "a value list of incompatible types", "auto x§ = t3::none_of<1, w::En::a>;", "auto x§ = t3::none_of<1, 2>;")
    return obs


# ---------------------------------------------------------------- C16
def constants(tier, seed, thr):
    """everything is usable in constant evaluation"""
    obs = []
    rng = random.Random(seed * 1000 + 16)
    thorough = tier == "thorough"
    R = "constant evaluation"
    for e in ["char", "wchar_t", "char8_t", "int", "w::St", "unsigned char", "w::En"] + (["char16_t", "char32_t", "long", "short", "signed char", "bool"] if thorough else []):
        o = (lambda s: ords(s)) if e not in ("w::En", "bool") else (lambda s: tuple(ord(x) % (8 if e == "w::En" else 2) for x in s))
        words = ["a", "b", "c", "z", "ab", "ba", "abc", "abab", "ababab", "aba", "abcc", "ccab", "abcab", "abzab", "abababababababababab"]
        ks = dict(kinds(e))
        if e in ("char", "int", "w::St"):
            V = lambda t, i=0: ("val", e, t, i)
            x = [V("w::Val<1>"), V("void"), V("w::Mov<1>"), V("int"), V("w::Val<1>", 1)]
            ks.update({"vseq": ("seq", (x[0], x[1], x[2])), "vcho": ("cho", (x[0], x[3])), "vmaybe": ("maybe", x[2]), "vplus": ("plus", x[0]), "vstar": ("star", x[2]), "vex": ("exactly", x[3], 2), "vdel": ("delim", x[0], x[1]), "vdelk": ("delim", x[0], x[2]), "vmap": ("map", x[2], "w::BoxOf{}"), "vvoid": ("map", x[2], "w::To<void>{}"),
                       "vfil": ("filter", x[2], "w::B<0>{}"), "vapp": ("apply", ("seq", (x[0], x[2])), "w::BoxOf{}"), "vign": ("ignore", x[2]), "vcom": ("complete", x[2]), "vnam": ("named", x[2], ("char", ords("n"))), "vcu": ("cu", x[2]), "vconst": ("constant", x[2], "4"), "vdef": ("defaulted", x[0], "w::Mov<1>"), "vinto": ("into", x[2], "w::Any<2>"), "vvar": ("star", ("cho", (x[0], x[2], x[1]))),
                       "vopt": ("exactly", ("maybe", x[0]), 3), "jseq": ("join", ("seq", (W.any_(e, o("ab")), x[1]))), "jopt": ("join", ("maybe", ("seq", (W.any_(e, o("ab")), W.all_(e, o("b")))))), "jstar": ("join", ("star", ("seq", (W.any_(e, o("ab")), W.all_(e, o("b")))))), "jplusall": ("join", ("plus", W.all_(e, o("ab")))), "jmaybeall": ("join", ("maybe", W.all_(e, o("ab")))), "jstarnone": ("join", ("star", W.none_(e, o("c")))), "jex": ("join", ("exactly", W.all_(e, o("ab")), 2)), "jany": ("join", ("star", W.anything(e)))})
        for nm, p in ks.items():
            if nm in ("apply", "apply_filter", "apply_into"): p = (p[0], ("seq", (W.any_(e, o("ab")), W.all_(e, o("ab")))), p[2])
            obs.append(Ob(f"ce:{e}:{nm}:", f"parsing nothing with {nm} over {e} in a constant expression", f"static_assert(w::evaluates_empty<{cxx(p)}, {e}>);", rule=R))
            for w in (words if e in ("char",) or thorough else rng.sample(words, 5)):
                obs.append(Ob(f"ce:{e}:{nm}:{w}", f"parsing {w} with {nm} over {e} in a constant expression", f"static_assert(w::evaluates<{cxx(p)}, {e}, {arr(e, o(w))}>);", rule=R))
        for sp in ("tk::input_span", "tk::output_span", "tk::span"):
            for w in ("a", "abc"):
                obs.append(Ob(f"view:{e}:{sp}:{w}", f"what can be asked of a {sp} over {e}, in a constant expression", f"static_assert(w::views_evaluate<{e}, {arr(e, o(w))}, {sp}>);", rule=R))
    # operators and modifiers
    ks = kinds()
    for nm, p in ks.items():
        for op in W.UN: obs.append(Ob(f"op:{op}:{nm}", f"{op}{nm} in a constant expression", f"constexpr auto x§ = {op}{c(p)};", rule=R))
        obs.append(Ob(f"op:eps:{nm}", f"{nm} | eps in a constant expression", f"constexpr auto x§ = {c(p)} | t3::eps;", rule=R))
        if p[0] in ("any", "none"): obs.append(Ob(f"op:!:{nm}", f"!{nm} in a constant expression", f"constexpr auto x§ = !{c(p)};", rule=R))
        for n2 in ("any", "all", "seq", "cho", "maybe", "map", "cu"):
            for op in (">>", "|"): obs.append(Ob(f"op:{op}:{nm}:{n2}", f"{nm} {op} {n2} in a constant expression", f"constexpr auto x§ = {c(p)} {op} {c(ks[n2])};", rule=R))
        for m in mods():
            obs.append(Ob(f"mod:{nm}:{W.modtext(m)}", f"{nm} % {W.modtext(m)} in a constant expression", f"constexpr auto x§ = {c(p)} % {W.modtext(m)}; constexpr auto m§ = {W.modtext(m)}; constexpr auto y§ = m§({c(p)}); constexpr auto z§ = {c(p)} % (m§ % t3::complete);", rule=R))
    # histories of results
    for t in ("w::Val<1>", "w::Mov<1>", "std::vector<int>", "int", "std::optional<w::Val<1>>", "std::variant<int, w::Val<1>>", "tk::output_span<char>"):
        ctor = {"w::Val<1>": "w::Val<1>(3)", "w::Mov<1>": "w::Mov<1>{}", "std::vector<int>": "std::vector<int>{1, 2, 3}", "int": "4", "std::optional<w::Val<1>>": "w::Val<1>(2)", "std::variant<int, w::Val<1>>": "5", "tk::output_span<char>": "std::span<const char>{}"}[t]
        obs.append(Ob(f"result:{t}", f"the life of a result over {t} in a constant expression", f"static_assert([] {{ using R = tk::result<{t}, char>; R a; R b(tk::failure_tag, {{}}); {t} v{{ {ctor} }}; R s(tk::success_tag, std::move(v), {{}}); bool ok = not a and not b and s.has_value() and s; a = std::move(s); ok = ok and a; R d(std::move(a)); ok = ok and d and d.has_value(); auto g = std::move(d).value(); static_cast<void>(g); d = R(); return ok and not d; }}());", rule=R))
    obs.append(Ob("result:void", "the life of a result without value in a constant expression", "static_assert([] { using R = tk::result<void, char>; R a; R b(tk::failure_tag, {}); R s(tk::success_tag, {}); bool ok = not a and not b and s.has_value() and s; a = s; ok = ok and a; R d(std::move(a)); return ok and d and d.has_value() and d.remaining().empty(); }());", rule=R))
    obs.append(Ob("result:convert", "converting a result in a constant expression", "static_assert([] { tk::result<int, char> a(tk::success_tag, 4, {}); tk::result<std::optional<int>, char> b(a); tk::result<std::variant<int, w::Val<1>>, char> c(std::move(a)), d{tk::result<int, char>()}; return b and **b == 4 and c and not d; }());", rule=R))
    return obs


# ---------------------------------------------------------------- C17
def stateless(tier, seed, thr):
    obs = []
    for e in ["char", "wchar_t", "char8_t", "int", "w::St", "unsigned char", "w::En", "char16_t", "char32_t", "long", "short", "signed char", "bool"]:
        for nm, p in kinds(e).items():
            if nm in ("apply", "apply_filter", "apply_into"): p = (p[0], ("seq", (p[1][1][0], p[1][1][1])), p[2])
            obs.append(holds(f"empty:{e}:{nm}", f"{nm} over {e} is a value without state, and its functions are static", f"w::static_parse<{cxx(p)}, {e}>", "parsers without state"))
        for sp in ("tk::input_span", "tk::output_span", "tk::span"):
            obs.append(holds(f"readonly:{e}:{sp}", f"a {sp} over {e} gives no way to write", f"w::read_only<{e}, {sp}>", "views that only read"))
    for m in mods():
        obs.append(holds(f"modifier:{W.modtext(m)}", f"the modifier {W.modtext(m)} is a value without state", f"w::stateless<std::remove_cvref_t<decltype({W.modtext(m)})>>", "modifiers without state"))
        for m2 in mods():
            obs.append(holds(f"modifiers:{W.modtext(m)}:{W.modtext(m2)}", f"{W.modtext(m)} % {W.modtext(m2)} is a value without state", f"w::stateless<std::remove_cvref_t<decltype({W.modtext(m)} % {W.modtext(m2)})>>", "modifiers without state"))
    for t in ("t3::complete", "t3::join", "t3::ignore", "t3::sub", "t3::delimit", "t3::delimit_keep", "t3::eps", 't3::name<"x">', 't3::name<"x"> = t3::ignore', 't3::any<"a">', "t3::any_of<1, 2>", 't3::ign<"a">'):
        obs.append(holds(f"object:{t}", f"{t} is a value without state", f"w::stateless<std::remove_cvref_t<decltype({t})>>", "objects without state"))
    for t in ("complete", "join", "ignore", "sub", "delimit", "delimit_keep", "eps", 'name<"x">', "exactly<2>", "map<w::F<1>{}>", "any<\"a\">", "all<\"a\">", "none<\"a\">"):
        obs.append(holds(f"const:{t}", f"{t} cannot be changed", f"not std::is_assignable_v<decltype((t3::{t})), std::remove_cvref_t<decltype(t3::{t})>> or std::is_const_v<std::remove_reference_t<decltype((t3::{t}))>>", "objects without state"))
    return obs


def foreign(tier, seed, thr):
    """C34: expressions of other people's types mean what they mean without the library"""
    obs = []
    rng = random.Random(seed * 1000 + 34)
    thorough = tier == "thorough"

    def yes(ident, label, cond, rule="other people's operators are chosen"): obs.append(holds(ident, label, cond, rule))
    elems = ["char", "int", "w::St"] if not thorough else ["char"] + ELEMS
    lib = {}
    for e in elems:
        for n, p in kinds(e).items(): lib[f"{n}:{e}"] = cxx(p)
    parsers = dict(lib)
    mods = {m: f"std::remove_const_t<decltype({x})>" for m, x in {
        "join": "t3::join", "ignore": "t3::ignore", "complete": "t3::complete", "delimit": "t3::delimit", "delimit_keep": "t3::delimit_keep", "exactly": "t3::exactly<2>", "fil": "t3::filter<w::B<1>{}>", "map": "t3::map<w::F<1>{}>",
        "into": "t3::into<int>", "multi": "t3::join % t3::complete", "delimit1": f"t3::delimit({lib['any:char']}{{}})"}.items()}
    others = {"span": "tk::input_span<char>", "ospan": "tk::output_span<int>", "result": "tk::result<w::Val<1>, char>", "vresult": "tk::result<void, int>", "sarray": "tk::static_array<char, 3>", "eps": "tk::epsilon_operator"}
    lib.update(mods)
    lib.update(others)
    # wrappers around the library's types: the library's namespace is looked into
    silent = ["foreign::PlainOf", "foreign::WithFamilyOf"]
    own = ["foreign::FriendOf", "foreign::DeducedOf", "foreign::GreedyOf"]
    names = list(lib)
    for n, a in lib.items():
        n2 = rng.choice(names)
        b = lib[n2]
        for w in silent:
            for x, y, what in ((f"{w}<{a}>", f"{w}<{a}>", "itself"), (f"{w}<{a}>", a, n), (a, f"{w}<{a}>", n + ", swapped"), (f"{w}<{a}>", "int", "int"), ("std::string", f"{w}<{a}>", "string, swapped"), (f"{w}<{a}>", f"{w}<{b}>", f"one of {n2}"), (f"const {w}<{a}>&", f"{w}<{a}, {b}>&", f"one of {n} and {n2}")):
                yes(f"bin:{w}:{n}:{what}", f"no operator between {w} of {n} and {what}", f"use::own_binary<{x}, {y}, -1>", "no operator is invented")
            yes(f"un:{w}:{n}", f"no operator on {w} of {n}", f"use::own_unary<{w}<{a}>, -1> and use::own_unary<const {w}<{a}>&, -1>", "no operator is invented")
            yes(f"eq:{w}:{n}", f"no comparison of {w} of {n}", f"use::is_none<typename use::eq<{w}<{a}>, {w}<{a}>>::type> and use::is_none<typename use::eq<{w}<{a}>, int>::type>", "no operator is invented")
        for w in own:
            yes(f"bin:{w}:{n}", f"{w} of {n} keeps its own operators", f"use::own_binary<{w}<{a}>, {w}<{a}>, 0> and use::own_binary<const {w}<{a}>&, {w}<{a}>&, 0>")
            yes(f"un:{w}:{n}", f"{w} of {n} keeps its own unary operators", f"use::own_unary<{w}<{a}>, 0> and use::own_unary<const {w}<{a}>&, 0>")
            if w != "foreign::GreedyOf":
                yes(f"eq:{w}:{n}", f"{w} of {n} keeps its own comparison", f"w::same<typename use::eq<{w}<{a}>, const {w}<{a}>&>::type, bool>")
                yes(f"binlib:{w}:{n}", f"no operator between {w} of {n} and {n}", f"use::own_binary<{w}<{a}>, {a}, -1> and use::own_binary<{a}, {w}<{a}>, -1>", "no operator is invented")
            elif n in parsers or n in mods:
                yes(f"binlib:{w}:{n}", f"{w} of {n} keeps its own operators with {n}", f"use::own_binary<{w}<{a}>, {a}, 0> and use::own_binary<{a}, {w}<{b}>, 0>")
        if n in parsers or n in mods:
            yes(f"mixes:{n}", f"operators of another type that take {n}", f"use::own_binary<foreign::Mixes, {a}, 0> and use::own_binary<{a}, const foreign::Mixes&, 100> and use::own_binary<foreign::Mixes, foreign::Mixes, 200>")
        io = f"foreign::IntOf<{a}>"
        yes(f"int:{n}", f"an integer tagged with {n} is an integer", "requires (" + io + " x, const " + io + " y) { " + " ".join(f"requires w::same<decltype(x {o} y), int>; requires w::same<decltype(y {o} 3), int>; requires w::same<decltype(3 {o} x), int>;" for o in ("|", ">>", "%", "<<", "&", "+", "*", "-", "/", "^")) + " " + " ".join(f"requires w::same<decltype({o}x), int>; requires w::same<decltype({o}y), int>;" for o in "~+-") + " requires w::same<decltype(!x), bool>; requires w::same<decltype(x == y), bool>; }")
        if n in parsers or n in mods: yes(f"intlib:{n}", f"no operator between such an integer and {n}", f"use::own_binary<{io}, {a}, -1> and use::own_binary<{a}, {io}, -1>", "no operator is invented")
        bec = f"foreign::Becomes<{a}>"
        if n in parsers or n in mods:
            yes(f"becomes:{n}", f"what converts to {n} is not {n}", f"use::own_lib_binary<{bec}, {a}, -1> and use::own_lib_binary<{a}, {bec}, -1> and use::own_lib_binary<{bec}, {bec}, -1> and use::own_unary<{bec}, -1>", "no operator is invented")
        # the standard library's types around it
        if n == "eps": continue
        for w in (f"std::vector<{a}>", f"std::tuple<{a}>", f"std::array<{a}, 2>", f"std::variant<{a}, int>", f"std::reference_wrapper<{a}>", f"std::pair<{a}, {a}>", f"std::optional<{a}>", f"std::unique_ptr<{a}>", f"{a}*", f"{a} (*)()", f"int (*)({a})", f"{a} foreign::Plain::*"):
            if not thorough and rng.random() < 0.5: continue
            yes(f"std:{n}:{w}", f"{w} gets no operators", f"use::own_lib_binary<{w}, {w}, -1> and use::own_lib_binary<{w}, {a}, -1> and use::own_lib_binary<{a}, {w}, -1> and use::own_lib_binary<{w}, int, -1> and use::is_none<typename use::un22<{w}>::type>", "no operator is invented")
        if n in parsers or n in mods:
            for w in (f"std::vector<{a}>", f"std::tuple<{a}>", f"std::array<{a}, 2>", f"std::variant<{a}, int>", f"std::reference_wrapper<{a}>"):
                yes(f"stdun:{n}:{w}", f"{w} gets no unary operators", f"use::own_unary<{w}, -1>", "no operator is invented")
            yes(f"view:{n}", f"a pipeline over a vector of {n}", f"w::same<typename use::bin1<std::vector<{a}>&, decltype(std::views::take(1))>::type, decltype(std::views::take(std::declval<std::vector<{a}>&>(), 1))>")
            for w, r in ((f"std::optional<{a}>", a), (f"std::unique_ptr<{a}>", a), (f"{a}*", a)):
                yes(f"deref:{n}:{w}", f"* and ! of {w}", f"w::same<std::remove_cvref_t<typename use::un24<const {w}&>::type>, {r}> and w::same<typename use::un21<const {w}&>::type, bool>")
        else:
            yes(f"cmp:{n}", f"containers of {n} compare as they do", f"requires (std::vector<{a}> v, std::optional<{a}> o, std::array<{a}, 2> r) {{ v.begin() == v.end(); o == std::nullopt; }}")
        # the library's own types have the library's operators and no others
        rest = " and ".join(f"use::is_none<typename use::bin{i}<{a}, {a}>::type>" for i in (4, 5, 7, 8, 9, 10) + ((6,) if n != "sarray" else ()))
        if n in parsers or n in mods:
            yes(f"rest:{n}", f"{n} has no operators but |, >>, %, !, ~, + and *", rest + f" and use::is_none<typename use::un25<{a}>::type> and use::is_none<typename use::eq<{a}, {a}>::type> and use::is_none<typename use::bin11<{a}, {a}>::type> and use::is_none<typename use::bin12<{a}, {a}>::type>" + (f" and use::is_none<typename use::bin1<{a}, {a}>::type> and use::is_none<typename use::bin2<{a}, {a}>::type> and use::own_unary<{a}, -1>" if n in mods else f" and use::is_none<typename use::bin3<{a}, {a}>::type>"), "no operator is invented")
        else:
            yes(f"rest:{n}", f"{n} has no operators of parsers", f"use::own_lib_binary<{a}, {a}, -1> and use::own_lib_binary<{a}, {lib['any:char']}, -1> and use::own_lib_binary<{lib['seq:char'] if 'seq:char' in lib else lib['all:char']}, {a}, -1> and {rest} and use::is_none<typename use::un22<{a}>::type> and use::is_none<typename use::un23<{a}>::type>", "no operator is invented")
    # other people's types with no relation
    plain = ["foreign::Plain", "foreign::NoDefault", "foreign::NoCopy&", "foreign::Abstract&", "foreign::Un", "foreign::Scoped", "foreign::WithFamily", "foreign::WithValueType", "std::string", "std::vector<int>", "std::tuple<int>", "foreign::Inc&", "std::monostate", "std::true_type&", "void*"]
    for x in plain:
        for n, a in rng.sample(sorted(parsers.items()), 12 if not thorough else len(parsers)) + sorted(mods.items()) + sorted(others.items()):
            yes(f"plain:{x}:{n}", f"no operator between {x} and {n}", f"use::own_lib_binary<{x}, {a}, -1> and use::own_lib_binary<{a}, {x}, -1>", "no operator is invented")
        for y in plain:
            yes(f"plain2:{x}:{y}", f"no operator between {x} and {y}", f"use::own_lib_binary<{x}, {y}, -1>", "no operator is invented") if "true_type" not in x + y else None
    yes("member", "a class with its own operators", "use::own_binary<foreign::Member, foreign::Member, 0> and use::own_unary<foreign::Member, 0>")
    for t, v in (("|", "3"), (">>", "0"), ("%", "1"), ("+", "3")): yes(f"int:{t}", f"1 {t} 2", f"(1 {t} 2) == {v} and w::same<decltype(1 {t} 2), int>")
    yes("string", "strings", "w::same<decltype(std::string() + std::string()), std::string> and w::same<decltype(std::string() == std::string_view()), bool> and w::same<decltype(\"a\" == std::string()), bool>")
    return obs
