"""The obligations of engine A, by property. build(prop, tier, seed, thresholds) -> list of Case."""
import itertools
import random
from exprs import *

class Maker:
    def __init__(self):
        self.cases = []
        self.names = set()
        self.keys = {}

    def add(self, name, node, elem="char", seeds=(0,), maxlen=0):
        key = (node.L, elem, maxlen)
        if key in self.keys:
            return self.keys[key]
        name = "c_" + name
        n, i = name, 2
        while n in self.names:
            n, i = f"{name}_{i}", i + 1
        self.names.add(n)
        c = Case(n, node, elem, seeds, maxlen)
        self.keys[key] = c
        self.cases.append(c)
        return c

    def with_controls(self, chosen):
        """the chosen cases, and the cases of all their parts"""
        out = list(chosen)
        have = {c.name for c in out}
        for c in list(chosen):
            ctl = []
            for s in c.node.subs():
                k = self.add(f"part{len(self.cases)}", s, c.elem, c.seeds, **fits(s))
                ctl.append(k.name)
                if k.name not in have:
                    have.add(k.name)
                    out.append(k)
            c.controls = tuple(ctl)
        return out


def pick(flavour, i, t=None):
    """The operand flavours: what a sub-parser may be like."""
    return {
        "v": lambda: V(i, t),                      # a value, or failure
        "n": lambda: V(i, t, "NULLABLE"),          # may match nothing
        "u": lambda: U(i),                         # no value
        "un": lambda: U(i, "NULLABLE"),
        "d": lambda: V(i, t, "DIVERGENT"),         # lookahead may accept what parse rejects
        "dn": lambda: V(i, t, "DIVERGENT|NULLABLE"),
        "ud": lambda: U(i, "DIVERGENT"),
        "f": lambda: V(i, t, "NEVERFAIL|NULLABLE"),
        "m": lambda: M(i, t),                      # a move-only value
        "mn": lambda: M(i, t, "NULLABLE"),
        "c": lambda: N(i, t),                      # a value whose copies are observed
        "x": lambda: X(i, t),                      # a value without a default
        "g": lambda: G(i, t),                      # a value that anything converts to
        "s": lambda: S(i),                         # a view of part of what was consumed
        "sn": lambda: S(i, "SPAN|NULLABLE"),
        "w": lambda: S(i, "SPAN|WHOLE"),           # the view of all that was consumed
    }[flavour]()


def fits(n):
    """obligations whose unbounded fixpoint is known to be out of reach get a bounded input"""
    if n.loops >= 3: return {"maxlen": 2}
    if n.loops == 2: return {"maxlen": 3}
    return {"maxlen": 4} if n.wild_spans else {}


# ---------------------------------------------------------------- per construct
def primitives(m, thr, thorough):
    sizes = sorted({0, 1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 256} | {t + d for t in thr for d in (-1, 0, 1) if 1 <= t + d <= 256})
    letters = [chr(c) for c in list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + list(range(33, 48)) + list(range(128, 256)) + list(range(1, 33)) + list(range(58, 65)) + list(range(91, 97)) + list(range(123, 128)) + [0]]
    signed = lambda c: ord(c) - 256 if ord(c) > 127 else ord(c)
    for k in sizes:
        s = "".join(sorted(letters[:k], key=signed))
        seeds = tuple(signed(c) for c in s) or (0,)
        if len(seeds) > 20: seeds = seeds[:10] + seeds[-10:]
        m.add(f"any{k}", prim("any", chars(s)), seeds=seeds)
        m.add(f"none{k}", prim("none", chars(s)), seeds=seeds)
    for k in sorted(set(sizes) | {t + d for t in thr for d in (-1, 0, 1) if 1 <= t + d <= 310}):
        t = "".join(letters[(i * 7) % min(len(letters), max(k, 1))] for i in range(k))
        m.add(f"all{k}", all_(t), seeds=tuple(signed(c) for c in sorted(set(t)))[:20] or (0,))
    m.add("all_rep", all_("aabaa"), seeds=(97, 98))
    m.add("all_same", all_("aaa"), seeds=(97,))
    m.add("all_nul", prim("all", ["'a'", "'\\0'", "'b'"]), seeds=(0, 97, 98))
    m.add("any_high", prim("any", ["'\\x80'", "'\\xff'", "'\\0'", "'\\x7f'"]), seeds=(0, 127))
    m.add("anything", anything()); m.add("eps", eps())
    for elem, vals, seeds in [
        ("signed char", ["(signed char)-128", "(signed char)-1", "(signed char)5"], (-128, -1, 5)),
        ("unsigned char", ["(unsigned char)5", "(unsigned char)128", "(unsigned char)255"], (5, 128, 255)),
        ("wchar_t", ["L'a'", "L'\\x161'", "L'\\x10061'"], (0x61, 0x161, 0x10061)),
        ("char8_t", ["u8'a'", "(char8_t)200"], (97, 200)),
        ("char16_t", ["u'a'", "(char16_t)0x161", "(char16_t)0x8061"], (0x61, 0x161, 0x8061)),
        ("char32_t", ["U'a'", "(char32_t)0x161", "(char32_t)0x10061"], (0x61, 0x161, 0x10061)),
        ("int", ["-5", "97", "1000000"], (-5, 97, 1000000)),
        ("long", ["-5L", "97L", "4294967393L"], (-5, 97, 4294967393)),
        ("short", ["(short)-300", "(short)7"], (-300, 7)),
        ("bool", ["true"], (0, 1)),
        ("En", ["En::a", "En::c"], (0, 1, 2)),
        ("St", ["St{-4}", "St{3}", "St{300}"], (3, -4, 300)),
    ]:
        tag = elem.replace(" ", "")
        for w in ("any", "none", "all"):
            m.add(f"{w}_{tag}", prim(w, vals, elem), elem=elem, seeds=seeds)
        m.add(f"anything_{tag}", anything(elem), elem=elem, seeds=seeds)
        m.add(f"eps_{tag}", eps(elem), elem=elem, seeds=seeds)
    # a parser over one element type reading input of another: compared with ==, never narrowed
    for pel, vals, iel, seeds in [
        ("char", ["'a'", "'z'"], "int", (97, 122, 97 + 256, -159)),
        ("char", ["'a'", "'z'"], "wchar_t", (97, 122, 97 + 256)),
        ("char", ["'a'", "'z'"], "char32_t", (97, 122, 97 + 256)),
        ("int", ["97", "353"], "char", (97,)),
        ("char16_t", ["u'a'", "(char16_t)0x161"], "char32_t", (0x61, 0x161, 0x10061)),
        ("char", ["'a'", "'z'"], "Tk", (97, 122, 97 + 256)),
        # elements that compare differently in the parser's own type and in the common type
        ("char", ["'\\x80'", "'\\xe9'", "'a'"], "char32_t", (97, 0xe9, 0xffffffe9, 0xffffff80)),
        ("char", ["'\\x80'", "'\\xe9'", "'a'"], "unsigned char", (97, 0xe9, 0x80)),
        ("char", ["'\\x80'", "'\\xe9'", "'a'"], "int", (97, 0xe9, -23, -128)),
        ("signed char", ["(signed char)-90", "(signed char)-3", "(signed char)7"], "unsigned long", (7, 253, -3, -90)),
        ("int", ["-5", "3", "2000000000"], "unsigned int", (3, 2**32 - 5, 2000000000)),
        ("unsigned char", ["(unsigned char)7", "(unsigned char)250"], "char", (7, -6)),
        ("long", ["-5L", "97L", "4294967393L"], "int", (-5, 97)),
        ("char16_t", ["u'a'", "(char16_t)0x8061", "(char16_t)0xff61"], "short", (0x61, -0x9f, 0x8061 - 65536)),
    ]:
        tag = f"{pel}_on_{iel}".replace(" ", "")
        for w in ("any", "none", "all"):
            m.add(f"{w}_{tag}", prim(w, vals, pel), elem=iel, seeds=seeds)
        m.add(f"anything_{tag}", anything(pel), elem=iel, seeds=seeds)


def sequences(m, thr, thorough):
    pats = ["v", "u", "n", "d", "s", "c",
            "vv", "vu", "uv", "uu", "nv", "vn", "nn", "dv", "vd", "dd", "mv", "vm", "cc", "ss", "su", "us",
            "vvv", "uvu", "vuv", "uuv", "vuu", "uuu", "nnn", "udv", "mmm", "ccc", "vdu", "uvv", "vvu", "sus",
            "vvvv", "uvuv", "uvvu", "vuuv", "uuvu", "vvvvv", "uvuvu", "cucuc", "vuvuvu"]
    if thorough:
        pats += ["".join(p) for k in (2, 3) for p in itertools.product("vundm", repeat=k)]
        pats += ["".join(p) for p in itertools.product("vu", repeat=4)] + ["".join(p) for p in itertools.product("vu", repeat=5)]
    for p in pats:
        m.add(f"seq_{p}", seq(*[pick(c, i + 1) for i, c in enumerate(p)]))
    m.add("seq_same", seq(V(1, 1), V(2, 1), V(3, 1)))
    m.add("seq_twice", seq(V(1), V(1), U(2), V(1)))
    for t in sorted({t for t in thr if t <= 68} | {8, 16}):
        for k in sorted({t, t + 1}):
            if 2 <= k <= 70:
                m.add(f"seq_len{k}", seq(*[V(i + 1, 1) if i % 2 else U(i + 1) for i in range(k)]))


def choices(m, thr, thorough):
    # letters: distinct types 1..; a digit repeats a value type
    pats = [("v", "1"), ("vv", "12"), ("vv", "11"), ("uv", "01"), ("vu", "10"), ("uu", "00"), ("nv", "12"), ("vn", "12"), ("dv", "12"), ("vd", "12"),
            ("vvv", "123"), ("vvv", "121"), ("vvv", "112"), ("vvv", "122"), ("vvv", "111"), ("uvv", "012"), ("vuv", "102"), ("vvu", "120"),
            ("uuv", "001"), ("uvu", "010"), ("vuv", "101"), ("uvv", "011"), ("ddd", "123"), ("fvv", "123"), ("vfv", "123"), ("unv", "012"),
            ("vvvv", "1234"), ("vvvv", "1213"), ("vvvv", "1221"), ("vvvv", "1232"), ("uvuv", "0102"), ("uuvv", "0012"), ("vuvv", "1021"), ("uvvv", "0121"), ("vvuv", "1203"), ("vvvv", "1123"),
            ("vvvvv", "12132"), ("uvuvv", "01023"), ("mm", "12"), ("mu", "10"), ("mmm", "121"), ("cc", "12"), ("ccc", "121"), ("cu", "10"), ("ss", "11"), ("su", "10"), ("us", "01")]
    if thorough:
        pats += [("v" * k, "".join(p)) for k in (2, 3, 4) for p in itertools.product("123", repeat=k)]
        pats += [("".join("u" if c == "0" else "v" for c in p), "".join(p)) for k in (3, 4) for p in itertools.product("012", repeat=k)]
    for p, ts in pats:
        m.add(f"cho_{p}_{ts}", choice(*[pick(c, i + 1, int(t)) for i, (c, t) in enumerate(zip(p, ts))]))
    m.add("cho_twice", choice(V(1), V(2), V(1)))
    for t in sorted({t for t in thr if t <= 68} | {6, 9}):
        for k in sorted({t, t + 1}):
            if 2 <= k <= 70:
                m.add(f"cho_len{k}", choice(*[V(i + 1, 1 + i % 4) if i % 3 else U(i + 1) for i in range(k)]))


FL_REP = ["v", "n", "u", "un", "d", "dn", "ud", "f", "m", "mn", "c", "x", "s", "w"]


def repetitions(m, thr, thorough):
    for c in FL_REP:
        for nm, f in (("maybe", maybe), ("plus", plus), ("star", star)):
            n = f(pick(c, 1)); m.add(f"{nm}_{c}", n, **fits(n))
    for c in ("v", "n", "u", "un", "d", "m", "c", "s"):
        for k in (1, 2, 3):
            m.add(f"ex{k}_{c}", exactly(pick(c, 1), k))
    for k in sorted({4, 7} | {t + d for t in thr for d in (-1, 0, 1) if 2 <= t + d <= 310}):
        m.add(f"ex{k}_v", exactly(V(1), k)); m.add(f"ex{k}_u", exactly(U(1), k))
        m.add(f"ex{k}_a", exactly(any_("ab"), k), seeds=(97, 98))
    for k in (257, 70000):
        m.add(f"ex{k}_e", exactly(eps(), k)); m.add(f"ex{k}_i", exactly(ignore(all_("")), k))
    # counts past the range of a narrow counter
    for k in (127, 128, 129, 255, 256, 257, 300) if thorough else (130, 257):
        m.add(f"ex{k}_v", exactly(V(1), k)); m.add(f"ex{k}_u", exactly(U(1), k))


def delimits(m, thr, thorough):
    fl = ["v", "u", "n", "un", "d", "ud", "m", "c", "x", "s"]
    pairs = [(p, d) for p in fl for d in fl if thorough or p in "vun" or d in ("u", "v", "n") or p == d]
    for p, d in pairs:
        n = delim(pick(p, 1), pick(d, 2)); m.add(f"del_{p}_{d}", n, **fits(n))
    m.add("del_same", delim(V(1), V(1))); m.add("del_same2", delim(V(1, 1), V(2, 1)))
    m.add("del_ign", delim(V(1), ignore(V(2)))); m.add("del_ignp", delim(ignore(V(1)), V(2)))
    m.add("del_neverfail", delim(V(1), pick("f", 2)))


def adaptors(m, thr, thorough):
    for c in ("v", "u", "n", "d", "ud", "m", "c", "x", "s", "w"):
        for nm, f in (("ign", ignore), ("com", complete), ("nam", named), ("cus", custom)):
            m.add(f"{nm}_{c}", f(pick(c, 1)))
    m.add("cust_v", custom_typed(V(1), "V<1>"))
    m.add("cust_u", custom_typed(U(1), "void"))
    for nm, f in (("ign", ignore), ("com", complete), ("nam", named), ("cus", custom)):
        m.add(f"{nm}_eps", f(eps())); m.add(f"{nm}_any", f(any_("ab")), seeds=(97, 98))
        for nm2, f2 in (("ign", ignore), ("com", complete), ("nam", named), ("cus", custom)):
            m.add(f"{nm}_{nm2}", f(f2(V(1, None, "NULLABLE"))))


def operands_rich(i):
    """one example of every shape of value, over opaque operands with ids from i"""
    return [("v", V(i)), ("u", U(i)), ("t", seq(V(i), V(i + 1))), ("t3", seq(V(i), U(i + 1), V(i + 2), V(i + 3))), ("o", maybe(V(i))), ("vec", star(V(i))), ("arr", exactly(V(i), 2)),
            ("pair", delim(V(i), V(i + 1))), ("var", choice(V(i), V(i + 1))), ("span", any_("ab"))]


def transforms(m, thr, thorough):
    for nm, n in operands_rich(1):
        kw = {"seeds": (97, 98)} if nm == "span" else {}
        m.add(f"map_{nm}", map_(n, 1), **kw); m.add(f"mapv_{nm}", map_(n, 1, "void"), **kw); m.add(f"fil_{nm}", filter_(n, 2), **kw)
        m.add(f"into_{nm}", into(n, 7), **kw); m.add(f"const_{nm}", constant(n, 5), **kw); m.add(f"def_{nm}", defaulted(n, 6), **kw); m.add(f"defi_{nm}", defaulted_int(n), **kw)
        if nm in ("t", "t3", "arr", "pair"):
            m.add(f"app_{nm}", apply_(n, 1)); m.add(f"appv_{nm}", apply_(n, 1, "void")); m.add(f"apf_{nm}", apply_filter(n, 2)); m.add(f"api_{nm}", apply_into(n, 7))
    for c in ("d", "n", "ud", "m", "c", "x"):
        n = pick(c, 1)
        m.add(f"map_{c}", map_(n, 1)); m.add(f"fil_{c}", filter_(n, 2)); m.add(f"into_{c}", into(n, 7)); m.add(f"const_{c}", constant(n, 5)); m.add(f"def_{c}", defaulted(n, 6))
        m.add(f"mapm_{c}", map_(n, 1, "M")); m.add(f"mapx_{c}", map_(n, 1, "X"))
    # by the number of parts
    for k in sorted({4, 5, 6, 7, 8} | ({9, 10, 12, 16} if thorough else set()) | {t + d for t in thr for d in (0, 1) if 8 < t + d <= 70}):
        parts = seq(*[(V, U)[j == k - 2](j + 1) for j in range(k)])
        m.add(f"app_n{k}", apply_(parts, 1)); m.add(f"apf_n{k}", apply_filter(parts, 2)); m.add(f"api_n{k}", apply_into(parts, 7))
        m.add(f"app_e{k}", apply_(exactly(V(1), k), 1)); m.add(f"apf_e{k}", apply_filter(exactly(V(1), k), 2)); m.add(f"api_e{k}", apply_into(exactly(V(1), k), 7))
    # the order and number of calls when several transformed parsers run
    m.add("maps_seq", seq(map_(V(1), 1), map_(V(2), 2), map_(U(3), 3))); m.add("maps_cho", choice(map_(V(1), 1), map_(V(2), 2), filter_(V(3), 3)))
    m.add("maps_del", delim(map_(V(1), 1), map_(V(2), 2))); m.add("maps_star", star(map_(V(1), 1))); m.add("maps_plus", plus(filter_(V(1), 1)))
    m.add("maps_ex", exactly(map_(V(1), 1), 3)); m.add("maps_maybe", maybe(map_(V(1), 1))); m.add("map_map", map_(map_(V(1), 1), 2)); m.add("fil_map", filter_(map_(V(1), 1), 2)); m.add("map_fil", map_(filter_(V(1), 1), 2))
    m.add("map_ign", ignore(map_(V(1), 1))); m.add("map_com", complete(map_(V(1), 1))); m.add("map_nam", named(map_(V(1), 1))); m.add("fil_ign", ignore(filter_(V(1), 1))); m.add("fil_com", complete(filter_(V(1), 1)))
    m.add("app_m", apply_(seq(M(1), M(2)), 1)); m.add("app_c", apply_(seq(N(1), N(2)), 1)); m.add("api_c", apply_into(seq(N(1), N(2)), 7)); m.add("apf_c", apply_filter(seq(N(1), N(2)), 2)); m.add("app_mixed", apply_(seq(M(1), U(2), N(3), V(4)), 1))


BASIC = [("any", lambda: any_("ab"), (97, 98)), ("none", lambda: none_("ab"), (97, 98)), ("all1", lambda: all_("a"), (97,)), ("all2", lambda: all_("ab"), (97, 98)), ("all3", lambda: all_("aba"), (97, 98)),
         ("all0", lambda: all_(""), (97,)), ("none0", lambda: none_(""), (97,)), ("any0", lambda: any_(""), (97,))]


def joins(m, thr, thorough):
    for nm, b, seeds in BASIC:
        kw = dict(seeds=seeds)
        m.add(f"j_{nm}", join(b()), **kw)
        m.add(f"j_maybe_{nm}", join(maybe(b()), True), **kw); m.add(f"j_plus_{nm}", join(plus(b()), True), **kw); m.add(f"j_star_{nm}", join(star(b()), True), **kw)
        for k in sorted({1, 2, 3} | ({t + d for t in thr for d in (0, 1) if t + d <= 310} if thorough or nm in ("any", "all2") else set())):
            m.add(f"j_ex{k}_{nm}", join(exactly(b(), k), True), **kw)
        # counts past the range of a narrow counter
        for k in (257, 70000):
            m.add(f"j_ex{k}_{nm}", join(exactly(b(), k), True), **kw)
        # the same shortcuts in context
        for cn, f in (("maybe", maybe), ("plus", plus), ("star", star), ("ex2", lambda n: exactly(n, 2))):
            j = join(f(b()), True)
            m.add(f"jc_seq_{cn}_{nm}", seq(V(1), j, V(2)), **kw)
            if nm in ("any", "all2"):
                m.add(f"jc_com_{cn}_{nm}", complete(j), **kw); m.add(f"jc_cho_{cn}_{nm}", choice(j, V(1)), **kw)
                m.add(f"jc_ign_{cn}_{nm}", ignore(j), **kw); n = star(seq(V(1), j)); m.add(f"jc_star_{cn}_{nm}", n, **kw, **fits(n))
                m.add(f"jc_jseq_{cn}_{nm}", join(seq(any_("x"), j, any_("y"))), seeds=seeds + (120, 121))
    m.add("j_anything", join(anything())); m.add("j_star_anything", join(star(anything())), maxlen=4); m.add("j_plus_anything", join(plus(anything())), maxlen=4); m.add("j_maybe_anything", join(maybe(anything()))); m.add("j_ex2_anything", join(exactly(anything(), 2)))
    for c in ("s", "sn", "w"):
        a = lambda i: pick(c, i)
        m.add(f"j_{c}", join(a(1)))
        m.add(f"j_seq_{c}", join(seq(a(1), a(2)))); m.add(f"j_seq3_{c}", join(seq(a(1), a(2), a(3)))); m.add(f"j_seqv_{c}", join(seq(a(1), U(2), a(3))))
        m.add(f"j_sequ_{c}", join(seq(U(1), a(2), U(3)))); m.add(f"j_maybe_{c}", join(maybe(a(1)))); m.add(f"j_ex2_{c}", join(exactly(a(1), 2))); m.add(f"j_ex3_{c}", join(exactly(a(1), 3)))
        m.add(f"j_star_{c}", join(star(a(1))), maxlen=4); m.add(f"j_plus_{c}", join(plus(a(1))), maxlen=4)
        m.add(f"j_del_{c}", join(delim(a(1), U(2))), maxlen=4); m.add(f"j_cho_{c}", join(choice(a(1), a(2)))); m.add(f"j_chou_{c}", join(choice(a(1), U(2)))); m.add(f"j_chouf_{c}", join(choice(U(1), a(2))))
        m.add(f"j_com_{c}", join(complete(a(1)))); m.add(f"com_j_{c}", complete(join(seq(a(1), a(2))))); m.add(f"j_j_{c}", join(seq(join(seq(a(1), a(2))), a(3))))
        m.add(f"j_fil_{c}", join(filter_(a(1), 1))); m.add(f"j_nam_{c}", join(named(seq(a(1), a(2)))))
    m.add("j_nest", join(seq(maybe(S(1)), seq(S(2), maybe(S(3)))))); m.add("j_nest2", join(seq(exactly(S(1), 2), maybe(seq(S(2), S(3))))))
    m.add("j_nest3", join(star(seq(S(1), maybe(S(2))))), maxlen=3); m.add("j_nest4", join(maybe(star(S(1)))), maxlen=3); m.add("j_nest5", join(star(star(S(1)))), maxlen=3); m.add("j_nest6", join(seq(star(S(1)), S(2))), maxlen=3)
    m.add("j_nest7", join(exactly(maybe(S(1)), 2))); m.add("j_nest8", join(seq(S(1), ignore(S(2)), S(3))))
    m.add("j_inseq", seq(V(1), join(seq(S(2), S(3))), V(4))); m.add("j_incho", choice(join(seq(S(1), S(2))), join(seq(S(3), S(4))), V(5))); m.add("j_instar", star(join(seq(S(1, "SPAN|WHOLE"), S(2, "SPAN|WHOLE")))), maxlen=4); m.add("j_indel", delim(join(seq(S(1), S(2))), U(3)), maxlen=4)
    m.add("j_ign", seq(V(1), ignore(join(seq(S(2), S(3)))), V(4)))


def combinators():
    """name, arity, constructor"""
    return [("seq", 2, lambda a, b: seq(a, b)), ("cho", 2, lambda a, b: choice(a, b)), ("maybe", 1, maybe), ("plus", 1, plus), ("star", 1, star), ("ex2", 1, lambda a: exactly(a, 2)),
            ("del", 2, delim), ("ign", 1, ignore), ("com", 1, complete), ("nam", 1, named), ("cus", 1, custom), ("map", 1, lambda a: map_(a, 1)), ("mapv", 1, lambda a: map_(a, 3, "void")), ("fil", 1, lambda a: filter_(a, 2)), ("const", 1, lambda a: constant(a, 5))]


def nestings(m, thr, thorough):
    cs = combinators()
    for on, oa, of in cs:
        for inn, ia, if_ in cs:
            for fl in (("v", "v"), ("u", "v"), ("n", "u")) if thorough else (("v", "v"), ("n", "u")):
                inner = if_(*[pick(fl[k], 10 + k) for k in range(ia)])
                if oa == 1:
                    n = of(inner); m.add(f"d2_{on}_{inn}_{''.join(fl)}", n, **fits(n))
                else:
                    n = of(inner, V(20)); m.add(f"d2_{on}_{inn}L_{''.join(fl)}", n, **fits(n))
                    n = of(V(20), inner); m.add(f"d2_{on}_{inn}R_{''.join(fl)}", n, **fits(n))
    prims = [("any", any_("ab")), ("none", none_("ab")), ("all", all_("ab")), ("anything", anything()), ("eps", eps()), ("all0", all_(""))]
    for on, oa, of in cs:
        for pn, p in prims:
            kw = dict(seeds=(97, 98))
            if oa == 1:
                m.add(f"p2_{on}_{pn}", of(p), **kw)
            else:
                m.add(f"p2_{on}_{pn}L", of(p, V(20)), **kw); m.add(f"p2_{on}_{pn}R", of(V(20), p), **kw)


def values(m, thr, thorough):
    """values that convert into each other, and functions in every shape"""
    for nm, f in (("maybe", maybe), ("plus", plus), ("star", star), ("ex1", lambda n: exactly(n, 1)), ("ex2", lambda n: exactly(n, 2)), ("ign", ignore), ("com", complete), ("nam", named), ("cus", custom), ("map", lambda n: map_(n, 1)), ("fil", lambda n: filter_(n, 2)), ("into", lambda n: into(n, 7)), ("const", lambda n: constant(n, 5)),
                  ("seq1", seq), ("seq2", lambda n: seq(n, V(20))), ("seq2r", lambda n: seq(V(20), n)), ("seqg", lambda n: seq(n, G(20))), ("sequ", lambda n: seq(U(20), n)), ("cho1", lambda n: choice(n, U(20))), ("cho2", lambda n: choice(n, V(20))), ("cho2r", lambda n: choice(V(20), n)), ("chog", lambda n: choice(n, G(20))), ("chogr", lambda n: choice(G(20), n)), ("chou", lambda n: choice(U(20), n)),
                  ("del", lambda n: delim(n, U(20))), ("delv", lambda n: delim(n, V(20))), ("delr", lambda n: delim(V(20), n)), ("delg", lambda n: delim(n, G(20)))):
        for on, o in (("g", G(1)), ("gn", G(1, None, "NULLABLE"))):
            n = f(o); m.add(f"w_{nm}_{on}", n, **fits(n))
            for n2, f2 in (("maybe", maybe), ("star", star), ("ex2", lambda n: exactly(n, 2)), ("seq", lambda n: seq(n, V(21))), ("cho", lambda n: choice(n, V(21)))) if on == "g" else ():
                if n.kind != "void": k = f2(n); m.add(f"w_{n2}_{nm}_{on}", k, **fits(k))
    ints = [("b", lambda i: constant_of(V(i), "true", "bool", 1)), ("f", lambda i: constant_of(U(i), "false", "bool", 0)), ("i", lambda i: constant_of(V(i), 7, "int", 7)), ("l", lambda i: constant_of(V(i), -5, "long", -5)), ("c", lambda i: constant_of(V(i), 97, "char", 97)), ("d", lambda i: defaulted_int(V(i)))]
    for x, fx in ints:
        for nm, f in (("maybe", maybe), ("plus", plus), ("star", star), ("ex3", lambda n: exactly(n, 3)), ("ign", ignore), ("com", complete), ("map", lambda n: map_(n, 1)), ("fil", lambda n: filter_(n, 2)), ("into", lambda n: into(n, 7)), ("const", lambda n: constant_of(n, 3, "int", 3))):
            m.add(f"w_{nm}_{x}", f(fx(1)))
            if nm in ("maybe", "star", "ex3") : n = seq(f(fx(1)), V(5)); m.add(f"w_seq_{nm}_{x}", n, **fits(n)); n = maybe(f(fx(1))); m.add(f"w_maybe_{nm}_{x}", n, **fits(n))
        for y, fy in ints + [("u", U), ("v", V), ("g", G)]:
            m.add(f"w_seq_{x}{y}", seq(fx(1), fy(2))); m.add(f"w_cho_{x}{y}", choice(fx(1), fy(2))); m.add(f"w_cho_{y}{x}", choice(fy(1), fx(2))); m.add(f"w_del_{x}{y}", delim(fx(1), fy(2))); m.add(f"w_cho3_{x}{y}", choice(fx(1), V(3), fy(2)))
    for c, o in (("v", V(1)), ("n", V(1, None, "NULLABLE")), ("d", V(1, None, "DIVERGENT"))):
        for sh in ("value", "rvalue", "con", "lambda"):
            m.add(f"w_map_{sh}_{c}", fn_shape(o, sh, 1, ["V<1>"])); m.add(f"w_mapv_{sh}_{c}", fn_shape(o, sh, 1, ["V<1>"], "void"))
        for sh in ("looks",): m.add(f"w_fil_{sh}_{c}", fn_shape(o, sh, 2, ["V<1>"], None))
    for sh in ("value", "con", "lambda"): m.add(f"w_map_{sh}_u", fn_shape(U(1), sh, 1, [])); m.add(f"w_mapv_{sh}_u", fn_shape(U(1), sh, 1, [], "void"))
    m.add("w_fil_looks_u", filter_(U(1), 2))
    for nm, o in (("seq", seq(V(1), V(2))), ("del", delim(V(1), V(2)))):
        for sh in ("value", "rvalue", "con", "lambda"):
            if nm == "del": break
            m.add(f"w_app_{sh}_{nm}", fn_shape(o, sh, 1, ["V<1>", "V<2>"])); m.add(f"w_appv_{sh}_{nm}", fn_shape(o, sh, 1, ["V<1>", "V<2>"], "void"))
        if nm == "seq":
            for sh in ("looks",): m.add(f"w_apf_{sh}", fn_shape(o, sh, 2, ["V<1>", "V<2>"], None))
    for sh in ("value", "rvalue", "con", "lambda"):
        m.add(f"w_map_{sh}_m", fn_shape(M(1), sh, 1, ["M<1>"])); m.add(f"w_map_{sh}_c", fn_shape(N(1), sh, 1, ["N<1>"])); m.add(f"w_map_{sh}_g", fn_shape(G(1), sh, 1, ["G<1>"])); m.add(f"w_map_{sh}_o", fn_shape(maybe(V(1)), sh, 1, ["std::optional<V<1>>"])); m.add(f"w_map_{sh}_s", fn_shape(star(V(1)), sh, 1, ["std::vector<V<1>>"])); m.add(f"w_map_{sh}_t", fn_shape(seq(V(1), V(2)), sh, 1, ["std::tuple<V<1>,V<2>>"])); m.add(f"w_app_{sh}_a", fn_shape(exactly(V(1), 3), sh, 1, ["V<1>"] * 3)); m.add(f"w_app_{sh}_m", fn_shape(seq(M(1), N(2)), sh, 1, ["M<1>", "N<2>"]))


def concretes(m, thr, thorough):
    """constructs of parsers that are themselves known to the last element: what a construct could learn from the types of its operands (the
    lengths of literals, the sets of elements, what may be empty) is there to be learned"""
    atoms = [("any", any_("ab")), ("none", none_("ab")), ("a", all_("a")), ("ab", all_("ab")), ("aba", all_("aba")), ("e", all_("")), ("eps", eps()), ("thing", anything())]
    A = dict(atoms)
    an, no, a, ab, aba, e, ep, th = (n for _, n in atoms)
    mids = [("mb_any", maybe(an)), ("mb_ab", maybe(ab)), ("st_any", star(any_("a"))), ("st_ab", star(ab)), ("pl_any", plus(any_("a"))), ("pl_ab", plus(ab)), ("pl_no", plus(no)), ("ex1", exactly(an, 1)), ("ex2", exactly(any_("a"), 2)), ("ex2ab", exactly(ab, 2)),
            ("sq", seq(any_("a"), any_("b"))), ("sq_mb", seq(maybe(any_("a")), all_("b"))), ("sq_e", seq(e, all_("b"))), ("sq_st", seq(star(any_("a")), all_("b"))), ("sq_ex", seq(exactly(maybe(any_("a")), 1), any_("b"))), ("mb_sq", maybe(seq(any_("a"), maybe(all_("b"))))),
            ("long_short", choice(aba, a)), ("short_long", choice(a, aba)), ("one_mb", choice(ab, maybe(all_("b")))), ("any_lit", choice(any_("b"), ab)), ("lit_eps", choice(aba, ep)), ("sq_or", choice(seq(any_("a"), any_("b"), any_("a")), any_("a"))),
            ("dl", delim(any_("a"), all_("b"))), ("dl_i", delim(ab, ignore(all_("b")))), ("ig", ignore(ab)), ("nm", named(aba)), ("cus", custom(choice(aba, a))), ("com", complete(ab)), ("mp", map_(an, 1)), ("fi", filter_(ab, 2)), ("jn", join(plus(any_("a")), True)), ("jx", join(exactly(ab, 2), True)), ("js", join(seq(maybe(any_("a")), all_("b"))))]
    kw = dict(seeds=(97, 98))
    def put(name, n): m.add("k_" + name, n, **kw, **fits(n))
    for nm, f in (("sq", seq), ("ch", choice), ("dl", delim)):
        for x, y in itertools.product(atoms, repeat=2):
            put(f"{nm}_{x[0]}_{y[0]}", f(x[1], y[1]))
        for x in mids:
            for y in (("any", any_("a")), ("a", all_("b")), ("ab", ab), ("none", no)) if not thorough else atoms:
                put(f"{nm}_{x[0]}_{y[0]}", f(x[1], y[1])); put(f"{nm}_{y[0]}_{x[0]}", f(y[1], x[1]))
        rng = random.Random(5)
        pairs = list(itertools.product(mids, repeat=2))
        for x, y in pairs if thorough else rng.sample(pairs, 60):
            put(f"{nm}_{x[0]}_{y[0]}", f(x[1], y[1]))
    for nm, f in (("sq", seq), ("ch", choice)):
        rng = random.Random(6)
        for x, y, z in (tuple(rng.choice(rng.choice((atoms, mids))) for _ in range(3)) for _ in range(400 if thorough else 50)):
            put(f"{nm}_{x[0]}_{y[0]}_{z[0]}", f(x[1], y[1], z[1]))
    for nm, f in (("mb", maybe), ("st", star), ("pl", plus), ("ex2", lambda n: exactly(n, 2)), ("ex3", lambda n: exactly(n, 3)), ("ig", ignore), ("com", complete), ("nam", named), ("mp", lambda n: map_(n, 1)), ("mpv", lambda n: map_(n, 1, "void")), ("fi", lambda n: filter_(n, 2)), ("co", lambda n: constant(n, 5)), ("de", lambda n: defaulted(n, 6))):
        for x in atoms + mids:
            put(f"{nm}_{x[0]}", f(x[1]))


def elements(m, thr, thorough, some=False):
    """every construct over elements of other sizes and kinds than char, and over input of another type than the parsers'"""
    kinds = [("wchar_t", "wchar_t", ["L'a'", "L'\\x161'"], (0x61, 0x161, 0x10061)), ("char8_t", "char8_t", ["u8'a'", "(char8_t)200"], (97, 200)), ("char16_t", "char16_t", ["u'a'", "(char16_t)0x8061"], (0x61, 0x161, 0x8061)), ("char32_t", "char32_t", ["U'a'", "(char32_t)0x10061"], (0x61, 0x161, 0x10061)),
             ("int", "int", ["-5", "1000000"], (-5, 1000000)), ("long", "long", ["-5L", "4294967393L"], (-5, 97, 4294967393)), ("short", "short", ["(short)-300", "(short)7"], (-300, 7)), ("bool", "bool", ["false", "true"], (0, 1)), ("En", "En", ["En::a", "En::c"], (0, 1, 2)), ("St", "St", ["St{-4}", "St{300}"], (3, -4, 300)),
             ("signed char", "signed char", ["(signed char)-1", "(signed char)5"], (-1, 5)), ("unsigned char", "unsigned char", ["(unsigned char)5", "(unsigned char)255"], (5, 255)), ("char", "int", ["'a'", "'z'"], (97, 122, 97 + 256)), ("char", "char32_t", ["'\\xe9'", "'a'"], (97, 0xe9, 0xffffffe9)), ("int", "char", ["-5", "97"], (-5, 97, 251)), ("char", "Tk", ["'a'", "'z'"], (97, 122, 97 + 256))]
    for pel, iel, vals, seeds in kinds:
        if some and not thorough and (pel, iel) not in (("char16_t", "char16_t"), ("long", "long"), ("St", "St"), ("char", "int")): continue
        x, y = vals
        tag = f"{pel}_{iel}".replace(" ", "") if pel != iel else pel.replace(" ", "")
        kw = dict(elem=iel, seeds=seeds)
        def put(name, n): m.add(f"e_{tag}_{name}", n, **kw, **fits(n))
        av, a1, no, al, l1, th, ep = prim("any", [x, y], pel), prim("any", [x], pel), prim("none", [y], pel), prim("all", [x, y], pel), prim("all", [y], pel), anything(pel), eps(pel)
        v, w, u, un = V(1, elem=pel), V(2, elem=pel), U(3, elem=pel), U(4, "NULLABLE", elem=pel)
        for nm, n in (("any", av), ("a1", a1), ("none", no), ("all", al), ("l1", l1), ("th", th), ("v", v)):
            for cn, f in (("mb", maybe), ("pl", plus), ("st", star), ("ex2", lambda n: exactly(n, 2)), ("ex3", lambda n: exactly(n, 3))):
                put(f"{cn}_{nm}", f(n))
                if nm != "v" and not (nm == "th" and cn in ("pl", "st")): put(f"j{cn}_{nm}", join(f(n), nm != "th"))
                elif nm == "th": j = join(f(n)); m.add(f"e_{tag}_j{cn}_{nm}", j, **kw, maxlen=4)
            for cn, f in (("ig", ignore), ("com", complete), ("nam", named), ("cus", custom), ("mp", lambda n: map_(n, 1)), ("mpv", lambda n: map_(n, 1, "void")), ("fi", lambda n: filter_(n, 2)), ("co", lambda n: constant(n, 5)), ("de", lambda n: defaulted(n, 6)), ("in", lambda n: into(n, 7))):
                put(f"{cn}_{nm}", f(n))
        for nm, p, q in (("aa", a1, al), ("al", av, l1), ("la", al, a1), ("na", no, a1), ("vu", v, u), ("uv", u, v), ("vw", v, w), ("av", a1, v), ("va", v, l1), ("ta", th, l1), ("ea", ep, a1), ("nu", v, un)):
            for cn, f in (("sq", seq), ("ch", choice), ("dl", delim)): put(f"{cn}_{nm}", f(p, q))
            put(f"sq3_{nm}", seq(p, maybe(q), p)); put(f"ch3_{nm}", choice(seq(p, q), q, p)); put(f"dli_{nm}", delim(p, ignore(q))); put(f"sqc_{nm}", complete(seq(p, q)))
            if "v" not in nm and "u" not in nm:
                put(f"jsq_{nm}", join(seq(p, q))); put(f"jsq3_{nm}", join(seq(p, maybe(q), p)))
        for nm, n in (("jsq", join(seq(a1, join(star(l1), True)))), ("dlj", delim(join(plus(a1), True), l1)), ("stsq", star(seq(a1, l1))), ("jex", join(exactly(seq(a1, l1), 2)))): put(nm, n)


def random_terms(m, rng, count, depth):
    cs = combinators()

    def gen(d, ids):
        if d == 0 or rng.random() < 0.15:
            ids[0] += 1
            r = rng.random()
            if r < 0.2: return rng.choice([any_("ab"), none_("a"), all_("ab"), all_("a"), eps(), anything()])
            return pick(rng.choice(["v", "v", "n", "u", "un", "d", "w"]), ids[0], rng.choice([None, 1, 2]))
        on, oa, of = rng.choice(cs)
        if on in ("map", "mapv", "fil", "const") and rng.random() < 0.5: on, oa, of = cs[rng.randrange(7)]
        return of(*[gen(d - 1, ids) for _ in range(oa)])
    for i in range(count):
        n = gen(depth, [0])
        m.add(f"r{depth}_{i}", n, seeds=(97, 98), **fits(n))


GROUPS = {"prim": primitives, "seq": sequences, "cho": choices, "rep": repetitions, "del": delimits, "ada": adaptors, "tra": transforms, "join": joins, "nest": nestings, "conc": concretes, "val": values, "elem": elements, "some-elem": lambda m, thr, thorough: elements(m, thr, thorough, True)}


def build(groups, tier="quick", seed=1, thr=()):
    m = Maker()
    thorough = tier == "thorough"
    for g in groups:
        if g == "rand":
            rng = random.Random(seed)
            random_terms(m, rng, 400 if thorough else 60, 3)
            if thorough: random_terms(m, rng, 100, 4)
        else:
            GROUPS[g](m, thr, thorough)
    return m
