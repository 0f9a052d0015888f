"""Parser expressions as pairs (library type, specification type), and the obligations made of them.

A Node is one parser expression:
  L      the library's type (the code under analysis)
  R      the specification's type (vp.h)
  kind   shape of its value: void tok span tuple variant optional vector array pair int
  outer  the property of its outermost construct
"""
from dataclasses import dataclass, replace


@dataclass(frozen=True)
class Node:
    L: str
    R: str
    kind: str
    outer: str = ""
    kids: tuple = ()
    n: int = 0               # number of elements of a tuple / array / pair
    wild_spans: bool = False  # the views in its value may lie anywhere in what was consumed
    moves: str = "copy"      # copy, noisy (copies are observed), move (move-only), nodefault
    loops: int = 0           # how deeply loops over the input nest in it
    agree: bool = True       # parse and lookahead give the same verdict
    under: str = ""          # filter, join: the parser whose lookahead is theirs
    fast: bool = False       # a join with a shortcut
    spanny: bool = False     # views are part of its value

    def subs(self):
        """all its proper parts that are not opaque operands"""
        for k in self.kids:
            if k.outer:
                yield k
            yield from k.subs()


def mk(L, R, kind, outer, kids, n=0, **kw):
    d = dict(
        wild_spans=any(k.wild_spans for k in kids),
        moves=next((k.moves for k in kids if k.moves != "copy"), "copy"),
        loops=max((k.loops for k in kids), default=0),
        agree=all(k.agree for k in kids),
        spanny=any(k.spanny for k in kids),
    )
    d.update(kw)
    return Node(L, R, kind, outer, tuple(kids), n, **d)


# ---------------------------------------------------------------- opaque operands
def arch(i, val, flags="0", elem="char", kind="tok"):
    e = "" if elem == "char" else f",{elem}"
    f = "" if flags == "0" and not e else f",{flags}"
    fr = "" if flags == "0" else f",{flags}"
    moves = {"N": "noisy", "M": "move", "X": "nodefault"}.get(val[0], "copy") if kind == "tok" else "copy"
    return Node(f"A<{i},{val}{f}{e}>", f"ref::Arch<{i},{val}{fr}>", kind, moves=moves, wild_spans=(kind == "span" and "WHOLE" not in flags), spanny=kind == "span", agree="DIVERGENT" not in flags)


def V(i, t=None, flags="0", elem="char"): return arch(i, f"V<{t or i}>", flags, elem)
def N(i, t=None, flags="0"): return arch(i, f"N<{t or i}>", flags)
def M(i, t=None, flags="0"): return arch(i, f"M<{t or i}>", flags)
def X(i, t=None, flags="0"): return arch(i, f"X<{t or i}>", flags)
def G(i, t=None, flags="0"): return arch(i, f"G<{t or i}>", flags)
def U(i, flags="0", elem="char"): return arch(i, "void", flags, elem, kind="void")
def S(i, flags="SPAN"): return arch(i, "SP", flags, kind="span")


# ---------------------------------------------------------------- primitives
def _arr(elem, vals): return f"tk::static_array<{elem},{len(vals)}>" + ("{}" if not vals else "(" + ",".join(vals) + ")")


def prim(which, vals, elem="char"):
    lib = {"any": "any_of_parser", "none": "none_of_parser", "all": "all_of_parser"}[which]
    spec = {"any": "Any", "none": "None", "all": "All"}[which]
    return mk(f"tk::{lib}<{_arr(elem, vals)}>", f"ref::{spec}<{','.join(vals)}>", "span", "C01", (), spanny=True)


def anything(elem="char"): return mk(f"tk::anything_parser<{elem}>", "ref::Anything", "span", "C01", (), spanny=True)
def eps(elem="char"): return mk(f"tk::epsilon_parser<{elem}>", "ref::Eps", "void", "C01", ())


def chars(s): return ["'\\''" if c == "'" else "'\\\\'" if c == "\\" else f"'{c}'" if 32 <= ord(c) < 127 else f"'\\x{ord(c):02x}'" for c in s]
def any_(s): return prim("any", chars("".join(sorted(set(s)))))
def none_(s): return prim("none", chars("".join(sorted(set(s)))))
def all_(s): return prim("all", chars(s))


# ---------------------------------------------------------------- combinators
def seq(*ns):
    vals = [n for n in ns if n.kind != "void"]
    kind = "void" if not vals else vals[0].kind if len(vals) == 1 else "tuple"
    k = vals[0].n if len(vals) == 1 else len(vals)
    return mk(f"tk::sequence_parser<{','.join(n.L for n in ns)}>", f"ref::Seq<{','.join(n.R for n in ns)}>", kind, "C05", ns, k)


def choice(*ns):
    vals = [n for n in ns if n.kind != "void"]
    kind = "void" if not vals else "span" if all(n.kind == "span" for n in vals) else vals[0].kind if len(vals) == 1 else "variant"
    return mk(f"tk::choice_parser<{','.join(n.L for n in ns)}>", f"ref::Choice<{','.join(n.R for n in ns)}>", kind, "C06", ns)


def _rep(n, lib, spec, kind, loop): return mk(f"tk::{lib}<{n.L}>", f"ref::{spec}<{n.R}>", "void" if n.kind == "void" else kind, "C07", (n,), loops=n.loops + loop)
def maybe(n): return _rep(n, "maybe_parser", "Maybe", "optional", 0)
def plus(n): return _rep(n, "one_or_more_parser", "Plus", "vector", 1)
def star(n): return _rep(n, "zero_or_more_parser", "Star", "vector", 1)
def exactly(n, k): return mk(f"tk::exactly_parser<{n.L},tk::index_c<{k}>>", f"ref::Exactly<{n.R},{k}>", "void" if n.kind == "void" else "array", "C08", (n,), k)


def delim(p, d):
    kind = "pair" if p.kind != "void" and d.kind != "void" else "void" if p.kind == d.kind == "void" else "vector"
    return mk(f"tk::delimit_parser<{p.L},{d.L}>", f"ref::Delim<{p.R},{d.R}>", kind, "C09", (p, d), 2 if kind == "pair" else 0, loops=1 + max(p.loops, d.loops))


def ignore(n): return mk(f"tk::ignore_parser<{n.L}>", f"ref::Ignore<{n.R}>", "void", "C10", (n,), agree=True, spanny=False)
def complete(n): return mk(f"tk::complete_parser<{n.L}>", f"ref::Complete<{n.R}>", n.kind, "C10", (n,), n.n)
def named(n): return mk(f"tk::named_parser<{n.L},tk::static_array<char,2>('n','m')>", n.R, n.kind, "C10", (n,), n.n)
def custom(n): return mk(f"Custom<{n.L}>", n.R, n.kind, "C10", (n,), n.n)
def custom_typed(n, ty): return mk(f"CustomT<{n.L},{ty}>", n.R, n.kind, "C10", (n,), n.n)


def join(n, fast=False): return mk(f"tk::join_parser<{n.L}>", f"ref::Join<{n.R}>", "span", "C13" if fast else "C12", (n,), agree=False, under=n.L, fast=fast, spanny=True)


def _ic(x): return f"tk::integral_constant<{x}>"
def _fn(n, lib, arg, spec, kind): return mk(f"tk::{lib}<{n.L},{arg}>", spec, kind, "C11", (n,), wild_spans=False, moves="copy", spanny=False)
def map_(n, f, res="V"): t = f"{res}<{90 + f}>" if res != "void" else "void"; return _fn(n, "map_parser", _ic(f"Fn<{f},{t}>{{}}"), f"ref::Map<{n.R},{f},{t}>", "void" if res == "void" else "tok")
def apply_(n, f, res="V"): t = f"{res}<{90 + f}>" if res != "void" else "void"; return _fn(n, "apply_map_parser", _ic(f"Fn<{f},{t}>{{}}"), f"ref::Map<{n.R},{f},{t},K_APP,true>", "void" if res == "void" else "tok")
def filter_(n, f): return mk(f"tk::filter_parser<{n.L},{_ic(f'Pred<{f}>{{}}')}>", f"ref::Filter<{n.R},{f}>", n.kind, "C11", (n,), n.n, agree=False, under=n.L)
def apply_filter(n, f): return mk(f"tk::apply_filter_parser<{n.L},{_ic(f'Pred<{f}>{{}}')}>", f"ref::Filter<{n.R},{f},true>", n.kind, "C11", (n,), n.n, agree=False, under=n.L)


def into(n, i):
    if n.kind == "void": return _fn(n, "into_parser", f"O<{i}>", f"ref::Const<{n.R},O<{i}>,{i},true>", "tok")
    return _fn(n, "into_parser", f"O<{i}>", f"ref::Map<{n.R},{i},O<{i}>,K_MAKE>", "tok")


def apply_into(n, i): return _fn(n, "apply_into_parser", f"O<{i}>", f"ref::Map<{n.R},{i},O<{i}>,K_MAKE,true>", "tok")
def constant(n, v): return _fn(n, "constant_parser", _ic(str(v)), f"ref::Const<{n.R},int,{v}>", "int")
def constant_of(n, v, ty, shown): return _fn(n, "constant_parser", _ic(f"({ty}){v}"), f"ref::Const<{n.R},{ty},{shown}>", "int")
def fn_shape(n, shape, f, args, res="V"):
    """map or filter (res None) by functions in their other shapes; args: the types of the arguments"""
    t = f"{res}<{90 + f}>" if res not in ("void", None) else res
    a = ",".join(args)
    arg = {"value": lambda: f"&by_value<{f},{t},{a}>" if a else f"&by_value<{f},{t}>", "rvalue": lambda: f"&by_rvalue<{f},{t},{a}>",
           "con": lambda: f"FnCon<{f},{t}>{{}}", "lambda": lambda: f"[](auto&&... x) -> {t} {{ return Fn<{f},{t}>{{}}(static_cast<decltype(x)>(x)...); }}", "looks": lambda: f"&looks_at<{f},{a}>"}[shape]()
    many = len(args) > 1
    if res is None:
        return mk(f"tk::{'apply_' if many else ''}filter_parser<{n.L},{_ic(arg)}>", f"ref::Filter<{n.R},{f}{',true' if many else ''}>", n.kind, "C11", (n,), n.n, agree=False, under=n.L)
    return _fn(n, "apply_map_parser" if many else "map_parser", _ic(arg), f"ref::Map<{n.R},{f},{t}{',K_APP,true' if many else ''}>", "void" if res == "void" else "tok")
def defaulted(n, i): return _fn(n, "defaulted_parser", f"V<{i}>", f"ref::Const<{n.R},V<{i}>,{i},true>", "tok")
def defaulted_int(n): return _fn(n, "defaulted_parser", "int", f"ref::Const<{n.R},int,0>", "int")


# ---------------------------------------------------------------- obligations
@dataclass
class Case:
    name: str
    node: Node
    elem: str = "char"
    seeds: tuple = (0,)
    maxlen: int = 0
    controls: tuple = ()   # names of the cases of its parts

    def code(self, modes="pl"):
        """modes: p parse, l lookahead, a parse against lookahead, u lookahead of filter/join against that of the underlying parser"""
        s = f"struct {self.name} {{ using E={self.elem}; using SP=tk::output_span<E>; using L={self.node.L}; using R={self.node.R}; static constexpr long seeds[]={{{','.join(map(str, self.seeds))}}}; static constexpr bool exact=false;"
        if self.maxlen:
            s += f" static constexpr long maxlen={self.maxlen};"
        if "u" in modes and self.node.under:
            s += f" using Under={self.node.under};"
        s += " };"
        if "p" in modes: s += f" VP_CASE_P({self.name})"
        if "l" in modes: s += f" VP_CASE_L({self.name})"
        if "a" in modes and self.node.agree: s += f" VP_CASE_A({self.name})"
        if "u" in modes and self.node.under: s += f" VP_CASE_U({self.name})"
        if "q" in modes: s += f" VP_CASE_Q({self.name})"
        return s


@dataclass
class Raw:
    """an obligation whose text is given"""
    name: str
    label: str
    text: str
    elem: str = "char"
    controls: tuple = ()
    maxlen: int = 0

    def code(self, modes=""): return self.text
