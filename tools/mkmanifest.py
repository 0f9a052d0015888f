#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand after changing what is claimed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ("relational abstract interpretation of the instantiated headers (clang IR): library against the specification of each construct, over opaque operands and unknown input")
W = "type-level and compile-fail witnesses: generated static_assert/requires obligations over the library's types, decided by the compiler front end"
NOTE_A = ("Every obligation is one construct over one choice of operand kinds, with unknown input (any length, any contents) and operands that obey only the contract of a parser; abstract states are explored to a fixpoint, "
          "so no loop is unrolled to a bound except in the obligations counted as bounded in the evidence. The instances (kinds, arities, element types) are enumerated, not all of C++. Trusted: clang 18's translation, the model of std::vector, the specification in vp.h.")
NOTE_W = "The obligations are enumerated instances (complete up to the stated sizes, seeded beyond); each is decided by clang's type checker, no parser is run. Trusted: clang 18, the Python model that computes the expected types."
T = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"]:
    T[p] = (A, NOTE_A)
T["C16"] = (A + "; and compile-time witnesses: the same parses as constant expressions", NOTE_A + " " + NOTE_W)
T["C17"] = (A + " (every write to anything that outlives the call is a finding); and type-level witnesses of statelessness", NOTE_A + " " + NOTE_W)
for p in ["C24", "C25", "C29"]:
    T[p] = (A, NOTE_A)
T["C26"] = (A, NOTE_A)
for p in ["C18", "C19", "C20", "C21", "C22", "C23", "C27", "C34"]:
    T[p] = (W, NOTE_W)
G = "call-graph analysis of the LLVM IR of the instantiated headers (unoptimised, exceptions on): "
NOTE_G = "Every instance (kinds, arities and element types enumerated) is analysed over all functions reachable from it, whatever the input; calls through pointers go to every function of the type whose address is taken. Trusted: clang 18's translation, libstdc++ 13."
T["C30"] = (G + "no cycle and no stack allocation of variable size outside the user's recursive rules", NOTE_G)
T["C31"] = (G + "exception propagation through landing pads and non-throwing functions, as a fixpoint over call sites", NOTE_G)
T["C32"] = (G + "reachability of allocation functions", NOTE_G)
T["C33"] = ("compile witnesses: generated programs over all orders of the public headers, decided by the type checker; and the linkage of every library definition read off the LLVM IR", "The pairs of headers and what is used of each are enumerated; g++ 13 decides. Trusted: the compilers.")
NA = {
    "C28": "The example programs are not library code: whether a whole grammar (calculator, JSON, ...) accepts its language is a statement about unbounded nested inputs of recursive grammars, which the abstract domain here (no recursion through user-defined rules, bounded spans) cannot decide; only running or unrolling it could, which is another family. The library constructs the examples are made of are covered by C01-C27.",
}
PENDING = "not built yet"
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                            "technique": T[p][0], "level": "other", "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, PENDING)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
