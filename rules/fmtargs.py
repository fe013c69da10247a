"""Every parameterized message has exactly one parameter per substitution marker.

Formatting functions are found by what they do: core::impl::Format::format() and core::formatted() take the message as first argument and
one parameter per marker after it; a function that passes its own message parameter and exactly its own parameters after it, in order, on
to a formatting function is a formatting function itself (fixpoint over the call graph, through lambdas).
"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

PASS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
        "ExprWithCleanups", "CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr"}
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr")
VIEW = re.compile(r"(const )?(class )?(char \*|wchar_t \*|char16_t \*|char32_t \*|std::(basic_)?string_view|std::basic_string_view<|archon::core::(Basic)?StringSpan|.*string_view_type|.*StringSpan<)")
BASE = {"archon::core::impl::Format::format": 0, "archon::core::formatted": 0, "archon::core::formatted_wrn": 0, "archon::core::with_reverted_numerics": None}


def strip(f, i):
    """the expression whose value this is (through conversions, copies, std::forward and std::move)"""
    while i is not None and i >= 0:
        n = f.nodes[i]
        if n["k"] in PASS:
            cs = [c for c in n.get("c", ()) if c >= 0]
            if not cs: return i
            if len(cs) > 1 and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                cs = [c for c in cs if f.nodes[c]["k"] != "CXXDefaultArgExpr"]
                if len(cs) != 1: return i
            i = cs[0]; continue
        if n["k"] == "CallExpr":
            g = f.fn(i)
            if g and g["qn"] in ("std::forward", "std::move", "std::as_const") and n.get("args"): i = n["args"][0]; continue
        if n["k"] == "CXXMemberCallExpr":
            g = f.fn(i)
            if g and g.get("kind") == "conv" and n.get("obj", -1) is not None and n.get("obj", -1) >= 0: i = n["obj"]; continue
        return i
    return i


def literals(f, i, inits, depth=4):
    """string literals that expression i can be; None if it can be something else"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]; k = n["k"]
    if k == "StringLiteral": return [(n.get("s", ""), i)]
    if k in ("ConditionalOperator",):
        a = literals(f, n["c"][1], inits, depth); b = literals(f, n["c"][2], inits, depth)
        return a + b if a is not None and b is not None else None
    if k == "DeclRefExpr" and depth and n.get("d") in inits and inits[n["d"]] is not None:
        return literals(f, inits[n["d"]], inits, depth - 1)
    return None


def local_inits(f):
    """local variables that are initialised and never assigned"""
    out = {}
    for n in f.nodes:
        if n["k"] == "DeclStmt":
            for d in n.get("decls", ()):
                if d.get("init", -1) is not None and d.get("init", -1) >= 0: out[d["id"]] = d["init"]
    for n in f.nodes:
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
            l = f.nodes[n["c"][0]]
            if l["k"] == "DeclRefExpr" and l.get("d") in out: out[l["d"]] = None
        if n["k"] == "CXXOperatorCallExpr" and n.get("args"):
            l = f.nodes[n["args"][0]]
            if l["k"] == "DeclRefExpr" and l.get("d") in out: out[l["d"]] = None
    return out


def markers(s):
    """(number of markers, error)"""
    n = 0; i = 0
    while i < len(s):
        if s[i] == "%":
            i += 1
            if i >= len(s): return n, "a '%' at the end of the message"
            if s[i] == "s": n += 1
            elif s[i] != "%": return n, f"the invalid marker '%{s[i]}'"
        i += 1
    return n, None


class Formatters:
    def __init__(self, prog):
        self.prog = prog; self.idx = {}
        for k, fi in prog.fninfo.items():
            if fi["qn"] in BASE and BASE[fi["qn"]] is not None: self.idx[k] = BASE[fi["qn"]]
            elif fi["file"].startswith("src/archon") or fi["file"].startswith(P.ARCHON):
                j = fi.get("pack", 0)
                if j > 0 and j - 1 < len(fi["params"]) and VIEW.match(fi["tu"].types[fi["params"][j - 1]["t"]]): self.idx[k] = j - 1
        work = []
        for f in prog.funcs.values():
            cs = [(i, n, f.fn(i)) for i, n in enumerate(f.nodes) if n["k"] in CALLS and n.get("args")]
            work.append((f, [(i, n, g) for i, n, g in cs if g is not None]))
        # parameters of the enclosing functions of lambdas
        self.owner = {}
        for f in prog.funcs.values():
            for j, p in enumerate(f.params): self.owner[(id(f.tu), p["id"])] = (f, j)
        while True:
            ch = False
            for f, cs in work:
                for i, n, g in cs:
                    k = self.idx.get(g["key"])
                    if k is None: continue
                    args = n["args"]
                    if g.get("kind") != "ctor" and n["k"] == "CXXOperatorCallExpr": continue
                    refs = []
                    for a in args[k:]:
                        x = f.nodes[strip(f, a)] if a >= 0 else {}
                        refs.append(self.owner.get((id(f.tu), x.get("d"))) if x.get("k") == "DeclRefExpr" else None)
                    if not refs or refs[0] is None: continue
                    h, j = refs[0]
                    if h.key in self.idx: continue
                    if len(h.params) - j != len(refs): continue
                    if all(r is not None and r[0] is h and r[1] == j + o for o, r in enumerate(refs)):
                        self.idx[h.key] = j; ch = True
            if not ch: break


def scan(prog, c):
    fm = Formatters(prog)
    c.count("formatting functions (instances)", len(fm.idx))
    c.count("formatting functions", len({prog.fninfo[k]["qn"] for k in fm.idx}))
    seen = set()
    for f in prog.funcs.values():
        inits = None
        for i, n in enumerate(f.nodes):
            if n["k"] not in CALLS or not n.get("args"): continue
            g = f.fn(i)
            if g is None or g["key"] not in fm.idx: continue
            k = fm.idx[g["key"]]
            if k >= len(n["args"]): continue
            if inits is None: inits = local_inits(f)
            ls = literals(f, n["args"][k], inits)
            if ls is None:
                c.count("messages that are forwarded")
                continue
            na = len(n["args"]) - k - 1
            for s, j in ls:
                c.count("messages"); c.count("obligations")
                m, err = markers(s)
                loc = f.loc(j)
                if err: c.violation(f"{f.rel()} {s!r}", f"{loc}: message {s!r} contains {err}")
                elif m != na: c.violation(f"{f.rel()} {s!r}", f"{loc}: message {s!r} has {m} substitution markers, but {na} parameters are passed to {g['qn']}()")
            seen.add((f.file, n["l"]))
    c.count("call sites", len(seen))
    if os.environ.get("SHOW"):   # literals with a marker that the rule does not see
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "StringLiteral" and "%s" in n.get("s", "") and f.file.startswith(P.ARCHON):
                    p = f.parent.get(i); chain = []
                    while p is not None and len(chain) < 6:
                        chain.append(f.nodes[p]["k"] + ":" + str((f.fn(p) or {}).get("qn", "")))
                        g = f.fn(p)
                        if f.nodes[p]["k"] in CALLS and g and g["key"] in fm.idx: break
                        p = f.parent.get(p)
                    else: print("UNSEEN", f.loc(i), n["s"], chain)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        c.require("call sites", 150)
        c.require("formatting functions", 15)
        return c.finish()
    hmain(body)
