"""Assertions and debug mode state facts; they never do work that the program depends on."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")
CTOR = ("CXXConstructExpr", "CXXTemporaryObjectExpr")
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
# accessors of the standard library that are not const but change nothing
ACCESS = {"begin", "end", "data", "get", "find", "at", "front", "back", "egptr", "gptr", "eback", "pptr", "epptr", "pbase", "rdstate", "operator*", "operator->", "operator[]", "rbegin", "rend",
          "lower_bound", "upper_bound", "equal_range", "rdbuf", "operator bool", "top", "value", "c_str", "size", "empty", "forward", "as_const", "addressof", "launder", "get_if", "holds_alternative", "operator-",
          "move", "next", "prev", "advance", "all_of", "any_of", "none_of", "find_if", "search", "mismatch", "equal", "is_sorted", "distance", "min", "max", "abs", "visit", "invoke", "exchange_none"}
CPURE = {"strlen", "memcmp", "strcmp", "strncmp", "isdigit", "isalpha", "abs", "fabs", "floor", "ceil", "round", "isnan", "isinf", "isfinite", "strchr", "wcslen", "mbsinit", "__builtin_expect", "__errno_location",
         "getpid", "pthread_self", "pthread_equal", "std::isfinite", "iswspace", "sqrt", "fmod", "log", "exp", "pow", "log2", "exp2", "sin", "cos", "__builtin_constant_p", "__builtin_unreachable", "__builtin_add_overflow_p",
         "XDefaultScreen", "XScreenCount", "XRootWindow", "XVisualIDFromVisual", "glGetError_none", "SDL_WasInit", "SDL_GetWindowID", "FT_IS_SCALABLE", "SDL_HasEvent", "clock"}
SUB = ("c", "args", "obj")


def root_var(f, i):
    """what a store through the lvalue i changes: ('local', id) for local objects, None otherwise"""
    while True:
        n = f.nodes[i]; k = n["k"]
        if k == "DeclRefExpr":
            if n.get("dk") in ("local", "parm") and not n.get("cap"): return ("local", n["d"])
            return None
        if k == "MemberExpr" and not n.get("arrow") and n.get("c"): i = n["c"][0]; continue
        if k in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr", "ArraySubscriptExpr") and n.get("c"): i = n["c"][0]; continue
        if k == "CXXOperatorCallExpr" and n.get("obj") is not None: i = n["obj"]; continue
        return None


class Purity:
    def __init__(self, prog):
        self.prog = prog; self.memo = {}

    def func(self, key, depth=0):
        """None if the function has no effect, otherwise a description of the effect"""
        if key in self.memo: return self.memo[key]
        self.memo[key] = None
        f = self.prog.funcs.get(key)
        if f is None: return None
        loc = set()
        byref = {p["id"] for p in f.params if (f.T(p["t"]) or "").endswith("&") or (f.T(p["t"]) or "").rstrip().endswith("*")}
        refs = {d["id"] for n in f.nodes if n["k"] == "DeclStmt" for d in n.get("decls", ()) if (f.T(d["t"]) or "").endswith("&")}
        self.memo[key] = self.tree(f, None, byref | refs, depth)
        return self.memo[key]

    def external(self, f, n, info):
        nm = info["name"]; qn = info["qn"]
        if info.get("const") or info.get("special") or info.get("kind") in ("ctor", "conv"): return None
        if info.get("constexpr") and not info.get("cls"): return None
        if info.get("externc"): return None if nm in CPURE else f"calls {qn}()"
        if nm in ACCESS or nm in CPURE: return None
        if nm in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>", "operator+", "operator/", "operator&", "operator|", "operator~", "operator^", "operator!"): return None
        if nm.startswith("__builtin"): return None
        if "cls" in info and info["cls"] and not info.get("static"): return f"calls {qn}(), which is not const"
        ps = [f.tu.types[p["t"]] for p in info.get("params", ())] if info.get("params") and isinstance(info["params"][0], dict) else []
        for t in ps:
            if t.endswith("&") and not t.startswith("const "): return f"calls {qn}(), which may change its argument"
        return None

    def tree(self, f, root, byref, depth=0):
        it = f.walk(root) if root is not None else f.walk()
        for i in it:
            n = f.nodes[i]; k = n["k"]
            if str(n.get("mac", "")).startswith("ARCHON_") and "ASSERT" in n["mac"] and root is None: continue
            tgt = None
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN: tgt = n["c"][0]
            elif k == "UnaryOperator" and n.get("op") in ("++", "--"): tgt = n["c"][0]
            if tgt is not None:
                r = root_var(f, tgt)
                if root is not None:
                    # inside the condition itself: any assignment is work
                    return f"assigns to {self.text(f, tgt)}"
                if r is None or r[1] in byref: return f"assigns to {self.text(f, tgt)} ({f.loc(i)})"
                continue
            if k in ("CXXNewExpr", "CXXDeleteExpr", "CXXThrowExpr") and root is not None: return "allocates, deletes or throws"
            if k == "CXXDeleteExpr": return f"deletes ({f.loc(i)})"
            if k in CALLS:
                g = f.fn(i)
                if g is None: continue
                if g["key"] in self.prog.funcs if "key" in g else False:
                    if depth > 8: continue
                    e = self.func(g["key"], depth + 1)
                    if e and root_arg_local(f, n, g, byref) and root is None: continue
                    if e and g.get("cls") and not g.get("static") and not g.get("const") and n.get("obj") is not None and root is None:
                        r = root_var(f, n["obj"])
                        if r and r[1] not in byref: continue
                    if e: return f"calls {g['qn']}(), which {e}" if "which" not in e else f"calls {g['qn']}(), which {e.split(', which ', 1)[-1]}"
                    continue
                if g["name"] == "terminate": continue
                e = self.external(f, n, g)
                if e:
                    if root is None:
                        r = root_var(f, n["obj"]) if n.get("obj") is not None else (root_var(f, n["args"][0]) if n.get("args") else None)
                        if r and r[1] not in byref: continue
                    return e
        return None

    def text(self, f, i):
        n = f.nodes[i]
        if n["k"] in ("DeclRefExpr", "MemberExpr"): return n.get("n", "?")
        for c in n.get("c", ()):
            if c is not None and c >= 0:
                return self.text(f, c)
        return "an object"


def root_arg_local(f, n, g, byref):
    """all mutable reference arguments are local objects of the caller"""
    ok = False
    for a in n.get("args", ()):
        r = root_var(f, a)
        if r and r[1] not in byref: ok = True
    return ok and not g.get("cls")


def assertions(f):
    for i in f.walk():
        n = f.nodes[i]
        if n["k"] == "ConditionalOperator" and n.get("mac") in ("ARCHON_ASSERT", "ARCHON_ASSERT_M"): yield i


def rep(f): return f.file.startswith((P.ARCHON, P.VERIF + "/selftest"))


def conditions(prog, c):
    pu = Purity(prog)
    seen = {}
    for f in prog.funcs.values():
        if not rep(f): continue
        for i in assertions(f):
            loc = f.loc(i)
            c.count("assertion conditions"); c.count("obligations")
            if loc in seen: continue
            cond = f.nodes[i]["c"][0]
            e = pu.tree(f, cond, set())
            seen[loc] = e
            if e: c.violation(f"{f.qn}: assertion {e.split(' (')[0]}", f"{loc}: the condition of an assertion in {f.qn}() {e}; the effect is lost when assertions are disabled")


# debug mode against release mode

def show(f, i, d=0):
    if i is None or i < 0: return "_"
    n = f.nodes[i]; k = n["k"]
    if k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr") and n.get("c"): return show(f, n["c"][0], d)
    if k == "LambdaExpr": return k
    if k == "StringLiteral": return k
    if str(n.get("mac", "")).startswith("ARCHON_TERMINATE") or "ASSERT" in str(n.get("mac", "")): return "-"
    a = [k]
    for x in ("n", "op", "v", "s"):
        if x in n and not isinstance(n[x], (list, dict)): a.append(str(n[x]))
    g = f.fn(i) if "fn" in n else None
    if g: a.append(g["qn"])
    if k == "DeclStmt":
        for dd in n.get("decls", ()): a.append(dd.get("n", "") + "=" + (show(f, dd["init"], d + 1) if dd.get("init") is not None and dd["init"] >= 0 else ""))
        return " ".join(a)
    kids = []
    kids += [x for x in n.get("c", ()) if x is not None]
    return " ".join(a) + "(" + ",".join(show(f, x, d + 1) for x in kids) + ")"


def names(f, i):
    out = set()
    for j in f.walk(i):
        n = f.nodes[j]
        if n["k"] == "MemberExpr": out.add(("m", n.get("n")))
        elif n["k"] == "DeclRefExpr": out.add(("v", n.get("n")))
    return out


STM = ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CXXTryStmt", "CXXCatchStmt", "CaseStmt", "DefaultStmt", "LabelStmt", "CXXForRangeStmt", "AttributedStmt")


def leaves(f, i, out):
    if i is None or i < 0: return
    n = f.nodes[i]; k = n["k"]
    if "ASSERT" in str(n.get("mac", "")): return
    if k in ("CXXStaticCastExpr", "CStyleCastExpr", "ExprWithCleanups", "ConditionalOperator", "ParenExpr") and any("ASSERT" in str(f.nodes[j].get("mac", "")) for j in n.get("c", ()) if j is not None and j >= 0): return
    if k == "NullStmt": return
    if k in STM:
        kids = [x for x in n.get("c", ()) if x is not None and x >= 0]
        if k not in ("CompoundStmt",): out.append((k, i))
        for x in kids: leaves(f, x, out)
        return
    out.append((show(f, i), i))


def modes(dbg, rel, c):
    import difflib
    dm = {}
    for full, r in dbg.records.items():
        q = rel.records.get(full)
        if q is None: continue
        for x in {fd["n"] for fd in r.get("fields", ())} - {fd["n"] for fd in q.get("fields", ())}: dm.setdefault(x, set()).add(r["qn"])
    c.count("members that exist in debug mode only", len(dm))
    done = set()
    pu = Purity(dbg)
    for key, f in dbg.funcs.items():
        g = rel.funcs.get(key)
        if g is None or not rep(f): continue
        if (f.file, f.line) in done: continue
        done.add((f.file, f.line))
        c.count("functions compared between debug and release mode"); c.count("obligations")
        a, b = [], []
        for x, y in ((f, a), (g, b)):
            bd = x.d.get("root")
            if bd is None or bd < 0: continue
            leaves(x, bd, y)
        sa, sb = [x[0] for x in a], [x[0] for x in b]
        if sa == sb: continue
        c.count("functions that differ between debug and release mode")
        sm = difflib.SequenceMatcher(None, sa, sb, autojunk=False)
        only = set()
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == "equal": continue
            if j2 > j1:
                n = b[j1][1]
                c.violation(f"modes {f.qn}: release only", f"{g.loc(n)}: {f.qn}() does something in release mode that it does not do in debug mode"); break
            for s, i in a[i1:i2]:
                k = f.nodes[i]["k"]
                if k == "DeclStmt":
                    only |= {d["n"] for d in f.nodes[i].get("decls", ())}; continue
                if k in STM: continue
                ns = names(f, i)
                wr = None
                # only debug-only members and variables may be changed
                n = f.nodes[i]
                if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
                    t = f.nodes[n["c"][0]]
                    if t["k"] == "MemberExpr" and t["n"] in dm or t["k"] == "DeclRefExpr" and t.get("n") in only:
                        wr = pu.tree(f, n["c"][1], set())
                        if wr is None: continue
                    else: wr = f"assigns to {pu.text(f, n['c'][0])}"
                else: wr = pu.tree(f, i, set())
                if k == "ReturnStmt" or k in ("BreakStmt", "ContinueStmt", "GotoStmt", "CXXThrowExpr"): wr = "changes the control flow"
                if wr:
                    c.violation(f"modes {f.qn}: {wr.split(' (')[0]}", f"{f.loc(i)}: {f.qn}() {wr} in debug mode only")


def scan(prog, c):
    conditions(prog, c)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        conditions(prog, c)
        rel = P.load(P.library_tus(), extra=("-DNDEBUG",))
        modes(prog, rel, c)
        selftest(c, scan)
        for what, n in (("assertion conditions", 200), ("functions compared between debug and release mode", 1000)): c.require(what, n)
        return c.finish()
    hmain(body)
