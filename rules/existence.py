"""Nothing is used before it is known to exist (C23)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import harness
from archlint import program as P
from alternatives import strip, rep, leaves, init_of, bases

FOREIGN = {"getenv", "secure_getenv", "std::getenv", "dlopen", "opendir", "fopen", "getpwuid", "XScreenOfDisplay"}
FINDERS = {"find", "lower_bound", "upper_bound", "find_if", "find_if_not", "search", "adjacent_find", "find_first_of"}
ENDS = {"end", "cend", "rend", "crend"}


def key(f, i):
    """the place that the expression denotes, or None"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]; k = n["k"]
    if k == "DeclRefExpr": return f"d{n.get('d')}" if n.get("dk") in ("local", "parm", "static", "global") else None
    if k == "CXXThisExpr": return "this"
    if k == "MemberExpr" and n.get("dk") == "field":
        b = key(f, n["c"][0]) if n.get("c") else "this"
        return b + "." + n.get("n", "") if b else None
    if k == "UnaryOperator" and n.get("op") == "*": b = key(f, n["c"][0]); return b + "*" if b else None
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.get("args", ())) == 1 and (f.fn(i) or {}).get("special") in ("copyctor", "movector"): return key(f, n["args"][0])
    if k == "CallExpr" and (f.fn(i) or {}).get("name") in ("move", "forward", "as_const") and n.get("args"): return key(f, n["args"][0])
    return None


def shown(f, i):
    i = strip(f, i); n = f.nodes[i]
    if n["k"] == "MemberExpr": return n.get("n")
    if n["k"] == "DeclRefExpr": return n.get("n")
    return "the result"


def opargs(n):
    a = list(n.get("args", ()))
    return ([n["obj"]] if n.get("obj") is not None and n["obj"] not in a else []) + a


def ty(f, n): return f.T(n["t"]) if "t" in n else ""


def mutable(t):
    """a reference through which the referred object can be changed"""
    b = t.rstrip("& ").strip()
    return not b.endswith("const") if b.endswith(("*", "const")) else not b.startswith("const ")


def is_optional(t): return re.match(r"^(const )?std::optional<", t or "") is not None


class Ana:
    def __init__(self, prog):
        self.prog = prog; self.maynull = set(); self.sites = {}
        self._fix()

    def _fix(self):
        """library functions (by key) that may return a null pointer"""
        P_ = {}
        for k, f in self.prog.funcs.items():
            r = f.ret
            if not r.endswith("*"): continue
            info = self.prog.fninfo.get(k) or {}
            P_[k] = f
        changed = True
        while changed:
            changed = False
            for k, f in P_.items():
                if k in self.maynull: continue
                if self._returns_null(f):
                    self.maynull.add(k); changed = True
            for base, os_ in self.prog.overriders.items():
                if base not in self.maynull and any(o in self.maynull for o in os_): self.maynull.add(base); changed = True

    def _returns_null(self, f):
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "ReturnStmt" or not n.get("c"): continue
            st = [n["c"][0]]
            while st:
                e = strip(f, st.pop())
                if e is None or e < 0: continue
                m = f.nodes[e]
                if m["k"] == "ConditionalOperator": st += m["c"][1:3]; continue
                if m["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (m["k"] == "InitListExpr" and not m.get("c")) or m["k"] in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"): return True
                if m["k"] in ("CallExpr", "CXXMemberCallExpr") and (f.fn(e) or {}).get("key") in self.maynull: return True
        return False

    def source(self, f, e):
        """does the expression yield something that may not exist?  (kind, what)"""
        e = strip(f, e)
        if e is None or e < 0: return None
        n = f.nodes[e]; k = n["k"]
        if k == "ConditionalOperator": return self.source(f, n["c"][1]) or self.source(f, n["c"][2])
        if k in ("CXXConstructExpr",) and len(n.get("args", ())) == 1: return self.source(f, n["args"][0])
        if k in ("CallExpr", "CXXMemberCallExpr"):
            g = f.fn(e)
            if not g: return None
            t = ty(f, n)
            if g["key"] in self.maynull and t.endswith("*"): return ("pointer", g["qn"])
            if g["qn"] in FOREIGN or g["name"] in FOREIGN and not g.get("cls"): return ("pointer", g["name"])
            if g["name"] in FINDERS and (g["qn"].startswith("std::") or "core::" in g["qn"]) and re.search(r"iterator|\*$", t): return ("iterator", g["qn"])
            if g["qn"] == "std::get_if" or g["qn"] == "std::any_cast" and t.endswith("*"): return ("pointer", g["name"])
        if k == "CXXDynamicCastExpr" and ty(f, n).endswith("*"): return ("pointer", "dynamic_cast")
        if k == "CXXNullPtrLiteralExpr": return ("pointer", "nullptr")
        return None

    # -- conditions: facts that hold when the condition is true / false

    def facts(self, f, e, pos, depth=0):
        """(keys known to exist, keys known not to)"""
        e = strip(f, e)
        if e is None or e < 0 or depth > 8: return set(), set()
        n = f.nodes[e]; k = n["k"]
        if k == "UnaryOperator" and n.get("op") == "!": return self.facts(f, n["c"][0], not pos, depth + 1)
        if k == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return self.facts(f, n["args"][0], pos, depth + 1)
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            if (n["op"] == "&&") == pos:
                a = self.facts(f, n["c"][0], pos, depth + 1); b = self.facts(f, n["c"][1], pos, depth + 1)
                return a[0] | b[0], a[1] | b[1]
            return set(), set()
        if k == "BinaryOperator" and n.get("op") in ("==", "!=") or k == "CXXOperatorCallExpr" and (f.fn(e) or {}).get("name") in ("operator==", "operator!="):
            eq = (n.get("op") == "==") if k == "BinaryOperator" else f.fn(e)["name"] == "operator=="
            a, b = (n["c"] if k == "BinaryOperator" else opargs(n))[:2]
            for x, y in ((a, b), (b, a)):
                kx = key(f, x)
                if kx is None: continue
                if key(f, y) is None and not self.absent(f, y): # equal to something that exists
                    return ({kx}, set()) if eq == pos else (set(), set())
                return (set(), {kx}) if eq == pos else ({kx}, set())
            return set(), set()
        if k == "BinaryOperator" and n.get("op") in ("<", ">", "<=", ">="):
            return {x for x in (key(f, n["c"][0]), key(f, n["c"][1])) if x}, set()
        if k == "CXXMemberCallExpr" and (f.fn(e) or {}).get("name") in ("has_value", "operator bool"):
            x = key(f, n.get("obj"))
            return (({x}, set()) if pos else (set(), {x})) if x else (set(), set())
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and not key(f, e):
            # a function that does nothing but test
            g = self.prog.funcs.get((f.fn(e) or {}).get("key"))
            if g and g is not f and rep(g.file):
                ret = [i for i in g.walk() if g.nodes[i]["k"] == "ReturnStmt"]
                if len(ret) == 1 and g.nodes[ret[0]].get("c") and g.parent.get(ret[0]) == g.d.get("root") and len(g.nodes[g.d["root"]].get("c", ())) == 1:
                    a = self.facts(g, g.nodes[ret[0]]["c"][0], pos, depth + 2)
                    return tuple({y for y in (self.outside(g, x, f, e) for x in xs) if y} for xs in a)
            return set(), set()
        if k == "DeclRefExpr" and n.get("dk") == "local" and ty(f, n) in ("bool", "const bool"):
            i = init_of(f, n.get("d"))
            a = self.facts(f, i, pos, depth + 1) if i is not None and i >= 0 else (set(), set())
            return a[0] | {f"d{n.get('d')}={pos}"}, a[1]
        if k == "BinaryOperator" and n.get("op") == "=": return self.facts(f, n["c"][0], pos, depth + 1)
        x = key(f, e)
        if x: return ({x}, set()) if pos else (set(), {x})
        return set(), set()

    def outside(self, g, k, f, e):
        """the place in f that is called k in g when g is called by node e of f"""
        m = re.match(r"(this|d\d+)(.*)$", k)
        root, rest = m.groups()
        if "=" in rest: return None
        n = f.nodes[e]; a = list(n.get("args", ()))
        if root == "this":
            o = n.get("obj")
            b = "this" if o is None or o < 0 else key(f, o)
            return b + rest if b else None
        ps = g.d.get("params", ())
        for j, p in enumerate(ps):
            if f"d{p['id']}" == root:
                if n["k"] == "CXXOperatorCallExpr" and n.get("obj") is None and len(a) == len(ps) + 1: a = a[1:]
                b = key(f, a[j]) if j < len(a) else None
                return b + rest if b else None
        return k if g.d.get("lambda") and g.file == f.file else None

    def known_outside(self, g, k, depth=0):
        """is the place known to exist wherever the function is called?"""
        if depth > 4 or k is None: return False
        ss = [s for s in self.sites.get(g.key, ()) if s[0] is not g]
        if not ss: return False
        for f, e, ok in ss:
            x = self.outside(g, k, f, e)
            if x is None or x not in ok and not self.known_outside(f, x, depth + 1): return False
        return True

    def absent(self, f, e):
        e = strip(f, e); n = f.nodes[e]
        if n["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral"): return True
        if n["k"] == "DeclRefExpr" and n.get("n") == "nullopt": return True
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and (f.fn(e) or {}).get("name") in ENDS: return True
        if n["k"] == "CXXConstructExpr" and n.get("args"): return self.absent(f, n["args"][0])
        return False

    # -- per function

    def derefs(self, f, i):
        """(expression, how) if the node uses what the expression refers to"""
        n = f.nodes[i]; k = n["k"]
        if k == "UnaryOperator" and n.get("op") == "*": return n["c"][0], "dereferenced"
        if k == "MemberExpr" and n.get("arrow") and n.get("c"): return n["c"][0], "dereferenced"
        if k == "ArraySubscriptExpr": return n["c"][0], "subscripted"
        if k == "CXXOperatorCallExpr" and (f.fn(i) or {}).get("name") in ("operator*", "operator->") and len(opargs(n)) == 1: return opargs(n)[0], "dereferenced"
        if k == "CXXMemberCallExpr" and n.get("obj") is not None:
            g = f.fn(i)
            o = strip(f, n["obj"])
            if g and g["name"] == "value" and is_optional(g.get("cls") and "std::optional<" if g.get("cls") == "std::optional" else ""): return n["obj"], "accessed"
        return None

    def interesting(self, f):
        for n in f.nodes:
            if n["k"] == "CXXNullPtrLiteralExpr" or n["k"] == "CXXDynamicCastExpr": return True
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                g = f.fn(i)
                if not g: continue
                if g.get("cls") == "std::optional" or g["qn"].startswith("std::optional"): return True
                if g["name"] in FINDERS or g["key"] in self.maynull or g["name"] in FOREIGN: return True
        return False

    def run(self, f, c, report):
        cfg = f.cfg()
        if not cfg: return
        entry = f.entry
        state = {entry: (frozenset(), frozenset())}   # (may be absent, known to exist)
        why = {}
        work = [entry]; out = []
        it = 0
        while work:
            it += 1
            if it > 4000: c.count("functions beyond the bound"); return
            b = work.pop()
            blk = cfg[b]
            st = self.block(f, blk, state[b], why, None)
            for j, s in enumerate(blk["s"]):
                if s is None or s < 0: continue
                ns = self.edge(f, blk, st, j)
                if ns is None: continue
                o = state.get(s)
                m = ns if o is None else (o[0] | ns[0], o[1] & ns[1])
                if m != o: state[s] = m; work.append(s)
        for b, s0 in state.items(): self.block(f, cfg[b], s0, why, report)

    def edge(self, f, blk, st, j):
        t = blk.get("term")
        if not t or t["k"] == "SwitchStmt" or len(blk["s"]) != 2 or t.get("c") is None or t["c"] < 0: return st
        may, ok = st
        e = t["c"]
        # the value of the last operand decides
        m = f.nodes[strip(f, e)]
        while m["k"] == "BinaryOperator" and m.get("op") in ("&&", "||"): e = m["c"][1]; m = f.nodes[strip(f, e)]
        yes, no = self.facts(f, e, j == 0)
        if t["k"] not in ("BinaryOperator",):
            y2, n2 = self.facts(f, t["c"], j == 0); yes |= y2; no |= n2
        for x in yes:
            m_ = re.match(r"(d\d+)=(True|False)$", x)
            if m_ and f"{m_.group(1)}={m_.group(2) != 'True'}" in ok: return None
        if any(x in ok and x not in may for x in ()): return None
        return (may - yes) | no, (ok | yes) - no

    def block(self, f, blk, st, why, report):
        may, ok = set(st[0]), set(st[1])

        def assign(kx, e, decl=False):
            for s in [x for x in ok if x.startswith(kx + ".") or x.startswith(kx + "*") or x.startswith(kx + "=")]: ok.discard(s)
            may.discard(kx); ok.discard(kx)
            if e is None: return
            s = self.source(f, e)
            ky = key(f, e)
            if s: may.add(kx); why[kx] = s; return
            if ky is not None:
                if ky in may: may.add(kx); why[kx] = why.get(ky, ("pointer", "?"))
                elif ky in ok: ok.add(kx)
                return
            ee = strip(f, e); n = f.nodes[ee]
            t = ty(f, n)
            if n["k"] in ("CXXConstructExpr", "InitListExpr") and not (n.get("args") or n.get("c")): return
            if n["k"] == "DeclRefExpr" and n.get("n") == "nullopt": return
            if n["k"] == "CXXConstructExpr" and len(n.get("args", ())) == 1:
                a = strip(f, n["args"][0]); m = f.nodes[a]
                if m["k"] == "DeclRefExpr" and m.get("n") == "nullopt": return
                if is_optional(ty(f, m)): return
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and is_optional(t): return
            if n["k"] == "CXXBoolLiteralExpr": ok.add(f"{kx}={n.get('v') in ('1', 'true', True)}"); return
            ok.add(kx)

        for e in blk["e"]:
            if isinstance(e, dict): continue
            n = f.nodes[e]; k = n["k"]
            if k == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("id") is None or d.get("static"): continue
                    i = d.get("init")
                    assign(f"d{d['id']}", i if i is not None and i >= 0 else None)
            elif k == "BinaryOperator" and n.get("op") == "=":
                kx = key(f, n["c"][0])
                if kx: assign(kx, n["c"][1])
            elif k == "CXXOperatorCallExpr" and (f.fn(e) or {}).get("name") == "operator=" and len(opargs(n)) == 2:
                a = opargs(n)
                kx = key(f, a[0])
                if kx: assign(kx, a[1])
            elif k == "UnaryOperator" and n.get("op") in ("++", "--"):
                kx = key(f, n["c"][0])
                if kx: may.discard(kx)
            elif k == "CXXOperatorCallExpr" and (f.fn(e) or {}).get("name") in ("operator++", "operator--") and opargs(n):
                kx = key(f, opargs(n)[0])
                if kx: may.discard(kx)
            elif k == "CXXMemberCallExpr" and (f.fn(e) or {}).get("name") in ("emplace", "reset", "swap") and n.get("obj") is not None:
                kx = key(f, n["obj"])
                if kx:
                    for s in [x for x in ok if x.startswith(kx + ".")]: ok.discard(s)
                    ok.discard(kx)
                    if f.fn(e)["name"] == "emplace": ok.add(kx)
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr"):
                g = f.fn(e) or {}
                for a, p in zip(n.get("args", ()), g.get("params", ()) or ()):
                    t = f.tu.types[p["t"]] if isinstance(p, dict) and isinstance(p.get("t"), int) else ""
                    x = strip(f, a) if a is not None else None
                    kx = None
                    if t.endswith("&") and mutable(t): kx = key(f, a)
                    elif x is not None and x >= 0 and f.nodes[x]["k"] == "UnaryOperator" and f.nodes[x].get("op") == "&": kx = key(f, f.nodes[x]["c"][0])
                    if kx and g.get("name") not in ("move", "forward", "as_const", "addressof"):
                        may.discard(kx)
            if report is not None and k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr"):
                g = f.fn(e)
                if g and g["key"] in self.prog.funcs: self.sites.setdefault(g["key"], []).append((f, e, frozenset(ok)))
            d = self.derefs(f, e)
            if d and report is not None:
                x, how = d
                s = self.source(f, x)
                i = strip(f, x); m = f.nodes[i]
                t = ty(f, m)
                if s and s[1] not in ("nullptr",): report(f, e, s, None, how); continue
                kx = key(f, x)
                if kx is None:
                    if is_optional(t): report(f, e, ("optional", "an expression"), None, how)
                    continue
                if is_optional(t):
                    report(f, e, ("optional", shown(f, x)), True if kx in ok else kx, how)
                elif kx in may: report(f, e, why.get(kx, ("pointer", "?")), None, how, shown(f, x))
                elif kx in why: report(f, e, why[kx], True, how)
        return frozenset(may), frozenset(ok)


def scan(prog, c):
    A = Ana(prog)
    seen = set(); late = []
    for f in prog.funcs.values():
        if not rep(f.file) or not A.interesting(f): continue
        c.count("functions with values that may be absent")

        def report(f, e, s, good, how, name=None):
            k = (f.loc(e), s[1])
            if k not in seen: c.count("uses of values that may be absent"); c.count("obligations")
            if k in seen: return
            seen.add(k)
            if good is True: return
            if good is not None: late.append((f, e, s, good, how, name)); return
            show(f, e, s, how, name)

        def show(f, e, s, how, name):
            what = {"optional": f"optional `{s[1]}`", "iterator": f"result of {s[1]}()", "pointer": f"`{name or 'result'}` ({s[1] + '()' if s[1] != 'nullptr' else 'nullptr'})"}[s[0]]
            c.violation(f"{f.rel()}:{f.qn}:{s[0]}:{s[1]}:{name or ''}", f"{f.loc(e)}: {f.qn}(): {what} is {how} on a path on which it is not known to exist")
        A.run(f, c, report)
    if late:    # the callers of functions that rely on what their callers know
        callers = {}
        for f in prog.funcs.values():
            if rep(f.file):
                for i in f.walk():
                    n = f.nodes[i]
                    if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr"):
                        g = f.fn(i)
                        if g: callers.setdefault(g["key"], {})[f.key] = f
        todo = [x[0].key for x in late]; met = set()
        for _ in range(4):
            nxt = []
            for k in todo:
                for f in callers.get(k, {}).values():
                    if f.key in met: continue
                    met.add(f.key); nxt.append(f.key)
                    if not A.interesting(f): A.run(f, c, lambda *a: None)
            todo = nxt
    for f, e, s, k, how, name in late:
        if not A.known_outside(f, k): show(f, e, s, how, name)


# -- what only some platforms, servers and files provide

CAPS = {   # capability -> (functions that require it, functions that do not, members that tell it, functions that tell it)
    "the XRandR extension": (r"XRR\w+$", r"XRR(Query\w+|Free\w+)$", {"have_xrandr"}, set()),
    "the X double buffer extension": (r"Xdbe\w+$", r"Xdbe(Query\w+|Free\w+)$", {"have_xdbe", "double_buffered"}, set()),
    # ... where the connection is not refused without it:
    "the X keyboard extension": (r"Xkb\w+$", r"Xkb(Query\w+|LibraryVersion|Free\w+)$", {"have_xkb"}, set()),
    # contexts exist only if the extension does, and are then what these functions take
    "the GLX extension": (r"glX\w+$", r"glX(Query\w+|DestroyContext|MakeCurrent|SwapBuffers)$", {"have_glx"}, set()),
    "scalability of the font face": (r"FT_(Set_Char_Size|Set_Pixel_Sizes|Request_Size)$", r"$^", set(), {"is_scalable"}),
}


REQUIRED = {"the X keyboard extension"}    # may be made a condition for using an object at all


class Caps:
    def __init__(self, prog):
        self.prog = prog; self.at = {}; self.callers = {}; self.made = {}; self.writes = {}
        for f in prog.funcs.values():
            info = prog.fninfo.get(f.key) or {}
            for i in f.walk():
                n = f.nodes[i]
                if n["k"] == "LambdaExpr":
                    g = f.fn(i)
                    if g: self.made.setdefault(g["key"], []).append((f, i))
                    for s in n.get("gspecs", ()): self.made.setdefault(f.tu.fns[s]["key"], []).append((f, i))
                elif n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr"):
                    g = f.fn(i)
                    if g: self.callers.setdefault(g["key"], []).append((f, i))
                elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                    x = strip(f, n["c"][0]); m = f.nodes[x]
                    if m["k"] == "MemberExpr" and m.get("dk") == "field": self.writes.setdefault(m.get("qn"), []).append((f, i, n["c"][1]))
        self.memo = {}

    def conditions(self, f):
        """node of a CFG element -> the conditions (expression, outcome) that hold whenever it is reached"""
        if f.key in self.at: return self.at[f.key]
        out = {}; self.at[f.key] = out
        cfg = f.cfg()
        if not cfg: return out
        state = {f.entry: frozenset()}; work = [f.entry]
        while work:
            b = work.pop(); blk = cfg[b]
            t = blk.get("term")
            for j, s in enumerate(blk["s"]):
                if s is None or s < 0: continue
                ns = state[b]
                if t and t["k"] not in ("SwitchStmt",) and len(blk["s"]) == 2 and t.get("c") is not None and t["c"] >= 0 and not self.asserted(f, t["c"]):
                    e = t["c"]; m = f.nodes[strip(f, e)]
                    ns = ns | {(e, j == 0)}
                    while m["k"] == "BinaryOperator" and m.get("op") in ("&&", "||"): e = m["c"][1]; m = f.nodes[strip(f, e)]
                    ns = ns | {(e, j == 0)}
                o = state.get(s)
                m = ns if o is None else o & ns
                if m != o: state[s] = m; work.append(s)
        for b, st in state.items():
            for e in cfg[b]["e"]:
                if not isinstance(e, dict): out[e] = st
            t = cfg[b].get("term")
            if t and t.get("n") is not None and t["n"] >= 0: out.setdefault(t["n"], st)
        return out

    def asserted(self, f, e):
        while e is not None and e >= 0:
            if "ASSERT" in (f.nodes[e].get("mac") or "") and "STEADY" not in f.nodes[e]["mac"]: return True
            e = f.parent.get(e)
        return False

    def tells(self, f, e, cap, pos=True, depth=0):
        """does the outcome of the expression imply the capability?"""
        e = strip(f, e)
        if e is None or e < 0 or depth > 12: return False
        n = f.nodes[e]; k = n["k"]
        members, fns = CAPS[cap][2:]
        if k == "UnaryOperator" and n.get("op") == "!": return self.tells(f, n["c"][0], cap, not pos, depth + 1)
        if k == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return self.tells(f, n["args"][0], cap, pos, depth + 1)
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            both = (n["op"] == "&&") != pos
            a, b = (self.tells(f, x, cap, pos, depth + 1) for x in n["c"])
            return (a and b) if both else (a or b)
        if k == "ConditionalOperator" and pos:
            return all(self.never(f, x) or self.tells(f, x, cap, True, depth + 1) for x in n["c"][1:3]) or self.tells(f, n["c"][0], cap, True, depth + 1) and self.never(f, n["c"][2])
        if not pos: return False
        if k == "MemberExpr" and n.get("dk") == "field":
            if n.get("n") in members: return True
            return self.variable(("field", n.get("qn")), self.writes.get(n.get("qn"), ()), cap, depth) if ty(f, n).endswith("bool") else False
        if k in ("CallExpr", "CXXMemberCallExpr") and (f.fn(e) or {}).get("name") in fns: return True
        if k == "BinaryOperator" and n.get("op") == "&" and cap == "scalability of the font face":
            names = [f.nodes[strip(f, x)] for x in n["c"]]
            return any(m.get("n") == "face_flags" for m in names) and any(m.get("v") == "1" or f.nodes[x].get("v") == "1" for m, x in zip(names, n["c"])) or n.get("mac") == "FT_IS_SCALABLE"
        if k == "DeclRefExpr" and n.get("dk") == "local" and ty(f, n).replace("const ", "") == "bool":
            w = []
            for i in f.walk():
                m = f.nodes[i]
                if m["k"] == "DeclStmt": w += [(f, i, d["init"]) for d in m.get("decls", ()) if d.get("id") == n.get("d") and d.get("init") is not None and d["init"] >= 0]
                if m["k"] == "BinaryOperator" and m.get("op") == "=" and key(f, m["c"][0]) == f"d{n.get('d')}": w.append((f, i, m["c"][1]))
            return self.variable((f.key, n.get("d")), w, cap, depth)
        if k == "DeclRefExpr" and n.get("dk") == "parm" and ty(f, n).replace("const ", "") == "bool":
            info = self.prog.fninfo.get(f.key) or {}
            idx = [j for j, p in enumerate(f.d.get("params", ())) if p["id"] == n.get("d")]
            if not idx: return False
            w = []
            for g, i in self.callers.get(f.key, ()):
                a = g.nodes[i].get("args", ())
                if len(a) > idx[0]: w.append((g, i, a[idx[0]]))
            return self.variable((f.key, n.get("d")), w, cap, depth)
        return False

    def never(self, f, e):
        e = strip(f, e)
        return e is not None and e >= 0 and (f.nodes[e].get("v") in ("0", "false", False) or f.nodes[e]["k"] == "InitListExpr" and not f.nodes[e].get("c"))

    def variable(self, ident, writes, cap, depth):
        """is a variable true only where the capability is there?"""
        k = (ident, cap)
        if k in self.memo: return self.memo[k]
        self.memo[k] = True
        r = bool(writes) and all(self.never(g, e) or self.tells(g, e, cap, True, depth + 1) or self.holds(g, i, cap, depth + 1) for g, i, e in writes)
        self.memo[k] = r
        return r

    def holds(self, f, i, cap, depth=0):
        """is the node reached only where the capability is there?"""
        if depth > 12: return False
        at = self.conditions(f)
        x = i
        while x is not None and x not in at: x = f.parent.get(x)
        if x is not None and any(self.tells(f, e, cap, pos, depth + 1) for e, pos in at[x]): return True
        x = i      # operands of && and ?: within the element
        while x is not None:
            p = f.parent.get(x)
            if p is None: break
            m = f.nodes[p]
            if m["k"] == "ConditionalOperator" and x in m["c"][1:3] and self.tells(f, m["c"][0], cap, x == m["c"][1], depth + 1): return True
            x = p
        k = (f.key, "fn", cap)
        if k in self.memo: return self.memo[k]
        self.memo[k] = True
        sites = self.made.get(f.key) or self.callers.get(f.key) or ()
        r = bool(sites) and all(self.holds(g, j, cap, depth + 1) for g, j in sites)
        self.memo[k] = r
        return r

    def required(self, f, cap):
        """does another member function of the class refuse to go on without the capability?"""
        if not f.cls: return False
        for g in self.prog.funcs.values():
            if g.d.get("clsfull", g.cls) != f.d.get("clsfull", f.cls) or g.key == f.key: continue
            for i in g.walk():
                n = g.nodes[i]
                if n["k"] != "IfStmt" or n.get("else") not in (None, -1): continue
                if not self.tells_not(g, n["cond"], cap): continue
                body = [strip(g, x) for x in g.walk(n["then"])]
                if any(g.nodes[x]["k"] in ("ReturnStmt", "CXXThrowExpr") for x in body): return True
        return False

    def tells_not(self, f, e, cap):
        """is the condition met whenever the capability is missing?"""
        e = strip(f, e); n = f.nodes[e]
        if n["k"] == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return self.tells_not(f, n["args"][0], cap)
        if n["k"] == "UnaryOperator" and n.get("op") == "!":
            x = strip(f, n["c"][0]); m = f.nodes[x]
            if m["k"] == "UnaryOperator" and m.get("op") == "!": return self.tells_not(f, m["c"][0], cap)
            return self.tells(f, n["c"][0], cap)
        if n["k"] == "BinaryOperator" and n.get("op") == "||": return any(self.tells_not(f, x, cap) for x in n["c"])
        return False


def scan_caps(prog, c):
    C = Caps(prog); seen = set()
    for f in prog.funcs.values():
        if not rep(f.file): continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "CallExpr": continue
            g = f.fn(i)
            if not g or g.get("cls"): continue
            for cap, (need, free, _, _) in CAPS.items():
                if not re.match(need, g["name"]) or re.match(free, g["name"]): continue
                k = (f.loc(i), g["name"])
                if k in seen: continue
                seen.add(k)
                c.count("calls that require an optional capability"); c.count("obligations")
                if not C.holds(f, i, cap) and not (cap in REQUIRED and C.required(f, cap)):
                    c.violation(f"{f.rel()}:{f.qn}:{g['name']}", f"{f.loc(i)}: {f.qn}() calls {g['name']}() although {cap} may be missing there")


# -- running selections

def scan_best(prog, c):
    """the best value so far is examined only where something has been selected"""
    C = Caps.__new__(Caps); C.prog = prog; C.at = {}
    seen = set()
    for f in prog.funcs.values():
        if not rep(f.file): continue
        idx = {}; num = {}
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "DeclStmt": continue
            for d in n.get("decls", ()):
                e = d.get("init")
                if e is None or e < 0 or d.get("static"): continue
                x = strip(f, e); v = str(f.nodes[e].get("v", f.nodes[x].get("v", "")))
                if v.startswith("-"): idx[f"d{d['id']}"] = d
                num[f"d{d['id']}"] = d
        if not idx: continue
        sets = {}
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "CompoundStmt": continue
            a = {}
            for s in n.get("c", ()):
                s = strip(f, s); m = f.nodes[s]
                if m["k"] == "BinaryOperator" and m.get("op") == "=":
                    kx = key(f, m["c"][0])
                    if kx: a[kx] = s
            for x in a:
                if x in idx:
                    for y in a:
                        if y != x and y in num and y not in idx: sets.setdefault(y, (x, []))[1].append(a[y])
        for y, (x, ss) in sets.items():
            # no meaning before the first selection: starts at zero, and is otherwise set only by selections
            e = num[y]["init"]; v = str(f.nodes[e].get("v", f.nodes[strip(f, e)].get("v", "")))
            if v not in ("0", "0.0", "") or v == "" and f.nodes[strip(f, e)]["k"] not in ("FloatingLiteral", "InitListExpr", "ImplicitValueInitExpr"): continue
            if any(f.nodes[i]["k"] == "BinaryOperator" and f.nodes[i].get("op") == "=" and i not in ss and key(f, f.nodes[i]["c"][0]) == y for i in f.walk()): continue
            for i in f.walk():
                n = f.nodes[i]
                if n["k"] != "BinaryOperator" or n.get("op") not in ("<", ">", "<=", ">=", "==", "!="): continue
                if y not in (key(f, n["c"][0]), key(f, n["c"][1])): continue
                at = C.conditions(f)
                e = i
                while e is not None and e not in at: e = f.parent.get(e)
                st = at.get(e, ())
                ok = any(selected(f, q, pos, x) for q, pos in st)
                if (f.loc(i), y) in seen: continue
                seen.add((f.loc(i), y))
                c.count("uses of running selections"); c.count("obligations")
                if not ok: c.violation(f"{f.rel()}:{f.qn}:{num[y]['n']}", f"{f.loc(i)}: {f.qn}() examines `{num[y]['n']}` where nothing may have been selected yet (`{idx[x]['n']}`)")


def selected(f, e, pos, x):
    e = strip(f, e); n = f.nodes[e]; k = n["k"]
    if k == "UnaryOperator" and n.get("op") == "!": return selected(f, n["c"][0], not pos, x)
    if k == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return selected(f, n["args"][0], pos, x)
    if k != "BinaryOperator": return False
    if n["op"] in ("&&", "||"): return (n["op"] == "&&") == pos and any(selected(f, y, pos, x) for y in n["c"])
    a, b = n["c"]; op = n["op"]
    if key(f, b) == x: a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if key(f, a) != x: return False
    v = str(f.nodes[strip(f, b)].get("v", f.nodes[b].get("v")))
    if not pos: op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}.get(op)
    return op == ">=" and v == "0" or op in (">", "!=") and v == "-1"



def scan_all(prog, c):
    scan(prog, c); scan_caps(prog, c); scan_best(prog, c)


def main(pid):
    def body():
        c = harness.Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        c.count("functions examined", len(prog.funcs))
        scan_all(prog, c)
        harness.selftest(c, scan_all)
        c.require("functions examined", 8000)
        c.require("uses of values that may be absent", 60)
        c.require("calls that require an optional capability", 8)
        return c.finish()
    harness.main(body)
