"""No element is accessed at or beyond the end (C07)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import harness
from archlint import program as P
from alternatives import strip, rep
from existence import key, opargs, ty, mutable

SIZED = re.compile(r"^(const )?(std::(vector|array|basic_string_view|deque|span|initializer_list|basic_string)|archon::core::(Vector|Buffer|Deque|Span|Slab|SeedMemory\w*|StringSpan|ArraySeededBuffer|FlatMap|FlatSet)|archon::core::impl::VectorImpl)\b")
SIZEFN = {"size", "length", "ssize"}
ACCESS = {"operator[]"}
CHANGES = {"push_back", "emplace_back", "pop_back", "insert", "erase", "clear", "resize", "append", "assign", "emplace", "reset", "recreate", "expand", "reserve_extra", "swap", "prepend", "append_a", "prepend_a", "push_front", "pop_front"}
INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|unsigned|std::size_t|size_t|std::ptrdiff_t|ptrdiff_t|long long|unsigned int|unsigned long|unsigned long long|unsigned short|unsigned char|signed char)( const)?$")
LIMIT = 3000


def integral(t): return INT.match(t or "") is not None


def array_size(t):
    t = t or ""
    m = re.match(r"^(?:const )?std::array<.*, (\d+)[UuLl]*>(?: const)?&?$", t)
    if m: return int(m.group(1))
    m = re.search(r"^[^(&*]*?\[(\d+)\]", t)
    return int(m.group(1)) if m else None


class Bounds:
    def __init__(self, prog):
        self.prog = prog; self.guards = {}; self.forward = {}
        # data members that hold the size of the object they belong to, and those that hold its elements
        self.sizes = {}; self.datas = {}
        for f in prog.funcs.values():
            if not rep(f.file) or not f.cls: continue
            nm = f.d["name"]
            if nm not in SIZEFN and nm not in ("data", "begin"): continue
            body = f.nodes[f.d["root"]].get("c", ()) if f.d.get("root") is not None and f.d["root"] >= 0 else ()
            if len(body) != 1 or f.nodes[body[0]]["k"] != "ReturnStmt" or not f.nodes[body[0]].get("c"): continue
            m = f.nodes[strip(f, f.nodes[body[0]]["c"][0])]
            if m["k"] == "CXXMemberCallExpr" and (f.fn(strip(f, f.nodes[body[0]]["c"][0])) or {}).get("name") == nm and nm in SIZEFN:
                o = key(f, m["obj"]) if m.get("obj") is not None and m["obj"] >= 0 else None
                if o and o.startswith("this."): self.forward[f.cls] = o[5:]
            if m["k"] == "MemberExpr" and m.get("dk") == "field": (self.sizes if nm in SIZEFN else self.datas).setdefault(m["qn"], True)

    def sz(self, f, b):
        """the number of elements of an object; an object whose size is that of one of its members is represented by that member"""
        if b == "this*": b = "this"
        return f"size(this.{self.forward[f.cls]})" if b == "this" and f.cls in self.forward else f"size({b})"

    def lin(self, f, e):
        """(atom, offset) such that the value of the expression is atom + offset"""
        e = strip(f, e)
        if e is None or e < 0: return None
        n = f.nodes[e]; k = n["k"]
        if n.get("v") is not None and re.match(r"^-?\d+$", str(n["v"])): return ("", int(n["v"]))
        if k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "ImplicitCastExpr") and n.get("c"):
            return self.lin(f, n["c"][-1]) if integral(ty(f, n)) else None
        if k == "BinaryOperator" and n.get("op") in ("+", "-"):
            a, b = self.lin(f, n["c"][0]), self.lin(f, n["c"][1])
            if not a or not b: return None
            if b[0] == "": return (a[0], a[1] + (b[1] if n["op"] == "+" else -b[1]))
            if a[0] == "" and n["op"] == "+": return (b[0], a[1] + b[1])
            return None
        if k == "UnaryOperator" and n.get("op") in ("++", "--"):
            a = self.lin(f, n["c"][0])
            if not a: return None
            if n.get("postfix") or n.get("post"): return (a[0], a[1] + (-1 if n["op"] == "++" else 1))
            return a
        if k == "CXXMemberCallExpr" and not n.get("args") and (f.fn(e) or {}).get("name") in SIZEFN:
            o = n.get("obj")
            b = "this" if o is None or o < 0 else key(f, o)
            return (self.sz(f, b), 0) if b else None
        if k == "CallExpr" and (f.fn(e) or {}).get("qn") in ("std::size", "std::ssize") and n.get("args"):
            t = array_size(ty(f, f.nodes[strip(f, n["args"][0])]))
            if t: return ("", t)
            b = key(f, n["args"][0])
            return (self.sz(f, b), 0) if b else None
        if k == "MemberExpr" and n.get("dk") == "field" and n.get("qn") in self.sizes:
            b = key(f, n["c"][0]) if n.get("c") else "this"
            return (self.sz(f, b), 0) if b else None
        if k in ("DeclRefExpr", "MemberExpr") and integral(ty(f, n).replace("&", "").strip()):
            x = key(f, e)
            return (x, 0) if x else None
        return None

    def access(self, f, i):
        """(container atom or constant size, index expression, shown) if the node accesses an element by index"""
        n = f.nodes[i]; k = n["k"]
        base = idx = None
        if k == "ArraySubscriptExpr": base, idx = n["c"][0], n["c"][1]
        elif k == "CXXOperatorCallExpr" and (f.fn(i) or {}).get("name") in ACCESS:
            a = opargs(n)
            if len(a) == 2: base, idx = a
        elif k == "UnaryOperator" and n.get("op") == "*":
            x = strip(f, n["c"][0]); m = f.nodes[x]
            if m["k"] == "BinaryOperator" and m.get("op") == "+" and ty(f, m).endswith("*"): base, idx = m["c"]
        if base is None: return None
        b = strip(f, base); m = f.nodes[b]; t = ty(f, m)
        s = array_size(t)
        if s: return ("", s), idx, m.get("n") or "the array"
        if m["k"] == "CXXMemberCallExpr" and (f.fn(b) or {}).get("name") in ("data", "begin") and not m.get("args"):
            o = m.get("obj")
            x = "this" if o is None or o < 0 else key(f, o)
            ot = ty(f, f.nodes[strip(f, o)]) if o is not None and o >= 0 else ""
            if x and "basic_string<" not in ot: return (self.sz(f, x), 0), idx, "data()"
            return None
        if m["k"] == "MemberExpr" and m.get("qn") in self.datas:
            x = key(f, m["c"][0]) if m.get("c") else "this"
            return ((self.sz(f, x), 0), idx, m.get("n")) if x else None
        x = key(f, b)
        if x and (SIZED.match(t) and "basic_string<" not in t or x == "this*" or x == "this"): return (self.sz(f, x), 0), idx, m.get("n") or "the object"
        if x: return (f"?{x}", 0), idx, m.get("n") or "the sequence"
        return None

    # -- state: (a, b) -> d  meaning  a <= b + d

    def put(self, st, a, b, d):
        if a == b: return
        o = st.get((a, b))
        if o is None or d < o: st[(a, b)] = d

    def constrain(self, f, st, e, pos, depth=0, limit=True):
        e = strip(f, e)
        if e is None or e < 0 or depth > 8: return
        n = f.nodes[e]; k = n["k"]
        if k == "UnaryOperator" and n.get("op") == "!": return self.constrain(f, st, n["c"][0], not pos, depth + 1, limit)
        if k == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return self.constrain(f, st, n["args"][0], pos, depth + 1, limit)
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            if (n["op"] == "&&") == pos:
                for x in n["c"]: self.constrain(f, st, x, pos, depth + 1, limit)
            return
        if k == "CXXMemberCallExpr" and (f.fn(e) or {}).get("name") == "empty":
            o = n.get("obj"); b = "this" if o is None or o < 0 else key(f, o)
            if b:
                if pos: self.put(st, self.sz(f, b), "", 0)
                else: self.put(st, "", self.sz(f, b), -1)
            return
        if k != "BinaryOperator" or n.get("op") not in ("<", ">", "<=", ">=", "==", "!="): return
        a, b = self.lin(f, n["c"][0]), self.lin(f, n["c"][1])
        if not a or not b: return
        op = n["op"]
        if not pos: op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
        (x, c), (y, d) = a, b
        if op in ("<", "<=", "=="): self.put(st, x, y, d - c - (op == "<"))
        if op in (">", ">=", "=="): self.put(st, y, x, c - d - (op == ">"))
        # explicit limits on indexes into sequences whose size is known only to the reader
        if limit and op in ("<", "<=") and x and y: self.put(st, "!" + x, y, d - c - (op == "<"))
        if limit and op in (">", ">=") and x and y: self.put(st, "!" + y, x, c - d - (op == ">"))
        if op == "!=":
            if st.get((x, y)) == d - c: st[(x, y)] -= 1
            elif st.get((y, x)) == c - d: st[(y, x)] -= 1
            if st.get(("!" + x, y)) == d - c: st[("!" + x, y)] -= 1
            elif st.get(("!" + y, x)) == c - d: st[("!" + y, x)] -= 1

    def kill(self, st, x):
        for p in [p for p in st if x in (p[0], p[1]) or p[0] == "!" + x or any(q.startswith(x + ".") or q.startswith(f"size({x}") and q[5 + len(x):6 + len(x)] in (".", ")", "*") for q in p)]: del st[p]

    def sized(self, f, e):
        """the number of elements of the sequence that the expression makes, if it is given"""
        e = strip(f, e) if e is not None else -1
        if e is None or e < 0: return None
        n = f.nodes[e]; g = f.fn(e) or {}
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr"):
            if n.get("args") and len(n["args"]) == 1 and g.get("special") in ("movector", "copyctor"): return self.sized(f, n["args"][0])
            if re.match(r"^(std::vector|archon::core::Vector|archon::core::Buffer)\b", g.get("cls") or "") and n.get("args") and g.get("params"):
                t = f.tu.types[g["params"][0]["t"]] if isinstance(g["params"][0], dict) else ""
                if re.search(r"size_type|size_t|unsigned long", t) and "&" not in t: return self.lin(f, n["args"][0])
            return None
        if n["k"] == "CallExpr" and g.get("name") in ("make_unique", "make_unique_for_overwrite") and len(n.get("args", ())) == 1 and "[]" in ty(f, n): return self.lin(f, n["args"][0])
        if n["k"] == "CallExpr" and g.get("name") == "move" and n.get("args"): return self.sized(f, n["args"][0])
        if n["k"] == "CXXNewExpr" and n.get("arr") is not None: return self.lin(f, n["arr"])
        return None

    def resized(self, f, st, x, e):
        a = self.sized(f, e)
        if a and a[0] != f"size({x})":
            self.put(st, f"size({x})", a[0], a[1]); self.put(st, a[0], f"size({x})", -a[1])

    def assign(self, f, st, x, e):
        a = self.lin(f, e) if e is not None and e >= 0 else None
        if a and a[0] == x: self.shift(st, x, a[1]); return
        self.kill(st, x)
        if a:
            self.put(st, x, a[0], a[1]); self.put(st, a[0], x, -a[1]); return
        if e is None or e < 0: return
        self.resized(f, st, x, e)
        e = strip(f, e); n = f.nodes[e]
        if n["k"] in ("CallExpr",) and (f.fn(e) or {}).get("name") in ("min", "max") and len(n.get("args", ())) == 2:
            for y in n["args"]:
                b = self.lin(f, y)
                if b and b[0] != x:
                    if f.fn(e)["name"] == "min": self.put(st, x, b[0], b[1])
                    else: self.put(st, b[0], x, -b[1])
        if n["k"] == "BinaryOperator" and n.get("op") == "%":
            b = self.lin(f, n["c"][1])
            if b and b[0] != x: self.put(st, x, b[0], b[1] - 1)

    def shift(self, st, x, c):
        for (a, b), d in list(st.items()):
            if a == x or a == "!" + x: st[(a, b)] = d + c
            elif b == x: st[(a, b)] = d - c

    def guard(self, k):
        """bounds on parameters that hold whenever a function without a result returns: [(index of parameter, limit, d)]"""
        if k in self.guards: return self.guards[k]
        self.guards[k] = ()
        g = self.prog.funcs.get(k)
        if not g or not rep(g.file) or len(g.nodes) > 60 or not g.cls or not g.params: return ()
        if not any(g.nodes[i]["k"] == "CXXThrowExpr" or g.nodes[i]["k"] == "CallExpr" and (g.fn(i) or {}).get("name") == "terminate" for i in g.walk()): return ()
        ends = []
        self.run(g, None, ends)
        if not ends: return ()
        out = []
        for j, p in enumerate(g.params):
            ds = [st.get((f"d{p['id']}", self.sz(g, "this"))) for st in ends]
            if all(d is not None for d in ds): out.append((j, max(ds)))
        self.guards[k] = tuple(out)
        return self.guards[k]

    def block(self, f, blk, st, report):
        st = dict(st)
        for e in blk["e"]:
            if isinstance(e, dict): continue
            n = f.nodes[e]; k = n["k"]
            if report:
                a = self.access(f, e)
                if a: report(f, e, a, st)
            if k == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("id") is not None and not d.get("static"): self.assign(f, st, f"d{d['id']}", d.get("init"))
            elif k == "BinaryOperator" and n.get("op") == "=":
                a = self.lin(f, n["c"][0])
                if a and a[1] == 0 and a[0] and not a[0].startswith("size("): self.assign(f, st, a[0], n["c"][1])
                elif a and a[0]: self.kill(st, a[0])
                else:
                    x = key(f, n["c"][0])
                    if x: self.kill(st, x)
            elif k == "CompoundAssignOperator":
                a = self.lin(f, n["c"][0]); b = self.lin(f, n["c"][1])
                if a and a[0]:
                    if b and b[0] == "" and n.get("op") in ("+=", "-="): self.shift(st, a[0], b[1] if n["op"] == "+=" else -b[1])
                    else: self.kill(st, a[0])
            elif k == "UnaryOperator" and n.get("op") in ("++", "--"):
                a = self.lin(f, n["c"][0])
                if a and a[0]: self.shift(st, a[0], 1 if n["op"] == "++" else -1)
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr"):
                g = f.fn(e) or {}
                if k == "CXXOperatorCallExpr" and g.get("name") == "operator=" and opargs(n):
                    x = key(f, opargs(n)[0])
                    if x: self.kill(st, x); self.resized(f, st, x, opargs(n)[-1])
                for a, p in zip(n.get("args", ()), g.get("params", ()) or ()):
                    t = f.tu.types[p["t"]] if isinstance(p, dict) and isinstance(p.get("t"), int) else ""
                    x = strip(f, a) if a is not None else None
                    kx = None
                    if t.endswith("&") and mutable(t): kx = key(f, a)
                    elif x is not None and x >= 0 and f.nodes[x]["k"] == "UnaryOperator" and f.nodes[x].get("op") == "&": kx = key(f, f.nodes[x]["c"][0])
                    if kx: self.kill(st, kx)
                if k == "CXXMemberCallExpr" and not g.get("const") and g.get("name") not in SIZEFN | ACCESS | {"data", "begin", "end", "at", "front", "back", "reserve"}:
                    o = n.get("obj"); x = "this" if o is None or o < 0 else key(f, o)
                    if x == "this": [st.pop(p) for p in list(st) if any(q.startswith(("this", "size(this")) for q in p)]
                    elif x:
                        self.kill(st, x)
                        if g.get("name") == "resize" and n.get("args"):
                            a = self.lin(f, n["args"][0])
                            if a: self.put(st, f"size({x})", a[0], a[1]); self.put(st, a[0], f"size({x})", -a[1])
                if g.get("lambda"): st = {}
                if k == "CXXMemberCallExpr" and g.get("key"):
                    o = n.get("obj"); x = "this" if o is None or o < 0 else key(f, o)
                    for j, d in self.guard(g["key"]) if x else ():
                        if j < len(n["args"]):
                            a = self.lin(f, n["args"][j])
                            if a: self.put(st, a[0], self.sz(f, x), d - a[1])
        return st

    def run(self, f, report, ends=None):
        cfg = f.cfg()
        if not cfg: return
        state = {f.entry: {}}; work = [f.entry]; visits = {}
        it = 0
        while work:
            it += 1
            if it > LIMIT: return
            b = work.pop(); blk = cfg[b]
            st = self.block(f, blk, state[b], None)
            t = blk.get("term")
            for j, s in enumerate(blk["s"]):
                if s is None or s < 0: continue
                ns = st
                if t and t["k"] != "SwitchStmt" and len(blk["s"]) == 2 and t.get("c") is not None and t["c"] >= 0:
                    ns = dict(st); e = t["c"]
                    stay = not (j == 1 and t["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"))
                    self.constrain(f, ns, e, j == 0, 0, stay)
                    m = f.nodes[strip(f, e)]
                    while m["k"] == "BinaryOperator" and m.get("op") in ("&&", "||"): e = m["c"][1]; m = f.nodes[strip(f, e)]
                    self.constrain(f, ns, e, j == 0, 0, stay)
                o = state.get(s)
                if o is None:
                    ns = dict(ns)
                    for p in self.tested(f, cfg[s]):
                        d = self.known(ns, p)
                        if d is not None: ns[p] = d
                    state[s] = ns; work.append(s); continue
                visits[s] = visits.get(s, 0) + 1
                m = {}; tested = self.tested(f, cfg[s])
                for p in set(o) | set(ns):
                    d, d2 = (self.known(o, p), self.known(ns, p)) if p in tested else (o.get(p), ns.get(p))
                    if d is None or d2 is None: continue
                    if d2 <= d: m[p] = d
                    elif visits[s] < 6: m[p] = d2
                if m != o: state[s] = m; work.append(s)
        if ends is not None:
            last = [b for b in cfg if b != f.entry and not any(x is not None and x >= 0 for x in cfg[b]["s"])]
            for b, st in state.items():
                if b in last or not any(x in last for x in cfg[b]["s"]): continue
                es = [e for e in cfg[b]["e"] if not isinstance(e, dict)]
                if any(f.nodes[e]["k"] == "CXXThrowExpr" or (f.fn(e) or {}).get("noreturn") or (f.fn(e) or {}).get("name") == "terminate" for e in es): continue
                o = self.block(f, cfg[b], st, None)
                t = cfg[b].get("term")
                if t and len(cfg[b]["s"]) == 2 and t.get("c") is not None and t["c"] >= 0:
                    for j, x in enumerate(cfg[b]["s"]):
                        if x in last: o2 = dict(o); self.constrain(f, o2, t["c"], j == 0); ends.append(o2)
                else: ends.append(o)
            return
        for b, st in state.items(): self.block(f, cfg[b], st, report)

    def tested(self, f, blk):
        """what the block compares"""
        t = blk.get("term"); st = {}
        if t and t.get("c") is not None and t["c"] >= 0 and t["k"] in ("ForStmt", "WhileStmt", "BinaryOperator"):
            e = strip(f, t["c"])
            for b in (True, False): self.constrain(f, st, e, b, 0, False)
        return st

    def known(self, st, p):
        """as recorded, or because sizes are not negative"""
        d = st.get(p)
        if d is None and p[1].startswith("size(") and not p[0].startswith("!"): d = st.get((p[0], ""))
        return d

    def upper(self, st, a, s):
        """least d such that a <= s + d is known"""
        if a == s: return 0
        best = st.get((a, s))
        for (x, y), d in st.items():
            if x != a: continue
            if y == s: best = d if best is None else min(best, d); continue
            e = st.get((y, s))
            if y == "" and s == "": e = 0
            if e is None:
                for (x2, y2), d2 in st.items():
                    if x2 == y and (y2, s) in st and y2 != a:
                        e = d2 + st[(y2, s)] if e is None else min(e, d2 + st[(y2, s)])
            if e is not None: best = d + e if best is None else min(best, d + e)
        return best


def scan(prog, c):
    B = Bounds(prog); seen = {}
    for f in prog.funcs.values():
        if not rep(f.file): continue
        if not any(B.access(f, i) for i in f.walk()): continue
        c.count("functions with accesses by index")

        def report(f, e, a, st):
            (s, n), idx, shown = a
            i = B.lin(f, idx)
            k = f.loc(e) + shown
            if i is None: return
            if s.startswith("?") and any(f"size({s[1:]})" in p for p in st): s = f"size({s[1:]})"
            if s.startswith("?"):
                ds = [d for (x, y), d in st.items() if x == "!" + i[0]]
                if not i[0] or not ds: return
                d = min(ds) + i[1]
                bad = d >= 0
                s = ""; n = None
            elif s == "":
                d = i[1] if i[0] == "" else B.upper(st, i[0], "")
                if i[0] != "" and d is not None: d += i[1]
                bad = d is not None and d >= n
            else:
                d = B.upper(st, i[0], s)
                if d is not None: d += i[1]
                bad = d is not None and d >= 0
            if d is None: return
            if k not in seen: c.count("accesses with a known bound"); c.count("obligations")
            if seen.get(k): return
            seen[k] = bad
            if bad: 
                what = f"its size{f' plus {d}' if d else ''}" if s else f"as large as {d} (the size is {n})" if n is not None else "as large as the number that is to limit it"
                c.violation(f"{f.rel()}:{f.qn}:{shown}", f"{f.loc(e)}: {f.qn}() accesses `{shown}` at an index that may be {what}")
        B.run(f, report)


def main(pid):
    def body():
        c = harness.Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        c.count("functions examined", len(prog.funcs))
        scan(prog, c)
        harness.selftest(c, scan)
        c.require("functions examined", 8000)
        c.require("functions with accesses by index", 100)
        c.require("accesses with a known bound", 150)
        return c.finish()
    harness.main(body)
