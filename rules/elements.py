"""Containers construct, move, and destroy exactly the elements that they count (C25).

An abstract interpretation of the member functions of core::Deque and core::impl::VectorImpl (with inlining of member functions of
the same class).  Integers are linear forms over symbols (initial size, initial offset, parameters, ...).  The set of positions that
hold constructed elements is a formal sum of half-lines: [a, b) = H(a) - H(b).  uninit_create(), uninit_destroy(), uninit_safe_fill(),
uninit_safe_copy(), uninit_safe_move(), and uninit_move_*() add and subtract half-lines.  In a circular container, positions are taken
modulo the allocated size (the allocated size is 0 in the linear forms), which makes the divided and the contiguous case instances of
one identity.  At every exit, normal or by exception, every object must hold exactly H(offset) - H(offset + size), and memory that no
object owns must hold nothing.  No path conditions are solved; both outcomes of every condition are followed.
"""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import harness
from archlint import program as P
from alternatives import strip, rep
from existence import ty, opargs

CAP = 400


def L(c=0, **k): return tuple(sorted([(s, v) for s, v in k.items() if v] + ([("", c)] if c else [])))
def sym(s): return ((s, 1),)
def add(a, b, m=1):
    d = dict(a)
    for s, v in b: d[s] = d.get(s, 0) + m * v
    return tuple(sorted((s, v) for s, v in d.items() if v))
def sub(a, b): return add(a, b, -1)
def scale(a, m): return tuple((s, v * m) for s, v in a) if m else ()
def show(a):
    if not a: return "0"
    return " ".join(f"{'+' if v > 0 else '-'} {abs(v) if abs(v) != 1 or not s else ''}{s}" for s, v in sorted(a, reverse=True)).removeprefix("+ ")


class St:
    def __init__(self): self.v = {}; self.live = {}
    def copy(self):
        s = St(); s.v = dict(self.v); s.live = {k: dict(x) for k, x in self.live.items()}; return s
    def key(self): return (tuple(sorted((str(k), str(x)) for k, x in self.v.items())), tuple(sorted((str(k), tuple(sorted(x.items()))) for k, x in self.live.items() if x)))
    def half(self, space, at, n):
        d = self.live.setdefault(space, {}); d[at] = d.get(at, 0) + n
        if not d[at]: del d[at]
    def interval(self, space, a, n, sign): self.half(space, a, sign); self.half(space, add(a, n), -sign)
    def subst(self, s, val):
        def r(a):
            k = dict(a).get(s, 0)
            return add(tuple(x for x in a if x[0] != s), scale(val, k)) if k else a
        for k, x in self.v.items():
            if x and x[0] == "int": self.v[k] = ("int", r(x[1]))
            elif x and x[0] == "ptr": self.v[k] = ("ptr", x[1], r(x[2]))
        for sp in list(self.live):
            d = {}
            for a, n in self.live[sp].items(): d[r(a)] = d.get(r(a), 0) + n
            self.live[sp] = {a: n for a, n in d.items() if n}


class Container:
    """roles of the data members of a container class"""
    def __init__(self, rec, prog, full):
        self.size = self.off = self.cap = self.mem = self.data = None
        fields = {f["n"]: f for f in rec["fields"]}
        T = rec["tu"].types if hasattr(rec.get("tu"), "types") else None
        ints = []
        for f in rec["fields"]:
            t = T[f["t"]] if T else ""
            if f.get("rq") == "std::unique_ptr": self.mem = f["n"]
            elif t.endswith("*"): self.data = f["n"]
            elif re.search(r"size_t|unsigned long|size_type|int", t): ints.append(f["n"])
        for g in prog.funcs.values():
            if g.d.get("clsfull") != full: continue
            body = g.nodes[g.d["root"]].get("c", ())
            if len(body) != 1 or g.nodes[body[0]]["k"] != "ReturnStmt": continue
            ms = [g.nodes[x].get("n") for x in g.walk(body[0]) if g.nodes[x]["k"] == "MemberExpr" and g.nodes[x].get("n") in ints]
            if g.d["name"] == "size" and len(ms) == 1: self.size = ms[0]
            if g.d["name"] == "begin" and len(ms) == 1: self.off = ms[0]
        rest = [x for x in ints if x not in (self.size, self.off)]
        self.cap = rest[0] if len(rest) == 1 else None
        self.circular = self.off is not None


class Interp:
    def __init__(self, prog, cont, cls, full):
        self.prog = prog; self.C = cont; self.cls = cls; self.full = full; self.n = itertools.count(); self.over = False

    def fresh(self, s="t"): return sym(f"{s}#{next(self.n)}")

    # -- places

    def obj_of(self, f, e, st, env):
        """the container object that the expression denotes"""
        if e is None or e < 0: return env["this"]
        e = strip(f, e); n = f.nodes[e]; k = n["k"]
        if k == "CXXThisExpr": return env["this"]
        if k == "UnaryOperator" and n.get("op") == "*": return self.obj_of(f, n["c"][0], st, env)
        if k == "DeclRefExpr" and ("obj", n.get("d")) in env: return env[("obj", n.get("d"))]
        if k in ("CXXConstCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr") and n.get("c"): return self.obj_of(f, n["c"][-1], st, env)
        if k == "CallExpr" and (f.fn(e) or {}).get("name") in ("move", "forward", "as_const") and n.get("args"): return self.obj_of(f, n["args"][0], st, env)
        return None

    def place(self, f, e, st, env):
        e = strip(f, e)
        if e is None or e < 0: return None
        n = f.nodes[e]
        if n["k"] == "DeclRefExpr": return env.get(("alias", n.get("d"))) or ("v", env["depth"], n.get("d"))
        if n["k"] == "MemberExpr" and n.get("dk") == "field":
            o = self.obj_of(f, n["c"][0] if n.get("c") else -1, st, env)
            if o: return ("f", o, n["n"])
            b = f.nodes[strip(f, n["c"][0])] if n.get("c") else {}
            if b.get("k") == "DeclRefExpr" and b.get("d") is not None: return ("m", env["depth"], b["d"], n["n"])
        return None

    def load(self, pl, st):
        if pl and pl[0] == "f" and pl[2] == self.C.cap and self.C.circular: return ("int", ())
        return st.v.get(pl)

    # -- expressions: list of (value, state)

    def evs(self, f, es, st, env, ctx):
        out = [([], st)]
        for e in es:
            nxt = []
            for vs, s in out:
                for v, s2 in self.ev(f, e, s, env, ctx): nxt.append((vs + [v], s2))
            out = nxt
        return out

    def ev(self, f, e, st, env, ctx):
        if e is None or e < 0: return [(None, st)]
        e0 = e
        n = f.nodes[e]
        if n.get("v") is not None and re.match(r"^-?\d+$", str(n["v"])) and n["k"] not in ("DeclRefExpr",): return [(("int", L(int(n["v"]))), st)]
        e = strip(f, e); n = f.nodes[e]; k = n["k"]
        if n.get("v") is not None and re.match(r"^-?\d+$", str(n["v"])): return [(("int", L(int(n["v"]))), st)]
        if k in ("DeclRefExpr", "MemberExpr"):
            pl = self.place(f, e, st, env); v = self.load(pl, st)
            if v is None and pl and not (pl[0] == "f" and pl[2] == self.C.cap) and re.search(r"size_t|size_type|unsigned|int|long", ty(f, n)) and not ty(f, n).rstrip("&").endswith("*") and "<" not in ty(f, n):
                st = st.copy(); v = st.v[pl] = ("int", self.fresh(n.get("n") or "t"))
            return [(v, st)]
        if k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "ImplicitCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            r = self.ev(f, n["c"][-1], st, env, ctx) if n.get("c") else [(None, st)]
            return [((("ptr", v[1], ()) if k == "CXXReinterpretCastExpr" and v and v[0] == "mem" else v), s) for v, s in r]
        if k == "UnaryOperator":
            op = n.get("op"); out = []
            for v, s in self.ev(f, n["c"][0], st, env, ctx):
                if op in ("++", "--"):
                    pl = self.place(f, n["c"][0], s, env); s = s.copy(); o = v
                    if pl: v = s.v[pl] = ("int", add(v[1], L(1 if op == "++" else -1))) if v and v[0] == "int" else None
                    out.append((o if n.get("post") else v, s))
                elif op == "-" and v and v[0] == "int": out.append((("int", scale(v[1], -1)), s))
                else: out.append((v if op in ("*", "&", "+") else None, s))
            return out
        if k == "BinaryOperator" and n.get("op") == "=":
            out = []
            for v, s in self.ev(f, n["c"][1], st, env, ctx): out.append((v, self.store(self.place(f, n["c"][0], s, env), v, s)))
            return out
        if k == "CompoundAssignOperator":
            out = []
            for v, s in self.ev(f, n["c"][1], st, env, ctx):
                pl = self.place(f, n["c"][0], s, env); o = self.load(pl, s)
                r = self.arith(n["op"][0], o, v)
                out.append((r, self.store(pl, r, s)))
            return out
        if k == "BinaryOperator":
            if n.get("op") in ("&&", "||"):
                out = []
                for v, s in self.ev(f, n["c"][0], st, env, ctx): out += [(None, s)] + [(None, s2) for _, s2 in self.ev(f, n["c"][1], s, env, ctx)]
                return self.merge(out)
            return [(self.arith(n.get("op"), vs[0], vs[1]), s) for vs, s in self.evs(f, n["c"][:2], st, env, ctx)]
        if k == "ConditionalOperator":
            out = []
            for c, s in self.ev(f, n["c"][0], st, env, ctx):
                for b, j in ((True, 1), (False, 2)):
                    x = f.nodes[strip(f, n["c"][j])]
                    if x["k"] == "CallExpr" and (f.fn(strip(f, n["c"][j])) or {}).get("noreturn") or x.get("k") == "CallExpr" and (f.fn(strip(f, n["c"][j])) or {}).get("name") == "terminate": continue
                    s2 = self.assume(f, n["c"][0], b, s, env)
                    if s2 is not None: out += self.ev(f, n["c"][j], s2, env, ctx)
            return self.merge(out)
        if k == "LambdaExpr": return [(None, st)]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.call(f, e, n, st, env, ctx)
        if k == "CXXThrowExpr":
            if n.get("c"):
                for _, s in self.evs(f, n["c"], st, env, ctx): ctx["throw"].append((s, f.loc(e)))
            else: ctx["throw"].append((st, f.loc(e)))
            return []
        out = [(None, st)]
        kids = [c for c in n.get("c", ())]
        if kids: out = [(None, s) for _, s in self.evs(f, kids, st, env, ctx)]
        return out

    def arith(self, op, a, b):
        if not a or not b: return None
        if a[0] == "int" and b[0] == "int":
            if op == "+": return ("int", add(a[1], b[1]))
            if op == "-": return ("int", sub(a[1], b[1]))
            if op == "*":
                for x, y in ((a[1], b[1]), (b[1], a[1])):
                    if not x: return ("int", ())
                    if len(x) == 1 and x[0][0] == "": return ("int", scale(y, x[0][1]))
            return None
        if a[0] == "ptr" and b[0] == "int" and op in "+-": return ("ptr", a[1], add(a[2], b[1], 1 if op == "+" else -1))
        if a[0] == "int" and b[0] == "ptr" and op == "+": return ("ptr", b[1], add(b[2], a[1]))
        if a[0] == "ptr" and b[0] == "ptr" and op == "-" and a[1] == b[1]: return ("int", sub(a[2], b[2]))
        return None

    def store(self, pl, v, st):
        s = st.copy()
        if pl is None: return s
        if v is None and (pl[0] == "f" and pl[2] in (self.C.size, self.C.off)): v = ("int", self.fresh("unknown"))
        s.v[pl] = v
        return s

    def merge(self, out):
        seen = {}; r = []
        for v, s in out:
            k = (str(v), s.key())
            if k not in seen: seen[k] = 1; r.append((v, s))
        if len(r) > CAP: self.over = True; r = r[:CAP]
        return r

    def assume(self, f, e, pos, st, env):
        e = strip(f, e); n = f.nodes[e]; k = n["k"]
        if k == "CallExpr" and (f.fn(e) or {}).get("name") == "__builtin_expect": return self.assume(f, n["args"][0], pos, st, env)
        if k == "UnaryOperator" and n.get("op") == "!": return self.assume(f, n["c"][0], not pos, st, env)
        if k == "BinaryOperator" and n.get("op") == ("&&" if pos else "||"):
            for x in n["c"]:
                st = self.assume(f, x, pos, st, env)
                if st is None: return None
            return st
        if k == "CXXMemberCallExpr" and (f.fn(e) or {}).get("name") == "empty" and pos:
            o = self.obj_of(f, n.get("obj"), st, env)
            v = st.v.get(("f", o, self.C.size)) if o else None
            if v and v[0] == "int": return self.equal(st, v[1])
        if k == "BinaryOperator" and n.get("op") in ("==", "!=", ">", "<", "<=", ">="):
            a, b = (self.pure(f, x, st, env) for x in n["c"][:2])
            if not a or not b or a[0] != "int" or b[0] != "int": return st
            op = n["op"] if pos else {"==": "!=", "!=": "==", ">": "<=", "<": ">=", "<=": ">", ">=": "<"}[n["op"]]
            d = sub(a[1], b[1])
            if not d: return st if op in ("==", "<=", ">=") else None
            if len(d) == 1 and d[0][0] == "" : # constants
                c = d[0][1]
                return st if {"==": c == 0, "!=": c != 0, ">": c > 0, "<": c < 0, "<=": c <= 0, ">=": c >= 0}[op] else None
            if self.C.circular:        # positions do not exceed the allocated size (which is 0 in the linear forms)
                for x, y, o in ((0, 1, op), (1, 0, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op))):
                    if self.capacity(f, n["c"][y], st, env): return self.equal(st, a[1] if x == 0 else b[1]) if o in (">=", "==") else st
            if op == "==" or op == "<=" and not b[1] or op == ">=" and not a[1]: return self.equal(st, d)
        return st

    def capacity(self, f, e, st, env):
        pl = self.place(f, e, st, env)
        return bool(pl and pl[0] == "f" and pl[2] == self.C.cap)

    def equal(self, st, d):
        for s, v in d:
            if s and abs(v) == 1:
                st = st.copy(); st.subst(s, scale(tuple(x for x in d if x[0] != s), -v)); return st
        return st

    def pure(self, f, e, st, env):
        r = self.ev(f, e, st, env, {"throw": []})
        return r[0][0] if len(r) == 1 else None

    # -- calls

    def call(self, f, e, n, st, env, ctx):
        g = f.fn(e) or {}
        nm = g.get("name", ""); args = list(n.get("args", ()))
        may_throw = not g.get("noexcept")

        def thrown(s):
            if not ctx.get("noexcept"): ctx["throw"].append((s, f.loc(e)))
        if nm == "__builtin_expect": return self.ev(f, args[0], st, env, ctx)
        if nm in ("move", "forward", "as_const") and g.get("qn", "").startswith("std::") and len(args) == 1:
            a = strip(f, args[0])
            pl = self.place(f, a, st, env)
            r = self.ev(f, args[0], st, env, ctx)
            return [((("moved", pl, v) if v and v[0] == "mem" and nm == "move" and pl else v), s) for v, s in r]
        if nm == "swap" and len(args) == 2 and g.get("qn", "").startswith("std::"):
            a, b = self.place(f, args[0], st, env), self.place(f, args[1], st, env)
            s = st.copy()
            if a and b: s.v[a], s.v[b] = st.v.get(b), st.v.get(a)
            return [(None, s)]
        if nm.startswith("uninit_") and "core::" in g.get("qn", ""):
            out = []
            for vs, s in self.evs(f, args, st, env, ctx):
                s2 = s.copy()
                I = lambda v: v[1] if v and v[0] == "int" else self.fresh()
                Pt = lambda v: (v[1], v[2]) if v and v[0] == "ptr" else (f"unknown#{next(self.n)}", ())
                if nm == "uninit_create":
                    p = Pt(vs[0]); thrown(s); s2.interval(*p, L(1), 1)
                elif nm == "uninit_destroy":
                    p = Pt(vs[0]); s2.interval(*p, I(vs[1]), -1)
                elif nm == "uninit_safe_fill":
                    p = Pt(vs[-1]); thrown(s); s2.interval(*p, I(vs[0]), 1)
                elif nm == "uninit_safe_copy":
                    p = Pt(vs[-1]); thrown(s)
                    d = self.arith("-", vs[1], vs[0]) or ("int", self.fresh())
                    s2.interval(*p, d[1], 1)
                elif nm in ("uninit_safe_move", "uninit_safe_move_a"):
                    a, p = Pt(vs[0]), Pt(vs[2]); m = I(vs[1]); thrown(s)
                    if nm == "uninit_safe_move": s2.interval(*a, m, -1)
                    s2.interval(*p, m, 1)
                elif nm in ("uninit_move_downwards", "uninit_move_upwards"):
                    sp, a = Pt(vs[0]); m = I(vs[1]); d = I(vs[2])
                    s2.interval(sp, a, m, -1); s2.interval(sp, add(a, scale(d, -1 if "down" in nm else 1)), m, 1)
                out.append((None, s2))
            return out
        if g.get("special") in ("copyctor", "movector") and len(args) == 1 and g.get("cls") not in (self.cls, "std::unique_ptr"):
            r = self.ev(f, args[0], st, env, ctx)
            if any(v and v[0] == "ptr" for v, _ in r): return r
        if nm in ("operator-", "operator+") and n["k"] == "CXXOperatorCallExpr" and len(opargs(n)) == 2 and g.get("cls") != self.cls:
            r = [(self.arith(nm[-1], vs[0], vs[1]), s) for vs, s in self.evs(f, list(opargs(n)), st, env, ctx)]
            if any(v for v, _ in r): return r
        if nm == "make_unique" or nm == "make_unique_for_overwrite":
            out = []
            for vs, s in self.evs(f, args, st, env, ctx): thrown(s); out.append((("mem", f"new#{next(self.n)}"), s))
            return out
        if g.get("qn") == "std::unique_ptr::get": return [(("ptr", v[1], ()) if v and v[0] == "mem" else v, s) for v, s in self.ev(f, n.get("obj"), st, env, ctx)]
        if g.get("qn") in ("std::unique_ptr::reset",) and not args or g.get("cls") == "std::unique_ptr" and nm == "operator=" :
            tgt = n.get("obj") if n.get("obj") is not None else args[0]
            src = args[-1] if args and not (n.get("obj") is None and len(args) == 1) else None
            out = []
            for v, s in (self.ev(f, src, st, env, ctx) if src is not None else [(None, st)]):
                pl = self.place(f, tgt, s, env); s = s.copy()
                if v and v[0] == "moved":
                    s.v[v[1]] = ("mem", f"none#{next(self.n)}"); v = v[2]
                s.v[pl] = v if v and v[0] == "mem" else ("mem", f"none#{next(self.n)}")
                out.append((None, s))
            return out
        if g.get("cls") == "std::unique_ptr" and g.get("kind") == "ctor" or nm == "unique_ptr":
            out = []
            for vs, s in self.evs(f, args, st, env, ctx):
                v = vs[0] if vs else None
                if v and v[0] == "moved":
                    s = s.copy(); s.v[v[1]] = ("mem", f"none#{next(self.n)}"); v = v[2]
                out.append((v if v and v[0] == "mem" else ("mem", f"none#{next(self.n)}"), s))
            return out
        if nm in ("min", "max") and g.get("qn", "").startswith("std::"):
            return [(("int", self.fresh(nm)), s) for vs, s in self.evs(f, args, st, env, ctx)]
        if nm == "try_int_add" and len(args) == 2:
            out = []
            for vs, s in self.evs(f, args, st, env, ctx):
                pl = self.place(f, args[0], s, env)
                out.append((None, self.store(pl, self.arith("+", vs[0], vs[1]), s)))
            return out
        if nm.startswith("try_int_"):
            return [(None, self.store(self.place(f, args[0], s, env), None, s)) for vs, s in self.evs(f, args, st, env, ctx)]
        h = self.prog.funcs.get(g.get("key"))
        same = g.get("cls") == self.cls
        if same and h is None and g.get("key"): # instantiated elsewhere
            h = next((x for x in self.prog.funcs.values() if x.cls == self.cls and x.d["name"] == nm and x.d.get("line") == g.get("line")), None)
        if same and h and env["depth"] < 9 and n["k"] != "CXXConstructExpr":
            o = self.obj_of(f, n.get("obj", -1), st, env)
            if o is None: return [(None, s) for _, s in self.evs(f, args, st, env, ctx)]
            if n["k"] == "CXXOperatorCallExpr" and len(args) > len(h.params): args = args[1:]
            out = []
            for vs, s in self.evs(f, args, st, env, ctx): out += self.inline(h, o, f, args, vs, s, env, ctx)
            return self.merge(out)
        objs = [n.get("obj")] if n.get("obj") is not None and n["obj"] >= 0 and n["k"] != "CXXMemberCallExpr" else []
        out = []
        for vs, s in self.evs(f, objs + args if n["k"] != "CXXMemberCallExpr" else args, st, env, ctx):
            if may_throw and not g.get("noreturn"): thrown(s)
            if not g.get("noreturn") and nm != "terminate": out.append((None, s))
        return out

    def inline(self, h, obj, f, args, vs, st, env, ctx):
        env2 = {"this": obj, "depth": env["depth"] + 1}
        s = st.copy()
        T = lambda p: h.tu.types[p["t"]] if isinstance(p.get("t"), int) else ""
        vs = list(vs)
        for j in range(len(h.params) - 1):         # both ends of a range that is to be copied
            if j + 1 < len(vs) and vs[j] is None and vs[j + 1] is None and T(h.params[j]) == T(h.params[j + 1]) and "&&" not in T(h.params[j]):
                r = f"range#{next(self.n)}"
                vs[j] = ("ptr", r, ()); vs[j + 1] = ("ptr", r, sym(f"count of {r}"))
        for p, v, a in zip(h.params, vs, args):
            t = h.tu.types[p["t"]] if isinstance(p.get("t"), int) else ""
            o = self.obj_of(f, a, st, env)
            if o and re.match(r"^(const )?" + re.escape(self.cls) + r"<.*&$", t): env2[("obj", p["id"])] = o
            elif t.endswith("&") and not t.startswith("const") and self.place(f, a, st, env): env2[("alias", p["id"])] = self.place(f, a, st, env)
            else: s.v[("v", env2["depth"], p["id"])] = v
        c2 = {"throw": [], "noexcept": bool(h.d.get("noexcept")) or ctx.get("noexcept")}
        out = []
        for kind, s2, v in self.block(h, h.d["root"], s, env2, c2):
            s2 = s2.copy()
            for k in [k for k in s2.v if k[0] in ("v", "m") and k[1] == env2["depth"]]: del s2.v[k]
            out.append((v, s2))
        for s2, where in c2["throw"]: ctx["throw"].append((s2, where))
        return out

    # -- statements: list of (kind, state, value)

    def block(self, f, e, st, env, ctx):
        n = f.nodes[e]; k = n["k"]
        if k == "CompoundStmt":
            cur = [st]; out = []
            for c in n.get("c", ()):
                nxt = []
                for s in cur:
                    for kind, s2, v in self.block(f, c, s, env, ctx):
                        if kind == "normal": nxt.append(s2)
                        else: out.append((kind, s2, v))
                cur = [s for _, s in self.merge([(None, s) for s in nxt])]
            return out + [("normal", s, None) for s in cur]
        if k == "IfStmt":
            out = []
            if n.get("constexpr") and f.nodes[n["cond"]].get("v") is not None:
                b = str(f.nodes[n["cond"]]["v"]) not in ("0", "false", "False")
                t = n.get("then") if b else n.get("else")
                return self.block(f, t, st, env, ctx) if t is not None and t >= 0 else [("normal", st, None)]
            for c, s in self.ev(f, n["cond"], st, env, ctx):
                for b, br in ((True, n.get("then")), (False, n.get("else"))):
                    s2 = self.assume(f, n["cond"], b, s, env)
                    if s2 is None: continue
                    if br is None or br < 0: out.append(("normal", s2, None))
                    else: out += self.block(f, br, s2, env, ctx)
            return out
        if k == "ReturnStmt":
            if not n.get("c"): return [("return", st, None)]
            return [("return", s, v) for v, s in self.ev(f, n["c"][0], st, env, ctx)]
        if k == "DeclStmt":
            cur = [st]
            for d in n.get("decls", ()):
                nxt = []
                for s in cur:
                    if d.get("init") is None or d["init"] < 0:
                        nxt.append(s); continue
                    for v, s2 in self.ev(f, d["init"], s, env, ctx): nxt.append(self.store(("v", env["depth"], d.get("id")), v, s2))
                cur = nxt
            return [("normal", s, None) for s in cur]
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(f, n, st, env, ctx)
        if k == "CXXTryStmt":
            c2 = {"throw": [], "noexcept": False}
            out = self.block(f, n["c"][0], st, env, c2)
            for s, where in self.merge_throws(c2["throw"]):
                for h in n["c"][1:]:
                    m = f.nodes[h]
                    body = m["c"][-1] if m.get("c") else None
                    if body is not None: out += self.block(f, body, s, env, ctx)
            return out
        if k in ("NullStmt",): return [("normal", st, None)]
        return [("normal", s, None) for v, s in self.ev(f, e, st, env, ctx)]

    def merge_throws(self, ts):
        seen = set(); r = []
        for s, w in ts:
            k = s.key()
            if k not in seen: seen.add(k); r.append((s, w))
        return r

    def loop(self, f, n, st, env, ctx):
        """the loop keeps the object consistent; its size after the loop is unknown"""
        self.check(st, f, f.loc(n["c"][0]) if n.get("c") else f.rel(), "at the start of a loop")
        s = st.copy()
        for i in f.walk(n["body"] if n.get("body") is not None else n["c"][-1]):
            m = f.nodes[i]
            if m["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (m.get("op") in ("=", "++", "--") or m["k"] == "CompoundAssignOperator"):
                pl = self.place(f, m["c"][0], s, env)
                if pl and pl[0] == "v": s.v[pl] = None
        self.havoc(s, "this" if env["this"] == "this" else env["this"])
        out = []
        if n.get("body") is not None:
            for kind, s2, v in self.block(f, n["body"], s.copy(), env, ctx):
                if kind == "return": out.append((kind, s2, v))
                else: self.check(s2, f, f.loc(n["body"]), "at the end of a step of a loop")
        return out + [("normal", s, None)]

    # -- invariant

    def havoc(self, s, o):
        S = self.fresh("size"); O = self.fresh("offset") if self.C.circular else ()
        sp = f"{o}.mem#{next(self.n)}"
        s.v[("f", o, self.C.size)] = ("int", S)
        if self.C.off: s.v[("f", o, self.C.off)] = ("int", O)
        if self.C.cap: s.v[("f", o, self.C.cap)] = ("int", self.fresh("capacity"))
        s.v[("f", o, self.C.mem)] = ("mem", sp)
        if self.C.data: s.v[("f", o, self.C.data)] = ("ptr", sp, ())
        s.live = {}; s.interval(sp, O, S, 1)

    def start(self, f, objs):
        s = St()
        for o in objs:
            S = sym(f"SIZE({o})" if o != "this" else "SIZE"); O = (sym(f"OFFSET({o})" if o != "this" else "OFFSET") if self.C.circular else ())
            sp = f"{o}.mem"
            s.v[("f", o, self.C.size)] = ("int", S)
            if self.C.off: s.v[("f", o, self.C.off)] = ("int", O)
            if self.C.cap: s.v[("f", o, self.C.cap)] = ("int", sym(f"capacity of {o}"))
            s.v[("f", o, self.C.mem)] = ("mem", sp)
            if self.C.data: s.v[("f", o, self.C.data)] = ("ptr", sp, ())
            s.interval(sp, O, S, 1)
        return s

    def check(self, s, f, where, what, dead=False):
        self.checks += 1
        owned = set(); msg = None
        for o in self.objs:
            if o == "this" and dead: continue
            mem = s.v.get(("f", o, self.C.mem)); sp = mem[1] if mem and mem[0] == "mem" else None
            base = ()
            if self.C.data:
                p = s.v.get(("f", o, self.C.data))
                if p and p[0] == "ptr": sp, base = p[1], p[2]
            S = s.v.get(("f", o, self.C.size)); O = s.v.get(("f", o, self.C.off)) if self.C.off else ("int", ())
            if not S or S[0] != "int" or not O or O[0] != "int": msg = "its size or offset is unknown"; break
            owned.add(sp)
            want = {}
            for a, k in ((add(base, O[1]), 1), (add(add(base, O[1]), S[1]), -1)):
                want[a] = want.get(a, 0) + k
            want = {a: k for a, k in want.items() if k}
            have = s.live.get(sp, {})
            if have != want:
                extra = [show(a) for a in set(have) ^ set(want)] + [show(a) for a in set(have) & set(want) if have[a] != want[a]]
                msg = f"the elements that exist are not those that {o if o != 'this' else 'the container'} counts (the ranges differ at {', '.join(sorted(extra)[:4])})"; break
        if msg is None:
            for sp, d in s.live.items():
                if sp not in owned and d: msg = f"elements remain in memory that no container owns ({', '.join(show(a) for a in list(d)[:3])})"; break
        if msg: self.report(f, where, f"{what}, {msg}")


def scan(prog, c, classes=("archon::core::Deque", "archon::core::impl::VectorImpl")):
    chosen = {}
    for k, r in prog.records.items():
        if r.get("qn") in classes or r.get("qn", "").split("::")[-1] in ("ProbeDeque", "ProbeVector"): chosen.setdefault(k, r)
    reported = set(); done = set()
    byfull = {}
    for f in prog.funcs.values():
        if f.d.get("clsfull") in chosen: byfull.setdefault(f.d["clsfull"], []).append(f)
    for full, fs in sorted(byfull.items(), key=lambda x: -len(x[1])):
        C = Container(chosen[full], prog, full)
        if C.size is None or C.mem is None: continue
        cls = fs[0].cls
        for f in fs:
            ident = (f.file, f.d.get("line"), f.d["name"], len(f.params), tuple(sorted(g.d["line"] for g in ())))
            nm = f.d["name"]
            if f.d.get("const") and nm not in ("at",): continue
            if f.d.get("access", 0) == 2 and nm not in ("realloc",): continue      # covered where they are called
            if ident in done: continue
            done.add(ident)
            I = Interp(prog, C, cls, full); I.checks = 0; I.objs = ["this"]
            env = {"this": "this", "depth": 0}
            for p in f.params:
                t = f.tu.types[p["t"]] if isinstance(p.get("t"), int) else ""
                if t.endswith("&") and re.match(r"^(const )?" + re.escape(cls) + r"<", t):
                    I.objs.append(p["n"] or f"p{p['id']}"); env[("obj", p["id"])] = I.objs[-1]
            st = I.start(f, I.objs)
            msgs = []

            def report(g, where, text): msgs.append((g, where, text))
            I.report = report
            if f.d.get("kind") == "ctor":
                st.live = {sp: d for sp, d in st.live.items() if not sp.startswith("this.")}
                st.v[("f", "this", C.size)] = ("int", ())
                if C.off: st.v[("f", "this", C.off)] = ("int", ())
            for p in f.params:
                if ("obj", p["id"]) not in env: st.v[("v", 0, p["id"])] = ("int", sym(p["n"] or f"p{p['id']}")) if re.search(r"size_t|size_type|unsigned|int", f.tu.types[p["t"]]) and not f.tu.types[p["t"]].endswith(("&", "*")) else ("ptr", f"arg {p['n']}", ()) if f.tu.types[p["t"]].endswith("*") else None
            # both ends of a range that is to be copied
            T = lambda p: f.tu.types[p["t"]] if isinstance(p.get("t"), int) else ""
            for p, q in zip(f.params, f.params[1:]):
                if T(p) == T(q) and (st.v.get(("v", 0, p["id"])) or ("ptr",))[0] == "ptr" and ("obj", p["id"]) not in env and "&&" not in T(p):
                    st.v[("v", 0, p["id"])] = ("ptr", "range", ()); st.v[("v", 0, q["id"])] = ("ptr", "range", sym("count"))
            ctx = {"throw": [], "noexcept": bool(f.d.get("noexcept"))}
            cur = [st]
            for x in f.d.get("inits", ()) or ():
                nxt = []
                for s in cur:
                    if x.get("deleg") or x.get("e", -1) is None or x.get("e", -1) < 0: nxt.append(s); continue
                    for v, s2 in I.ev(f, x["e"], s, env, ctx): nxt.append(I.store(("f", "this", x.get("init")), v, s2))
                cur = nxt
            for s in cur:
                for kind, s2, v in I.block(f, f.d["root"], s, env, ctx): I.check(s2, f, f.loc(f.d["root"]), "on return", dead=f.d.get("kind") == "dtor")
            for s2, where in I.merge_throws(ctx["throw"]): I.check(s2, f, where, f"when an exception is thrown ({where.split('/')[-1]})")
            if I.over: c.count("functions beyond the bound"); continue
            c.count("member functions examined"); c.count("exits and loop steps examined", I.checks); c.count("obligations", I.checks)
            for g, where, text in msgs:
                k = f"{f.rel()}:{f.qn}:{f.d.get('line')}"
                if k in reported: continue
                reported.add(k)
                c.violation(k, f"{where}: {f.qn}(): {text}")


def main(pid):
    def body():
        c = harness.Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        c.count("functions examined", len(prog.funcs))
        scan(prog, c)
        harness.selftest(c, scan)
        c.require("functions examined", 8000)
        c.require("member functions examined", 40)
        c.require("exits and loop steps examined", 150)
        return c.finish()
    harness.main(body)
