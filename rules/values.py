"""Values are copied, moved, swapped and compared as a whole (C09)."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
STRIP = ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr")
CMP = {"operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="}
FLIP = {"<": ">", ">": "<", "=": "="}


class Undecided(Exception): pass


class Branch(Exception):
    def __init__(self, key, dom): self.key = key; self.dom = dom


def top(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in STRIP and f.nodes[i].get("c"): i = f.nodes[i]["c"][0]
    return i


def inrep(f): return f.file.startswith((P.ARCHON, P.VERIF + "/selftest"))


# --------------------------------------------------------------------------------------------------------------------
# Comparison operators: evaluated over the signs of the member comparisons they make

class Cmp:
    """Abstract evaluation of a comparison operator: operands are the terms ('A',) and ('B',); what is compared is named by the
    term with its side left out; each such key has a sign (<, =, >) in the present world."""
    def __init__(self, prog): self.prog = prog; self.world = {}; self.asked = []; self.depth = 0

    def sides(self, t):
        if not isinstance(t, tuple): return set()
        if t in (("A",), ("B",)): return {t[0]}
        return set().union(*[self.sides(x) for x in t]) if t else set()

    def shape(self, t):
        if t in (("A",), ("B",)): return ("_",)
        if isinstance(t, tuple): return tuple(self.shape(x) for x in t)
        return t

    def sign(self, key):
        if key not in self.asked: self.asked.append(key)
        if key not in self.world: raise Branch(key, "<=>")
        return self.world[key]

    def relate(self, a, b):
        """the sign of the comparison of terms a and b"""
        for x, y, fl in ((a, b, False), (b, a, True)):         # (p <=> q) < 0
            if isinstance(x, tuple) and x and x[0] == "3way" and not self.sides(y):
                r = self.relate(x[1], x[2]); return FLIP[r] if fl else r
        sa, sb = self.sides(a), self.sides(b)
        if sa == {"A"} and sb == {"B"}:
            if self.shape(a) != self.shape(b): raise Mixed(a, b)
            return self.sign(self.shape(a))
        if sa == {"B"} and sb == {"A"}:
            if self.shape(a) != self.shape(b): raise Mixed(a, b)
            return FLIP[self.sign(self.shape(b))]
        raise Undecided("comparison of something else than the two operands")

    def call(self, f, obj, args):
        """value of a call of f (with a body)"""
        if self.depth > 6: raise Undecided("depth")
        env = {"this": obj}
        for p, a in zip(f.params, args): env[p["id"]] = a
        self.depth += 1
        try:
            r = self.stmt(f, env, f.d["root"])
        finally: self.depth -= 1
        if r is None: raise Undecided("no return")
        return r[0]

    def stmt(self, f, env, i):
        if i is None or i < 0: return None
        n = f.nodes[i]; k = n["k"]
        if k == "CompoundStmt":
            for c in n.get("c", ()):
                r = self.stmt(f, env, c)
                if r is not None: return r
            return None
        if k == "ReturnStmt": return (self.ev(f, env, n["c"][0]),)
        if k == "DeclStmt":
            for d in n.get("decls", ()):
                if d.get("init", -1) is not None and d.get("init", -1) >= 0: env[d["id"]] = self.ev(f, env, d["init"])
            return None
        if k == "IfStmt":
            cs = [c for c in n["c"] if c is not None and c >= 0]
            v = self.ev(f, env, cs[0])
            if v is True: return self.stmt(f, env, cs[1])
            if v is False: return self.stmt(f, env, cs[2]) if len(cs) > 2 else None
            raise Undecided("condition")
        if k in ("NullStmt", "BreakStmt"): return None
        if k == "SwitchStmt":
            cs = [c for c in n["c"] if c is not None and c >= 0]
            t = self.ev(f, env, cs[-2]); body = f.nodes[cs[-1]]
            if len(self.sides(t)) != 1: raise Undecided("switch")
            # the worlds: one for each label
            arms = []; cur = None
            for x in body.get("c", ()):
                y = x; labels = 0
                while f.nodes[y]["k"] in ("CaseStmt", "DefaultStmt"): y = f.nodes[y]["c"][-1]; labels += 1
                if labels: cur = [y]; arms.append(cur)
                elif cur is not None: cur.append(y)
            key = ("case", self.shape(t))
            if key not in self.world: raise Branch(key, range(len(arms)))
            for j in range(self.world[key], len(arms)):        # with fall-through
                for y in arms[j]:
                    if f.nodes[y]["k"] == "BreakStmt": return None
                    r = self.stmt(f, env, y)
                    if r is not None: return r
            return None
        if "mac" in n and "ASSERT" in str(n["mac"]): return None
        if k in STRIP or k in CALLS or k in ("ConditionalOperator", "BinaryOperator"):
            if any("ASSERT" in str(f.nodes[x].get("mac", "")) for x in f.walk(i)): return None
        raise Undecided(k)

    def ev(self, f, env, i):
        i = top(f, i)
        n = f.nodes[i]; k = n["k"]
        if k == "CXXThisExpr": return env["this"]
        if k == "UnaryOperator" and n.get("op") == "*": return self.ev(f, env, n["c"][0])
        if k == "UnaryOperator" and n.get("op") == "!":
            v = self.ev(f, env, n["c"][0])
            if isinstance(v, bool): return not v
            raise Undecided("!")
        if k == "CXXBoolLiteralExpr": return int(n.get("v")) != 0
        if "v" in n and not isinstance(n.get("v"), dict) and k not in ("DeclRefExpr",): return ("k", n["v"])
        if k == "DeclRefExpr":
            if n.get("d") in env: return env[n["d"]]
            return ("ref", n.get("qn") or n.get("n"))
        if k == "MemberExpr":
            b = self.ev(f, env, n["c"][0])
            return (".", b, n.get("n") or n["qn"].rsplit("::", 1)[1])
        if k == "ConditionalOperator":
            v = self.ev(f, env, n["c"][0])
            if v is True: return self.ev(f, env, n["c"][1])
            if v is False: return self.ev(f, env, n["c"][2])
            raise Undecided("condition")
        if k == "BinaryOperator":
            op = n["op"]
            if op in ("&&", "||"):
                v = self.ev(f, env, n["c"][0])
                if not isinstance(v, bool): raise Undecided(op)
                if v == (op == "||"): return v
                w = self.ev(f, env, n["c"][1])
                if not isinstance(w, bool): raise Undecided(op)
                return w
            a = self.ev(f, env, n["c"][0]); b = self.ev(f, env, n["c"][1])
            if op in ("==", "!=", "<", "<=", ">", ">="):
                if isinstance(a, bool) and isinstance(b, bool):
                    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
                return self.holds(op, self.relate(a, b))
            return ("3way", a, b) if op == "<=>" else ("op", op, a, b)
        if k in CALLS:
            g = f.fn(i)
            if g is None: raise Undecided("call")
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if n.get("args") and len(n["args"]) == 1: return self.ev(f, env, n["args"][0])
                raise Undecided("construction")
            args = [self.ev(f, env, a) for a in n.get("args", ())]
            obj = self.ev(f, env, n["obj"]) if n.get("obj", -1) is not None and n.get("obj", -1) >= 0 else None
            name = g["name"]
            if name in CMP:
                ops = ([obj] if obj is not None else []) + args
                if len(ops) == 2:
                    h = self.prog.funcs.get(g["key"])
                    # an operator of the class itself on the operands themselves: look inside
                    if {o for o in ops if isinstance(o, tuple)} == {("A",), ("B",)} and h is not None:
                        return self.call(h, ops[0] if obj is not None else None, ops[1:] if obj is not None else ops)
                    if all(isinstance(o, bool) for o in ops): return (ops[0] == ops[1]) == (name == "operator==") if name in ("operator==", "operator!=") else self.holds(name[8:], "=<>"[(ops[0] != ops[1]) * (1 + (ops[0] > ops[1]))])
                    return self.holds(name[8:], self.relate(*ops))
            if name == "operator<=>" and len(([obj] if obj is not None else []) + args) == 2: return ("3way",) + tuple(([obj] if obj is not None else []) + args)
            if g["qn"] in ("std::equal", "std::lexicographical_compare") and len(args) >= 3:
                m = 2
                a = self.range(args[:m]); b = self.range(args[m:m + 2] if len(args) >= 4 else [args[2]])
                return self.holds("==" if g["qn"] == "std::equal" else "<", self.relate(("range", a), ("range", b)))
            if g["qn"] == "std::tie" or g["qn"] == "std::make_tuple": return ("tup",) + tuple(args)
            if obj is not None and (g.get("const") or not g.get("virtual") and g["ret"] >= 0 and g["tu"].types[g["ret"]] != "void" and len(self.sides((obj,) + tuple(args))) == 1): return ("call", obj, name) + tuple(args)
            if obj is None and args: return ("call", name) + tuple(args)
            raise Undecided("call of " + g["qn"])
        raise Undecided(k)

    def range(self, its):
        """the object that a pair of iterators belongs to"""
        t = its[0]
        while isinstance(t, tuple) and t and t[0] == "call" and isinstance(t[1], tuple): t = t[1]
        return t

    def holds(self, op, s):
        return {"==": s == "=", "!=": s != "=", "<": s == "<", "<=": s != ">", ">": s == ">", ">=": s != "<"}[op]


class Mixed(Exception):
    def __init__(self, a, b): self.a = a; self.b = b


def show(t):
    if not isinstance(t, tuple): return str(t)
    if t in (("_",), ("A",), ("B",)): return ""
    if t[0] == ".": return (show(t[1]) + "." if show(t[1]) else "") + str(t[2])
    if t[0] == "range": return (show(t[1]) or "content")
    if t[0] == "call": return (show(t[1]) + "." + str(t[2]) if isinstance(t[1], tuple) else str(t[1]) + "(" + ",".join(show(x) for x in t[2:]) + ")")
    return "(" + " ".join(show(x) for x in t) + ")"


def fields_of(key, out):
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == "." and key[1] == ("_",): out.add(key[2])
        for x in key: fields_of(x, out)
    return out


def comparisons(prog, c):
    by = {}
    for f in prog.funcs.values():
        if not inrep(f) or f.name not in CMP: continue
        if f.cls and len(f.params) == 1:
            pt = (f.T(f.params[0]["t"]) or "").replace("const ", "").rstrip(" &")
            if pt == f.d.get("clsfull", "").replace("const ", ""): by.setdefault((f.cls, f.d["clsfull"]), {})[f.name] = f
            elif re.sub(r"<.*", "", pt) == re.sub(r"<.*", "", f.d.get("clsfull", "")): by.setdefault((f.cls, f.d["clsfull"]), {}).setdefault(f.name, f)
        elif not f.cls and len(f.params) == 2:
            ts = [(f.T(p["t"]) or "").replace("const ", "").rstrip(" &") for p in f.params]
            if ts[0] == ts[1] and ts[0].startswith(("archon::", "selftest::", "(anon")): by.setdefault((re.sub(r"<.*", "", ts[0]), ts[0]), {})[f.name] = f
    done = set()
    for (cls, full), ops in sorted(by.items()):
        c.count("classes with comparison operators")
        ev = Cmp(prog)
        results = {}; bad = False
        keys = []; dom = {}
        A, B = ("A",), ("B",)

        def run(f, world, a=A, b=B):
            ev.world = world
            return ev.call(f, a, [b]) if f.cls else ev.call(f, None, [a, b])
        decided = {}
        for name, f in ops.items():
            if f.d.get("defaulted"): continue
            ks = []
            try:
                # find the keys by running into them
                todo = [{}]; table = {}
                while todo:
                    w = todo.pop()
                    try: table[frozenset(w.items())] = run(f, w)
                    except Branch as e:
                        k = e.key
                        if k not in ks: ks.append(k)
                        dom[k] = e.dom
                        if len(w) > 6: raise Undecided("too many")
                        for s in e.dom: todo.append({**w, k: s})
                if not all(isinstance(v, bool) for v in table.values()): raise Undecided("result")
                decided[name] = (f, ks)
                for k in ks:
                    if k not in keys: keys.append(k)
            except Undecided as e:
                c.count("comparison operators that are not decided"); c.notes.append(f"{f.qn} is not decided ({e})") if len(c.notes) < 20 else None
            except Mixed as e:
                loc = f.loc()
                if (f.qn, "mixed") not in done:
                    done.add((f.qn, "mixed"))
                    c.violation(f"compare {f.qn}", f"{loc}: {f.qn}() compares {show(ev.shape(e.a))} of one operand with {show(ev.shape(e.b))} of the other")
        if not decided: continue
        c.count("comparison operators", len(decided))

        def report(f, msg):
            if (f.qn, msg) in done: return
            done.add((f.qn, msg)); c.violation(f"compare {f.qn}: {msg[:60]}", f"{f.loc()}: {f.qn}() {msg}")
        # all members take part
        iterator = re.search(r"Iter(ator)?$", cls.rsplit("::", 1)[-1]) is not None
        rec = prog.records.get(full)
        for name in ("operator==", "operator<"):
            if name not in decided or rec is None: continue
            f, ks = decided[name]
            used = set()
            for k in ks: fields_of(k, used)
            # what is reached through a getter of the class
            whole = any(k[0] == "range" and k[1] == ("_",) or k[0] == "call" and k[1] == ("_",) for k in ks)
            c.count("obligations")
            if whole or iterator: continue
            for fd in rec.get("fields", ()):
                if fd.get("mutable") or not fd["n"]: continue
                if fd["n"] not in used: report(f, f"does not take member {fd['n']} into account")
        # agreement over all sign vectors
        if len(keys) > 6: continue
        if len({k for k in keys if k[0] == "case"}) > 1: continue
        doms = [dom[k] for k in keys]
        for vec in itertools.product(*doms):
            w = dict(zip(keys, vec)); rw = {k: FLIP.get(s, s) for k, s in w.items()}
            try:
                val = {n: run(f, w) for n, (f, _) in decided.items()}
                rev = {n: run(f, rw) for n, (f, _) in decided.items()}
            except (Undecided, Mixed): continue
            c.count("obligations", len(decided)); c.count("sign vectors evaluated")
            desc = ", ".join(f"{show(k) or 'whole'} {'equal' if s == '=' else 'less' if s == '<' else 'greater'}" for k, s in w.items() if k[0] != "case")
            for n, (f, ks) in decided.items():
                v = val[n]; r = rev[n]
                # members that only matter in another case do not matter here
                used = touched(ev, run, f, w)
                alleq = all(w[k] == "=" for k in used)
                if n == "operator==" and v != alleq: report(f, f"yields {v} although ({desc})")
                if n == "operator!=" and v == alleq: report(f, f"yields {v} although ({desc})")
                if n in ("operator<", "operator>"):
                    if alleq and v: report(f, "yields true for equal operands")
                    if not alleq and v == r: report(f, f"yields {v} for the operands in either order when ({desc})")
                if n in ("operator<=", "operator>="):
                    if alleq and not v: report(f, "yields false for equal operands")
                    if not alleq and v == r: report(f, f"yields {v} for the operands in either order when ({desc})")
            same = lambda x, y: x in val and y in val and set(decided[x][1]) == set(decided[y][1])
            for x, y in (("operator<", "operator>"), ("operator<=", "operator>=")):
                if same(x, y) and val[x] != rev[y]: report(decided[y][0], f"does not agree with {x} with the operands exchanged when ({desc})")
            for x, y in (("operator<", "operator>="), ("operator>", "operator<="), ("operator==", "operator!=")):
                if same(x, y) and val[x] == val[y]: report(decided[y][0], f"is not the opposite of {x} when ({desc})")
        for n in ("operator<", "operator>"):
            if n not in decided or any(d != "<=>" for d in doms): continue
            f, ks = decided[n]
            if len(ks) < 2: continue
            c.count("obligations")
            want = n[8:]
            def lex(order):
                for vec in itertools.product("<=>", repeat=len(ks)):
                    w = {**{k: "=" for k in keys}, **dict(zip(ks, vec))}
                    if run(f, w) != (next((w[k] for k in order if w[k] != "="), "=") == want): return False
                return True
            if not any(lex(o) for o in itertools.permutations(ks)): report(f, "is not a lexicographic ordering of the members it compares (it is not transitive)")


def touched(ev, run, f, w):
    """the keys that can matter in this world, whatever the signs of the others are"""
    cases = {k: v for k, v in w.items() if k[0] == "case"}
    out = set(); todo = [dict(cases)]; n = 0
    while todo and n < 800:
        n += 1
        x = todo.pop()
        try: run(f, x)
        except Branch as e:
            out.add(e.key)
            for s in e.dom: todo.append({**x, e.key: s})
        except (Undecided, Mixed): pass
    return {k for k in out if k[0] != "case"}


def scan(prog, c):
    comparisons(prog, c)
    from values_copy import copies, implicit_copies
    copies(prog, c)
    implicit_copies(prog, c)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        for what, n in (("classes with comparison operators", 10), ("comparison operators", 40)): c.require(what, n)
        return c.finish()
    hmain(body)
