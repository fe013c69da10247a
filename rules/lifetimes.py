"""No object is used after its value has been given away or its lifetime has ended (C17)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P, diag

FLAGS = ["-Wreturn-stack-address", "-Wdangling", "-Wdangling-gsl", "-Wdangling-initializer-list", "-Wdangling-field", "-Wself-move", "-Wself-assign", "-Wself-assign-field", "-Wreturn-local-addr" if False else "-Wreturn-stack-address",
         "-Wrange-loop-construct", "-Wfor-loop-analysis", "-Wunsequenced", "-Wpessimizing-move"]
CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "SubstNonTypeTemplateParmExpr")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
RESET = {"clear", "reset", "assign", "operator=", "swap", "recreate", "emplace", "close", "resize_none"}
ASSIGN = {"="}


def rep(f): return f.file.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(f.file)


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in CASTS and len(f.nodes[i].get("c", ())) == 1: i = f.nodes[i]["c"][0]
    return i


def place(f, i):
    """the object that an expression denotes: (root, member, member, ...)"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]; k = n["k"]
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"): return (n["d"],)
    if k == "CXXThisExpr": return ("this",)
    if k == "MemberExpr" and n.get("dk") == "field" and n.get("c"):
        b = place(f, n["c"][0])
        if b is None or n.get("arrow") and b != ("this",): return None
        return (*b, n["n"])
    return None


def moved_place(f, i):
    """the object that std::move(x) or std::forward<T>(x) (as rvalue) gives away"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]
    if n["k"] != "CallExpr" or not n.get("args"): return None
    g = f.fn(i)
    if g is None or g["qn"] not in ("std::move", "std::forward") or len(n["args"]) != 1: return None
    rt = f.tu.types[g["ret"]] if "ret" in g else ""
    if not rt.endswith("&&") or rt.startswith("const "): return None
    return place(f, n["args"][0])


def consumed(f, i, n):
    """places that are moved out of when node i is executed, with the reason"""
    out = []
    g = f.fn(i) if "fn" in n else None
    if n["k"] in CALLS:
        if g is None:
            return out
        if g["qn"] in ("std::move", "std::forward"): return out
        args = n.get("args") or []
        for a, x in enumerate(args):
            p = moved_place(f, x)
            if p is None: continue
            t = None
            if a < len(g.get("params", ())): t = f.tu.types[g["params"][a]["t"]]
            if t is not None and (t.startswith("const ") and t.endswith("&")): continue
            if not takes(f, g, a): continue
            out.append((p, g["name"]))
        return out
    if n["k"] == "LambdaExpr":
        for cp in n.get("caps", ()):
            if cp.get("init") is not None and cp["init"] >= 0:
                pass
    return out


PROG = None


def takes(f, g, a, depth=0):
    """does the callee take the value of the rvalue that is its parameter number a? (a parameter of type T&& that is only read does not give it away)"""
    if depth > 4: return True
    h = PROG.funcs.get(g["key"]) if PROG else None
    if h is None or a >= len(h.params): return True
    t = h.T(h.params[a]["t"]) or ""
    if not t.endswith("&&"): return True
    k = (h.key, a)
    if k in TAKES: return TAKES[k]
    TAKES[k] = False
    d = h.params[a]["id"]
    r = False
    for i, n in enumerate(h.nodes):
        q = moved_place(h, i) if n["k"] == "CallExpr" else None
        if q and q[0] == d:
            if len(q) > 1: r = True; break
            p = h.parent.get(i)
            while p is not None and h.nodes[p]["k"] in CASTS: p = h.parent.get(p)
            m = h.nodes[p] if p is not None else None
            if m is None: continue
            if m["k"] in CALLS and "fn" in m and m.get("args"):
                for b, x in enumerate(m["args"]):
                    if strip(h, x) == i and takes(h, h.fn(p), b, depth + 1): r = True
            elif m["k"] in CALLS and "obj" in m and m["obj"] == i: pass
            else: r = True
        elif n["k"] == "LambdaExpr":
            for cp in n.get("caps", ()):
                if cp.get("id") == d: r = True
    TAKES[k] = r
    return r


TAKES = {}


def touched(f, i, n, par):
    """(place, kind) for a reference to an object at node i; kind: 'use', 'reset', None"""
    k = n["k"]
    if k not in ("DeclRefExpr", "MemberExpr"): return None
    p = place(f, i)
    if p is None: return None
    c = i; q = par.get(i)
    while q is not None and f.nodes[q]["k"] in CASTS: c, q = q, par.get(q)
    if q is None: return (p, "use")
    m = f.nodes[q]; mk = m["k"]
    if mk == "MemberExpr" and m.get("dk") == "field" and m["c"][0] == c and not m.get("arrow"): return None   # part of a longer place
    if mk == "BinaryOperator" and m.get("op") == "=" and m["c"][0] == c: return (p, "reset")
    if "fn" in m:
        g = f.fn(q)
        if g is not None:
            if m.get("obj") is not None and strip(f, m["obj"]) == i:
                if g["name"] in RESET or g.get("special") in ("copyassign", "moveassign"): return (p, "reset")
                return (p, "use")
            if g["qn"] in ("std::move", "std::forward"): return (p, "use") if mk == "CallExpr" else None
            for a, x in enumerate(m.get("args") or ()):
                if x == c and a < len(g.get("params", ())):
                    t = f.tu.types[g["params"][a]["t"]]
                    if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "): return (p, "reset")
    if mk == "UnaryOperator" and m.get("op") == "&": return (p, "reset")
    if mk == "MemberExpr" and m.get("dk") == "method": 
        # method call: the call node decides
        q2 = par.get(q)
        if q2 is not None and "fn" in f.nodes[q2]:
            g = f.fn(q2)
            if g is not None and (g["name"] in RESET or g.get("special") in ("copyassign", "moveassign")): return (p, "reset")
        return (p, "use")
    return (p, "use")


def trivial(f, i):
    i = strip(f, i)
    t = f.nodes[i].get("t")
    return bool(f.TF(t) & 1)


def order(f):
    """nodes of the function in evaluation order within each CFG element"""


def moves(prog, c):
    global PROG
    PROG = prog
    TAKES.clear(); GIVEN.clear()
    for f in prog.funcs.values():
        if not rep(f): continue
        cfg = f.cfg()
        if not cfg: continue
        par = f.parent
        cons = {}; has = False
        for i, n in enumerate(f.nodes):
            if n["k"] in CALLS and "fn" in n:
                for p, who in consumed(f, i, n):
                    j = [x for x in n.get("args") or () if moved_place(f, x) == p]
                    mv = f.nodes[strip(f, j[0])]
                    if trivial(f, mv["args"][0]): continue
                    cons.setdefault(i, []).append((p, who)); has = True
        # captured by move
        for i, n in enumerate(f.nodes):
            if n["k"] == "LambdaExpr":
                for cp in n.get("caps", ()):
                    x = cp.get("init")
                    if x is not None and x >= 0:
                        p = moved_place(f, x)
                        if p and not trivial(f, f.nodes[strip(f, x)]["args"][0]): cons.setdefault(i, []).append((p, "a closure")); has = True
        if not has: continue
        c.count("functions that give values away"); c.count("values given away", sum(len(x) for x in cons.values())); c.count("obligations", sum(len(x) for x in cons.values()))
        refs = {}
        for i, n in enumerate(f.nodes):
            t = touched(f, i, n, par)
            if t: refs[i] = t
        # forward may-analysis
        ins = {b: None for b in cfg}
        ins[f.entry] = {}
        work = [f.entry]
        rep_ = {}
        inelem = {}

        def run(b, st):
            st = dict(st)
            for e in cfg[b]["e"]:
                if isinstance(e, dict):
                    if "dtor" in e:
                        for p in [p for p in st if p[0] == e["dtor"]]: del st[p]
                    if "e" in e and isinstance(e.get("e"), int) and e["e"] >= 0: e = e["e"]
                    else: continue
                n = f.nodes[e]
                if n["k"] == "DeclStmt":
                    for d in n.get("decls", ()):
                        for p in [p for p in st if p[0] == d["id"]]: del st[p]
                if e in refs:
                    p, kind = refs[e]
                    for q in list(st):
                        if kind == "reset" and q[:len(p)] == p: 
                            # x = ... of a whole object: only at the assignment itself
                            st[q] = ("reset", *st[q][1:]) if st[q][0] == "moved" and False else st[q]
                    if kind == "use":
                        for q in st:
                            if q == p or q[:len(p)] == p and True or p[:len(q)] == q:
                                # giving away different members of one object is fine
                                if q != p and q[:len(p)] == p and len(p) == 1 and p[0] == "this": continue
                                yieldv.append((e, p, q, st[q]))
                if e in cons:
                    for p, who in cons[e]: st[p] = ("moved", e, who)
                # assignments take effect after their operands
                r = resets(e)
                if r:
                    for q in list(st):
                        if q[:len(r)] == r: del st[q]
            return st

        def resets(e):
            n = f.nodes[e]
            if n["k"] == "BinaryOperator" and n.get("op") == "=": return place(f, n["c"][0])
            if n["k"] in CALLS and "fn" in n:
                g = f.fn(e)
                if g is None: return None
                if n.get("obj") is not None and (g["name"] in RESET or g.get("special") in ("copyassign", "moveassign")): return place(f, n["obj"])
                for a, x in enumerate(n.get("args") or ()):
                    if a < len(g.get("params", ())):
                        t = f.tu.types[g["params"][a]["t"]]
                        if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                            p = place(f, x)
                            if p: return p
            return None
        yieldv = []
        n_it = 0
        while work and n_it < 5000:
            n_it += 1
            b = work.pop()
            o = run(b, ins[b])
            for s in cfg[b]["s"]:
                if s is None or s < 0 or s not in cfg: continue
                old = ins[s]
                new = dict(old or {})
                for k, v in o.items(): new.setdefault(k, v)
                if old is None or set(new) != set(old):
                    ins[s] = new; work.append(s)
        seen = set()
        for e, p, q, v in yieldv:
            if e == v[1]: pass
            name = text(f, e)
            if (name, f.loc(e)) in seen: continue
            seen.add((name, f.loc(e)))
            c.violation(f"moved {f.qn} {name}", f"{f.loc(e)}: {f.qn}(): `{name}` is used although its value may have been given away (to {v[2]}(), {f.loc(v[1])})")


def text(f, i):
    n = f.nodes[i]
    return n.get("n", "?")


def forwarding(prog, c):
    """an argument that the caller passed as an lvalue is never moved from"""
    for f in prog.funcs.values():
        if not rep(f): continue
        fw = {p["id"]: p for p in f.params if p.get("fwd")}
        lv = {}
        for p in f.params:
            t = f.T(p["t"]) or ""
            if t.endswith("&") and not t.endswith("&&") and not p.get("fwd"): lv[p["id"]] = p
        if not fw and not lv: continue
        c.count("functions with reference parameters")
        for i, n in enumerate(f.nodes):
            if n["k"] != "CallExpr" or not n.get("args"): continue
            g = f.fn(i)
            if g is None or g["qn"] not in ("std::move", "std::forward"): continue
            t = f.nodes[strip(f, n["args"][0])]
            if t["k"] != "DeclRefExpr": continue
            if t.get("d") in fw:
                c.count("forwarded arguments"); c.count("obligations")
                if g["qn"] == "std::move": c.violation(f"forward {f.qn} {t.get('n')}", f"{f.loc(i)}: {f.qn}(): the forwarding reference `{t.get('n')}` is moved from, even when the caller passed an lvalue")
            elif t.get("d") in lv and not trivial(f, n["args"][0]):
                rt = f.tu.types[g["ret"]]
                if not rt.endswith("&&") or rt.startswith("const "): continue
                c.count("obligations")
                if f.name in ("swap", "exchange", "iter_swap") or "swap" in f.name: continue
                c.violation(f"lvalue {f.qn} {t.get('n')}", f"{f.loc(i)}: {f.qn}(): the object that the caller passed by reference as `{t.get('n')}` is moved from")


# views and references to objects that no longer exist

VIEW = re.compile(r"^(const )?(std::basic_string_view<|archon::core::Span<|archon::core::StringSpan<|archon::core::BasicStringSpan|std::span<|archon::image::Tray<|archon::image::Iter<|std::reference_wrapper<)")
OWN = re.compile(r"^(const )?(std::basic_string<|std::vector<|std::array<|archon::core::(Buffer|Vector|Deque|Slab|String|FlatMap)<|std::(map|set|unordered_map|deque|list|optional|unique_ptr)<|archon::core::(Buffer|String|Vector|SeedMemoryOutputStream))")
GET = {"data", "c_str", "begin", "end", "front", "back", "get", "at", "operator[]", "operator*", "operator->", "value", "operator basic_string_view", "substr", "first", "last", "subspan", "native", "str", "view", "string_view", "release_none", "cbegin", "cend"}


def is_view(t): return t is not None and (VIEW.match(t) is not None or t.rstrip().endswith("*"))


def points_to_local(f, i, defs, seen, ref=False):
    """(node, name) if the view, pointer or reference that the expression i yields refers to a local object of f"""
    if i is None or i < 0: return None
    n = f.nodes[i]; k = n["k"]; t = f.type(i) or ""
    if k in CASTS:
        if n.get("ck") == "ArrayToPointerDecay": return local_object(f, n["c"][0])
        for x in n.get("c", ()):
            return points_to_local(f, x, defs, seen, ref)
    if k == "UnaryOperator" and n.get("op") == "&": return local_object(f, n["c"][0])
    if k == "UnaryOperator" and n.get("op") == "*":
        return points_to_local(f, n["c"][0], defs, seen) if ref else None
    if k == "ConditionalOperator":
        return points_to_local(f, n["c"][1], defs, seen, ref) or points_to_local(f, n["c"][2], defs, seen, ref)
    if k == "InitListExpr" or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        if not is_view(t) and k != "InitListExpr": return None
        if not is_view(t): return None
        for x in n.get("args") or n.get("c", ()):
            if x is None or x < 0: continue
            tx = f.type(x) or ""
            if is_view(tx):
                r = points_to_local(f, x, defs, seen)
                if r: return r
            elif owns(tx.replace("&", "").strip()) or "[" in tx:
                r = local_object(f, x)
                if r: return r
        return None
    if k == "BinaryOperator" and n.get("op") in ("+", "-", ","):
        for x in n["c"]:
            if (f.type(x) or "").endswith("*"):
                r = points_to_local(f, x, defs, seen)
                if r: return r
        return None
    if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
        g = f.fn(i)
        if g is None: return None
        if k != "CallExpr" and n.get("obj") is not None and (g["name"] in GET or g.get("kind") == "conv"):
            ot = (f.type(n["obj"]) or "").replace("&", "").strip()
            rt = f.tu.types[g["ret"]] if "ret" in g else ""
            if owns(ot) and (is_view(rt) or rt.endswith("&") or rt.endswith("*")): return local_object(f, n["obj"])
            if is_view(ot) and not owns(ot): return points_to_local(f, n["obj"], defs, seen)
        if g["qn"] in ("std::forward", "std::move", "std::as_const", "std::addressof", "std::begin", "std::data") and n.get("args"):
            return local_object(f, n["args"][0])
        return None
    if k == "ArraySubscriptExpr": return local_object(f, i) if ref else None
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm") and not n.get("cap"):
        if ref and not (f.vars_t.get(n["d"], "").endswith("&") if hasattr(f, "vars_t") else False):
            r = local_object(f, i)
            if r: return r
        if n["d"] in seen or n.get("dk") == "parm": return None
        seen.add(n["d"])
        for x in defs.get(n["d"], ()):
            r = points_to_local(f, x, defs, seen)
            if r: return r
        return None
    if k == "MemberExpr" and ref: return local_object(f, i)
    return None


VT = {}


EXEMPT = {("archon::check::impl::ThreadContextImpl::run", "test_context"): "the logger is only used while a test is running, and every test sets it first"}


def owns(t):
    if OWN.match(t) is None or not t.endswith(">"): return False
    d = 0
    for k, ch in enumerate(t):
        if ch == "<": d += 1
        elif ch == ">":
            d -= 1
            if d == 0: return k == len(t) - 1
    return False


def given_away(f):
    """local objects whose contents are moved elsewhere"""
    r = GIVEN.get(f.key)
    if r is None:
        r = GIVEN[f.key] = set()
        for i, n in enumerate(f.nodes):
            if n["k"] == "CallExpr":
                p = moved_place(f, i)
                if p: r.add(p[0])
    return r


GIVEN = {}


def local_object(f, i):
    """the local (automatic, non-reference) object that an lvalue is (part of)"""
    while True:
        i = strip(f, i)
        if i is None or i < 0: return None
        n = f.nodes[i]; k = n["k"]
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm") and not n.get("cap"):
            t, static = VT[f.key].get(n["d"], (None, False))
            if t is None or static or t.endswith("&") or t.endswith("*"): return None
            if VIEW.match(t) or n["d"] in given_away(f): return None
            return (i, n.get("n"))
        if k == "MemberExpr" and not n.get("arrow") and n.get("c"): i = n["c"][0]; continue
        if k == "ArraySubscriptExpr":
            t = f.type(strip(f, n["c"][0])) or ""
            if "[" in t: i = n["c"][0]; continue
            return None
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.get("obj") is not None:
            g = f.fn(i)
            ot = (f.type(n["obj"]) or "").replace("&", "").strip()
            if g and g["name"] in ("operator[]", "front", "back", "at", "operator*", "value", "get") and owns(ot): i = n["obj"]; continue
            return None
        if k == "CallExpr":
            g = f.fn(i)
            if g and g["qn"] in ("std::move", "std::forward", "std::as_const") and n.get("args"): i = n["args"][0]; continue
            return None
        return None


def dangling(prog, c):
    for f in prog.funcs.values():
        if not rep(f): continue
        VT[f.key] = vt = {}
        for p in f.params: vt[p["id"]] = (f.T(p["t"]) or "", False)
        defs = {}
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    vt[d["id"]] = (f.T(d["t"]) or "", bool(d.get("static")))
                    if d.get("init", -1) is not None and d.get("init", -1) >= 0: defs.setdefault(d["id"], []).append(d["init"])
            elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                t = f.nodes[strip(f, n["c"][0])]
                if t["k"] == "DeclRefExpr" and "d" in t: defs.setdefault(t["d"], []).append(n["c"][1])
            elif n["k"] == "CXXOperatorCallExpr" and n.get("obj") is not None and "fn" in n:
                g = f.fn(i); t = f.nodes[strip(f, n["obj"])]
                if g and g["name"] == "operator=" and t["k"] == "DeclRefExpr" and "d" in t and n.get("args"): defs.setdefault(t["d"], []).append(n["args"][0])
        rt = f.ret or ""
        refret = rt.rstrip().endswith("&")
        if is_view(rt) or refret:
            for i in f.walk():
                n = f.nodes[i]
                if n["k"] != "ReturnStmt" or not n.get("c"): continue
                c.count("returned views, pointers and references"); c.count("obligations")
                r = local_object(f, n["c"][0]) if refret else None
                r = r or points_to_local(f, n["c"][0], defs, set())
                if r: c.violation(f"dangling {f.qn} {r[1]}", f"{f.loc(i)}: {f.qn}() returns a reference to (or view of) its local object `{r[1]}`")
        # stores into objects that outlive the function
        for i, n in enumerate(f.nodes):
            if n["k"] == "BinaryOperator" and n.get("op") == "=": tgt, val = n["c"][0], n["c"][1]
            elif n["k"] == "CXXOperatorCallExpr" and "fn" in n and n.get("obj") is not None and n.get("args") and f.fn(i) and f.fn(i)["name"] == "operator=": tgt, val = n["obj"], n["args"][0]
            else: continue
            if not is_view((f.type(tgt) or "").replace("&", "").strip()): continue
            p = place(f, tgt)
            if p is None: continue
            if p[0] != "this":
                t = vt.get(p[0], ("", False))[0]
                if not t.endswith("&"): continue
                if p[0] not in {q["id"] for q in f.params}: continue
            c.count("views and pointers stored in longer-lived objects"); c.count("obligations")
            r = points_to_local(f, val, defs, set())
            if r and not cleared(f, i, p) and (f.qn, r[1]) not in EXEMPT: c.violation(f"stored {f.qn} {r[1]}", f"{f.loc(i)}: {f.qn}() stores a reference to (or view of) its local object `{r[1]}` in an object that outlives it")


def cleared(f, i, p):
    """the place is given another value later in the same function"""
    for j, n in enumerate(f.nodes):
        if j != i and n["k"] == "BinaryOperator" and n.get("op") == "=" and place(f, n["c"][0]) == p and n["l"] > f.nodes[i]["l"]: return True
    return False


GROWTH = {"reserve", "reserve_extra", "reserve_extra_a", "reserve_a", "expand", "reserve_f", "reserve_b", "resize", "append", "append_a", "append_fill", "append_range", "push_back", "emplace_back", "push_front", "emplace_front", "assign", "insert", "emplace", "prepend", "operator=", "recreate",
          "operator+=", "swap", "reset", "clear_none", "pop_front", "shrink_to_fit", "replace"}
INTO = {"data", "c_str", "begin", "end", "front", "back", "get", "at", "operator[]", "cbegin", "cend", "find", "insert", "emplace_back", "operator*", "operator->", "value"}
HEAP = re.compile(r"^(std::basic_string<|std::vector<|archon::core::(Buffer|Vector|Deque|Slab)<)")


def into_owner(f, i, vt, lval=False):
    """the containers (places) into whose memory the pointer, view, iterator or reference that i yields points"""
    if i is None or i < 0: return set()
    n = f.nodes[i]; k = n["k"]
    if k in CASTS and n.get("c"): return into_owner(f, n["c"][0], vt, lval)
    if k == "UnaryOperator" and n.get("op") == "&": return into_owner(f, n["c"][0], vt, True)
    if k == "UnaryOperator" and n.get("op") == "*": return into_owner(f, n["c"][0], vt) if lval else set()
    if k == "BinaryOperator" and n.get("op") in ("+", "-"):
        if not (f.type(i) or "").endswith("*"): return set()
        r = set()
        for x in n["c"]: r |= into_owner(f, x, vt)
        return r
    if k == "ConditionalOperator": return into_owner(f, n["c"][1], vt, lval) | into_owner(f, n["c"][2], vt, lval)
    if k == "InitListExpr" or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        t = f.type(i) or ""
        if not (VIEW.match(t) or "iterator" in t or "::Iter" in t): return set()
        r = set()
        for x in n.get("args") or n.get("c", ()):
            if x is None or x < 0: continue
            tx = (f.type(x) or "").replace("&", "").replace("const ", "").strip()
            if HEAP.match(tx) and owns(tx):
                q = place(f, x)
                if q: r.add(q)
            else: r |= into_owner(f, x, vt)
        return r
    if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.get("obj") is not None:
        g = f.fn(i)
        if g is None: return set()
        if g["name"] in ("front", "back", "at", "operator[]", "operator*", "operator->", "emplace_back", "value") and not lval: return set()
        ot = (f.type(n["obj"]) or "").replace("&", "").replace("const ", "").strip().removesuffix("*").strip()
        if HEAP.match(ot) and owns(ot) and (g["name"] in INTO or g.get("kind") == "conv"):
            q = place(f, n["obj"])
            return {q} if q else set()
        if g["name"] in ("operator+", "operator-", "operator*", "operator->", "operator[]", "substr", "subspan", "base") : return into_owner(f, n["obj"], vt)
        return set()
    if k == "ArraySubscriptExpr": return into_owner(f, n["c"][0], vt) if lval else set()
    if k == "MemberExpr" and n.get("c") and n.get("dk") == "field": return into_owner(f, n["c"][0], vt, not n.get("arrow")) if lval and (f.nodes[strip(f, n["c"][0])]["k"] not in ("DeclRefExpr", "CXXThisExpr")) else set()
    if k == "DeclRefExpr" and n.get("dk") == "local": return {("alias", n["d"])}
    return set()


def lambdas(prog, f, i):
    n = f.nodes[i]
    out = []
    for x in [n.get("fn")] + list(n.get("gspecs", ()) or ()):
        if x is None: continue
        g = f.tu.fns.get(x) if isinstance(x, int) else None
        if g and g["key"] in prog.funcs: out.append(prog.funcs[g["key"]])
    return out


def pointerish(t):
    return t.endswith("*") or VIEW.match(t) is not None or "iterator" in t or t.endswith("&")


def invalidated(prog, c):
    for f in prog.funcs.values():
        if not rep(f) or not f.cfg(): continue
        cfg = f.cfg(); par = f.parent
        vt = {}
        track = {}; isref = set()
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    t = f.T(d["t"]) or ""
                    if pointerish(t) and not d.get("static") and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        if into_owner(f, d["init"], vt, t.endswith("&")):
                            track[d["id"]] = d["n"]
                            if t.endswith("&"): isref.add(d["id"])
            elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                t = f.nodes[strip(f, n["c"][0])]
                if t["k"] == "DeclRefExpr" and t.get("dk") == "local" and pointerish(f.type(n["c"][0]) or "") and into_owner(f, n["c"][1], vt): track[t["d"]] = t["n"]
        for i, n in enumerate(f.nodes):
            if n["k"] == "LambdaExpr":
                # reassigned by a local function
                for cp in n.get("caps", ()):
                    if cp.get("ref") and cp.get("id") in track:
                        for g in lambdas(prog, f, i):
                            if any(m["k"] == "BinaryOperator" and m.get("op") == "=" and g.nodes[strip(g, m["c"][0])].get("n") == cp["n"] for m in g.nodes): track.pop(cp["id"], None)
        if not track: continue
        grow = {}
        for i, n in enumerate(f.nodes):
            if n["k"] not in CALLS or "fn" not in n: continue
            g = f.fn(i)
            if g is None: continue
            if n.get("obj") is not None and n["k"] != "CXXConstructExpr":
                ot = (f.type(n["obj"]) or "").replace("&", "").replace("const ", "").strip().removesuffix("*").strip()
                if HEAP.match(ot) and owns(ot) and g["name"] in GROWTH:
                    q = place(f, n["obj"])
                    if q: grow.setdefault(i, []).append(q)
            for a, x in enumerate(n.get("args") or ()):
                if a >= len(g.get("params", ())): continue
                t = f.tu.types[g["params"][a]["t"]]
                if not t.endswith("&") or t.startswith("const "): continue
                b = t.rstrip("&").strip()
                if HEAP.match(b) and owns(b) and not g["qn"].startswith("std::"):
                    q = place(f, x)
                    if q and n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): grow.setdefault(i, []).append(q)
        if not grow: continue
        c.count("functions that keep pointers into containers that they also extend"); c.count("obligations", len(track))
        reads = {}
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclRefExpr" and n.get("d") in track:
                x = i; q = par.get(i)
                while q is not None and f.nodes[q]["k"] in CASTS: x, q = q, par.get(q)
                m = f.nodes[q] if q is not None else {"k": ""}
                rf = n["d"] in isref
                if not rf and m["k"] == "BinaryOperator" and m.get("op") == "=" and m["c"][0] == x: continue
                if not rf and m["k"] == "CXXOperatorCallExpr" and m.get("obj") == x and f.fn(q) and f.fn(q)["name"] == "operator=": continue
                reads[i] = n["d"]
        bad = {}

        def run(b, st):
            st = dict(st)
            for e in cfg[b]["e"]:
                if isinstance(e, dict): continue
                n = f.nodes[e]
                if e in reads:
                    v = st.get(reads[e])
                    if v and v[1] is not None: bad.setdefault(reads[e], (e, v))
                if e in grow:
                    for q in grow[e]:
                        for d, (src, at) in list(st.items()):
                            if q in src and at is None: st[d] = (src, e)
                new = []
                if n["k"] == "DeclStmt":
                    for d in n.get("decls", ()):
                        if d["id"] in track: new.append((d["id"], d.get("init", -1), (f.T(d["t"]) or "").endswith("&")))
                elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                    t = f.nodes[strip(f, n["c"][0])]
                    if t["k"] == "DeclRefExpr" and t.get("d") in track and t["d"] not in isref: new.append((t["d"], n["c"][1], False))
                elif n["k"] == "CXXOperatorCallExpr" and n.get("obj") is not None and "fn" in n and f.fn(e) and f.fn(e)["name"] == "operator=":
                    t = f.nodes[strip(f, n["obj"])]
                    if t["k"] == "DeclRefExpr" and t.get("d") in track and t["d"] not in isref: new.append((t["d"], n["args"][0] if n.get("args") else -1, False))
                for d, x, lv in new:
                    src = set()
                    for q in into_owner(f, x, vt, lv):
                        if q[0] == "alias": src |= set(st.get(q[1], ((), None))[0])
                        else: src.add(q)
                    st[d] = (frozenset(src), None)
            return st
        ins = {f.entry: {}}; work = [f.entry]; it = 0
        while work and it < 4000:
            it += 1
            b = work.pop(); o = run(b, ins[b])
            for x in cfg[b]["s"]:
                if x is None or x < 0 or x not in cfg: continue
                old = ins.get(x)
                new = dict(old or {})
                for d, (src, at) in o.items():
                    if d in new: new[d] = (new[d][0] | src, new[d][1] if new[d][1] is not None else at)
                    else: new[d] = (src, at)
                if old is None or new != old: ins[x] = new; work.append(x)
        for d, (e, (src, at)) in bad.items():
            c.violation(f"invalidated {f.qn} {track[d]}", f"{f.loc(e)}: {f.qn}(): `{track[d]}` refers to memory of `{'.'.join(str(x) for x in sorted(src)[0][1:]) or 'a container'}`, which may have been reallocated since ({f.loc(at)})")


def scan(prog, c):
    invalidated(prog, c)
    moves(prog, c)
    forwarding(prog, c)
    dangling(prog, c)


def diagnostics(res, c):
    for f, l, w, m in res:
        c.violation(f"{f.replace(P.ARCHON + '/', '')} {w} {m}"[:200], f"{f.replace(P.REPO + '/', '')}:{l}: {m} [{w}]")


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        tus = P.library_tus() + P.drivers()
        prog = P.load(tus)
        scan(prog, c)
        diagnostics(diag.run(tus, sorted(set(FLAGS))), c)
        selftest(c, scan)
        for what, n in (("values given away", 100), ("forwarded arguments", 100), ("returned views, pointers and references", 100)): c.require(what, n)
        return c.finish()
    hmain(body)
