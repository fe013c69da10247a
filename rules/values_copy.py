"""Copy, move and swap operations treat every member (part of C09): provenance of what is stored in each member."""
import re
from values import top, inrep, CALLS, STRIP

SPECIAL = ("copyctor", "movector", "copyassign", "moveassign")
T, O = ("T",), ("O",)


def root(t):
    while isinstance(t, tuple) and t and t[0] == ".": t = t[1]
    return t


class Prov:
    """flow-insensitive collection of the stores that an operation makes, with what is stored"""
    def __init__(self, prog):
        self.prog = prog; self.stores = []; self.content = False; self.seen = set(); self.ctx = {}; self.envs = {}; self.at = {}; self.calls = {}; self.delegates = False
        self.selftest = False; self.ret = None

    def run(self, f, this, args, depth=0):
        key = (f.key, this, tuple(map(repr, args)))
        if depth > 5: return None
        if key in self.seen: return key
        self.seen.add(key); self.ctx[key] = f
        env = {}
        for p, a in zip(f.params, args): env[p["id"]] = a
        # locals that only name something else
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("init", -1) is not None and d.get("init", -1) >= 0: env[d["id"]] = ("local", d["init"])
        cx = (f, this, env, depth); self.key = key; self.envs[key] = env
        cfg = f.cfg()
        for b in (cfg or {}).values():
            for e in b["e"]:
                if isinstance(e, dict) and "init" in e:
                    if e["init"] in ("", None): continue
                    m = e["init"].rsplit("::", 1)[-1]
                    v = self.prov(cx, e["e"]) if e.get("e", -1) is not None and e.get("e", -1) >= 0 else set()
                    self.stores.append(((".", this, m), frozenset(v), f, e.get("e", -1)))
                    self.nested(cx, (".", this, m), e.get("e", -1))
        for i in f.walk():
            n0 = len(self.stores); c0 = self.content
            self.key = key; self.sub = None
            self.node(cx, i)
            if self.sub: self.calls.setdefault((key, i), []).append(self.sub)
            else: self.at.setdefault((key, i), []).extend(s[0] for s in self.stores[n0:])
        return key

    def nested(self, cx, target, e):
        pass

    def term(self, cx, i, dep=0):
        """the place that expression i denotes, if it is (part of) one of the two objects"""
        f, this, env, depth = cx
        i = top(f, i)
        if i is None or i < 0 or dep > 8: return None
        n = f.nodes[i]; k = n["k"]
        if k == "CXXThisExpr": return this
        if k == "DeclRefExpr":
            v = env.get(n.get("d"))
            if isinstance(v, tuple) and v and v[0] == "local":
                t = f.type(i) or ""
                return self.term(cx, v[1], dep + 1)
            return v
        if k == "MemberExpr" and n.get("dk") == "field":
            b = self.term(cx, n["c"][0], dep + 1)
            return (".", b, n["qn"].rsplit("::", 1)[1]) if b else None
        if k == "UnaryOperator" and n.get("op") in ("*", "&"): return self.term(cx, n["c"][0], dep + 1)
        if k in CALLS:
            g = f.fn(i)
            if g is None: return None
            if g["qn"] in ("std::move", "std::forward", "std::addressof", "std::as_const") and n.get("args"): return self.term(cx, n["args"][0], dep + 1)
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if len(n.get("args", ())) == 1 and g.get("special") in ("copyctor", "movector"): return self.term(cx, n["args"][0], dep + 1)
                return None
            o = self.term(cx, n["obj"], dep + 1) if n.get("obj", -1) is not None and n.get("obj", -1) >= 0 else None
            if o is not None and not n.get("args"):
                h = self.prog.funcs.get(g["key"])
                if h is not None:
                    # a function that only returns a reference to (part of) the object
                    rs = [x for x in h.walk() if h.nodes[x]["k"] == "ReturnStmt"]
                    if len(rs) == 1 and h.nodes[rs[0]].get("c"):
                        t = self.term((h, o, {}, 9), h.nodes[rs[0]]["c"][0], dep + 1)
                        if t is not None: return t
                return ("get", o, g["name"])
        if k == "CXXStaticCastExpr" or k in STRIP: return self.term(cx, n["c"][0], dep + 1)
        return None

    def prov(self, cx, i):
        """what the value of expression i is made from"""
        f, this, env, depth = cx
        out = set(); seen = set()
        def go(x):
            if x is None or x < 0 or x in seen: return
            seen.add(x)
            t = self.term(cx, x)
            if t is not None and root2(t) in (T, O): out.add(t); return
            n = f.nodes[x]
            if n["k"] == "DeclRefExpr":
                v = env.get(n.get("d"))
                if isinstance(v, tuple) and v and v[0] == "local": go(v[1])
                elif isinstance(v, tuple) and v and v[0] == "set": out.update(v[1])
            for c in n.get("c", ()): go(c)
        go(i)
        return out

    def node(self, cx, i):
        f, this, env, depth = cx
        n = f.nodes[i]; k = n["k"]
        if k == "BinaryOperator" and n.get("op") in ("==", "!="):
            a, b = self.term(cx, n["c"][0]), self.term(cx, n["c"][1])
            if {a, b} == {T, O}: self.selftest = True
        if k == "ReturnStmt" and depth == 0 and n.get("c"): self.ret = self.term(cx, n["c"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("op") == "=" or k == "CompoundAssignOperator"):
            t = self.term(cx, n["c"][0])
            if t: self.stores.append((t, frozenset(self.prov(cx, n["c"][1])), f, i))
            return
        if k not in CALLS: return
        g = f.fn(i)
        if g is None: return
        args = n.get("args", [])
        obj = self.term(cx, n["obj"]) if n.get("obj", -1) is not None and n.get("obj", -1) >= 0 else None
        targs = [self.term(cx, a) for a in args]
        if g["qn"] in ("std::move", "std::forward", "std::addressof", "std::as_const"): return
        if g["name"] == "swap" or g["qn"] in ("std::swap",):
            xs = ([obj] if obj else []) + [t for t in targs]
            if len(xs) == 2 and all(xs):
                if xs[0] == this and self.prog.funcs.get(g["key"]): pass
                else:
                    self.stores.append((xs[0], frozenset([xs[1]]), f, i)); self.stores.append((xs[1], frozenset([xs[0]]), f, i)); return
        if g["qn"] == "std::exchange" and args:
            if targs[0]: self.stores.append((targs[0], frozenset(self.prov(cx, args[1])), f, i))
            return
        h = self.prog.funcs.get(g["key"])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            # delegation to another constructor of the same class
            if f.d.get("kind") == "ctor" and g.get("cls") == f.cls and h is not None and self.is_delegation(f, i):
                self.delegates = True
                self.run(h, this, [t if t is not None else ("set", frozenset(self.prov(cx, a))) for t, a in zip(targs, args)], depth + 1)
            return
        vals = [t if t is not None else ("set", frozenset(self.prov(cx, a))) for t, a in zip(targs, args)]
        if obj is not None and root2(obj) in (T, O):
            if g["name"] == "operator=" and args:
                self.stores.append((obj, frozenset(self.prov(cx, args[0])), f, i))
                return
            if obj in (T, O) or (h is not None and inrep(h) and obj[0] == "." and any(root2(v) in (T, O) for v in vals if v and v[0] != "set")):
                if h is not None and inrep(h) and not g.get("const"):
                    if obj == T and any(self.whole(v) for v in vals): self.content = True
                    self.sub = self.run(h, obj, vals, depth + 1)
            if not g.get("const") and obj not in (T, O):
                p = set()
                for a in args: p |= self.prov(cx, a)
                self.stores.append((obj, frozenset(p), f, i))
            return
        if h is not None and inrep(h) and any(v and v[0] != "set" and root2(v) in (T, O) for v in vals):
            self.sub = self.run(h, None, vals, depth + 1)
        # something of ours is passed to be modified
        ps = g.get("params", [])
        for j, t in enumerate(targs):
            if t and root2(t) in (T, O) and t not in (T, O) and j < len(ps):
                pt = g["tu"].types[ps[j]["t"]]
                if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                    p = set()
                    for jj, a in enumerate(args):
                        if jj != j: p |= self.prov(cx, a)
                    self.stores.append((t, frozenset(p), f, i))

    def must(self, key, busy=frozenset()):
        """the members of the target that are stored on every path through the function"""
        f = self.ctx[key]; cfg = f.cfg()
        if not cfg or key in busy: return frozenset()
        st = {b: None for b in cfg}; st[f.entry] = frozenset()
        def out(b):
            S = st[b]
            for e in cfg[b]["e"]:
                if not isinstance(e, int): continue
                S = S | {member_of(t, T) or ("*" if t == T else None) for t in self.at.get((key, e), ())}
                for k in self.calls.get((key, e), ()): S = S | self.must(k, busy | {key})
            return S
        work = [f.entry]
        while work:
            b = work.pop(); S = out(b); bb = cfg[b]
            if bb.get("noret"): continue
            skip = None
            t = bb.get("term")
            if t and t.get("c", -1) is not None and t.get("c", -1) >= 0 and len(bb["s"]) == 2:
                for x in f.walk(t["c"]):
                    n = f.nodes[x]
                    if n["k"] == "BinaryOperator" and n.get("op") in ("==", "!=") and {self.term((f, key[1], self.envs[key], 9), y) for y in n["c"]} == {T, O}:
                        skip = bb["s"][0 if n["op"] == "==" else 1]
            for s in bb["s"]:
                if s not in cfg or s == skip: continue
                o = st[s]; n = S if o is None else o & S
                if n != o: st[s] = n; work.append(s)
        return frozenset(x for x in (st.get(f.exit) or frozenset()) if x)

    def whole(self, v):
        """the value stands for the content of the other object as a whole (the object, an iterator of it)"""
        if not v: return False
        if v[0] == "set": return any(self.whole(x) for x in v[1])
        return v[0] == "get" and v[1] == O

    def is_delegation(self, f, i):
        cfg = f.cfg()
        for b in (cfg or {}).values():
            for e in b["e"]:
                if isinstance(e, dict) and "init" in e and e["init"] in ("", None, f.cls) and e.get("e") is not None and e["e"] >= 0 and i in set(f.walk(e["e"])): return True
        p = f.parent.get(i)
        return p is None


def root2(t):
    while isinstance(t, tuple) and t and t[0] in (".", "get"): t = t[1]
    return t


def member_of(t, cls_root):
    """the member of the object that place t lies in"""
    m = None
    while isinstance(t, tuple) and t and t[0] in (".", "get"):
        m = t[2] if t[0] == "." else m
        if t[1] == cls_root and t[0] == ".": return t[2]
        t = t[1]
    return None


def copies(prog, c, debug=False):
    done = set(); given = {}
    byq = {}
    for f in prog.funcs.values():
        if not inrep(f) or f.d.get("defaulted") or not f.cls: continue
        sp = f.d.get("special")
        pt = (f.T(f.params[0]["t"]) or "") if f.params else ""
        if sp == "copyctor" and not pt.startswith("const "): continue         # makes a related object rather than a copy
        if sp in SPECIAL: byq.setdefault((f.qn, sp), []).append(f)
        elif f.name == "swap" and len(f.params) == 1 and (f.T(f.params[0]["t"]) or "").rstrip(" &") == f.d.get("clsfull"): byq.setdefault((f.qn, "swap"), []).append(f)
    for (q, sp), fs in sorted(byq.items()):
        f = fs[0]
        rec = prog.records.get(f.d["clsfull"])
        if rec is None: continue
        c.count("user-written copy, move and swap operations")
        pv = Prov(prog)
        k0 = pv.run(f, T, [O])
        always = pv.must(k0) if sp in ("copyassign", "moveassign") and not pv.content else None
        if debug:
            print(q, sp, "content" if pv.content else "", "selftest" if pv.selftest else "", pv.ret)
            for s in pv.stores: print("     ", s[0], "<-", set(s[1]))
        def report(i, msg):
            if (q, sp, msg) in done: return
            done.add((q, sp, msg)); c.violation(f"{sp} {q}: {msg[:80]}", f"{f.loc()}: {q}() ({sp}) {msg}")
        names = [fd for fd in rec.get("fields", ()) if fd["n"] and not fd.get("empty")]
        for fd in names:
            c.count("obligations")
            if always is not None and fd["n"] not in always and "*" not in always and any(member_of(s[0], T) == fd["n"] for s in pv.stores): report(-1, f"leaves the member {fd['n']} of the target as it was on some path")
            ws = [s for s in pv.stores if member_of(s[0], T) == fd["n"]]
            src = [s for s in ws if any(member_of(x, O) == fd["n"] or x == O or x[0] == "get" and root2(x) == O for x in s[1])]
            t = rec["tu"].types[fd["t"]]
            wholew = any(s[0] == T and s[1] for s in pv.stores)
            if src or pv.content or wholew: 
                pass
            elif re.search(r"\bstd::(mutex|atomic|condition_variable)\b", t): continue
            elif not ws: report(-1, f"does not transfer member {fd['n']}")
            else: report(-1, f"stores something else than the member {fd['n']} of the source in the member {fd['n']}")
            # something that belongs in another member
            for s in ws:
                xs = {member_of(x, O) for x in s[1]} - {None}
                if xs and fd["n"] not in xs and not pv.content and s[0] == (".", T, fd["n"]) and not src:
                    report(-1, f"stores the member {sorted(xs)[0]} of the source in the member {fd['n']}")
            if sp == "swap" and not any(member_of(s[0], O) == fd["n"] and any(member_of(x, T) == fd["n"] for x in s[1]) for s in pv.stores):
                report(-1, f"does not exchange member {fd['n']}")
        if sp in ("copyassign", "moveassign"):
            c.count("obligations")
            if pv.ret is not None and pv.ret != T: report(-1, "does not return the object that was assigned to")
        # what the destructor relies on must be given up by the source of a move
        if sp in ("movector", "moveassign"):
            rel = released(prog, f.d["clsfull"], rec)
            gone = {member_of(x[0], O) for x in pv.stores} - {None}
            if any(x[0] == O for x in pv.stores): gone |= set(rel)
            c.count("members that the destructor relies on", len(rel)); c.count("obligations")
            if rel and not gone & set(rel): report(-1, f"leaves the source as it was, although the destructor relies on {', '.join(rel)}")
            given.setdefault(rec["qn"], {})[sp] = (f, gone)
    for cls, d in sorted(given.items()):
        if len(d) == 2:
            c.count("obligations")
            (f, a), (g, b) = d["movector"], d["moveassign"]
            for h, x, y in ((f, a, b), (g, b, a)):
                for m in sorted(y - x):
                    c.violation(f"{h.d['special']} {h.qn} {m}", f"{h.loc()}: {h.qn}() ({h.d['special']}) does not reset the member {m} of the source, although the other move operation does")


def released(prog, full, rec):
    """scalar members that decide what the destructor of the class releases"""
    d = [f for f in prog.funcs.values() if f.d.get("clsfull") == full and f.d.get("kind") == "dtor" and not f.d.get("defaulted")]
    if not d: return []
    out = set(); seen = set(); todo = [d[0]]
    sc = {fd["n"] for fd in rec.get("fields", ()) if fd.get("scalar")}
    while todo:
        f = todo.pop()
        if f.key in seen or len(seen) > 12: continue
        seen.add(f.key)
        for i, n in enumerate(f.nodes):
            if n["k"] == "MemberExpr" and n.get("dk") == "field" and f.nodes[top(f, n["c"][0])]["k"] == "CXXThisExpr":
                if n["qn"].rsplit("::", 1)[1] in sc and n["qn"].startswith(rec["qn"]): out.add(n["qn"].rsplit("::", 1)[1])
            if n["k"] == "CXXMemberCallExpr":
                g = f.fn(i)
                if g and g.get("clsfull", None) == full and g["key"] in prog.funcs: todo.append(prog.funcs[g["key"]])
    return sorted(out)


NONCOPY = re.compile(r"^(const )?std::(unique_ptr|mutex|recursive_mutex|shared_mutex|thread|atomic|unique_lock|lock_guard|basic_[io]?f?stream|basic_streambuf|basic_ios|ios_base|promise|future|condition_variable)\b")


def implicit_copies(prog, c):
    """a class whose destructor releases something must not be copied member by member"""
    memo = {}

    def copyable(full):
        if full in memo: return memo[full]
        memo[full] = True
        r = prog.records.get(full)
        if r is None: memo[full] = not NONCOPY.match(full); return memo[full]
        sp = r["sp"]; ok = True
        if sp["copyctor"]:
            ds = [r["tu"].fns.get(m) for m in r.get("methods", ())]
            ok = any(d and d.get("special") == "copyctor" and not d.get("deleted") for d in ds)
        elif sp["movector"] or sp["moveassign"]: ok = False
        else:
            for fd in r.get("fields", ()):
                t = r["tu"].types[fd["t"]]
                if not fd.get("scalar") and not fd.get("ref") and not copyable(re.sub(r"\[\d*\]$", "", t.replace("const ", ""))): ok = False
            for b in r.get("bases", ()):
                if not copyable(r["tu"].types[b["t"]]): ok = False
        memo[full] = ok
        return ok
    seen = set()
    made = set()          # classes of which a copy is made somewhere
    for g in prog.funcs.values():
        for i in g.walk():
            nd = g.nodes[i]
            if nd["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "fn" in nd:
                d = g.tu.fns.get(nd["fn"]) if nd["fn"] is not None else None
                if d and d.get("special") in ("copyctor", "copyassign"): made.add(d.get("clsfull"))
    dtors = {}
    for f in prog.funcs.values():
        if f.d.get("kind") == "dtor" and inrep(f) and not f.d.get("defaulted"): dtors[f.d.get("clsfull")] = f
    for full, r in prog.records.items():
        if not r["file"].startswith((values_root(), "/verif/selftest")) and "/selftest/" not in r["file"]: continue
        f = dtors.get(full)
        if f is None or r["qn"] in seen: continue
        acts = [i for i in f.walk() if f.nodes[i]["k"] in CALLS + ("CXXDeleteExpr",) and "ASSERT" not in str(f.nodes[i].get("mac", ""))]
        if not acts: continue
        c.count("classes whose destructor does something"); c.count("obligations")
        if r["sp"]["copyctor"]: continue
        if copyable(full) and (r["file"].endswith(".hpp") and "/noinst/" not in r["file"] and "/impl/" not in r["file"] or full in made):
            seen.add(r["qn"])
            c.violation(f"implicit copy {r['qn']}", f"{f.loc()}: {r['qn']} has a destructor that releases something, but copies of it are made member by member (no copy operation is declared)")


def values_root():
    from archlint import program as P
    return P.ARCHON
