"""Nothing is read before it has been given a value (C14)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P, diag

FLAGS = ["-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized", "-Wstatic-self-init", "-Wuninitialized-const-reference", "-Wreorder-ctor", "-Wreturn-type"]
CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "SubstNonTypeTemplateParmExpr")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


def rep(f): return f.file.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(f.file)


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in CASTS and len(f.nodes[i].get("c", ())) == 1: i = f.nodes[i]["c"][0]
    return i


def bare(t):
    t = (t or "").strip()
    while True:
        u = t
        for s in ("const ", "volatile ", "class ", "struct "):
            if t.startswith(s): t = t[len(s):]
        t = t.rstrip()
        if t.endswith("&"): t = t.rstrip("&").rstrip()
        if t.endswith("*const"): t = t[:-5]
        if t == u: return t


def leaves(f, b):
    for e in b["e"]:
        if isinstance(e, int):
            n = f.nodes[e]
            if n["k"] == "CXXThrowExpr": return True
            if n["k"] == "CallExpr" and "fn" in n:
                g = f.fn(e)
                if g and g["qn"] in ("archon::core::terminate", "archon::core::impl::terminate", "std::terminate", "std::abort", "abort"): return True
    return False


def root(f, i):
    """'this' or the id of a local variable"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]
    if n["k"] == "CXXThisExpr": return "this"
    if n["k"] == "DeclRefExpr" and n.get("dk") == "local": return n["d"]
    if n["k"] == "UnaryOperator" and n.get("op") in ("*", "&") and root(f, n["c"][0]) == "this": return "this"
    return None


def r_t(r, x):
    return r["tu"].types[x["t"]] if x.get("t", -1) >= 0 else ""


class Rules:
    def __init__(self, prog, lazy=None):
        self.prog = prog
        self.lazy = lazy or {}      # full name of class -> (functions that give the object its first values, functions that need them)
        self.pseudo = {}
        self.fields = {}            # full name of class -> names of fields that have no value by themselves
        for full, r in prog.records.items():
            if r.get("union"): continue
            fl = {x["n"] for x in r["fields"] if x["n"] and x.get("scalar") and "[" not in r_t(r, x) and not x.get("init") and not x.get("ref") and not x.get("empty")}
            ps = {x["n"]: bare(r_t(r, x)) for x in r["fields"] if x["n"] and not x.get("ref") and bare(r_t(r, x)) in self.lazy}
            if ps: self.pseudo[full] = ps
            if fl or ps: self.fields[full] = fl | set(ps)
        self.sum = {}               # function -> (assigned at normal exit, read before assignment: field -> node), for *this
        self.active = set()
        self.reads = {}

    def role(self, f, i):
        """what happens to the object that the expression denotes: 'read', 'write', 'both', 'ref', None"""
        n = f.nodes
        c = i; p = f.parent.get(i)
        while p is not None and n[p]["k"] in ("ParenExpr", "ExprWithCleanups"): c, p = p, f.parent.get(p)
        if p is None: return "read"
        m = n[p]; k = m["k"]
        if k == "BinaryOperator" and m.get("op") == "=" and m["c"][0] == c: return "write"
        if k == "CompoundAssignOperator" and m["c"][0] == c: return "both"
        if k == "UnaryOperator" and m.get("op") in ("++", "--"): return "both"
        if k == "UnaryOperator" and m.get("op") == "&": return "ref"
        if k in ("ArraySubscriptExpr",) and "[" in (f.type(i) or ""): return "ref"
        if "fn" in m:
            g = f.fn(p)
            if g:
                for a, x in enumerate(m.get("args") or ()):
                    if x == c and a < len(g.get("params", ())):
                        t = f.tu.types[g["params"][a]["t"]]
                        if t.endswith("&"): return "read" if t.startswith("const ") or t.endswith("&&") else "ref"
                        return "read"
                if m.get("obj") == c: return "ref"
        if k == "DeclStmt": 
            for d in m.get("decls", ()):
                if d.get("init") == c and (f.T(d["t"]) or "").endswith("&"): return "ref"
            return "read"
        if k == "ReturnStmt" and (f.ret or "").endswith("&"): return "ref"
        if k in ("InitListExpr", "LambdaExpr"): return "ref"
        if k in CASTS and n[p].get("lv"): return "ref"
        if k == "ConditionalOperator" and n[p].get("lv"): return "ref"
        if k == "MemberExpr": return "ref"
        if k in ("CXXTypeidExpr", "UnaryExprOrTypeTraitExpr", "CXXNoexceptExpr"): return None
        return "read"

    def summary(self, key):
        if key in self.sum: return self.sum[key]
        f = self.prog.funcs.get(key)
        if f is None or key in self.active: return (None, {})
        self.active.add(key)
        r = self.analyse(f)
        self.active.discard(key)
        self.sum[key] = r
        return r

    def analyse(self, f, report=None):
        """definite assignment; `report` receives reads of local objects"""
        cfg = f.cfg()
        if not cfg: return (None, {})
        tracked = {}      # root -> fields
        own = self.fields.get(f.d.get("clsfull")) if not f.d.get("static") else None
        lam = f.d.get("lambda")
        if own: tracked["this"] = own
        elif lam: tracked["this"] = None   # any field
        uer = {}
        ins = {f.entry: frozenset()}
        work = [f.entry]
        n_it = 0

        def fields_of(r):
            return tracked.get(r, ())

        def run(b, st, log=None):
            st = set(st)
            for e in cfg[b]["e"]:
                if isinstance(e, dict):
                    if "init" in e and not (own and e["init"] in self.pseudo.get(f.d.get("clsfull"), ())): st.add(("this", e["init"]))
                    e = e.get("e")
                    if not isinstance(e, int) or e < 0: continue
                n = f.nodes[e]; k = n["k"]
                if k == "DeclStmt":
                    for d in n.get("decls", ()):
                        if d.get("static"): continue
                        full = bare(f.T(d["t"]))
                        fl = self.fields.get(full)
                        for q in [q for q in st if q[0] == d["id"]]: st.discard(q)
                        if not fl or (f.T(d["t"]) or "").endswith("&"): continue
                        tracked[d["id"]] = fl
                        init = d.get("init")
                        s = strip(f, init) if init is not None else None
                        known = set(fl)
                        if s is None or s < 0: known = set()
                        elif f.nodes[s]["k"] == "CXXConstructExpr" and not f.nodes[s].get("args") and not f.nodes[s].get("zero"):
                            g = f.fn(s)
                            if g and g.get("special") == "defctor":
                                h = self.prog.funcs.get(g["key"])
                                if h is not None and not h.d.get("defaulted"):
                                    a, _ = self.summary(g["key"])
                                    known = set(fl) if a is None else {x for x in fl if x in a}
                                elif g.get("implicit") or g.get("defaulted"): known = set()
                        for x in known: st.add((d["id"], x))
                elif k == "MemberExpr" and n.get("dk") == "field" and n.get("c"):
                    r = root(f, n["c"][0])
                    if r is not None and r in tracked and (tracked[r] is None or n["n"] in tracked[r]) and bare(f.type(e)) not in self.lazy:
                        q = (r, n["n"])
                        ro = self.role(f, e)
                        if ro in ("read", "both") and q not in st:
                            if log is not None: log.append((q, e))
                        if ro == "ref": st.add(q)
                elif k == "BinaryOperator" and n.get("op") == "=":
                    t = strip(f, n["c"][0])
                    m = f.nodes[t]
                    if m["k"] == "MemberExpr" and m.get("c"):
                        r = root(f, m["c"][0])
                        if r is not None: st.add((r, m["n"]))
                    else:
                        r = root(f, t)
                        if r is not None:
                            for x in fields_of(r) or (): st.add((r, x))
                if "fn" in n:
                    g = f.fn(e)
                    if g is None: continue
                    r = root(f, n["obj"]) if n.get("obj") is not None else None
                    if n.get("obj") is not None and r is None:
                        o = f.nodes[strip(f, n["obj"])]
                        if o["k"] == "MemberExpr" and o.get("dk") == "field" and o.get("c") and root(f, o["c"][0]) in tracked:
                            lz = self.lazy.get(g.get("clsfull") or bare(f.type(strip(f, n["obj"]))))
                            if lz:
                                q = (root(f, o["c"][0]), o["n"])
                                if g["key"] in lz[0]: st.add(q)
                                elif g["key"] in lz[1] and q not in st and log is not None: log.append((q, e))
                    if r is not None and not (r == "this" and lam):
                        if g["name"] == "operator=":
                            for x in fields_of(r) or (): st.add((r, x))
                        elif r == "this" or r in tracked:
                            a, u = self.summary(g["key"])
                            fl = fields_of(r) or ()
                            for x, w in u.items():
                                if x in fl and (r, x) not in st and log is not None: log.append(((r, x), e))
                            if r != "this" and not g.get("const"):
                                for x in fl: st.add((r, x))
                            elif a is None:
                                if g["key"] not in self.prog.funcs and not g.get("const"):
                                    for x in fl: st.add((r, x))
                            else:
                                for x in a: st.add((r, x))
                        else:
                            # a call of a closure that works on this object
                            h = self.prog.funcs.get(g["key"])
                            if h is not None and h.d.get("lambda") and "this" in tracked:
                                a, u = self.summary(g["key"])
                                for x, w in u.items():
                                    if tracked["this"] and x in tracked["this"] and ("this", x) not in st and log is not None: log.append((("this", x), e))
                                for x in a or (): st.add(("this", x))
                    elif r == "this" and lam:
                        a, u = self.summary(g["key"])
                        for x, w in u.items():
                            if ("this", x) not in st and log is not None: log.append((("this", x), e))
                        for x in a or (): st.add(("this", x))
                    for a, x in enumerate(n.get("args") or ()):
                        y = strip(f, x)
                        m = f.nodes[y] if y is not None and y >= 0 else None
                        if m is None: continue
                        if m["k"] == "UnaryOperator" and m.get("op") == "&": y = strip(f, m["c"][0])
                        rr = root(f, y)
                        if rr is not None and rr != "this" and rr in tracked and a < len(g.get("params", ())):
                            t = f.tu.types[g["params"][a]["t"]]
                            if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&") or t.endswith("*"):
                                for z in fields_of(rr) or (): st.add((rr, z))
                            elif log is not None and rr != "this" and g.get("special") in ("copyctor", "movector"):
                                copies.append((rr, e, {z for z in fields_of(rr) if (rr, z) not in st}))
                if k == "LambdaExpr":
                    for cp in n.get("caps", ()):
                        if cp.get("ref") and cp.get("id") in tracked:
                            for z in fields_of(cp["id"]) or (): st.add((cp["id"], z))
            return frozenset(st)
        copies = []
        while work and n_it < 4000:
            n_it += 1
            b = work.pop()
            o = run(b, ins[b])
            if cfg[b].get("noret") or leaves(f, cfg[b]): continue
            for s in cfg[b]["s"]:
                if s is None or s < 0 or s not in cfg: continue
                new = o if s not in ins else ins[s] & o
                if ins.get(s) != new:
                    ins[s] = new; work.append(s)
        log = []
        for b, st in ins.items(): run(b, st, log)
        if report is not None: report(f, [x for x in log if x[0][0] != "this"], copies)
        for (r, x), e in log:
            if r == "this": uer.setdefault(x, e)
        out = None
        if f.exit in ins: out = {x for r, x in ins[f.exit] if r == "this"}
        return (out, uer)


def scan(prog, c):
    done = set()

    def report(f, log, copies):
        for (r, x), e in log:
            k = (f.loc(e), x)
            if k in done: continue
            done.add(k)
            c.violation(f"uninitialized {f.qn} {x}", f"{f.loc(e)}: {f.qn}(): member `{x}` of a local object is read on a path on which it has not been given a value")
        for r, e, miss in copies:
            if not miss: continue
            k = (f.loc(e), "copy")
            if k in done: continue
            done.add(k)
            c.violation(f"uninitialized copy {f.qn} {sorted(miss)}", f"{f.loc(e)}: {f.qn}(): a local object is passed on by value on a path on which {sorted(miss)} have not been given values")
    byc = {}
    for f in prog.funcs.values():
        if f.d.get("clsfull"): byc.setdefault(f.d["clsfull"], []).append(f)
    lazy = {}
    for rnd in range(5):
        R = Rules(prog, lazy)
        last = dict(lazy)
        res = {full: unset(R, prog, full, byc) for full in R.fields if ours(prog.records[full])}
        for full, (un, early) in res.items():
            if not un: continue
            need = set(un)
            first = {m.key for m in byc.get(full, ()) if m.d.get("kind") not in ("ctor", "dtor", "conv") and not m.d.get("special") and (lambda s: s[0] is not None and need <= s[0] and not need & set(s[1]))(R.summary(m.key))}
            users = {m.key for m in byc.get(full, ()) if m.d.get("kind") != "ctor" and m.key not in first and need & set(R.summary(m.key)[1])}
            # (a single member with a setter is not a separate initialization)
            if first and users and (len(need) > 1 or need & set(R.pseudo.get(full, ()))): lazy[full] = (first, users)
        if {k: v for k, v in lazy.items()} == last: break
    for f in prog.funcs.values():
        if rep(f):
            R.analyse(f, report)
            c.count("functions examined")
    for full, (un, early) in res.items():
        r = prog.records[full]
        c.count("members without initializer", len(R.fields[full])); c.count("obligations", len(R.fields[full]))
        for x, (f, e) in early.items():
            c.violation(f"uninitialized {f.qn} {x}", f"{f.loc(e)}: {f.qn}(): member `{x}` is read before it has been given a value")
        if full in lazy:
            c.count("classes whose values are set by a separate function"); c.sample(f"{r['qn']}: {sorted(un)} are set by {sorted({prog.funcs[k].name for k in lazy[full][0]})}"); continue
        for x, w in un.items():
            if (r["qn"], x) in LATER: continue
            rd = []
            for m in byc.get(full, ()):
                if m.d.get("kind") in ("ctor", "dtor") or m.d.get("access") == 2 or m.d.get("defaulted"): continue
                a, u = R.summary(m.key)
                if x in u: rd.append((m, u[x]))
            if rd:
                m, e = rd[0]
                where = f"the constructor at {w.loc()}" if w else "its implicit constructor"
                c.violation(f"member {r['qn']}::{x}", f"{m.loc(e)}: {m.qn}(): `{x}` is read, but {where} gives it no value")


# members that have no value at first, and are read only in a state of the object in which they have been assigned
LATER = {
    # assigned by track(), which sets m_no_track_yet to false; m_no_track_yet is assigned by acquire(), which sets m_acquired to true
    ("archon::render::VirtualTrackball", "m_no_track_yet"), ("archon::render::VirtualTrackball", "m_track_millis"),
    # assigned by run(), which the test runner calls for every thread before it calls nonconcur_run()
    ("archon::check::impl::ThreadContextImpl", "m_num_failed_checks"), ("archon::check::impl::ThreadContextImpl", "m_num_failed_test_executions"), ("archon::check::impl::ThreadContextImpl", "m_errors_seen"),
    # a default constructed iterator is singular
    ("archon::core::IndexIterator", "m_container"), ("archon::core::IndexIterator", "m_index"),
}


def ours(r): return r["file"].startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(r["file"])


def unset(R, prog, full, byc):
    fl = R.fields[full]; fs = byc.get(full, [])
    ct = [f for f in fs if f.d.get("kind") == "ctor" and f.d.get("special") not in ("copyctor", "movector") and not f.d.get("defaulted")]
    un = {}; early = {}
    if ct:
        for f in ct:
            if any(i.get("deleg") for i in f.d.get("inits") or ()): continue
            a, u = R.summary(f.key)
            if a is None: continue
            for x in fl - (a - set(R.pseudo.get(full, ()))) if False else fl - a: un.setdefault(x, f)
            for x, e in u.items():
                if x in fl: early[x] = (f, e)
    elif not prog.records[full].get("aggregate"): un = {x: None for x in fl}
    return un, early


def diagnostics(res, c):
    for file, line, flag, msg in res:
        c.violation(f"{flag} {file.replace(P.REPO + '/', '')} {msg}", f"{file.replace(P.REPO + '/', '')}:{line}: {msg} ({flag})")


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        tus = P.library_tus() + P.drivers()
        prog = P.load(tus)
        scan(prog, c)
        diagnostics(diag.run(tus, FLAGS), c)
        c.count("translation units examined for uninitialized variables", len(tus))
        selftest(c, scan)
        pr = type("Probe", (), {"viol": [], "violation": lambda s, a, b, **k: s.viol.append(b)})()
        diagnostics(diag.run([P.VERIF + "/selftest/C14_vars.cpp"], FLAGS), pr)
        want = sum("// BAD" in l for l in open(P.VERIF + "/selftest/C14_vars.cpp"))
        from archlint.program import CheckError
        if len(pr.viol) != want: raise CheckError(f"C14: self-test of the compiler diagnostics: {len(pr.viol)} reports, expected {want}: {pr.viol}")
        for what, n in (("functions examined", 8000), ("members without initializer", 500), ("classes whose values are set by a separate function", 4)): c.require(what, n)
        return c.finish()
    hmain(body)
