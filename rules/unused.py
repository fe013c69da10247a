"""Nothing that was supplied or computed is ignored (C22)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
CONST = ("IntegerLiteral", "CXXBoolLiteralExpr", "CXXNullPtrLiteralExpr", "FloatingLiteral", "CharacterLiteral", "ImplicitValueInitExpr", "CXXScalarValueInitExpr", "StringLiteral", "GNUNullExpr")


def is_ref(t): return t is not None and t.rstrip().endswith("&")


SCALAR = re.compile(r"^(const |volatile )*(unsigned |signed |long |short )*(int|char|bool|long|short|float|double|wchar_t|char8_t|char16_t|char32_t|long double)( const)?$|.*\*( const)?$|^(const )?(enum )")


def scalar(prog, t):
    return t is not None and not is_ref(t) and (SCALAR.match(t) is not None or t.replace("const ", "") in prog.enums_by_type)


def roles(prog, f):
    """for each local variable and value parameter of scalar type: the nodes that read it, the nodes that store to it; None if something else can be done to it"""
    vars_ = {}; par = f.parent
    for p in f.params:
        t = f.T(p["t"])
        if scalar(prog, t): vars_[p["id"]] = dict(n=p["n"], reads=set(), stores={}, esc=False, parm=True)
    for i, n in enumerate(f.nodes):
        if n["k"] == "DeclStmt":
            for d in n.get("decls", ()):
                if scalar(prog, f.T(d.get("t", -1))) and not d.get("static"):
                    v = vars_[d["id"]] = dict(n=d["n"], reads=set(), stores={}, esc=False, parm=False)
                    if d.get("init", -1) is not None and d.get("init", -1) >= 0: v["stores"][i] = (d["init"], "init")
    catch = set()
    for i, n in enumerate(f.nodes):
        if n["k"] in ("CXXCatchStmt",): catch.update(f.walk(i))
    for i, n in enumerate(f.nodes):
        if n["k"] == "LambdaExpr":
            for cp in n.get("caps", n.get("captures", ())) or ():
                d = cp.get("d") if isinstance(cp, dict) else cp
                if d in vars_: vars_[d]["esc"] = True
        if n["k"] != "DeclRefExpr" or n.get("d") not in vars_: continue
        v = vars_[n["d"]]
        if i in catch: v["esc"] = True; continue
        c = i; p = par.get(i)
        while p is not None and f.nodes[p]["k"] in ("ParenExpr", "ConstantExpr", "ExprWithCleanups"): c, p = p, par.get(p)
        if p is None: v["esc"] = True; continue
        q = f.nodes[p]; k = q["k"]
        if k == "BinaryOperator" and q.get("op") == "=" and q["c"][0] == c:
            v["stores"][p] = (q["c"][1], "=")
        elif k in ("BinaryOperator", "CompoundAssignOperator"): v["reads"].add(i) if q.get("op") != "," or not q.get("lv") else v.__setitem__("esc", True)
        elif k == "UnaryOperator":
            if q.get("op") == "&": v["esc"] = True
            else: v["reads"].add(i)
        elif k in CASTS and not q.get("lv"): v["reads"].add(i)
        elif k in ("ArraySubscriptExpr", "CXXArraySubscript", "IfStmt", "WhileStmt", "ForStmt", "DoStmt", "SwitchStmt", "CXXThrowExpr", "CXXNewExpr", "CXXDeleteExpr", "CompoundStmt", "CaseStmt", "LabelStmt", "DefaultStmt"): v["reads"].add(i)
        elif k == "MemberExpr": v["reads"].add(i)
        elif k == "ReturnStmt":
            if is_ref(f.ret): v["esc"] = True
            else: v["reads"].add(i)
        elif k == "ConditionalOperator":
            if q["c"][0] == c or not q.get("lv"): v["reads"].add(i)
            else: v["esc"] = True
        elif k == "DeclStmt":
            if any(is_ref(f.T(d.get("t", -1))) for d in q.get("decls", ())): v["esc"] = True
            else: v["reads"].add(i)
        elif k == "InitListExpr": v["reads"].add(i)
        elif k in CALLS:
            g = f.fn(p); args = q.get("args", [])
            if c not in args:
                v["reads"].add(i) if q.get("obj") == c or c not in args and g is None else v["reads"].add(i)
                continue
            j = args.index(c)
            if k == "CXXOperatorCallExpr" and g and g.get("cls") and not g.get("static"): j -= 1
            ps = (g or {}).get("params", [])
            if g is None or j < 0: v["esc"] = True; continue
            t = g["tu"].types[ps[j]["t"]] if j < len(ps) else ""
            if is_ref(t) and not (t.startswith("const ") and "*" not in t or " *const &" in t): v["esc"] = True
            else: v["reads"].add(i)
        else: v["esc"] = True
    return vars_


def constant(f, i):
    n = f.nodes[i]
    if n["k"] in CONST or "v" in n: return True
    if n["k"] == "InitListExpr": return all(constant(f, c) for c in n.get("c", ()) if c >= 0)
    if n["k"] in CASTS or n["k"] in ("ParenExpr", "ConstantExpr", "UnaryOperator", "CXXDefaultArgExpr", "SubstNonTypeTemplateParmExpr", "ExprWithCleanups"):
        return all(constant(f, c) for c in n.get("c", ()) if c >= 0)
    if n["k"] == "CallExpr":
        g = f.fn(i)
        return bool(g and g.get("constexpr") and not n.get("args"))
    if n["k"] == "DeclRefExpr": return n.get("dk") in ("enum",)
    return False


def dead_stores(prog, f):
    cfg = f.cfg()
    if not cfg: return
    vs = {d: v for d, v in roles(prog, f).items() if not v["esc"] and v["stores"]}
    if not vs: return
    rd = {}; st = {}
    for d, v in vs.items():
        for i in v["reads"]: rd[i] = d
        for i in v["stores"]: st.setdefault(i, []).append(d)
    live = {b: set() for b in cfg}       # live at the start of the block
    preds = {b: [] for b in cfg}
    for b, bb in cfg.items():
        for s in bb["s"]:
            if s in preds: preds[s].append(b)
    emitted = {i for bb in cfg.values() for i in bb["e"] if isinstance(i, int)}
    # reads below an element that has no element of its own (e.g. a condition) are found through the element they belong to
    def back(b, report=None):
        bb = cfg[b]; L = set()
        for s in bb["s"]: L |= live.get(s, set())
        t = bb.get("term")
        if t:
            for r in (t.get("c"), ):
                if r is not None and r >= 0:
                    for x in f.walk(r):
                        if x in rd and x not in emitted: L.add(rd[x])
        for i in reversed(bb["e"]):
            if not isinstance(i, int): continue
            for d in st.get(i, ()):
                if report is not None and d not in L: report(i, d)
                L.discard(d)
            if i in rd: L.add(rd[i])
        return L
    work = list(cfg)
    while work:
        b = work.pop()
        L = back(b)
        if L != live[b]:
            live[b] = L; work.extend(preds[b])
    out = []
    reach = set(); todo = [f.entry]
    while todo:
        b = todo.pop()
        if b in reach or b not in cfg: continue
        reach.add(b); todo.extend(cfg[b]["s"])
    missing = set(rd) - emitted
    bad = {rd[i] for i in missing}
    for b in reach:
        back(b, lambda i, d: out.append((i, d)))
    for i, d in out:
        v = vs[d]
        if d in bad: continue
        rhs, how = v["stores"][i]
        if constant(f, rhs): continue
        yield i, v["n"], how, v


# records whose members are options, and functions that only copy or prepare such a record
CONFIG = re.compile(r"[cC]onfig$")
CLIENTS = {"archon::check::command"}          # prepares a TestConfig
# read only on a platform that is not analysed
PLATFORM = {"archon::cli::BasicHelpConfig::argv0_strip_dot_exe"}
# options of an interface must be consulted by each of its implementations
IMPLS = {"archon::display::Window::Config": ["display/x11_implementation.cpp", "display/sdl_implementation.cpp"]}


def options(prog, c):
    recs = {}
    for full, r in prog.records.items():
        if r["file"].startswith((P.ARCHON, P.VERIF)) and CONFIG.search(r["qn"].split("::")[-1]) and not r.get("nomem"): recs.setdefault(r["qn"], r)
    reads = {}
    for f in prog.funcs.values():
        if f.d.get("defaulted") or f.cls in recs or f.qn in CLIENTS or any(f.qn.startswith(x + "::(lambda") for x in CLIENTS): continue
        par = f.parent
        for i, n in enumerate(f.nodes):
            if n["k"] != "MemberExpr" or n.get("dk") != "field": continue
            cls = n["qn"].rsplit("::", 1)[0]
            if cls not in recs: continue
            x, p = i, par.get(i)
            while p is not None and f.nodes[p]["k"] == "ParenExpr": x, p = p, par.get(p)
            q = f.nodes[p] if p is not None else {}
            if q.get("k") == "BinaryOperator" and q.get("op") == "=":
                if q["c"][0] == x: continue
                l = f.nodes[q["c"][0]]
                if l.get("qn") == n["qn"]: continue
            if q.get("k") == "CXXOperatorCallExpr" and q.get("args"):
                g = f.fn(p)
                if g and g.get("op") == "=":
                    if q["args"][0] == x: continue
                    if f.nodes[q["args"][0]].get("qn") == n["qn"]: continue
            reads.setdefault(n["qn"], set()).add(f.rel())
    for qn, r in sorted(recs.items()):
        empty = {x["qn"] for x in prog.records.values() if not x.get("fields") and not x.get("bases")}
        c.count("configuration types")
        for fd in r.get("fields", ()):
            q = qn + "::" + fd["n"]
            t = r["tu"].types[fd["t"]]
            if t in empty or q in PLATFORM: continue
            c.count("options"); c.count("obligations")
            if not reads.get(q):
                c.violation("option " + q, f"{r['file'].replace(P.REPO + '/', '')}:{fd['l']}: the option {q} is not consulted anywhere")
            for im in IMPLS.get(qn, ()):
                c.count("obligations")
                if im not in reads.get(q, ()):
                    c.violation(f"option {q} {im}", f"src/archon/{im}:1: the option {q} is not consulted by this implementation")
        if qn in IMPLS: c.count("implemented option sets")


def scan(prog, c):
    options(prog, c)
    for d in prog.decls.values():
        c.count("parameters", d.get("nparams", 0)); c.count("obligations", d.get("nparams", 0))
        for n in d.get("unused", ()):
            c.violation(f"parameter {d['qn']} {n}", f"{d['deffile'].replace(P.REPO + '/', '')}:{d['defline']}: the parameter {n} of {d['qn']}() is ignored")
    for d in prog.tmpls.values():
        if d.get("spec") or d.get("nodef") or (d["kind"] == "class" and not d.get("methods")): continue
        c.count("template parameters", d["n"]); c.count("obligations", d["n"])
        for n in d.get("unused", ()):
            # an overload that takes part in a selection only
            if any(x is not d and x["qn"] == d["qn"] and n not in x.get("unused", ()) for x in prog.tmpls.values()): continue
            c.violation(f"template parameter {d['qn']} {n}", f"{d['file'].replace(P.REPO + '/', '')}:{d['line']}: the template parameter {n} of {d['qn']} is ignored")
    dead = {}; total = {}
    for f in prog.funcs.values():
        ns = sum(1 for n in f.nodes if n["k"] == "DeclStmt" or n["k"] == "BinaryOperator" and n.get("op") == "=")
        c.count("functions"); c.count("stores", ns); c.count("obligations", ns)
        k0 = (f.file, f.line, f.qn)
        total[k0] = total.get(k0, 0) + 1
        for k in {(f.loc(i), nm, how) for i, nm, how, v in dead_stores(prog, f)}: dead[(k0, k)] = dead.get((k0, k), 0) + 1
    for (k0, (loc, nm, how)), n in dead.items():
        if n < total[k0]: continue        # used in some instantiation
        c.violation(f"value {k0[2]} {nm}", f"{loc}: the value that is {'computed for' if how == 'init' else 'assigned to'} '{nm}' in {k0[2]}() is never used")


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        for what, n in (("options", 80), ("parameters", 4000), ("template parameters", 500), ("stores", 10000), ("implemented option sets", 1)): c.require(what, n)
        return c.finish()
    hmain(body)
