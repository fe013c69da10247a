"""Long jumps skip nothing and lose nothing (C11)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import harness
from archlint import program as P
from alternatives import strip, rep
from existence import ty, key, opargs

JUMP = {"longjmp", "_longjmp", "siglongjmp", "__longjmp_chk"}
SET = {"setjmp", "_setjmp", "__sigsetjmp", "sigsetjmp"}
# functions of libpng that cannot end in a long jump
SAFE = re.compile(r"^png_(create_\w+_struct|destroy_\w+|get_(error|io|mem|progressive)_ptr|set_longjmp_fn|set_error_fn|sig_cmp|access_version_number|get_libpng_ver|get_header_ver|get_copyright|free_data)$")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr")


def jumping(g): return (g.get("name", "").startswith("png_") and bool(g.get("externc")) or re.match(r"^png_[a-z]", g.get("qn", "")) is not None) and not SAFE.match(g["name"])


class Jumps:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.funcs.values() if rep(f.file)]
        # library functions that may be left by a long jump: they call libpng (other than under a setjmp() of their own)
        self.protected = {}
        self.direct = {}
        for f in self.funcs:
            cs = [i for i in f.walk() if f.nodes[i]["k"] in CALLS]
            s = [i for i in cs if (f.fn(i) or {}).get("name") in SET]
            j = [i for i in cs if jumping(f.fn(i) or {}) or (f.fn(i) or {}).get("name") in JUMP]
            if s: self.protected[f.key] = s
            if j: self.direct[f.key] = j
        self.may = {k for k in self.direct if k not in self.protected}
        # callbacks: functions whose address is passed to a C function
        self.callers = {}
        for f in self.funcs:
            for i in f.walk():
                if f.nodes[i]["k"] in CALLS:
                    k = (f.fn(i) or {}).get("key")
                    if k: self.callers.setdefault(k, []).append((f, i))
        work = list(self.may)
        while work:
            k = work.pop()
            for f, i in self.callers.get(k, ()):
                if f.key not in self.may and f.key not in self.protected: self.may.add(f.key); work.append(f.key)

    def jumps(self, f, i):
        g = f.fn(i) or {}
        return jumping(g) or g.get("name") in JUMP or g.get("key") in self.may

    def nontrivial(self, f, t):
        s = f.T(t) if t is not None and t >= 0 else ""
        return bool(f.tu.tflags[t] & 2) and not s.endswith(("&", "*")) if t is not None and t >= 0 else False

    def ancestors(self, f, i):
        p = f.parent.get(i)
        while p is not None and p >= 0:
            yield p, i
            i, p = p, f.parent.get(p)

    def within(self, f, i, anc): return i == anc or any(p == anc for p, _ in self.ancestors(f, i))

    def visible(self, f, i):
        """the objects that exist when the expression is evaluated, and whose destruction does something"""
        out = []
        for p, c in self.ancestors(f, i):
            n = f.nodes[p]
            if n["k"] in ("CompoundStmt",):
                for x in n.get("c", ()):
                    if x == c: break
                    m = f.nodes[x]
                    if m["k"] == "DeclStmt":
                        for d in m.get("decls", ()):
                            if not d.get("static") and self.nontrivial(f, d.get("t")): out.append((x, d.get("n") or "a variable"))
            elif n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("init") is not None and d["init"] >= 0 and self.within(f, i, d["init"]): break
                    if not d.get("static") and self.nontrivial(f, d.get("t")): out.append((p, d.get("n")))
            elif n["k"] in ("ForStmt", "WhileStmt", "IfStmt", "CXXForRangeStmt", "SwitchStmt"):
                for x in n.get("c", ()):
                    if x is None or x < 0 or x == c: continue
                    m = f.nodes[x]
                    if m["k"] == "DeclStmt":
                        for d in m.get("decls", ()):
                            if self.nontrivial(f, d.get("t")): out.append((x, d.get("n")))
            elif n["k"] == "LambdaExpr": break
        # temporaries of the same full expression
        top = i
        for p, c in self.ancestors(f, i):
            if f.nodes[p]["k"] in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "ReturnStmt", "CXXTryStmt", "SwitchStmt", "CaseStmt", "DeclStmt", "CXXForRangeStmt", "CXXCatchStmt"): break
            top = p
        for x in f.walk(top):
            m = f.nodes[x]
            if m["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and x != i and not m.get("lv") and self.nontrivial(f, m.get("t")):
                out.append((x, f"a temporary `{ty(f, m)}`"))
        return out

    def branch(self, f, i):
        """the if statement whose condition is the setjmp() call, and its two branches: (statement, direct, jumped)"""
        pos = None
        for p, c in self.ancestors(f, i):
            n = f.nodes[p]
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"): continue
            if n["k"] == "CallExpr" and (f.fn(p) or {}).get("name") == "__builtin_expect": continue
            if n["k"] == "UnaryOperator" and n.get("op") == "!": pos = (not pos) if pos is not None else True; continue
            if n["k"] == "BinaryOperator" and n.get("op") in ("==", "!=") and pos is None:
                o = n["c"][1] if n["c"][0] == c else n["c"][0]
                if str(f.nodes[strip(f, o)].get("v")) != "0": return None
                pos = n["op"] == "=="; continue
            if n["k"] == "IfStmt" and self.within(f, c, n["cond"]):
                if pos is None: pos = False
                t, e = n.get("then"), n.get("else")
                return (p, t, e) if pos else (p, e, t)
            return None
        return None

    def region(self, f, i, br):
        """what is evaluated between the setjmp() and the end of its protection"""
        p, direct, jumped = br
        out = set()
        if direct is not None and direct >= 0: out |= set(f.walk(direct))
        else:       # if (setjmp(...)) { handle; return } rest
            q = f.parent.get(p)
            if q is not None and f.nodes[q]["k"] == "CompoundStmt":
                cs = f.nodes[q]["c"]; j = cs.index(p)
                for x in cs[j + 1:]: out |= set(f.walk(x))
        return out


def returns(f, stmt):
    return [i for i in f.walk(stmt) if f.nodes[i]["k"] == "ReturnStmt"] if stmt is not None and stmt >= 0 else []


def scan(prog, c):
    J = Jumps(prog)
    seen = set()

    def report(f, e, what, text):
        k = (f.loc(e), what)
        if k in seen: return
        seen.add(k)
        c.violation(f"{f.rel()}:{f.qn}:{what}", f"{f.loc(e)}: {f.qn}(): {text}")
    # (1) what a long jump leaves, or passes over
    for f in J.funcs:
        if f.key not in J.may and f.key not in J.protected: continue
        scope = None
        if f.key in J.protected: scope = set().union(*(J.region(f, i, J.branch(f, i)) for i in J.protected[f.key] if J.branch(f, i)), set())
        c.count("functions that long jumps pass over or start in")
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] not in CALLS or not J.jumps(f, i): continue
            c.count("calls that may end in a long jump"); c.count("obligations")
            g = f.fn(i) or {}
            for x, name in J.visible(f, i):
              if scope is None or x in scope: report(f, i, f"{g.get('name')}:{name}", f"a long jump that starts in {g.get('name')}() passes over `{name}`, whose destructor is then not executed")
            for pr in f.params if scope is None else ():
                if J.nontrivial(f, pr.get("t")): report(f, i, f"{g.get('name')}:{pr.get('n')}", f"a long jump that starts in {g.get('name')}() passes over the parameter `{pr.get('n')}`, whose destructor is then not executed")
            for p, ch in J.ancestors(f, i):
                m = f.nodes[p]
                if scope is not None and p not in scope: break
                if m["k"] in ("CXXTryStmt", "CXXCatchStmt"):
                    report(f, i, f"{g.get('name')}:try", f"a long jump that starts in {g.get('name')}() leaves a {'try' if m['k'] == 'CXXTryStmt' else 'catch'} block"); break
                if m["k"] == "LambdaExpr": break
    # (2) every call of a function that may end in a long jump has somewhere to land
    for f in J.funcs:
        if f.key not in J.protected: continue
        regions = []
        for i in J.protected[f.key]:
            c.count("setjmp() calls examined"); c.count("obligations")
            br = J.branch(f, i)
            if not br: report(f, i, "form", "the result of setjmp() is not compared with zero as the condition of an if statement"); continue
            R = J.region(f, i, br); regions.append(R)
            p, direct, jumped = br
            # what happens after the jump is a failure, and is not confused with success
            rs = returns(f, jumped)
            if jumped is not None and jumped >= 0:
                m = f.nodes[jumped]
                last = m["c"][-1] if m["k"] == "CompoundStmt" and m.get("c") else jumped
                l = f.nodes[strip(f, last)]
                ends = l["k"] in ("ReturnStmt", "CXXThrowExpr") or l["k"] in CALLS and (f.fn(strip(f, last)) or {}).get("noreturn")
                if not ends: report(f, i, "landing", "execution continues as after success where long jumps land")
                for r in rs:
                    v = f.nodes[r].get("c")
                    if v and str(f.nodes[strip(f, v[0])].get("v")) in ("1", "true", "True"): report(f, r, "landing", "success is reported where long jumps land")
            else: report(f, i, "landing", "nothing is done where long jumps land")
            # variables of the function that are modified after setjmp() and read after the jump
            own = {}
            for x in f.walk():
                m = f.nodes[x]
                if m["k"] == "DeclStmt" and x not in R:
                    for d in m.get("decls", ()):
                        if not d.get("static") and "volatile" not in f.T(d["t"]): own[d["id"]] = d["n"]
            for pr in f.params:
                t = f.T(pr["t"]) if isinstance(pr.get("t"), int) else ""
                if "volatile" not in t and not t.endswith("&"): own[pr["id"]] = pr["n"]
            after = set(f.walk(jumped)) if jumped is not None and jumped >= 0 else set()
            for x in f.walk():
                m = f.nodes[x]
                if m["k"] not in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr", "CXXMemberCallExpr") or x not in R: continue
                t = None
                if m["k"] == "BinaryOperator" and m.get("op") == "=" or m["k"] == "CompoundAssignOperator" or m["k"] == "UnaryOperator" and m.get("op") in ("++", "--"): t = f.nodes[strip(f, m["c"][0])]
                elif m["k"] == "CXXOperatorCallExpr" and (f.fn(x) or {}).get("name", "").endswith("=") and opargs(m): t = f.nodes[strip(f, opargs(m)[0])]
                while t and t["k"] == "MemberExpr" and t.get("c") and not t.get("arrow"): t = f.nodes[strip(f, t["c"][0])]
                if not t or t["k"] != "DeclRefExpr" or t.get("d") not in own: continue
                if any(f.nodes[y]["k"] == "DeclRefExpr" and f.nodes[y].get("d") == t["d"] for y in after):
                    report(f, x, f"modified:{own[t['d']]}", f"`{own[t['d']]}` is modified after setjmp() and used after the long jump, when its value is indeterminate")
        allr = set().union(*regions) if regions else set()
        for i in f.walk():
            if f.nodes[i]["k"] in CALLS and J.jumps(f, i) and i not in allr and (f.fn(i) or {}).get("name") not in JUMP:
                report(f, i, f"{(f.fn(i) or {}).get('name')}:unprotected", f"{(f.fn(i) or {}).get('name')}() may end in a long jump, but setjmp() has not been called, or its effect has ended")
    # (3) whoever starts a long jump has recorded why
    starts = lambda f: [i for i in f.walk() if f.nodes[i]["k"] in CALLS and ((f.fn(i) or {}).get("name") in JUMP or (f.fn(i) or {}).get("key") in helpers)]
    helpers = {f.key for f in J.funcs if any((f.fn(i) or {}).get("name") in JUMP for i in J.direct.get(f.key, ())) and J.callers.get(f.key)}
    memo = {}

    def records(k, depth=0):
        """what a function of the library records"""
        g = prog.funcs.get(k)
        if not g or depth > 3 or not rep(g.file): return frozenset()
        if k not in memo:
            memo[k] = frozenset()
            r = set()
            for i in g.walk():
                for x in step(g, i, frozenset([frozenset()])): r |= x
                if g.nodes[i]["k"] in CALLS: r |= records((g.fn(i) or {}).get("key"), depth + 1)
            memo[k] = frozenset(r)
        return memo[k]

    def step2(f, e, st):
        if f.nodes[e]["k"] in CALLS and (f.fn(e) or {}).get("key") in prog.funcs:
            r = records(f.fn(e)["key"])
            if r: return frozenset(s | r for s in st)
        return step(f, e, st)
    for k in J.may:
        f = prog.funcs[k]
        if starts(f): continue      # a callback
        c.count("obligations")
        if not J.callers.get(k): report(f, f.d["root"], "nowhere", "this function may end in a long jump, but is not called where setjmp() is in effect")
    for f in J.funcs:
        js = starts(f)
        if not js or f.key in helpers: continue
        cfg = f.cfg()
        state = {f.entry: frozenset([frozenset()])}; work = [f.entry]
        for b in cfg:       # an exception may be thrown by the first step of the try block
            if (cfg[b].get("term") or {}).get("k") == "CXXTryStmt": state[b] = frozenset([frozenset()]); work.append(b)
        while work:
            b = work.pop(); st = state[b]
            for e in cfg[b]["e"]:
                if isinstance(e, dict): continue
                st = step2(f, e, st)
            for s in cfg[b]["s"]:
                if s is None or s < 0: continue
                o = state.get(s, frozenset()); n2 = o | st
                if n2 != o: state[s] = n2; work.append(s)
        for b in state:
            st = state[b]
            for e in cfg[b]["e"]:
                if isinstance(e, dict): continue
                if e in js:
                    c.count("long jumps examined"); c.count("obligations")
                    # a failure that arrives by way of a handler may have happened before or after any step of the try block
                    for s in step2(f, e, st):
                        if "exception" in s or {"error", "code"} <= s: continue
                        what = "nothing is recorded about the failure" if not s else "the failure is recorded without an error code" if "error" in s else "an error code is recorded, but not that there was an error"
                        report(f, e, "cause", f"on a path to the long jump, {what}"); break
                st = step2(f, e, st)
        for i in js:
            if not f.d.get("noexcept"): report(f, i, "noexcept", "a function that starts a long jump is not declared noexcept")
    # (4) whoever calls what catches long jumps looks at exceptions before reporting an error
    for k in J.protected:
        for f, i in J.callers.get(k, ()):
            if f.key in J.protected: continue
            c.count("obligations"); c.count("users of functions that catch long jumps")
            members = {f.nodes[x].get("n") for x in f.walk() if f.nodes[x]["k"] == "MemberExpr" and "exception_ptr" in ty(f, f.nodes[x])}
            re_ = [x for x in f.walk() if f.nodes[x]["k"] in CALLS and (f.fn(x) or {}).get("name") == "rethrow_exception"]
            if not members or not re_: report(f, i, "rethrow", f"exceptions that ended in a long jump out of {f.fn(i)['name']}() are not rethrown")


def step(f, e, st):
    n = f.nodes[e]; add = rem = None
    t = None
    if n["k"] == "BinaryOperator" and n.get("op") == "=": t, v = f.nodes[strip(f, n["c"][0])], n["c"][1]
    elif n["k"] == "CXXOperatorCallExpr" and (f.fn(e) or {}).get("name") == "operator=" and len(opargs(n)) == 2: t, v = f.nodes[strip(f, opargs(n)[0])], opargs(n)[1]
    if t is None or t["k"] != "MemberExpr": return st
    y = ty(f, t)
    if "exception_ptr" in y: add = "exception"
    elif y.endswith("error_code"): add = "code"
    elif y == "bool":
        if str(f.nodes[strip(f, v)].get("v")) in ("1", "true", "True"): add = "error"
        elif f.nodes[strip(f, v)].get("v") is not None: rem = "error"
    if add: return frozenset(s | {add} for s in st)
    if rem: return frozenset(s - {rem} for s in st)
    return st


def main(pid):
    def body():
        c = harness.Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        c.count("functions examined", len(prog.funcs))
        scan(prog, c)
        harness.selftest(c, scan)
        c.require("functions examined", 8000)
        c.require("calls that may end in a long jump", 25)
        c.require("setjmp() calls examined", 2)
        c.require("long jumps examined", 4)
        return c.finish()
    harness.main(body)
