"""No amount is silently changed (C21)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P, diag

FLAGS = ["-Wsign-compare", "-Wshorten-64-to-32", "-Wfloat-conversion", "-Wimplicit-int-conversion", "-Wliteral-conversion", "-Wconstant-conversion", "-Winteger-overflow", "-Wshift-overflow", "-Wshift-count-overflow",
         "-Wshift-count-negative", "-Wshift-negative-value", "-Wdivision-by-zero", "-Wtautological-compare", "-Wtautological-unsigned-zero-compare", "-Wtautological-unsigned-enum-zero-compare", "-Wint-in-bool-context",
         "-Wenum-compare", "-Wenum-conversion", "-Wbool-operation", "-Wbitwise-op-parentheses", "-Wbitwise-conditional-parentheses", "-Wsizeof-pointer-div", "-Wsizeof-array-div", "-Wsizeof-pointer-memaccess", "-Wparentheses", "-Wlogical-op-parentheses",
         "-Wlogical-not-parentheses", "-Wcomma", "-Wimplicit-const-int-float-conversion", "-Wstring-plus-int"]
W = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1),
     "unsigned long long": (64, 0), "wchar_t": (32, 1), "char16_t": (16, 0), "char32_t": (32, 0)}
STRIP = ("ImplicitCastExpr", "ParenExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr", "InitListExpr")
CHECKED = {"int_mul", "int_add", "int_sub", "try_int_mul", "try_int_add", "try_int_sub", "int_pow", "try_int_pow", "can_int_mul", "can_int_add"}


def rep(f): return f.file.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(f.file)


def width(t): return W.get((t or "").replace("const ", "").replace("volatile ", "").strip())


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in STRIP and len(f.nodes[i].get("c", ())) == 1: i = f.nodes[i]["c"][0]
    return i


def x_protocol(f, msg):
    """KeyCode values and the components of XColor are narrower in the protocol than in some of the structures that carry them"""
    return "/display/" in f and ("'KeyCode'" in msg or "to 'unsigned short'" in msg)


def diagnostics(res, c):
    for f, l, w, m in res:
        if w == "-Wimplicit-int-conversion" and x_protocol(f, m): continue
        loc = f"{f.replace(P.REPO + '/', '')}:{l}"
        c.violation(f"{f.replace(P.ARCHON + '/', '')} {w} {m}"[:200], f"{loc}: {m} [{w}]")


def var_id(f, i):
    n = f.nodes[strip(f, i)]
    return n.get("d") if n["k"] == "DeclRefExpr" else None


def implied(f, at, a, b):
    """a >= b holds at node `at` because an enclosing condition says so"""
    par = f.parent; c = at; p = par.get(at)
    while p is not None:
        n = f.nodes[p]
        if n["k"] == "IfStmt" and c not in f.walk(n["c"][0]):
            st = [x for x in n["c"] if x >= 0 and x != c]
            while st:
                j = strip(f, st.pop()); m = f.nodes[j]
                if m["k"] == "CompoundStmt" or m["k"].endswith("Stmt"): continue
                if m["k"] == "BinaryOperator" and m["op"] == "&&": st += m["c"]; continue
                if m["k"] == "BinaryOperator":
                    x, y = var_id(f, m["c"][0]), var_id(f, m["c"][1])
                    if x == a and y == b and m["op"] in (">", ">=", "==") or x == b and y == a and m["op"] in ("<", "<=", "=="): return a is not None and b is not None
                elif m["k"] in ("CallExpr", "UnaryOperator") and m.get("mac") in ("ARCHON_LIKELY", "ARCHON_UNLIKELY"): st += [x for x in m.get("c", ()) if x >= 0]
                elif m.get("mac") in ("ARCHON_LIKELY", "ARCHON_UNLIKELY"): st += [x for x in m.get("c", ()) if x >= 0]
        c, p = p, par.get(p)
    return False


def nonneg(f, i, d=0, seen=()):
    """the (signed) expression is certainly not negative"""
    v = var_id(f, i)
    if v is not None and f.nodes[strip(f, i)].get("dk") == "local" and v not in seen and d < 6:
        defs = Slice.local_defs(_D, f).get(v, ())
        ok = bool(defs)
        for op, x, j in defs:
            if op == "call": ok = False
            elif op in ("/=", "%=", "&=", ">>="): pass
            elif op in ("=", "+=", "*=", "|="):
                m = f.nodes[strip(f, x)]
                if m["k"] == "BinaryOperator" and m["op"] == "-" and implied(f, j, var_id(f, m["c"][0]), var_id(f, m["c"][1])): continue
                if not nonneg(f, x, d + 1, (*seen, v)): ok = False
            else: ok = False
        if ok and not any(n["k"] == "UnaryOperator" and n.get("op") in ("--", "&") and var_id(f, n["c"][0]) == v for n in f.nodes): return True
    i = strip(f, i); n = f.nodes[i]; k = n["k"]
    if "v" in n:
        try: return int(n["v"]) >= 0
        except ValueError: return False
    a = width(f.type(i))
    if a and not a[1]: return True
    if k == "BinaryOperator" and n["op"] == "&": return nonneg(f, n["c"][0], d) or nonneg(f, n["c"][1], d)
    if k == "BinaryOperator" and n["op"] in ("+", "*", "/", ">>", "|") and d < 6: return nonneg(f, n["c"][0], d + 1) and nonneg(f, n["c"][1], d + 1)
    if k == "ConditionalOperator": return nonneg(f, n["c"][1], d) and nonneg(f, n["c"][2], d)
    return False


def mixed(prog, c):
    """a possibly negative value is reinterpreted as a huge one before it is divided or shifted down"""
    for f in prog.funcs.values():
        if not rep(f): continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] not in ("BinaryOperator", "CompoundAssignOperator") or n["op"] not in ("/", "%", ">>", "<", ">", "<=", ">=", "/=", "%=") or "v" in n: continue
            if not width(f.type(n["c"][0])) or not width(f.type(n["c"][1])): continue
            c.count("divisions, shifts and comparisons of integers"); c.count("obligations")
            sides = (0,) if n["op"] in ("/", "%", ">>") else (0, 1)
            for s in sides:
                j = n["c"][s]; m = f.nodes[j]
                if n["op"] in ("/=", "%="):
                    if s == 1: continue
                    a, b = width(f.type(j)), width(f.type(n["c"][1]))
                    bad = a[1] and not b[1] and b[0] >= max(a[0], 32) and not nonneg(f, j)
                else:
                    if m.get("ck") != "IntegralCast" or not m.get("impl") or "v" in m: continue
                    a, b = width(f.type(m["c"][0])), width(f.type(j))
                    bad = a and b and a[1] and not b[1] and b[0] >= a[0] and not nonneg(f, m["c"][0])
                if bad: c.violation(f"mixed {f.qn} {n['op']}", f"{f.loc(i)}: {f.qn}(): the {'left' if s == 0 else 'right'} operand of `{n['op']}` is converted from a signed to an unsigned type, which turns a negative value into a huge one")


def checked_used(prog, c):
    """the verdict of a checked operation is used"""
    for f in prog.funcs.values():
        if not rep(f): continue
        par = f.parent
        for i in f.walk():
            n = f.nodes[i]
            if "fn" not in n or n["k"] != "CallExpr": continue
            g = f.fn(i)
            if g is None or not g["qn"].startswith("archon::core::") or not re.match(r"(try_(int_|.*_cast$|cast_)|can_int_)", g["name"]) or f.T(n["t"]) != "bool": continue
            c.count("checked arithmetic operations with a verdict"); c.count("obligations")
            p = par.get(i)
            while p is not None and f.nodes[p]["k"] in ("ExprWithCleanups", "ParenExpr"): p = par.get(p)
            q = f.nodes[p] if p is not None else None
            disc = q is None or q["k"] in ("CompoundStmt", "CaseStmt", "LabelStmt", "DefaultStmt") or q.get("ck") == "ToVoid" or q["k"] in ("ForStmt", "WhileStmt") and (q["c"][-1] == i or q["k"] == "ForStmt" and len(q["c"]) > 1 and i in (q["c"][0], q["c"][-2])) \
                or q["k"] == "IfStmt" and f.nodes[q["c"][0]] is not n and i in q["c"][1:] and i != cond_of(f, p)
            if disc: c.violation(f"verdict {f.qn} {g['name']}", f"{f.loc(i)}: {f.qn}(): the verdict of {g['name']}() is ignored")


def cond_of(f, i):
    for x in f.nodes[i].get("c", ()):
        if x >= 0 and (f.type(x) or "") in ("bool", "int"): return x
    return None


# amounts of memory

GROW = {"reserve", "resize", "reserve_extra", "recreate", "operator new[]", "malloc", "calloc", "realloc"}
CONT = {"Buffer", "vector", "Vector", "Deque", "SeedMemoryOutputStream", "basic_string"}


def sink(f, i, n):
    g = f.fn(i) if "fn" in n else None
    if n["k"] == "CXXNewExpr" and n.get("array") and n.get("c"): return n["c"][0]
    if g is None or not n.get("args"): return None
    if g["qn"] in ("std::make_unique", "std::make_unique_for_overwrite"): return n["args"][0] if "[]" in (f.type(i) or "") else None
    t = (f.type(n["args"][0]) or "").replace("const ", "")
    if g["name"] in GROW and width(t): return n["args"][0]
    if g.get("kind") == "ctor" and g["qn"].split("::")[-1] in CONT and width(t) and width(t)[0] == 64: return n["args"][0]
    return None


class _D: defs = {}


class Slice:
    def __init__(self, prog):
        self.prog = prog; self.defs = {}; self.byref = {}; self.calls = {}; self.stores = {}
        for f in prog.funcs.values():
            if not rep(f): continue
            for i, n in enumerate(f.nodes):
                if "fn" in n:
                    g = f.fn(i)
                    if g is not None: self.calls.setdefault(g["key"], []).append((f, i))
                if n["k"] == "BinaryOperator" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] == "MemberExpr" and f.cls:
                    self.stores.setdefault((f.d.get("clsfull") or f.cls, f.nodes[n["c"][0]]["n"]), []).append((f, n["c"][1]))

    def local_defs(self, f):
        d = self.defs.get(f.key)
        if d is None:
            d = self.defs[f.key] = {}
            for j, m in enumerate(f.nodes):
                if m["k"] == "DeclStmt":
                    for v in m.get("decls", ()):
                        if v.get("init", -1) is not None and v.get("init", -1) >= 0: d.setdefault(v["id"], []).append(("=", v["init"], j))
                elif m["k"] in ("BinaryOperator", "CompoundAssignOperator") and m["op"].endswith("=") and m["op"] not in ("==", "!=", "<=", ">="):
                    t = strip(f, m["c"][0])
                    if f.nodes[t]["k"] == "DeclRefExpr" and "d" in f.nodes[t]: d.setdefault(f.nodes[t]["d"], []).append((m["op"], m["c"][1], j))
                elif "fn" in m and m.get("args"):
                    g = f.fn(j)
                    if g is None: continue
                    for k, a in enumerate(m["args"]):
                        t = f.nodes[strip(f, a)]
                        if t["k"] == "DeclRefExpr" and t.get("dk") in ("local", "parm") and k < len(g.get("params", ())):
                            pt = f.tu.types[g["params"][k]["t"]] if isinstance(g["params"][k], dict) else ""
                            if pt.endswith("&") and not pt.startswith("const "): d.setdefault(t["d"], []).append(("call", (j, k), j))
        return d

    def run(self, f, e, out, seen, path, after=None):
        """collects unchecked multiplications and additions that the value of e is computed by"""
        if e is None or e < 0 or len(path) > 6: return
        n = f.nodes[e]; k = n["k"]
        if "v" in n: return
        if (n.get("lv") or k in STRIP) and not width((f.type(e) or "").replace("&", "").strip()): return
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            d = n["d"]
            if (f.key, d) in seen: return
            seen.add((f.key, d))
            for op, x, j in self.local_defs(f).get(d, ()):
                if op == "call":
                    g = f.fn(x[0])
                    if g["name"] in CHECKED:
                        for a in f.nodes[x[0]]["args"]: self.run(f, a, out, seen, path)
                    else: self.callee(f, x[0], g, out, seen, path, x[1])
                    continue
                if op in ("*=", "<<="): out.append((f, j, op, path))
                self.run(f, x, out, seen, path)
            return
        if k == "MemberExpr" and n.get("c"):
            key = (f.d.get("clsfull") or f.cls, n["n"])
            if n.get("dk") == "field" and key not in seen:
                seen.add(key)
                for g, x in self.stores.get(key, ()): self.run(g, x, out, seen, path + [g])
            return
        if k == "BinaryOperator":
            if n["op"] in ("*", "<<") and width(f.type(e)) and not undone(self, f, n):
                out.append((f, e, n["op"], path))
            if n["op"] in ("-", "/", "%", "&", ">>"):
                # bounded by the first operand
                self.run(f, n["c"][0], out, seen, path)
                return
            for x in n["c"]: self.run(f, x, out, seen, path)
            return
        if "fn" in n and k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            g = f.fn(e)
            if g is None: return
            if g["qn"] == "std::min": return
            if g["qn"].startswith("std::") and g["name"] in ("max", "forward", "move", "exchange"):
                for a in n.get("args", ()): self.run(f, a, out, seen, path)
                return
            self.callee(f, e, g, out, seen, path, None)
            return
        for x in n.get("c", ()): self.run(f, x, out, seen, path)

    def callee(self, f, i, g, out, seen, path, parm):
        for key in [g["key"]] + self.prog.overriders.get(g["key"], []):
            h = self.prog.funcs.get(key)
            if h is None or not rep(h) or (key, parm) in seen: continue
            if h.file.endswith(("core/integer.hpp", "core/mul_prec_int.hpp", "core/super_int.hpp", "core/math.hpp")): continue
            seen.add((key, parm))
            if parm is None:
                if not width(h.ret): continue
                for j in h.walk():
                    if h.nodes[j]["k"] == "ReturnStmt" and h.nodes[j].get("c"): self.run(h, h.nodes[j]["c"][0], out, seen, path + [h])
            elif parm < len(h.params):
                d = h.params[parm]["id"]
                for op, x, j in self.local_defs(h).get(d, ()):
                    if op == "call": continue
                    if op in ("*=", "<<="): out.append((h, j, op, path + [h]))
                    self.run(h, x, out, seen, path + [h])


def base_names(sl, f, i, d=0):
    """the members (or parameters) that an expression is computed from"""
    out = set()
    for j in f.walk(i):
        n = f.nodes[j]
        if n["k"] == "MemberExpr" and n.get("dk") == "field": out.add(n["n"])
        elif n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm") and d < 4:
            out.add(n.get("n"))
            for op, x, _ in sl.local_defs(f).get(n["d"], ()):
                if op == "=": out |= base_names(sl, f, x, d + 1)
    return out


def undone(sl, f, n):
    """x / c * c"""
    for a, b in (n["c"], n["c"][::-1]):
        m = f.nodes[strip(f, b)]
        if "v" not in m: continue
        q = f.nodes[strip(f, a)]
        for op, x, _ in (sl.local_defs(f).get(q["d"], ()) if q["k"] == "DeclRefExpr" and "d" in q else [("=", strip(f, a), 0)]):
            r = f.nodes[strip(f, x)] if op == "=" else {}
            if r.get("k") == "BinaryOperator" and r["op"] == "/" and f.nodes[strip(f, r["c"][1])].get("v") == m["v"]: return True
    return False


def vetted(prog, sl, f, node, depth=0):
    """the same quantities were multiplied with checked arithmetic by a function that is called in f"""
    n = f.nodes[node]
    if n["k"] != "BinaryOperator" or n["op"] != "*": return False
    want = [base_names(sl, f, x) for x in n["c"]]

    def found(h, d, seen):
        got = [set() for _ in want]; hit = [False] * len(want)
        for i, m in enumerate(h.nodes):
            if "fn" not in m: continue
            g = h.fn(i)
            if g is None: continue
            if g["name"] in CHECKED and len(m.get("args", ())) == 2:
                b = base_names(sl, h, m["args"][1]) | base_names(sl, h, m["args"][0])
                for k, w in enumerate(want):
                    if w & b: hit[k] = True
            elif d < 3 and g["key"] in prog.funcs and g["key"] not in seen:
                seen.add(g["key"])
                if found(prog.funcs[g["key"]], d + 1, seen): return True
        return all(hit)
    return found(f, 0, {f.key})


def amounts(prog, c):
    sl = Slice(prog)
    done = set()
    work = []
    for f in prog.funcs.values():
        if not rep(f): continue
        for i in f.walk():
            e = sink(f, i, f.nodes[i])
            if e is not None: work.append((f, i, e))
    # parameters that determine an amount of memory
    seenp = set(); k = 0
    while k < len(work):
        f, i, e = work[k]; k += 1
        names = {f.nodes[j]["d"] for j in f.walk(e) if f.nodes[j]["k"] == "DeclRefExpr" and f.nodes[j].get("dk") == "parm"}
        for pi, p in enumerate(f.params):
            if p["id"] in names and (f.key, pi) not in seenp and not f.d.get("lambda"):
                seenp.add((f.key, pi))
                for g, j in sl.calls.get(f.key, ()):
                    a = g.nodes[j].get("args", ())
                    if pi < len(a): work.append((g, j, a[pi]))
    for f, i, e in work:
        c.count("amounts of memory"); c.count("obligations")
        out = []
        sl.run(f, e, out, set(), [])
        for g, j, op, path in out:
            loc = g.loc(j)
            if (loc, op) in done: continue
            done.add((loc, op))
            if constant_loop_bound(g, j): continue
            if vetted(prog, sl, g, j): continue
            c.violation(f"amount {g.qn} {op}", f"{loc}: {g.qn}(): the amount of memory that {f.qn}() asks for ({f.loc(i)}) is computed by `{op}` without a check for overflow")


def constant_loop_bound(f, j):
    return False


def consistent(prog, c):
    """an amount that is computed with checked arithmetic is computed with checked arithmetic all the way"""
    for f in prog.funcs.values():
        if not rep(f) or f.file.endswith(("core/integer.hpp", "core/super_int.hpp", "core/mul_prec_int.hpp")): continue
        tg = {}
        for i in f.walk():
            n = f.nodes[i]
            if "fn" in n and n.get("args"):
                g = f.fn(i)
                if g and g["qn"].startswith("archon::core::") and g["name"] in CHECKED and len(n["args"]) == 2:
                    t = f.nodes[strip(f, n["args"][0])]
                    if t["k"] == "DeclRefExpr" and t.get("dk") == "local": tg[t["d"]] = (g["name"], i)
        if not tg: continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] in ("CompoundAssignOperator", "BinaryOperator") and n["op"] in ("*=", "<<=", "+="):
                t = f.nodes[strip(f, n["c"][0])]
                if t["k"] == "DeclRefExpr" and t.get("d") in tg:
                    if n["op"] == "+=" and not tg[t["d"]][0].endswith(("mul", "pow")) and "v" in f.nodes[strip(f, n["c"][1])]: continue
                    c.violation(f"consistent {f.qn} {t.get('n')}", f"{f.loc(i)}: {f.qn}(): `{t.get('n')}` is computed with {tg[t['d']][0]}() elsewhere, but here with `{n['op']}`, which does not detect overflow")
        c.count("amounts computed with checked arithmetic", len(tg)); c.count("obligations", len(tg))


def scan(prog, c):
    _D.defs.clear()
    mixed(prog, c)
    checked_used(prog, c)
    amounts(prog, c)
    consistent(prog, c)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        tus = P.library_tus() + P.drivers()
        prog = P.load(tus)
        scan(prog, c)
        diagnostics(diag.run(tus, FLAGS), c)
        c.count("translation units examined for value-changing conversions", len(tus))
        selftest(c, scan)
        pr = type("Probe", (), {"viol": [], "violation": lambda s, a, b, **k: s.viol.append(b)})()
        diagnostics(diag.run([P.VERIF + "/selftest/C21_conv.cpp"], FLAGS), pr)
        want = sum("// BAD" in l for l in open(P.VERIF + "/selftest/C21_conv.cpp"))
        from archlint.program import CheckError
        if len(pr.viol) != want: raise CheckError(f"C21: self-test of the conversion diagnostics: {len(pr.viol)} reports, expected {want}")
        for what, n in (("amounts of memory", 80), ("divisions, shifts and comparisons of integers", 500), ("checked arithmetic operations with a verdict", 30), ("amounts computed with checked arithmetic", 20)): c.require(what, n)
        return c.finish()
    hmain(body)
