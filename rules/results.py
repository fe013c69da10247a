"""Success comes with complete results, and is not reported as failure (C05)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P
from archlint.interp import Plugin, Engine, Budget, CALLS, CTORS, IV, ZERO, ONE, TOP
from errdisc import SYSCALLS, is_contract, internal

SCALAR = re.compile(r"^(const )?(bool|char|int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long)$")


def rep(f): return f.file.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(f.file)


def outs(f):
    r = {}
    for p in f.params:
        t = f.T(p["t"]) or ""
        if t.endswith("&") and not t.endswith("&&") and not const_ref(t) and "std::error_code" not in t and "stream" not in t and not p["n"].startswith("error"): r[p["id"]] = p["n"]
    return r


def const_ref(t):
    b = t[:-1].strip()
    if b.endswith("*") or b.endswith("*const"): return b.endswith("const")
    return b.startswith("const ")


class Results(Plugin):
    max_inline = 3
    max_pairs = 20000

    def __init__(self, prog, f, sums):
        super().__init__(prog)
        self.f = f; self.out = outs(f); self.inout = set(); self.sums = sums
        self.sites = {}; self.direct = set()

    def inline(self, eng, fr, info, g):
        return bool(g.d.get("lambda")) or (len(g.nodes) <= 60 and bool(g.params) and not g.d.get("tmpl") and all(SCALAR.match(g.T(q["t"]) or "") for q in g.params))

    def base(self, loc):
        while loc is not None and loc[0] in ('f', 'e'): loc = loc[1]
        if loc is not None and loc[0] == 'v' and loc[1] == () and loc[2] in self.out: return loc[2]
        return None

    def on_assign(self, eng, st, fr, n, loc, val):
        b = self.base(loc)
        if b is not None:
            st.ts[('set', b)] = 1
            self.direct.add(b)

    def on_read(self, eng, st, fr, n, loc):
        b = self.base(loc)
        if b is not None and ('set', b) not in st.ts: self.inout.add(b)

    def call(self, eng, st, fr, n, info, obj, args, argn):
        if not info: return None
        f = fr.f; nd = f.nodes[n]; tu = info["tu"]; ps = info["params"]
        qn = info["qn"]
        if qn in ("std::move", "std::forward", "std::as_const", "std::addressof", "__builtin_expect"): return None
        rt = tu.types[info["ret"]] if info.get("ret", -1) >= 0 else ""
        lam = info.get("lambda") or (nd.get("op") == "()")
        outp = []
        if not lam:
            for i, a in enumerate(argn):
                if a < 0 or i >= len(ps): continue
                t = (tu.types[ps[i]["t"]] if ps[i]["t"] >= 0 else "") or ""
                if not t.endswith(("&", "*")):
                    j = a
                    while f.nodes[j]["k"] in ("ImplicitCastExpr", "ParenExpr"): j = f.nodes[j]["c"][0]
                    if f.nodes[j]["k"] in ("DeclRefExpr", "MemberExpr"):
                        b = self.base(eng.lv(st, fr, j))
                        if b is not None and ('set', b) not in st.ts: self.inout.add(b)
                if t.endswith("&") and not t.endswith("&&") or t.endswith("*"):
                    if t.endswith("*"):
                        v = eng.ev(st, fr, a)
                        if v is None or v[0] != 'addr': continue
                        b = self.base(v[1]); c = t.startswith("const ")
                    else:
                        b = self.base(eng.lv(st, fr, a)); c = const_ref(t)
                    if b is None: continue
                    if c:
                        if ('set', b) not in st.ts: self.inout.add(b)
                    else: outp.append((b, i))
            if obj is not None:
                b = self.base(obj)
                if b is not None:
                    if info.get("name") == "operator=" or info.get("special") in ("copyassign", "moveassign"): st.ts[('set', b)] = 1
                    else:
                        # operations on an object that the caller provides
                        if ('set', b) not in st.ts: self.inout.add(b)
        key = info["key"]
        step = None
        if not lam and nd["k"] in CALLS:
            if qn in SYSCALLS: step = SYSCALLS[qn]
            elif rt == "bool" and (is_contract(info) or outp or info["name"].startswith("try_")) and not (key in self.prog.funcs and self.inline(eng, fr, info, self.prog.funcs[key])): step = {"fail": 0}
        if step is not None and not step.get("predicate") and "fail" in step:
            eng.default_effects(fr, st, n, info, obj, argn)
            st.ev.pop((fr.id, n), None)
            ok = st.copy(); bad = st
            for b, i in outp:
                ok.ts[('set', b)] = 1
                if not self.sums(key, i): bad.ts[('set', b)] = 1
            site = (f.key, n)
            if not dropped(f, n): self.sites[site] = (f.loc(n), qn)
            for s in (ok, bad): s.ts.pop(('ok', site), None)
            if site in self.sites: ok.ts[('ok', site)] = 1
            how = step["fail"]
            if rt == "bool": return [(ok, ONE), (bad, ZERO)]
            if how == -1: good, badv = IV(0, None), IV(-1, -1)
            elif how == 0: good, badv = IV(1, None), IV(0, 0)
            elif how == "neg": good, badv = IV(0, None), IV(None, -1)
            else: good, badv = IV(0, 0), TOP.exclude(0)
            vg = ('k', good.single()) if good.single() is not None else eng.fresh(ok, ('sys', fr.id, n), good)
            vb = ('k', badv.single()) if badv.single() is not None else eng.fresh(bad, ('sysbad', fr.id, n), badv)
            return [(ok, vg), (bad, vb)]
        for b, i in outp: st.ts[('set', b)] = 1
        return None


def candidates(prog):
    for f in prog.funcs.values():
        if not rep(f) or f.d.get("noreturn") or f.d.get("lambda") or f.cfg() is None: continue
        if f.ret == "void" and outs(f): yield f
        elif f.ret != "bool" and any("fn" in n and n["k"] == "CallExpr" and (f.fn(i) or {}).get("qn") in SYSCALLS for i, n in enumerate(f.nodes)): yield f
        if f.ret == "bool" and (outs(f) or is_contract(dict(f.d, tu=f.tu)) or f.name.startswith(("try_", "do_try_", "do_set_"))): yield f


def dropped(f, n):
    """is the outcome of the call ignored?"""
    p = f.parent.get(n)
    while p is not None and f.nodes[p]["k"] in ("ExprWithCleanups", "ParenExpr", "ImplicitCastExpr"): n, p = p, f.parent.get(p)
    if p is None: return True
    k = f.nodes[p]["k"]
    if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and (f.type(p) or "") == "void": return True
    return k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt") and not (f.nodes[p]["c"] and n in f.nodes[p]["c"][:1] and k != "CompoundStmt") and k == "CompoundStmt"


class Scan:
    def __init__(self, prog):
        self.prog = prog; self.memo = {}; self.active = set()

    def sums(self, key, i):
        """is parameter number i of the function assigned only when it succeeds?"""
        f = self.prog.funcs.get(key)
        if f is None or not rep(f) or f.d.get("virtual") or f.cfg() is None: return False
        if key in self.active: return True
        r = self.one(f)
        return bool(r and i in r["only"])

    def one(self, f):
        if f.key in self.memo: return self.memo[f.key]
        self.active.add(f.key)
        r = self.analyse(f)
        self.active.discard(f.key)
        self.memo[f.key] = r
        return r

    def analyse(self, f):
        pl = Results(self.prog, f, self.sums)
        eng = Engine(self.prog, pl)
        try: ex = eng.run(f)
        except Budget: return None
        r = dict(only=set(), viol=[], results=0, steps=0, obl=max(1, len(pl.out)) + len(pl.sites))
        disc = [p["id"] for p in f.params if p["id"] in pl.out and (f.T(p["t"]) or "").rstrip(" &") in ("bool",) or p["id"] in pl.out and (f.T(p["t"]) or "").rstrip(" &") in self.prog.enums]
        yes = {b: set() for b in pl.out}; no = {b: set() for b in pl.out}; fail = {b: 0 for b in pl.out}
        okt = {}
        for kind, st, v in ex:
            if kind != 'return' or (v is None and f.ret == "bool"):
                for k in st.ts:
                    if k[0] == 'ok': okt.setdefault(k[1], set()).add(False)
                continue
            rg = eng.range(st, v) if f.ret == "bool" else IV(1, 1)
            if rg.has(1) or not rg.has(0):
                key = tuple(eng.range(st, st.store[('v', (), b)]).single() if ('v', (), b) in st.store else None for b in disc)
                for b in pl.out: (yes if ('set', b) in st.ts else no)[b].add(key)
                for k in st.ts:
                    if k[0] == 'ok': okt.setdefault(k[1], set()).add(True)
            if not rg.has(1) and rg.has(0):
                for b in pl.out:
                    if ('set', b) not in st.ts: fail[b] += 1
                for k in st.ts:
                    if k[0] == 'ok': okt.setdefault(k[1], set()).add(False)
        for i, p in enumerate(f.params):
            b = p["id"]
            if b in pl.out and yes[b] and not no[b] and fail[b]: r["only"].add(i)
        for b, name in pl.out.items():
            if b in pl.inout: continue
            r["results"] += 1
            if not yes[b] or not no[b]: continue
            if f.ret != "bool" and b not in pl.direct: continue
            if b in disc and len({k[disc.index(b)] for k in yes[b]}) == 1 and None not in {k[disc.index(b)] for k in yes[b]}: continue    # a flag that is only ever raised
            rest = [j for j, d in enumerate(disc) if d != b]
            if rest and not ({tuple(k[j] for j in rest) for k in yes[b]} & {tuple(k[j] for j in rest) for k in no[b]}): continue    # which results there are is told by another result
            r["viol"].append((f"incomplete {f.qn} {name}", f"{f.loc()}: {f.qn}(): can report success without having assigned the result `{name}`", name))
        if f.ret == "bool" and "write" in f.name and "write_some" not in f.name:
            for i, p in enumerate(f.params):
                b = p["id"]
                if b in pl.out and b not in pl.inout and (f.T(p["t"]) or "").startswith(("unsigned long", "std::size_t")) and fail[b]:
                    r["viol"].append((f"partial {f.qn} {p['n']}", f"{f.loc()}: {f.qn}(): can fail without telling (`{p['n']}`) how much was written", p["n"]))
        r["inout"] = {n for b, n in pl.out.items() if b in pl.inout}
        if f.ret != "bool":
            for s in pl.sites: okt.setdefault(s, set())
        for s, o in okt.items():
            r["steps"] += 1
            if True not in o:
                loc, qn = pl.sites[s]
                r["viol"].append((f"success as failure {f.qn} {qn}", f"{loc}: {f.qn}(): always reports failure when {qn}() has succeeded", None))
        return r


def _work(a):
    lo, n = a
    S = Scan(_G[0])
    return [(i, S.one(_G[1][i])) for i in range(lo, len(_G[1]), n)]


_G = [None, None]


def scan(prog, c):
    fs = sorted(candidates(prog), key=lambda f: (f.file, f.line, f.key))
    seen = {}
    work = []
    for f in fs:
        k = (f.file, f.line, f.name)
        if seen.get(k, 0) >= 2: continue
        seen[k] = seen.get(k, 0) + 1
        work.append(f)
    _G[0] = prog; _G[1] = work
    if len(work) > 100:
        import multiprocessing, gc
        gc.freeze()
        with multiprocessing.get_context("fork").Pool(8) as p: res = [x for r in p.imap_unordered(_work, [(k, 32) for k in range(32)]) for x in r]
    else: res = _work((0, 1))
    res.sort(key=lambda x: x[0])
    inout = {}
    for i, r in res:
        if r: inout.setdefault((work[i].file, work[i].line), set()).update(r["inout"])
    for i, r in res:
        f = work[i]
        if r is None:
            c.count("functions that are too large to be examined"); c.sample(f"too large: {f.loc()} {f.qn}"); continue
        c.count("functions examined"); c.count("obligations", r["obl"]); c.count("results of operations", r["results"]); c.count("steps of operations", r["steps"])
        for ident, msg, name in r["viol"]:
            if name and name in inout[(f.file, f.line)]: continue
            c.violation(ident, msg)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        for what, n in (("functions examined", 450), ("results of operations", 350), ("steps of operations", 200)): c.require(what, n)
        return c.finish()
    hmain(body)
