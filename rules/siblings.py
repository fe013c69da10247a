"""A throwing operation and its non-throwing `try_` sibling must agree."""
from errdisc import *


SYSTEM_ERRORS = {"std::system_error", "std::filesystem::filesystem_error", "std::ios_base::failure"}


def bare(t):
    return re.sub(r"\bconst\b|[&\s]", "", t or "")


def derived(f, ids):
    """locals of f whose value is (transitively) computed from the given declarations"""
    ids = set(ids)
    while True:
        n0 = len(ids)
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("init", -1) >= 0 and d["id"] not in ids and any(f.nodes[x].get("d") in ids for x in f.walk(d["init"])): ids.add(d["id"])
            elif n["k"] == "BinaryOperator" and n["op"] == "=":
                l = [f.nodes[x].get("d") for x in f.walk(n["c"][0]) if f.nodes[x]["k"] == "DeclRefExpr"]
                if l and any(f.nodes[x].get("d") in ids for x in f.walk(n["c"][1])): ids.update(l)
        if len(ids) == n0: return ids


class Agree(ErrDisc):
    """follows one throwing function X; X must be try_X plus an exception on failure"""
    max_inline = 3

    def __init__(self, prog, rel, fname, scope):
        super().__init__(prog, rel)
        self.fname = fname; self.scope = scope; self.ncalls = 0

    def inline(self, eng, fr, info, g):
        if g.name in ("try_" + self.fname, self.fname): return False
        # helpers of the same file
        return g.file == fr.f.file and len(g.nodes) < 400 and not g.d.get("virtual") and g.d.get("kind") != "dtor"

    def call(self, eng, st, fr, n, info, obj, args, argn):
        f = fr.f
        if info and info["name"] == "try_" + self.fname and info["tu"].types[info["ret"]] == "bool":
            self.ncalls += 1
            passed = self.passed(eng, st, fr, argn)
            want = {bare(info["tu"].types[q["t"]]) for q in info["params"]}
            for i, q in enumerate(self.root.params):
                if bare(self.root.T(q["t"])) not in want or (i not in passed and self.is_out(q)): passed += (i,)
            ecs = ec_params(info, info["tu"])
            ecl = eng.lv(st, fr, argn[ecs[0]]) if ecs and ecs[0] < len(argn) else None
            eng.default_effects(fr, st, n, info, obj, argn)
            st.ev.pop((fr.id, n), None)
            ok, bad = st.copy(), st
            ok.ts[('tried',)] = ('ok', passed, fr.id, n)
            bad.ts[('tried',)] = ('fail', passed, fr.id, n)
            if ecl is not None:
                e = eng.fresh(bad, ('ec', fr.id, n)); bad.cons[e] = TOP.exclude(0); bad.store[ecl] = e
                bad.ts[('ec',)] = e
            return [(ok, ONE), (bad, ZERO)]
        if info and info["name"] == self.fname and fr.id == () and info["key"] != fr.f.key:
            self.ncalls += 1
            passed = self.passed(eng, st, fr, argn)
            want = {bare(info["tu"].types[q["t"]]) for q in info["params"]}
            for i, q in enumerate(self.root.params):
                if bare(self.root.T(q["t"])) not in want or (i not in passed and self.is_out(q)): passed += (i,)
            eng.default_effects(fr, st, n, info, obj, argn)
            v = st.ev.pop((fr.id, n), None)
            st.ts[('tried',)] = ('deleg', passed, fr.id, n)
            return [(st, v)]
        if info and info.get("cls") in SYSTEM_ERRORS and info.get("kind") == "ctor" and not info.get("special") and argn:
            for i, a in enumerate(argn):
                if i < len(info["params"]) and "error_code" in (info["tu"].types[info["params"][i]["t"]] or ""):
                    st.ts[('thrown',)] = eng.ev(st, fr, a)
        return super().call(eng, st, fr, n, info, obj, args, argn)

    def is_out(self, q):
        t = self.root.T(q["t"]) or ""
        return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ")

    def passed(self, eng, st, fr, argn):
        """indices of the root function's parameters which reach the call"""
        out = []
        for a in argn:
            if a < 0: continue
            terms = []
            for x in fr.f.walk(a):
                nd = fr.f.nodes[x]
                if nd["k"] in ("DeclRefExpr",) and nd.get("dk") in ("local", "parm", "binding"):
                    l = eng.lv(st, fr, x)
                    terms.append(l)
                    v = st.store.get(l)
                    if v is not None: terms.append(v)
            for t in terms: out.append(t)
        ids = []
        for i, p in enumerate(self.root.params):
            for d in self.taint[i]:
                l = ('v', (), d)
                if any(t == l or contains(t, l) for t in out):
                    ids.append(i); break
        return tuple(ids)


def main(pid):
    from archlint.harness import Check, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers(["inst_text"]))
        rel = relevant_set(prog)
        sib = {}
        for k, fi in prog.fninfo.items():
            if fi["name"].startswith("try_") and fi["tu"].types[fi["ret"]] == "bool":
                sib.setdefault((fi["qn"].rsplit("::", 1)[0], fi["name"][4:]), []).append(fi)
        roots = []
        for f in prog.funcs.values():
            sc = f.qn.rsplit("::", 1)[0]
            if (sc, f.name) in sib and not f.d.get("noexcept") and not f.d.get("lambda") and f.d.get("access") in (0, None) and "@" not in f.key:
                roots.append(f)
        for f in roots:
            key = f"{f.qn}({', '.join(f.T(p['t']) or '?' for p in f.params)})"
            pl = Agree(prog, rel, f.name, f.qn.rsplit("::", 1)[0]); pl.root = f
            pl.taint = [derived(f, [p['id']]) for p in f.params]
            eng = Engine(prog, pl)
            try: ex = eng.run(f)
            except Budget as e: raise P.CheckError(f"{f.full}: {e}")
            c.count("throwing functions compared with their try_ sibling")
            c.count("calls of a sibling", pl.ncalls)
            c.sample(f"{f.loc()} {f.qn}", 40)
            where = f"{f.loc()}: {f.full}"
            for kind, st, v in ex:
                c.count("exits examined")
                t = st.ts.get(('tried',))
                if kind == 'return':
                    if t is None: c.violation(f"{key}: no attempt", f"{where}: can return without calling try_{f.name}()"); continue
                    if t[0] == 'fail': c.violation(f"{key}: failure ignored", f"{where}: returns normally although try_{f.name}() failed")
                    miss = [p["n"] for i, p in enumerate(f.params) if i not in t[1] and p["n"]]
                    if miss: c.violation(f"{key}: argument dropped {miss}", f"{where}: argument {', '.join(miss)} does not reach try_{f.name}()")
                    if f.ret != "void" and v is not None and v[0] == 'k' and t[0] == 'ok':
                        c.violation(f"{key}: result dropped", f"{where}: returns a constant instead of the result of try_{f.name}()")
                else:
                    if t is None:
                        c.violation(f"{key}: throws without attempt", f"{where}: can throw without calling try_{f.name}()"); continue
                    if t[0] == 'ok': c.violation(f"{key}: throws on success", f"{where}: throws although try_{f.name}() succeeded")
                    if t[0] == 'fail' and ('ec',) in st.ts:
                        x = st.ts.get(('thrown',))
                        if x is None: c.violation(f"{key}: wrong exception", f"{where}: does not throw std::system_error when try_{f.name}() fails")
                        elif x != st.ts[('ec',)]: c.violation(f"{key}: wrong error code", f"{where}: the thrown std::system_error does not carry the error code from try_{f.name}()")
        c.counts["obligations"] = c.counts.get("exits examined", 0)
        c.require("throwing functions compared with their try_ sibling", 40)
        return c.finish()
    hmain(body)
