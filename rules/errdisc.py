"""Error discipline: path-sensitive tracking of failed calls, errno and std::error_code objects."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint.interp import *
from archlint import program as P

ERRNO = ('g', 'errno')
EINTR, EAGAIN, ENOTTY, ENOENT = 4, 11, 25, 2
# POSIX calls: how failure is signalled, which errno values are expected outcomes rather than failures,
# whether a signal may interrupt the call (EINTR)
SYSCALLS = {
    "open":      dict(fail=-1, intr=False),
    "close":     dict(fail=-1, intr=False),
    "read":      dict(fail=-1, intr=True),
    "write":     dict(fail=-1, intr=True),
    "lseek":     dict(fail=-1, intr=False),
    "fstat":     dict(fail=-1, intr=False),
    "stat":      dict(fail=-1, intr=False),
    "flock":     dict(fail=-1, intr=True, expected={EAGAIN}),
    "futimens":  dict(fail=-1, intr=False),
    "ioctl":     dict(fail=-1, intr=False, expected={ENOTTY}),
    "fsync":     dict(fail=-1, intr=True),
    "ftruncate": dict(fail=-1, intr=True),
    "dup":       dict(fail=-1, intr=False),
    "uname":     dict(fail=-1, intr=False),
    "getrlimit": dict(fail=-1, intr=False),
    "setrlimit": dict(fail=-1, intr=False),
    "clock_gettime": dict(fail=-1, intr=False),
    "sysconf":   dict(fail=-1, intr=False, silent=True),
    "newlocale": dict(fail=0, intr=False, expected={ENOENT}),
    "isatty":    dict(fail=0, intr=False, predicate=True),
    "pthread_sigmask": dict(direct=True),
    "poll":      dict(fail=-1, intr=True),
    # Xlib / GLX
    "XOpenDisplay": dict(fail=0, noerrno=True, expected_null=True),
    "Xutf8TextListToTextProperty": dict(fail="neg", noerrno=True),
    "XmbTextListToTextProperty": dict(fail="neg", noerrno=True),
    "XStringListToTextProperty": dict(fail=0, noerrno=True),
    "XdbeGetVisualInfo": dict(fail=0, noerrno=True),
    "XListPixmapFormats": dict(fail=0, noerrno=True),
    "glXCreateContext": dict(fail=0, noerrno=True),
    "glXMakeCurrent": dict(fail=0, noerrno=True),
    # libpng: a failure is signalled by a long jump back to the set point
    "_setjmp": dict(fail="nonzero", noerrno=True),
    "setjmp": dict(fail="nonzero", noerrno=True),
    "__sigsetjmp": dict(fail="nonzero", noerrno=True),
    "png_create_read_struct": dict(fail=0, noerrno=True),
    "png_create_write_struct": dict(fail=0, noerrno=True),
    "png_create_info_struct": dict(fail=0, noerrno=True),
    # SDL
    "SDL_Init": dict(fail="neg", noerrno=True),
    "SDL_CreateWindow": dict(fail=0, noerrno=True),
    "SDL_CreateRenderer": dict(fail=0, noerrno=True),
    "SDL_CreateTexture": dict(fail=0, noerrno=True),
    "SDL_UpdateTexture": dict(fail="neg", noerrno=True),
    "SDL_RenderClear": dict(fail="neg", noerrno=True),
    "SDL_RenderCopy": dict(fail="neg", noerrno=True),
    "SDL_RenderFillRect": dict(fail="neg", noerrno=True),
    "SDL_SetRenderDrawColor": dict(fail="neg", noerrno=True),
    "SDL_SetWindowFullscreen": dict(fail="neg", noerrno=True),
    "SDL_GL_CreateContext": dict(fail=0, noerrno=True),
    "SDL_GL_MakeCurrent": dict(fail="neg", noerrno=True),
    "SDL_WaitEvent": dict(fail=0, noerrno=True),
    # FreeType
    "FT_Init_FreeType": dict(fail="nonzero", noerrno=True),
    "FT_New_Face": dict(fail="nonzero", noerrno=True),
    "FT_Outline_Render": dict(fail="nonzero", noerrno=True),
    "FT_Set_Char_Size": dict(fail="nonzero", noerrno=True),
    "FT_New_Memory_Face": dict(fail="nonzero", noerrno=True),
    "FT_Set_Pixel_Sizes": dict(fail="nonzero", noerrno=True),
    "FT_Request_Size": dict(fail="nonzero", noerrno=True),
    "FT_Select_Size": dict(fail="nonzero", noerrno=True),
    "FT_Load_Glyph": dict(fail="nonzero", noerrno=True),
    "FT_Render_Glyph": dict(fail="nonzero", noerrno=True),
    "FT_Get_Glyph": dict(fail="nonzero", noerrno=True),
    "FT_Get_Kerning": dict(fail="nonzero", noerrno=True),
    "pthread_setname_np": dict(direct=True),
    "pthread_getname_np": dict(direct=True),
}
ECREF = "std::error_code &"


def ec_params(f_or_info, tu):
    return [i for i, q in enumerate(f_or_info["params"]) if q["t"] >= 0 and tu.types[q["t"]] == ECREF]


def is_contract(info):
    if not info or info.get("kind"): return False
    tu = info["tu"]
    return info["ret"] >= 0 and tu.types[info["ret"]] == "bool" and len(ec_params(info, tu)) == 1


def relevant_set(prog, dist=2):
    """functions from which a system call, a contract call or errno is reachable in a few steps through repo code"""
    callees = {}
    lvl = {}
    for f in prog.funcs.values():
        cs = set()
        seed = False
        for i, n in enumerate(f.nodes):
            if n["k"] in CALLS or n["k"] in CTORS:
                g = f.fn(i)
                if g:
                    cs.add(g["key"])
                    if g["qn"] in SYSCALLS or is_contract(g) or g["qn"] == "__errno_location": seed = True
        if not seed:
            ts = [f.T(q["t"]) or "" for q in f.params] + [f.ret or ""]
            seed = any("std::error_code" in t for t in ts)
        if f.d.get("noreturn"): seed = False
        if seed: lvl[f.key] = 0
        callees[f.key] = cs
    for d in range(1, dist + 1):
        new = [k for k, cs in callees.items() if k not in lvl and any(lvl.get(c, 99) < d for c in cs)]
        for k in new: lvl[k] = d
    return set(lvl)


SCALAR = re.compile(r"^(const )?(bool|char|int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long)$")


class ErrDisc(Plugin):
    max_inline = 4
    max_pairs = 40000

    def __init__(self, prog, rel, no_contract=frozenset(), intr_only=False):
        super().__init__(prog)
        self.rel = rel; self.no_contract = no_contract; self.events = []
        self.sites = set(); self._buf = {}

    def uses_contract(self, info):
        return is_contract(info) and info["key"] not in self.no_contract

    def inline(self, eng, fr, info, g):
        if self.uses_contract(info): return False
        if g.key in self.rel: return True
        # small helpers working on plain values
        return len(g.nodes) <= 60 and bool(g.params) and not g.d.get("tmpl") and all(SCALAR.match(g.T(q["t"]) or "") for q in g.params)

    # error_code values are modelled by their integer value
    def call(self, eng, st, fr, n, info, obj, args, argn):
        f = fr.f; nd = f.nodes[n]
        if not info: return None
        qn = info["qn"]
        if qn == "__errno_location":
            st.ev[(fr.id, n)] = ('addr', ERRNO)
            return [(st, ('addr', ERRNO))]
        if qn in SYSCALLS:
            return self.syscall(eng, st, fr, n, info, argn, SYSCALLS[qn])
        if info["name"] == "eof" and qn.startswith("std::") and "char_traits" in qn and not argn:
            return [(st, ('k', -1))]
        self.flush_state(eng, st, fr, n, info, obj, argn)
        if argn and (info["name"] == "throw_system_error" or (info.get("cls") == "std::system_error" and info.get("kind") == "ctor" and not info.get("special"))):
            v = eng.ev(st, fr, argn[0])
            r = eng.range(st, v)
            if r.single() == 0 or ('errno-clobbered' in repr(v) and r.has(0)):
                self.events.append(("error", f"{f.qn}: thrown error", f"{f.loc(n)}: {f.full}: throws a system error with " +
                                    ("a zero code" if r.single() == 0 else "a code taken from errno after errno may have been overwritten"), {}))
        if info.get("cls") == "std::error_code":
            return self.ec_method(eng, st, fr, n, info, obj, argn)
        if qn == "std::make_error_code" or (info["name"] == "make_error_code"):
            if argn:
                v = eng.ev(st, fr, argn[0])
                return [(st, v)]
        if qn in ("std::operator==", "std::operator!=") and len(argn) == 2 and any("std::err" in (f.type(a) or "") for a in argn):
            a, b = eng.ev(st, fr, argn[0]), eng.ev(st, fr, argn[1])
            v = eng.mk_cmp("==", a, b)
            if (nd.get("op") or info.get("op")) == "!=": v = eng.mk_not(v)
            return [(st, v)]
        if qn in ("std::operator==", "std::operator!=") and nd["k"] == "CXXOperatorCallExpr":
            return None
        if self.uses_contract(info) and info["key"] not in fr.chain[:1]:
            return self.contract(eng, st, fr, n, info, obj, argn)
        if self.uses_contract(info):
            return self.contract(eng, st, fr, n, info, obj, argn)
        if qn.startswith("std::") or info.get("builtin"):
            return None
        # anything else may change errno
        if info["key"] not in self.prog.funcs or not self.inline(eng, fr, info, self.prog.funcs[info["key"]]):
            if not info.get("noexcept") and qn not in ("strlen", "__builtin_expect", "abort", "memcpy"):
                st.store[ERRNO] = eng.fresh(st, ('errno-clobbered', fr.id, n))
        return None

    def ec_method(self, eng, st, fr, n, info, obj, argn):
        nm = info["name"]
        k = fr.f.nodes[n]["k"]
        if k in CTORS:
            if info.get("special") in ("copyctor", "movector"): return None
            if len(argn) == 0: v = ZERO
            elif len(argn) >= 1: v = eng.ev(st, fr, argn[0])
            if obj is not None: st.store[obj] = v
            return [(st, v)]
        if nm == "operator=":
            v = eng.ev(st, fr, argn[0])
            eng.write(st, fr, n, obj, v)
            return [(st, eng.addr_of(obj))]
        if nm == "clear":
            eng.write(st, fr, n, obj, ZERO); return [(st, ZERO)]
        if nm == "assign":
            eng.write(st, fr, n, obj, eng.ev(st, fr, argn[0])); return [(st, ZERO)]
        if nm in ("operator bool",):
            return [(st, eng.to_bool(eng.read(st, fr, obj)))]
        if nm == "value":
            return [(st, eng.read(st, fr, obj))]
        return [(st, eng.sym(st, ('ecm', fr.id, n)))]

    # --- objects that keep written data in a buffer until they are flushed -----------------------
    def buffered(self, typ):
        """classes with a flush operation that can fail"""
        if not typ: return False
        t = typ.replace("const ", "").rstrip(" &")
        c = self._buf.get(t)
        if c is None:
            c = False
            seen = [t]
            while seen:
                r = self.prog.records.get(seen.pop())
                if not r: continue
                if any(r["tu"].fns[m]["name"] == "try_flush" for m in r.get("methods", ()) if m in r["tu"].fns): c = True
                seen += [r["tu"].types[b["t"]] for b in r.get("bases", ())]
            self._buf[t] = c
        return c

    def flush_state(self, eng, st, fr, n, info, obj, argn):
        f = fr.f
        nm = info["name"]
        if obj is not None and obj[0] == 'v' and nm in ("write", "try_write", "write_line", "try_write_line"):
            on = f.nodes[n].get("obj")
            if on is not None and self.buffered(f.type(on)): st.ts[('dirty', obj)] = f.loc(n)
        if obj is not None and nm in ("flush", "try_flush"):
            st.ts.pop(('dirty', obj), None)
        for i, a in enumerate(argn):
            if a < 0 or i >= len(info["params"]): continue
            pt = info["tu"].types[info["params"][i]["t"]] or ""
            if pt.endswith("&") and not pt.startswith("const ") and self.buffered(f.type(a)):
                l = eng.lv(st, fr, a)
                if l[0] == 'v' and info["name"] not in ("move", "forward"): st.ts[('dirty', l)] = f.loc(n)

    def on_dtor(self, eng, st, fr, loc, typ, info):
        k = ('dirty', loc)
        if k in st.ts:
            l = st.ts.pop(k)
            st.ts[('lost', (typ or "").split("<")[0], l)] = 1
        return [st]

    def site(self, fr, n):
        return (fr.f.key, n)

    def syscall(self, eng, st, fr, n, info, argn, spec):
        qn = info["qn"]
        site = self.site(fr, n)
        self.sites.add(site)
        # a repeated call supersedes earlier outcomes of the same call (retry)
        for k in [k for k in st.ts if k[0] == 'fail' and (k[1] == site or (k[3] == qn and st.ts[k] == 'intr'))]:
            del st.ts[k]
        outs = []
        eng.default_effects(fr, st, n, info, None, argn)
        st.ev.pop((fr.id, n), None)
        ok = st.copy(); bad = st
        ok.store[ERRNO] = eng.fresh(ok, ('errno-clobbered', fr.id, n))
        if spec.get("noerrno"):
            how = spec["fail"]
            if how == 0: good, badv = IV(1, None), IV(0, 0)
            elif how == "neg": good, badv = NONNEG, IV(None, -1)
            else: good, badv = IV(0, 0), TOP.exclude(0)
            vg = eng.fresh(ok, ('sys', fr.id, n), good)
            vb = eng.fresh(bad, ('sysbad', fr.id, n), badv)
            if badv.single() is not None: vb = ('k', badv.single())
            if good.single() is not None: vg = ('k', good.single())
            bad.ts[('fail', site, fr.f.loc(n), qn)] = 'open'
            return [(ok, vg), (bad, vb)]
        if spec.get("direct"):
            vs = eng.fresh(ok, ('sys', fr.id, n)); ok.cons[vs] = IV(0, 0)
            vb = eng.fresh(bad, ('sys', fr.id, n)); bad.cons[vb] = IV(1, None)
            bad.ts[('fail', site, fr.f.loc(n), qn)] = 'open'
            bad.ts[('failval', site)] = vb
            return [(ok, ZERO), (bad, vb)]
        v = eng.fresh(ok, ('sys', fr.id, n), IV(0, None) if spec["fail"] == -1 else IV(1, None))
        if spec.get("predicate"):
            return [(ok, v), (bad, ZERO)]
        e = eng.fresh(bad, ('errno', fr.id, n), IV(1, None))
        bad.store[ERRNO] = e
        bad.ts[('fail', site, fr.f.loc(n), qn)] = 'open'
        bad.ts[('failval', site)] = e
        return [(ok, v), (bad, ('k', spec["fail"]))]

    def contract(self, eng, st, fr, n, info, obj, argn):
        site = self.site(fr, n)
        self.sites.add(site)
        tu = info["tu"]
        i = ec_params(info, tu)[0]
        for k in [k for k in st.ts if k[0] == 'fail' and k[1] == site]:
            del st.ts[k]
        ecl = eng.lv(st, fr, argn[i]) if i < len(argn) else None
        before = st.store.get(ecl)
        eng.default_effects(fr, st, n, info, obj, argn)
        st.store[ERRNO] = eng.fresh(st, ('errno-clobbered', fr.id, n))
        st.ev.pop((fr.id, n), None)
        ok = st.copy(); bad = st
        if ecl is not None:
            if before is None: ok.store.pop(ecl, None)
            else: ok.store[ecl] = before
            e = eng.fresh(bad, ('ec', fr.id, n)); bad.cons[e] = TOP.exclude(0)
            bad.store[ecl] = e
            bad.ts[('failval', site)] = e
        bad.ts[('fail', site, fr.f.loc(n), info["qn"])] = 'open'
        return [(ok, ONE), (bad, ZERO)]

    def on_branch(self, eng, st, fr, n, truth):
        # remember failures that were classified as an interruption / an expected condition
        for k in list(st.ts):
            if k[0] == 'fail' and st.ts[k] == 'open':
                v = st.ts.get(('failval', k[1]))
                if v is not None:
                    s = eng.range(st, v).single()
                    if s is not None:
                        st.ts[k] = 'intr' if s == EINTR else ('exp', s)



def open_failures(eng, st):
    out = []
    for k, v in st.ts.items():
        if k[0] == 'fail':
            out.append((k, v, st.ts.get(('failval', k[1]))))
    return out


# ---------------------------------------------------------------------------------------------
# Functions with a documented way of reporting that is not "false plus error code".
NO_CONTRACT = {
    "archon::core::File::try_read_some_a": "returns false with interrupted=true and no error code (documented)",
    "archon::core::File::try_write_some_a": "returns false with interrupted=true and no error code (documented)",
}
# Functions that are documented not to report failures.
SILENT = {
    "core/terminate.cpp": "best effort message to stderr while the process is being terminated",
}
EOF_RETURN = {"underflow", "uflow", "overflow", "sync", "pbackfail", "showmanyc"}
POS_RETURN = {"seekoff", "seekpos"}
COUNT_RETURN = {"xsgetn", "xsputn"}


def internal(f):
    """not callable by users: private / protected members, functions with internal linkage"""
    if f.d.get("virtual") or f.d.get("overrides"): return False
    if f.d.get("kind") == "dtor": return False
    a = f.d.get("access")
    if a in (1, 2): return True
    return "@" in f.key and a is None


class Analysis:
    """runs the error discipline over all functions which can fail"""

    def __init__(self, prog, check):
        self.prog = prog; self.check = check
        self.rel = relevant_set(prog)
        self.no_contract = {f.key for f in prog.funcs.values() if f.qn in NO_CONTRACT}
        self.findings = []      # (kind, ident, message, details)
        self.sites = set()
        self.nfuncs = 0
        self.exits = 0
        self.pairs = 0

    def contract(self, f):
        return is_contract(dict(f.d, tu=f.tu)) and f.key not in self.no_contract

    def fallible(self, f):
        for i, n in enumerate(f.nodes):
            if n["k"] in CALLS:
                g = f.fn(i)
                if g and (g["qn"] in SYSCALLS or is_contract(g)): return True
        return False

    def run(self):
        prog = self.prog
        callees = {}
        for f in prog.funcs.values():
            cs = set()
            for i, n in enumerate(f.nodes):
                if n["k"] in CALLS or n["k"] in CTORS:
                    g = f.fn(i)
                    if g: cs.add(g["key"])
            callees[f.key] = cs
        lambdas = {f.key for f in prog.funcs.values() if f.d.get("lambda")}
        # 1. functions with the contract; internal ones which do not follow it are examined where they are used
        self.results = {}
        for rounds in range(3):
            demote = set()
            for f in prog.funcs.values():
                if f.key in lambdas or not self.contract(f) or f.d.get("noreturn"): continue
                rep = self.one(f)
                self.results[f.key] = rep
                if rep and internal(f): demote.add(f.key)
            if not demote: break
            self.no_contract |= demote
            for k in list(self.results):
                if k in self.no_contract: del self.results[k]
            # those which call them have to be looked at again: simply repeat
        # 2. everything else that makes fallible calls, directly or through internal helpers which report in another way
        pend = {f.key for f in prog.funcs.values() if not self.contract(f) and f.key not in lambdas and self.fallible(f)}
        # closures are part of the function that creates them
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "LambdaExpr":
                    g = f.fn(i)
                    if g and g["key"] in prog.funcs and self.fallible(prog.funcs[g["key"]]) and not self.contract(f):
                        pend.add(f.key)
        done = set()
        while pend:
            k = pend.pop()
            if k in done: continue
            done.add(k)
            f = prog.funcs[k]
            if f.d.get("noreturn") or f.key in lambdas: continue
            if f.qn in NO_CONTRACT: continue
            rep = self.one(f)
            if rep and internal(f):
                self.rel.add(f.key)
                cs = [g for g in prog.funcs.values() if f.key in callees[g.key]]
                if cs:
                    for g in cs:
                        if self.contract(g):
                            pass    # analysed with f inlined in step 1
                        else: pend.add(g.key)
                    continue
            self.results[f.key] = rep
        for k, rep in self.results.items():
            for kind, ident, msg, det in rep:
                self.findings.append((kind, ident, msg, det))
        return self

    def one(self, f):
        pl = ErrDisc(self.prog, self.rel, self.no_contract)
        eng = Engine(self.prog, pl)
        try:
            ex = eng.run(f)
        except Budget as e:
            raise P.CheckError(f"{f.loc()}: {f.full}: {e}")
        self.nfuncs += 1
        self.sites |= pl.sites
        self.pairs += eng.pairs
        rep = []
        con = is_contract(dict(f.d, tu=f.tu)) and f.key not in self.no_contract
        silent = f.rel() in SILENT

        def add(kind, what, msg, **det):
            rep.append((kind, f"{f.qn}: {what}", f"{f.loc()}: {f.full}: {msg}", det))
        for ev in pl.events:
            rep.append(ev)
        for kind, st, v in ex:
            self.exits += 1
            of = open_failures(eng, st)
            r = eng.range(st, v) if v is not None else None
            for k, s, fv in of:
                spec = SYSCALLS.get(k[3], {})
                if spec.get("intr") and fv is not None and eng.range(st, fv).has(EINTR) and not silent:
                    add("intr", f"{k[3]} interrupted", f"returns after {k[3]}() at {k[2]} was interrupted by a signal (EINTR) instead of repeating it")
            if kind != 'return': continue
            for k, s, fv in of:
                spec = SYSCALLS.get(k[3], {})
                if silent: continue
                if spec.get("silent"): continue
                if isinstance(s, tuple) and s[0] == 'exp' and s[1] in spec.get("expected", ()): continue
                if con or (f.ret == "bool"):
                    if r is not None and (r.has(1) or not r.has(0)):
                        add("success", f"{k[3]} failed", f"can return true although {k[3]}() at {k[2]} failed")
                    elif not con and spec.get("expected") and r is not None and r.has(0):
                        add("success", f"{k[3]} failed, false", f"returns false (an ordinary outcome) although {k[3]}() at {k[2]} failed for an unexpected reason")
                    continue
                if f.name in EOF_RETURN or f.name in POS_RETURN or f.name in COUNT_RETURN:
                    if f.d.get("overrides") or f.d.get("virtual"):
                        if f.name in EOF_RETURN and not (v is not None and v[0] == 'k' and v[1] in (-1, 0xffffffff)):
                            add("success", f"{k[3]} failed", f"does not return eof after {k[3]}() at {k[2]} failed")
                        if f.name in COUNT_RETURN and v is not None and len(f.params) > 1 and v == ('s', ('init', ('v', (), f.params[1]['id']))):
                            add("success", f"{k[3]} failed", f"returns the full count although {k[3]}() at {k[2]} failed")
                        continue
                if self.returns_ec(f) and v is not None and not eng.range(st, v).has(0): continue
                add("success", f"{k[3]} failed", f"returns normally although {k[3]}() at {k[2]} failed")
            if (not con) or r is None or r.has(1) or not r.has(0):
                for k in st.ts:
                    if k[0] == 'lost' and not silent:
                        if not con and f.ret == "bool" and r is not None and not r.has(1) and r.has(0): continue
                        add("success", f"unflushed {k[1]}", f"reports success while data written to {k[1]} at {k[2]} has not been flushed")
            if con and r is not None and r.has(0):
                i = ec_params(f.d, f.tu)[0]
                ecl = ('v', (), f.params[i]['id'])
                ev = st.store.get(ecl)
                own = ('s', ('init', ecl))
                if ev is None or ev == own:
                    add("error", "no error", "can return false without having set the error code")
                elif eng.range(st, ev).single() == 0:
                    add("error", "zero error", "can return false with a zero error code")
                elif ev[0] == 's' and isinstance(ev[1], tuple) and ev[1][0] in ('errno-clobbered', 'old') and 'errno-clobbered' in repr(ev) and eng.range(st, ev).has(0):
                    add("error", "stale errno", "can return false with an error code taken from errno after errno may have been overwritten by another call")
        # one report per identity
        out = {}
        for x in rep: out.setdefault((x[0], x[1]), x)
        return list(out.values())

    def returns_ec(self, f):
        return "std::error_code" in (f.ret or "")


def main(pid, kinds, extra=None):
    from archlint.harness import Check, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers(["inst_text"]))
        a = Analysis(prog, c).run()
        c.count("functions analysed", a.nfuncs)
        c.count("fallible call sites", len(a.sites))
        c.count("function exits examined", a.exits)
        c.count("abstract states", a.pairs)
        c.count("obligations", a.exits)
        for f in list(prog.funcs.values()):
            if f.key in a.results: c.sample(f"{f.loc()} {f.qn}")
        c.require("functions analysed", 120); c.require("fallible call sites", 120)
        for kind, ident, msg, det in a.findings:
            if kind in kinds: c.violation(ident, msg, **det)
        if extra: extra(c, prog, a)
        return c.finish()
    hmain(body)
