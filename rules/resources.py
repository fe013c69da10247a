"""Ownership of foreign resources: every acquired handle is released exactly once, on every path.

Two halves:
 * functions: the handle produced by an acquiring call is, at every exit (normal or exceptional), released, handed to the
   caller, or kept by an object that outlives the function;
 * classes: an object that keeps a handle in a field releases it in its destructor, whatever sequence
   "constructor [; initialising operation], any operation, destructor" came before, and never twice; a move leaves one owner.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint.interp import *
from archlint import program as P

# how a handle is obtained: where it appears, how failure shows, who releases it
ACQ = {
    "open": dict(out="ret", fail=-1, kind="fd"), "openat": dict(out="ret", fail=-1, kind="fd"), "dup": dict(out="ret", fail=-1, kind="fd"),
    "XOpenDisplay": dict(out="ret", fail=0, kind="Display"),
    "XCreateWindow": dict(out="ret", kind="Window"), "XCreateSimpleWindow": dict(out="ret", kind="Window"),
    "XCreatePixmap": dict(out="ret", kind="Pixmap"), "XCreateGC": dict(out="ret", kind="GC"), "XCreateColormap": dict(out="ret", kind="Colormap"),
    "glXCreateContext": dict(out="ret", fail=0, kind="GLXContext"),
    "XGetWindowProperty": dict(out=11, ok=0, kind="Xmem"), "XRRGetOutputProperty": dict(out=12, ok=0, kind="Xmem"),
    "XRRListOutputProperties": dict(out="ret", fail=0, kind="Xmem"), "XListPixmapFormats": dict(out="ret", fail=0, kind="Xmem"),
    "XGetVisualInfo": dict(out="ret", fail=0, kind="Xmem"), "XGetRGBColormaps": dict(out=2, fail=0, kind="Xmem"),
    "XRRGetScreenResourcesCurrent": dict(out="ret", fail=0, kind="XRRScreenResources"), "XRRGetScreenResources": dict(out="ret", fail=0, kind="XRRScreenResources"),
    "XRRGetCrtcInfo": dict(out="ret", fail=0, kind="XRRCrtcInfo"), "XRRGetOutputInfo": dict(out="ret", fail=0, kind="XRROutputInfo"),
    "XdbeGetVisualInfo": dict(out="ret", fail=0, kind="XdbeVisualInfo"),
    "Xutf8TextListToTextProperty": dict(out=(4, "value"), fail="neg", kind="Xmem"), "XmbTextListToTextProperty": dict(out=(4, "value"), fail="neg", kind="Xmem"),
    "XStringListToTextProperty": dict(out=(2, "value"), fail=0, kind="Xmem"),
    "XGrabServer": dict(out="self", kind="server grab"),
    "SDL_Init": dict(out="self", fail="neg", kind="SDL"),
    "SDL_CreateWindow": dict(out="ret", fail=0, kind="SDL_Window"), "SDL_CreateRenderer": dict(out="ret", fail=0, kind="SDL_Renderer"),
    "SDL_CreateTexture": dict(out="ret", fail=0, kind="SDL_Texture"), "SDL_GL_CreateContext": dict(out="ret", fail=0, kind="SDL_GLContext"),
    "FT_Init_FreeType": dict(out=0, ok=0, kind="FT_Library"), "FT_New_Face": dict(out=3, ok=0, kind="FT_Face"), "FT_New_Memory_Face": dict(out=4, ok=0, kind="FT_Face"),
    "png_create_read_struct": dict(out="ret", fail=0, kind="png"), "png_create_write_struct": dict(out="ret", fail=0, kind="png"),
    "__cxa_demangle": dict(out="ret", fail=0, kind="malloc"), "malloc": dict(out="ret", fail=0, kind="malloc"), "newlocale": dict(out="ret", fail=0, kind="locale_t"),
}
# releasing call -> (kind, index of the handle argument, by address?)
REL = {
    "close": ("fd", 0, False), "XCloseDisplay": ("Display", 0, False), "XDestroyWindow": ("Window", 1, False), "XFreePixmap": ("Pixmap", 1, False),
    "XFreeGC": ("GC", 1, False), "XFreeColormap": ("Colormap", 1, False), "glXDestroyContext": ("GLXContext", 1, False), "XFree": ("Xmem", 0, False),
    "XRRFreeScreenResources": ("XRRScreenResources", 0, False), "XRRFreeCrtcInfo": ("XRRCrtcInfo", 0, False), "XRRFreeOutputInfo": ("XRROutputInfo", 0, False),
    "XdbeFreeVisualInfo": ("XdbeVisualInfo", 0, False), "XUngrabServer": ("server grab", None, False), "SDL_Quit": ("SDL", None, False),
    "SDL_DestroyWindow": ("SDL_Window", 0, False), "SDL_DestroyRenderer": ("SDL_Renderer", 0, False), "SDL_DestroyTexture": ("SDL_Texture", 0, False),
    "SDL_GL_DeleteContext": ("SDL_GLContext", 0, False), "FT_Done_FreeType": ("FT_Library", 0, False), "FT_Done_Face": ("FT_Face", 0, False),
    "png_destroy_read_struct": ("png", 0, True), "png_destroy_write_struct": ("png", 0, True), "free": ("malloc", 0, False), "freelocale": ("locale_t", 0, False),
}
SENT = {"fd": -1}
NULL_IS_ERROR = {"fd", "Display", "Window", "Pixmap", "GC", "Colormap"}
SCOPE_EXIT = "archon::core::ScopeExit<"


def direct(v, out):
    """symbols a value is made of (not those in the labels of other symbols)"""
    if not isinstance(v, tuple) or not v: return
    if v[0] == 's': out.add(v); return
    for x in v:
        if isinstance(x, tuple): direct(x, out)


def holds(v, hs):
    o = set(); direct(v, o)
    return bool(o & hs)


def bare(t):
    return (t or "").replace("const ", "").rstrip("& ")


def fname(info):
    q = info["qn"]
    return info["name"] if info.get("externc") or q.startswith("std::") or "::" not in q or q.startswith(("abi::", "__cxxabiv1::")) else None


class Res(Plugin):
    exc = True
    param_dtors = True
    max_inline = 7
    max_pairs = 60000

    def __init__(self, prog, rel, owners, defaults=None):
        super().__init__(prog)
        self.rel = rel; self.owners = owners; self.defaults = defaults; self.ev = []; self.sites = set(); self.rels = set(); self.touched = set()

    def inline(self, eng, fr, info, g):
        return g.key in self.rel

    def initial(self, eng, fr, st, loc):
        if self.defaults and loc[0] == 'f' and loc[1] == ('this',) and loc[2] in self.defaults:
            return self.defaults[loc[2]]
        return None

    def sticky(self, eng, st, loc, val):
        # private members are changed by the (known) operations of the class only
        return any(k[0] == 'res' and v == 'live' and holds(val, {k[2]}) for k, v in st.ts.items()) or (loc[0] == 'f' and loc[1] == ('this',))

    def pinned(self, s):
        return s[1][0] == 'init' and s[1][1][0] == 'f'

    def prune(self, eng, fr, st):
        """only handles, pointers, closures, constants and the fields of the object matter here"""
        hs = {k[2] for k in st.ts if k[0] in ('res', 'rel')}

        def keep(v):
            if v[0] in ('k', 'addr', 'lam', 'fn'): return True
            if v[0] == 's' and v[1][0] == 'init' and v[1][1][0] == 'f' and eng.root_loc(v[1][1])[0] in ('this', 'v', 'd') and not holds(v[1][1], hs): return True
            return v in hs or holds(v, hs)
        # other fields of an object that keeps a handle: its destructor may depend on them
        live = {k[2] for k, v in st.ts.items() if k[0] == 'res' and v == 'live'}
        objs = {k[1] for k, v in st.store.items() if k[0] == 'f' and v in live and eng.root_loc(k)[0] in ('v', 'd')}
        for k, v in st.store.items():
            if k[0] == 'f' and k[1] in objs and v[0] == 's': hs.add(v)
        for k in [k for k, v in st.store.items() if k[0] != 'bind' and not keep(v) and not (k[0] == 'f' and eng.root_loc(k) == ('this',))]: del st.store[k]
        nc = {}
        for k, v in st.cons.items():
            if k in hs or (k[0] == 's' and k[1][0] == 'init' and k[1][1][0] == 'f' and eng.root_loc(k[1][1])[0] in ('this', 'v')): nc[k] = v
        st.cons = nc
        used = set()
        for v in st.store.values(): direct(v, used)
        for v in st.ev.values(): direct(v, used)
        for k in [k for k, v in st.ts.items() if k[0] == 'res' and v == 'freed' and k[2] not in used and k[2][1][0] != 'unit']: del st.ts[k]
        for k in [k for k in st.ts if k[0] == 'rel' and k[2] not in used and not (k[2][0] == 's' and (k[2][1][0] == 'unit' or k[2][1][0] == 'init' and k[2][1][1][0] == 'f'))]: del st.ts[k]

    def event(self, what, where):
        if (what, where) not in self.ev: self.ev.append((what, where))

    def live(self, st, term):
        return [k for k, v in st.ts.items() if k[0] == 'res' and v == 'live' and k[2] == term]

    def call(self, eng, st, fr, n, info, obj, args, argn):
        f = fr.f
        if not info: return None
        nm = fname(info)
        k = f.nodes[n]["k"]
        if nm in ACQ and nm not in self.prog.by_qn: return self.acquire(eng, st, fr, n, info, argn, nm, ACQ[nm])
        if nm in REL and nm not in self.prog.by_qn: return self.release(eng, st, fr, n, info, argn, nm, REL[nm])
        # scope guards
        if info["name"] == "operator+" and "ScopeExitHelper" in (info["tu"].types[info["params"][0]["t"]] if info["params"] else ""):
            return [(st, eng.ev(st, fr, argn[1]))]
        if (info.get("cls") or "").startswith(SCOPE_EXIT.rstrip("<")):
            if k in CTORS and argn and not info.get("special"):
                v = eng.ev(st, fr, argn[0])
                if v[0] == 'addr': v = eng.read(st, fr, v[1])
                if obj is not None: st.store[obj] = v
                return [(st, v)]
            if info["name"] == "release":
                st.store[obj] = ZERO
                return [(st, ZERO)]
        g = self.prog.funcs.get(info["key"])
        if k not in CTORS or not info.get("special"):
            # an owner handed over by value is destroyed by (or on behalf of) the called function
            for a in argn:
                if a >= 0 and f.nodes[a]["k"] in CTORS and bare(f.type(a)) in self.owners and (info["key"] not in self.rel):
                    tl = ('t', fr.id, a)
                    for kk, v in list(st.store.items()):
                        if kk[0] == 'f' and eng.within(kk, tl):
                            for r in self.live(st, v): st.ts[r] = 'freed'
        if g is not None and info.get("cls") in self.owners and info.get("special") in ("copyctor", "movector", "moveassign", "copyassign") \
           and g.key not in fr.chain and g.cfg() is not None and fr.depth < 9:
            out = []
            for r in eng.inline_call(fr, st, n, info, g, obj, argn):
                if r[0] == 'ok': out.append((r[1], None))
                elif r[0] == 'throw': out.append((r[1], ('throw', r[2])))
            return out
        return None

    def acquire(self, eng, st, fr, n, info, argn, nm, sp):
        f = fr.f
        where = f"{nm}() at {f.loc(n)}"
        self.sites.add((f.key, n))
        if argn and (f.type(argn[0]) or "").endswith(("*", "*const")) and nm[0] == 'X':
            eng.assume(st, eng.ev(st, fr, argn[0]), True)       # the connection that is used exists
        eng.default_effects(fr, st, n, info, None, argn)
        out = []
        rt = eng.ev(st, fr, n) if sp["out"] != "ret" else None
        fail = sp.get("fail")
        bad = None
        if fail is not None or "ok" in sp:
            bad = st.copy()
            if "ok" in sp:
                v = bad.ev[(fr.id, n)]
                eng.assume(bad, ('cmp', '==', v, ('k', sp["ok"])), False)
            elif fail == "neg":
                eng.restrict(bad, bad.ev[(fr.id, n)], IV(None, -1))
            else: bad.ev[(fr.id, n)] = ('k', fail)
        s = st
        if sp["out"] == "ret":
            h = eng.fresh(s, ('handle', fr.id, n), IV(0, None) if sp["kind"] == "fd" else IV(1, None))
            s.ev[(fr.id, n)] = h
        else:
            v = s.ev.get((fr.id, n))
            if "ok" in sp: s.ev[(fr.id, n)] = ('k', sp["ok"])
            elif fail == "neg": eng.restrict(s, v, IV(0, None))
            elif fail == 0: eng.assume(s, v, True)
            if sp["out"] == "self":
                h = ('s', ('unit', sp["kind"]))
            else:
                i, fld = sp["out"] if isinstance(sp["out"], tuple) else (sp["out"], None)
                p = eng.ev(s, fr, argn[i])
                loc = eng.deref(p)
                if fld: loc = ('f', loc, fld)
                h = eng.fresh(s, ('handle', fr.id, n), IV(1, None))
                s.store[loc] = h
                if bad is not None and not fld:
                    bad.store[loc] = eng.read(st, fr, loc) if False else bad.store.get(loc, ZERO)
        s.ts = {k: v for k, v in s.ts.items() if not (k[0] in ('res', 'rel') and k[2] == h)}
        s.ts[('res', sp["kind"], h, where)] = 'live'
        out.append((s, s.ev.get((fr.id, n))))
        if bad is not None: out.append((bad, bad.ev.get((fr.id, n))))
        return out

    def release(self, eng, st, fr, n, info, argn, nm, sp):
        f = fr.f
        kind, i, byaddr = sp
        where = f"{nm}() at {f.loc(n)}"
        self.rels.add((f.key, n))
        if i is None: h = ('s', ('unit', kind))
        elif byaddr: h = eng.read(st, fr, eng.deref(eng.ev(st, fr, argn[i])))
        else: h = eng.ev(st, fr, argn[i])
        live = self.live(st, h)
        for k in live:
            if k[1] != kind: self.event(f"{k[3]} obtained a {k[1]}, but it is released as a {kind}", where)
            st.ts[k] = 'freed'
        if not live:
            if any(k[0] == 'res' and k[2] == h and v == 'freed' for k, v in st.ts.items()) or ('rel', kind, h) in st.ts:
                self.event(f"the {kind} is released a second time", where)
            r = eng.range(st, h)
            if r.single() is not None and r.single() == SENT.get(kind, 0) and (h[0] == 's' and kind != "malloc" or kind in NULL_IS_ERROR):
                self.event(f"releases a {kind} that is known not to exist", where)
            if i is not None or not any(k[0] == 'res' and k[1] == kind for k in st.ts): st.ts[('rel', kind, h)] = where
        eng.default_effects(fr, st, n, info, None, argn)
        if byaddr: st.store[eng.deref(eng.ev(st, fr, argn[i]))] = ZERO
        return [(st, st.ev.get((fr.id, n)))]

    # destructors
    def dtor_func(self, typ):
        t = (typ or "").replace("const ", "")
        return self.owners.get(t, {}).get("dtor")

    def run_dtor(self, eng, st, fr, loc, g, tag):
        if g is None or g.key in fr.chain or g.cfg() is None: return [st]
        out = []
        for kind, s, v in eng.run(g, st.copy(), loc, {}, fr.id + ((fr.f.key, ('dtor', tag)),), fr.depth + 1, fr.chain, None, fr):
            if kind == 'return': out.append(s)
        return out

    def on_dtor(self, eng, st, fr, loc, typ, info):
        if (typ or "").startswith(SCOPE_EXIT):
            v = st.store.get(loc)
            if v is not None and v[0] == 'lam':
                g = self.prog.funcs.get(v[1])
                if g is None or g.key in fr.chain: return [st]
                out = []
                for kind, s, _ in eng.run(g, st.copy(), v[4] if len(v) > 4 else fr.this, {}, fr.id + ((fr.f.key, ('scope exit', loc)),), fr.depth + 1, fr.chain, dict(v[3]), fr):
                    if kind == 'return': out.append(s)
                return out
            return [st]
        return self.destroy_object(eng, st, fr, loc, typ)

    def destroy_object(self, eng, st, fr, loc, typ, depth=0):
        t = (typ or "").replace("const ", "")
        states = [st]
        o = self.owners.get(t)
        if o:
            states = self.run_dtor(eng, st, fr, loc, o["dtor"], loc)
        r = self.prog.records.get(t)
        if r and depth < 4:
            for fl in r["fields"]:
                ft = r["tu"].types[fl["t"]].replace("const ", "")
                if ft in self.owners or any(k[0] == 'f' and eng.within(k, ('f', loc, fl["n"])) for k in states[0].store) if states else False:
                    nxt = []
                    for s in states: nxt += self.destroy_object(eng, s, fr, ('f', loc, fl["n"]), ft, depth + 1)
                    states = nxt
        return states


def this_field(f, n):
    """name of the field of *this denoted by expression n (through casts and address-of), or None"""
    while True:
        nd = f.nodes[n]
        k = nd["k"]
        if k == "MemberExpr" and nd.get("dk") not in ("method", "staticmember"):
            b = f.nodes[nd["c"][0]]
            while b["k"] in ("ImplicitCastExpr", "ParenExpr"): b = f.nodes[b["c"][0]]
            return nd["n"] if b["k"] == "CXXThisExpr" else None
        if k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr") or (k == "UnaryOperator" and nd["op"] == "&"):
            n = nd["c"][0]; continue
        return None


def flows_from(f, seeds):
    """declarations which receive (part of) their value from an expression accepted by `seeds`"""
    ids = set()

    def base(n):
        while True:
            nd = f.nodes[n]
            if nd["k"] == "DeclRefExpr": return nd.get("d")
            if nd["k"] in ("ArraySubscriptExpr", "MemberExpr", "ImplicitCastExpr", "ParenExpr", "UnaryOperator"): n = nd["c"][0]; continue
            if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "[]" and "obj" in nd: n = nd["obj"]; continue
            return None

    def values(n):
        # sub-expressions that contribute their value (not the index of a subscript)
        nd = f.nodes[n]
        yield n
        k = nd["k"]
        cs = nd.get("c", ())
        if k == "ArraySubscriptExpr": cs = cs[:1]
        if k == "CXXOperatorCallExpr" and nd.get("op") == "[]": cs = [nd["obj"]] if "obj" in nd else cs[1:2]
        if k == "ConditionalOperator": cs = cs[1:]
        for c in cs:
            if c >= 0: yield from values(c)

    def tainted(n):
        return any(seeds(x) or f.nodes[x].get("d") in ids and f.nodes[x]["k"] == "DeclRefExpr" for x in values(n))
    while True:
        n0 = len(ids)
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("init", -1) >= 0 and d["id"] not in ids and tainted(d["init"]): ids.add(d["id"])
            elif n["k"] == "BinaryOperator" and n["op"] == "=" and tainted(n["c"][1]):
                b = base(n["c"][0])
                if b is not None: ids.add(b)
            elif n["k"] == "CXXMemberCallExpr" and n.get("args") and "obj" in n and (f.fn(i) or {}).get("name") in ("push_back", "insert", "emplace_back", "assign"):
                if any(tainted(a) for a in n["args"] if a >= 0):
                    b = base(n["obj"])
                    if b is not None: ids.add(b)
        if len(ids) == n0: return ids, tainted


class Analysis:
    def colors(self):
        """the pixel values handed to XFreeColors() are the ones XAllocColor() delivered"""
        for f in self.prog.funcs.values():
            calls = [i for i, n in enumerate(f.nodes) if n["k"] == "CallExpr" and f.fn(i) and f.fn(i)["name"] == "XFreeColors"]
            if not calls: continue

            def seed(x):
                n = f.nodes[x]
                return (n["k"] == "MemberExpr" and n["n"] == "pixel" and "XColor" in (f.type(n["c"][0]) or "")) or \
                       (n["k"] == "CallExpr" and (f.fn(x) or {}).get("name", "").startswith("XAllocColor"))
            ids, tainted = flows_from(f, seed)
            ps = {p["id"] for p in f.params}
            for i in calls:
                self.c.count("deallocations of colors")
                a = f.nodes[i]["args"][2]
                if tainted(a): continue
                if any(f.nodes[x].get("d") in ps or f.nodes[x]["k"] in ("CXXThisExpr",) for x in f.walk(a)): continue
                self.c.violation(f"{f.qn}: XFreeColors", f"{f.loc(i)}: {f.full}: the pixel values passed to XFreeColors() do not come from a successful color allocation")

    def __init__(self, prog, chk):
        self.prog = prog; self.c = chk

    def direct(self):
        prog = self.prog
        acq, rel = set(), set()
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] == "CallExpr":
                    g = f.fn(i)
                    if not g: continue
                    nm = fname(g)
                    if nm in ACQ and nm not in prog.by_qn: acq.add(f.key)
                    if nm in REL and nm not in prog.by_qn: rel.add(f.key)
        return acq, rel

    def build(self):
        prog = self.prog
        self.acq, self.relf = self.direct()
        callees, callers = {}, {}
        for f in prog.funcs.values():
            cs = set()
            for i, n in enumerate(f.nodes):
                if n["k"] in CALLS or n["k"] in CTORS or n["k"] == "LambdaExpr":
                    g = f.fn(i)
                    if g: cs.add(g["key"])
            callees[f.key] = cs
            for c in cs: callers.setdefault(c, set()).add(f.key)
        self.callees, self.callers = callees, callers
        # classes which release one of their own fields
        self.owned = {}
        for k in self.acq | self.relf:
            f = prog.funcs[k]
            if not f.cls or f.d.get("lambda"): continue
            for i, n in enumerate(f.nodes):
                if n["k"] != "CallExpr": continue
                g = f.fn(i)
                if not g: continue
                nm = fname(g)
                if nm in REL and nm not in prog.by_qn:
                    kind, ai, _ = REL[nm]
                    if ai is None: self.owned.setdefault(f.cls, {}).setdefault(None, kind); continue
                    a = n["args"][ai] if ai < len(n.get("args", ())) else -1
                    fl = this_field(f, a) if a >= 0 else None
                    if fl: self.owned.setdefault(f.cls, {})[fl] = kind
                    else: self.owned.setdefault(f.cls, {})
                elif nm in ACQ:
                    self.owned.setdefault(f.cls, {})
        # fields that acquire
        for k in self.acq:
            f = prog.funcs[k]
            if not f.cls: continue
            for i, n in enumerate(f.nodes):
                if n["k"] == "BinaryOperator" and n.get("op") == "=":
                    fl = this_field(f, n["c"][0])
                    if not fl: continue
                    for x in f.walk(n["c"][1]):
                        if f.nodes[x]["k"] == "CallExpr":
                            g = f.fn(x)
                            if g and fname(g) in ACQ and ACQ[fname(g)]["out"] == "ret": self.owned[f.cls][fl] = ACQ[fname(g)]["kind"]
        self.owners = {}
        for cls in self.owned:
            dt = [f for f in prog.cls_funcs(cls) if f.d.get("kind") == "dtor"]
            full = [q for q, r in prog.records.items() if r["qn"] == cls or q == cls]
            for q in set(full) | {cls}:
                self.owners[q] = dict(dtor=dt[0] if dt else None, fields=self.owned[cls], cls=cls)
        # functions to follow: the ones that acquire or release, and the methods of owners that touch an owned field
        rel = set(self.acq) | set(self.relf)
        for f in prog.funcs.values():
            if f.cls in self.owned and len(f.nodes) < 400:
                fs = {x for x in self.owned[f.cls] if x}
                if any(n["k"] == "MemberExpr" and n["n"] in fs for n in f.nodes): rel.add(f.key)
        # helpers between an owner's operations and these
        for _ in range(3):
            add = {k for k, cs in callees.items() if k not in rel and cs & rel and prog.funcs[k].cls in self.owned and len(prog.funcs[k].nodes) < 400}
            rel |= add
        self.rel = rel

    def default_fields(self, cls):
        out = {}
        for q, r in self.prog.records.items():
            if r["qn"] == cls or q == cls:
                for fl in r["fields"]:
                    if fl.get("init") and "ie" in fl:
                        n = r["nodes"][fl["ie"]]
                        while n["k"] in ("ImplicitCastExpr", "InitListExpr", "ExprWithCleanups") and "v" not in n and n.get("c"): n = r["nodes"][n["c"][0]]
                        if "v" in n: out[fl["n"]] = ('k', int(n["v"]))
                        elif n.get("null") or n["k"] in ("CXXNullPtrLiteralExpr", "InitListExpr", "ImplicitValueInitExpr"): out[fl["n"]] = ZERO
        return out

    def initialising(self, f):
        """called exactly once, on an object that was just created by the caller"""
        cs = [self.prog.funcs[k] for k in self.callers.get(f.key, ()) if k in self.prog.funcs]
        if not cs: return False
        for g in cs:
            if g.cls == f.cls: return False
            ok = False
            for i, n in enumerate(g.nodes):
                h = g.fn(i) if (n["k"] in CTORS or n["k"] in CALLS) else None
                if h and (h.get("kind") == "ctor" and h.get("cls") == f.cls or (h["qn"] == "std::make_unique" and f.cls.split("::")[-1] in g.type(i))): ok = True
            if not ok and f.cls in {(g.T(d["t"]) or "") for n in g.nodes if n["k"] == "DeclStmt" for d in n.get("decls", ())}: ok = True
            if not ok:
                # a member of the calling object, initialised from its constructor
                ok = g.d.get("kind") == "ctor"
            if not ok: return False
        return True

    def holders(self, eng, st, h, v, f):
        """who can still reach the handle after the function has returned"""
        out = []
        refs = {p["id"] for p in f.params if (f.T(p["t"]) or "").endswith("&")}
        if v is not None and holds(v, {h}): out.append("return value")
        for k, x in st.store.items():
            if k[0] in ('bind',): continue
            if not holds(x, {h}): continue
            r = eng.root_loc(k)
            if r[0] == 'v' and r[1] == () and r[2] not in refs: continue
            if k[0] == 'v' and k[2] not in refs: continue
            if k[0] == 't': continue
            out.append(k)
        return out

    def run(self):
        self.build()
        c = self.c; prog = self.prog
        done = set()
        pend = set()
        for k in self.acq:
            f = prog.funcs[k]
            if f.d.get("lambda"):
                pend |= {x for x in self.callers.get(k, ()) if x in prog.funcs}
            else: pend.add(k)
        # functions with scope guards or which release without acquiring are reached through the class half
        while pend:
            k = pend.pop()
            if k in done: continue
            done.add(k)
            f = prog.funcs[k]
            if f.d.get("lambda"):
                pend |= {x for x in self.callers.get(k, ()) if x in prog.funcs}; continue
            esc = self.function(f)
            if esc:
                # hands a raw handle to its caller
                self.rel.add(k)
                pend |= {x for x in self.callers.get(k, ()) if x in prog.funcs and x not in done}
        for cls in sorted(self.owned): self.klass(cls)
        self.colors()
        return self

    def report(self, f, pl):
        for what, where in pl.ev:
            self.c.violation(f"{f.qn}: {what.split(' at ')[0]}", f"{f.loc()}: {f.full}: {what} by {where}")

    def engine(self, f, defaults=None, exc=True):
        pl = Res(self.prog, self.rel, self.owners, defaults); pl.exc = exc
        return pl, Engine(self.prog, pl)

    def function(self, f):
        c = self.c
        pl, eng = self.engine(f)
        try: ex = eng.run(f)
        except Budget as e: raise P.CheckError(f"{f.full}: {e}")
        c.count("acquiring functions analysed"); c.count("acquiring call sites", len(pl.sites)); c.sample(f"{f.loc()} {f.qn}", 60)
        self.report(f, pl)
        esc = False
        for kind, st, v in ex:
            if kind == 'noreturn': continue
            c.count("function exits examined")
            for k, s in st.ts.items():
                if k[0] != 'res' or s != 'live': continue
                h = k[2]
                if k[1] == "server grab" or h[1][0] == 'unit':
                    if f.cls in self.owned and kind == 'return': continue
                    c.violation(f"{f.qn}: {k[3].split(' at ')[0]} leaks", f"{f.loc()}: {f.full}: what {k[3]} obtained is not undone when the function {'throws' if kind == 'throw' else 'returns'}")
                    continue
                hs = self.holders(eng, st, h, v, f)
                if kind == 'throw' and f.d.get("kind") == "ctor":
                    hs = [x for x in hs if not (isinstance(x, tuple) and x[0] == 'f' and x[1] == ('this',))]
                if not hs:
                    c.violation(f"{f.qn}: {k[3].split(' at ')[0]} leaks", f"{f.loc()}: {f.full}: the {k[1]} obtained from {k[3]} is never released when the function {'throws' if kind == 'throw' else 'returns'}")
                elif any(x == "return value" or (isinstance(x, tuple) and x[0] == 'd') for x in hs): esc = True
                elif f.d.get("special") not in ("movector", "moveassign"): self.param_owner(f, eng, st, k, hs, kind)
        return esc

    def param_owner(self, f, eng, st, k, hs, how):
        """a handle that is left in an object passed by reference must be released when that object is destroyed"""
        for p in f.params:
            t = (f.T(p["t"]) or "").replace("const ", "").rstrip("&").strip()
            o = self.owners.get(t)
            if not o or not o["dtor"]: continue
            loc = ('v', (), p["id"])
            b = st.store.get(('bind', loc))
            obj = b[1] if b else loc
            mine = [x for x in hs if isinstance(x, tuple) and x[0] == 'f' and x[1] == obj and x[2] in o["fields"]]
            if not mine: continue
            pl, e2 = self.engine(o["dtor"], None, exc=False)
            base = st.copy(); base.ev = {}; base.scopes = ()
            try: ex = e2.run(o["dtor"], base, this=obj, fid=(('~',),))
            except Budget as e: raise P.CheckError(f"{o['dtor'].full}: {e}")
            self.c.count("objects destroyed after the function that fills them in")
            for kind, s1, _ in ex:
                if kind == 'noreturn': continue
                h = k[2]
                if not any(q[0] == 'res' and q[2] == h and x == 'live' for q, x in s1.ts.items()): continue
                if self.guarded(s1, mine[0][2], obj): continue
                self.c.violation(f"{o['cls']}: {mine[0][2]} not released after {f.name}", f"{o['dtor'].loc()}: {o['cls']}: the {k[1]} kept in {mine[0][2]} is not released when the object is destroyed after {f.name}() {'threw' if how == 'throw' else 'returned'} ({f.loc()})")

    def klass(self, cls):
        c = self.c; prog = self.prog
        fields = {k: v for k, v in self.owned[cls].items()}
        if not fields: return
        c.count("owning classes"); c.count("owned handles", len(fields))
        dt = [f for f in prog.cls_funcs(cls) if f.d.get("kind") == "dtor"]
        names = ", ".join(x or fields[x] for x in fields)
        if not dt:
            c.violation(f"{cls}: no destructor", f"{cls}: keeps {names} but has no destructor that releases it"); return
        dt = dt[0]
        # the destructor alone, from an arbitrary state
        self.destroy(cls, dt, dt, None, fields, None)
        for f in prog.cls_funcs(cls):
            if f is dt or f.d.get("lambda") or f.key not in self.rel: continue
            if f.d.get("const") or f.d.get("static"): continue
            ini = self.initialising(f) or f.d.get("kind") == "ctor"
            if f.d.get("access", 0) == 2 and not ini: continue      # helper of the operations
            pl, eng = self.engine(f, self.default_fields(cls) if ini and f.d.get("kind") != "ctor" else None)
            try: ex = eng.run(f)
            except Budget as e: raise P.CheckError(f"{f.full}: {e}")
            self.report(f, pl)
            c.count("operations of owning classes followed by destruction")
            for kind, st, v in ex:
                if kind == 'noreturn': continue
                if kind == 'throw' and f.d.get("kind") == "ctor": continue
                self.destroy(cls, dt, f, (kind, st), fields, self.default_fields(cls) if ini else None)
                if f.d.get("special") in ("movector", "moveassign", "copyctor", "copyassign") and f.params: self.destroy_other(cls, dt, f, st, fields)
                self.single_owner(cls, f, eng, st, fields)
                if not ini: self.overwritten(cls, f, eng, st, fields, v)

    def single_owner(self, cls, f, eng, st, fields):
        if f.d.get("special") not in ("movector", "moveassign", "copyctor", "copyassign") or not f.params: return
        p = ('v', (), f.params[0]['id'])
        b = st.store.get(('bind', p))
        other = b[1] if b else p
        for fl, kind in fields.items():
            if fl is None: continue
            mine = st.store.get(('f', ('this',), fl))
            theirs = st.store.get(('f', other, fl), ('s', ('init', ('f', other, fl))))
            r = eng.range(st, mine) if mine is not None else None
            if mine is not None and mine == theirs and mine[0] != 'k' and r.single() is None:
                # a flag may say which of the two is the owner (for example a null connection)
                flags = [x for x in st.store if x[0] == 'f' and x[1] == other and x[2] != fl and st.store[x] == ZERO]
                if not flags:
                    self.c.violation(f"{cls}::{f.name}: two owners of {fl}", f"{f.loc()}: {f.full}: leaves two objects owning the same {kind} ({fl})")
            init = ('s', ('init', ('f', other, fl)))
            if f.d.get("special") in ("movector", "moveassign") and mine != init and theirs != init and not eng.cmp(st, '==', init, ('k', SENT.get(kind, 0))) and \
               not any(holds(x, {init}) for k, x in st.store.items()) and not any(k[0] == 'rel' and k[2] == init for k in st.ts):
                self.c.violation(f"{cls}::{f.name}: loses {fl}", f"{f.loc()}: {f.full}: the {kind} of the moved-from object is neither taken over nor kept ({fl})")
    def overwritten(self, cls, f, eng, st, fields, ret):
        """a handle that was there when the operation began is still there, released, or handed on"""
        for fl, kind in fields.items():
            if fl is None: continue
            loc = ('f', ('this',), fl)
            own = ('s', ('init', loc))
            if st.store.get(loc, own) == own or ('rel', kind, own) in st.ts: continue
            if eng.cmp(st, '==', own, ('k', SENT.get(kind, 0))) == 1: continue
            r = eng.range(st, own)
            if kind == "fd" and r.hi is not None and r.hi < 0: continue
            if any(k[0] == 'res' and k[2] == own and x == 'freed' for k, x in st.ts.items()): continue
            if ret is not None and holds(ret, {own}) or any(holds(x, {own}) for k, x in st.store.items() if eng.root_loc(k)[0] != 't'): continue
            if self.guarded(st, fl, ('this',)): continue
            self.c.violation(f"{cls}::{f.name}: overwrites {fl}", f"{f.loc()}: {f.full}: the {kind} previously kept in {fl} is overwritten without being released")

    def guarded(self, st, fl, obj):
        """did the path test another field of the object?"""
        for k in st.cons:
            ss = set(); syms(k, ss)
            for s in ss:
                l = s[1]
                if isinstance(l, tuple) and l[0] == 'init' and isinstance(l[1], tuple) and l[1][0] == 'f' and l[1][1] == obj and l[1][2] != fl: return True
        return False

    def destroy_other(self, cls, dt, f, st0, fields):
        """the object that was moved from is destroyed after the one that was moved to"""
        p = ('v', (), f.params[0]['id'])
        b = st0.store.get(('bind', p))
        other = b[1] if b else p
        pl, eng = self.engine(dt, None, exc=False)
        base = st0.copy(); base.ev = {}; base.scopes = ()
        try:
            for kind, s1, _ in eng.run(dt, base, fid=(('~',),)):
                if kind == 'return': eng.run(dt, s1, this=other, fid=(('~~',),))
        except Budget as e: raise P.CheckError(f"{dt.full}: {e}")
        self.c.count("pairs of objects destroyed after a move")
        for what, where in pl.ev:
            self.c.violation(f"{cls}: {what} after {f.name} of another object", f"{dt.loc()}: {cls}: {what} by {where} when the object that was moved from is destroyed ({f.loc()})")

    def destroy(self, cls, dt, f, pre, fields, defaults):
        c = self.c
        pl, eng = self.engine(dt, defaults, exc=False)
        base = State()
        if pre:
            base = pre[1].copy()
            base.ev = {}; base.scopes = ()
            base.store = {k: v for k, v in base.store.items() if not (k[0] in ('v', 't') or (k[0] == 'bind') or eng.root_loc(k)[0] in ('v', 't'))}
        before = dict(base.store)
        try: ex = eng.run(dt, base, fid=(('~',),))
        except Budget as e: raise P.CheckError(f"{dt.full}: {e}")
        how = f"destroyed after {f.name}() {'threw' if pre and pre[0] == 'throw' else 'returned'}" if pre else "destroyed"
        for what, where in pl.ev:
            c.violation(f"{cls}: {what} after {f.name}", f"{dt.loc()}: {cls}: {what} by {where} when the object is {how} ({f.loc()})")
        released = {fl: False for fl in fields}
        for kind, st, v in ex:
            if kind == 'noreturn': continue
            c.count("destructor exits examined")
            for fl, rk in fields.items():
                if fl is None: continue
                loc = ('f', ('this',), fl)
                h = before.get(loc) or (defaults or {}).get(fl) or ('s', ('init', loc))
                if ('rel', rk, h) in st.ts or any(k[0] == 'res' and k[2] == h and x == 'freed' for k, x in st.ts.items()): released[fl] = True; continue
                r = eng.range(st, h)
                if r.single() == SENT.get(rk, 0): continue
                if r.hi is not None and r.hi < 0: continue
                if self.guarded(st, fl, ('this',)): continue
                if h[0] in ('k',): continue
                if h[0] == 's' and h[1][0] == 'handle' or not pre:
                    c.violation(f"{cls}: {fl} not released after {f.name}", f"{dt.loc()}: {cls}: the {rk} kept in {fl} is not released when the object is {how} ({f.loc()})")
            for k, x in st.ts.items():
                if k[0] == 'res' and x == 'live' and k[2][1][0] == 'unit':
                    c.violation(f"{cls}: {k[1]} not undone after {f.name}", f"{dt.loc()}: {cls}: what {k[3]} obtained is not undone when the object is {how}")
        if not pre:
            for fl, ok in released.items():
                if fl is not None and not ok:
                    c.violation(f"{cls}: {fl} never released", f"{dt.loc()}: {cls}: the destructor never releases the {fields[fl]} kept in {fl}")


def main(pid):
    from archlint.harness import Check, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers(["inst_text"]))
        Analysis(prog, c).run()
        c.counts["obligations"] = c.counts.get("function exits examined", 0) + c.counts.get("destructor exits examined", 0)
        c.require("acquiring functions analysed", 20); c.require("acquiring call sites", 25); c.require("owning classes", 8); c.require("owned handles", 10)
        return c.finish()
    hmain(body)
