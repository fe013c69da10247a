"""Shared state is only touched under its lock (C08): interprocedural lockset analysis."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
MUTEX = re.compile(r"\bstd::(recursive_|shared_|timed_)?mutex\b")
GUARD = re.compile(r"\bstd::(lock_guard|unique_lock|scoped_lock|shared_lock)\b")
STRIP = ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr")
# library functions that FreeType and SDL require to be serialised per library instance
EXTERN = {"FT_New_Face": "FreeType", "FT_New_Memory_Face": "FreeType", "FT_Open_Face": "FreeType", "FT_Done_Face": "FreeType", "SDL_Init": "SDL", "SDL_InitSubSystem": "SDL"}
# virtual functions whose implementations are written for serialised invocation
SERIAL = ("archon::check::Reporter",)
# virtual functions that must only be called with the lock of the calling object held
SERIAL_HOOKS = ("archon::log::BasicRootLogger::root_log", "archon::log::BasicRootLogger::format_log_level")
# classes that are used from several threads without owning a mutex: members must be atomic, or not be modified after construction
SHARED = re.compile(r"^(archon::log::|selftest::Shared)")
# documented to be for setting up only ("must not be called concurrently")
SETUP = ("archon::log::BasicLogger::set_prefix",)
UNSAFE = {"strerror", "localtime", "gmtime", "asctime", "ctime", "strtok", "rand", "srand", "random", "srandom", "drand48", "setlocale", "putenv", "setenv", "unsetenv", "readdir", "tmpnam", "getpwuid", "getpwnam",
          "getgrgid", "getgrnam", "strsignal", "ttyname", "gethostbyname", "mblen", "mbtowc", "wctomb", "mbrlen", "localeconv", "basename", "dirname", "umask", "chdir", "getlogin", "ptsname", "lgamma", "std::locale::global"}


def top(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in STRIP and f.nodes[i].get("c"): i = f.nodes[i]["c"][0]
    return i


def mutex_of(prog, f, i):
    """the mutex (as the field or variable that it is) that expression i denotes"""
    i = top(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]
    t = f.type(i) or ""
    if not MUTEX.search(t): return None
    if n["k"] == "MemberExpr": return n.get("qn")
    if n["k"] == "DeclRefExpr":
        if n.get("dk") in ("global",): return n.get("qn")
        return f"local {n['n']} of {f.qn}"
    if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
        g = f.fn(i); return "result of " + g["qn"] if g else None
    return None


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.funcs.values() if f.cfg()]
        self.param_lock = {}     # (function key, parameter index) -> mutexes that callers pass guards of
        self.entry = {}          # function key -> frozenset held by every caller
        self.at = {}             # function key -> {node: lockset}
        callers = {}
        for f in self.funcs:
            for i, n in enumerate(f.nodes):
                if n["k"] not in CALLS: continue
                g = f.fn(i)
                if g is None: continue
                ks = [g["key"]] + (prog.overriders.get(g["key"], []) if g.get("virtual") else [])
                for k in ks: callers.setdefault(k, []).append((f, i))
        self.callers = callers
        relevant = self.relevant()
        self.rel = relevant
        for f in self.funcs:
            self.entry[f.key] = None if self.closed(f) and callers.get(f.key) else frozenset()
        for _ in range(12):
            ch = False
            for f in relevant:
                e = self.entry[f.key]
                if e is None: continue
                self.at[f.key] = self.flow(f, e)
            for f in self.funcs:
                cs = callers.get(f.key)
                if not cs or not self.closed(f): continue
                new = None
                for g, i in cs:
                    if self.entry[g.key] is None: continue
                    ls = self.at[g.key].get(i) if g.key in self.at else self.entry[g.key]
                    if ls is None: continue
                    new = ls if new is None else new & ls
                    # guards passed by reference
                    for j, a in enumerate(g.nodes[i].get("args", ())):
                        m = self.guard_mutex(g, a)
                        if m:
                            s = self.param_lock.setdefault((f.key, j), set())
                            if not m <= s: s |= m; ch = True
                if new is not None and new != self.entry[f.key]: self.entry[f.key] = new; ch = True
            if not ch: break
        for f in relevant:
            self.at[f.key] = self.flow(f, self.entry[f.key] or frozenset())

    def closed(self, f):
        """every caller is known"""
        if f.d.get("virtual") or f.d.get("kind") in ("dtor",): return False
        if f.d.get("lambda"): return True
        if f.d.get("access") in (1, 2): return True          # protected, private
        return "::impl::" in f.qn or "(anon" in f.qn

    def relevant(self):
        """functions in which something is locked, and everything that they call"""
        seed = set()
        for f in self.funcs:
            for n in f.nodes:
                t = f.T(n.get("t")) if "t" in n else None
                if t and (GUARD.search(t) or MUTEX.search(t)): seed.add(f.key); break
        out = set(seed); todo = list(seed)
        fs = self.prog.funcs
        depth = {k: 0 for k in seed}
        while todo:
            k = todo.pop(); f = fs.get(k)
            if f is None: continue
            for i, n in enumerate(f.nodes):
                if n["k"] in CALLS:
                    g = f.fn(i)
                    if g and g["key"] in fs and g["key"] not in out and self.closed(fs[g["key"]]):
                        out.add(g["key"]); todo.append(g["key"])
        return [fs[k] for k in out if fs[k].cfg()]

    def guards(self, f):
        """guard variables of f: id -> set of mutexes"""
        r = {}
        for n in f.nodes:
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    t = f.T(d.get("t", -1)) or ""
                    if GUARD.search(t) and not t.endswith("&") and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        ms = set(); deferred = False
                        for x in f.walk(d["init"]):
                            m = mutex_of(self.prog, f, x)
                            if m: ms.add(m)
                            if "defer_lock" in (f.type(x) or "") or "try_to_lock" in (f.type(x) or ""): deferred = True
                        r[d["id"]] = (ms, deferred)
        for j, p in enumerate(f.params):
            if GUARD.search(f.T(p["t"]) or ""): r[p["id"]] = (self.param_lock.get((f.key, j), set()), True)
        return r

    def guard_mutex(self, f, a):
        a = top(f, a)
        if a is None or a < 0: return None
        n = f.nodes[a]
        if n["k"] != "DeclRefExpr" or not GUARD.search(f.type(a) or ""): return None
        g = self.guards(f).get(n.get("d"))
        return set(g[0]) if g else None

    def flow(self, f, entry):
        cfg = f.cfg(); gs = self.guards(f)
        param_ids = {p["id"] for p in f.params}
        held_in = {b: None for b in cfg}
        at = {}
        def step(i, L):
            if isinstance(i, dict):
                if "dtor" in i and i["dtor"] in gs and i["dtor"] not in param_ids: return L - frozenset(gs[i["dtor"]][0])
                return L
            n = f.nodes[i]
            at[i] = L if i not in at else at[i] & L
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d["id"] in gs and not gs[d["id"]][1]: L = L | frozenset(gs[d["id"]][0])
            elif n["k"] == "CXXMemberCallExpr":
                g = f.fn(i); o = top(f, n.get("obj", -1))
                if g and o is not None and o >= 0 and g["name"] in ("lock", "unlock", "try_lock", "release"):
                    on = f.nodes[o]
                    ms = set()
                    if on["k"] == "DeclRefExpr" and on.get("d") in gs: ms = gs[on["d"]][0]
                    else:
                        m = mutex_of(self.prog, f, o)
                        if m: ms = {m}
                    if g["name"] == "lock": L = L | frozenset(ms)
                    elif g["name"] == "unlock": L = L - frozenset(ms)
            return L
        work = [f.entry]; held_in[f.entry] = entry
        seen = set()
        while work:
            b = work.pop()
            L = held_in[b]
            for i in cfg[b]["e"]: L = step(i, L)
            seen.add(b)
            for s in cfg[b]["s"]:
                if s not in cfg: continue
                o = held_in[s]; n = L if o is None else o & L
                if n != o or s not in seen:
                    held_in[s] = n
                    if s not in work: work.append(s)
        # once more, with the final states
        at.clear()
        for b in cfg:
            if held_in[b] is None: continue
            L = held_in[b]
            for i in cfg[b]["e"]: L = step(i, L)
        return at


def is_write(f, i):
    """whether the lvalue expression i can be modified by what it is part of"""
    par = f.parent; c = i; p = par.get(i)
    while p is not None:
        n = f.nodes[p]; k = n["k"]
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "CXXConstCastExpr"): c, p = p, par.get(p); continue
        if k == "ImplicitCastExpr":
            if n.get("ck") in ("LValueToRValue",): return False
            t = f.type(p) or ""
            if n.get("ck") == "NoOp" and t.startswith("const "): return False
            if not n.get("lv"): return False
            c, p = p, par.get(p); continue
        if k in ("BinaryOperator", "CompoundAssignOperator"): return (n.get("op") == "=" or k == "CompoundAssignOperator") and n["c"][0] == c
        if k == "UnaryOperator": return n.get("op") in ("++", "--")
        if k == "MemberExpr":
            if n.get("dk") == "method":
                c, p = p, par.get(p); continue
            if n.get("arrow"): return False
            c, p = p, par.get(p); continue
        if k == "ArraySubscriptExpr": c, p = p, par.get(p); continue
        if k in CALLS:
            g = f.fn(p)
            if g is None: return True
            if n.get("obj") is not None and (n.get("obj") == c or top(f, n.get("obj", -1)) == i):
                return not g.get("const")
            args = n.get("args", [])
            if c in args:
                j = args.index(c)
                ps = g.get("params", [])
                if j < len(ps):
                    t = g["tu"].types[ps[j]["t"]]
                    return t.endswith("&") and not t.startswith("const ") and not t.endswith("const &")
            return False
        if k == "DeclStmt":
            return any((f.T(d.get("t", -1)) or "").endswith("&") and not (f.T(d["t"]) or "").startswith("const ") for d in n.get("decls", ()))
        return False
    return False


def local_object(f, i):
    """whether the member access i is on an object that is a local variable of this very function"""
    n = f.nodes[i]
    while n["k"] == "MemberExpr" and not n.get("arrow"):
        i = top(f, n["c"][0]); n = f.nodes[i]
    return n["k"] == "DeclRefExpr" and n.get("dk") == "local" and not n.get("cap") and not (f.type(i) or "").endswith("&") and i is not None


def param_object(f, i):
    """whether the member access i is on a parameter or local variable that is not the object itself"""
    n = f.nodes[i]
    while n["k"] == "MemberExpr":
        i = top(f, n["c"][0]); n = f.nodes[i]
    return n["k"] == "DeclRefExpr"


FIELD_TYPE = {}


def own_object(f, i, ctors):
    """whether the access happens during construction or destruction of the very object"""
    if f.d.get("kind") not in ("ctor", "dtor") and f.key not in ctors: return False
    n = f.nodes[i]
    while n["k"] == "MemberExpr":
        i = top(f, n["c"][0]); n = f.nodes[i]
        if n["k"] == "MemberExpr" and (n.get("arrow") and f.nodes[top(f, n["c"][0])]["k"] != "CXXThisExpr" or FIELD_TYPE.get(n.get("qn"), "").endswith(("&", "*"))): return False
    return n["k"] == "CXXThisExpr"


# a thread context is driven by one thread; these functions run on that thread when nothing else uses what is protected by the context's own mutex
OWNERS = ("archon::check::impl::ThreadContextImpl::run", "archon::check::impl::ThreadContextImpl::nonconcur_run")


def only_from(L, roots):
    """functions that are only ever called (transitively) by functions in roots"""
    s = set(roots)
    ch = True
    while ch:
        ch = False
        for f in L.funcs:
            if f.key in s or f.d.get("virtual"): continue
            cs = L.callers.get(f.key)
            if cs and all(g.key in s for g, i in cs): s.add(f.key); ch = True
    return s


def scan(prog, c):
    L = Locks(prog)
    FIELD_TYPE.clear()
    for r in prog.records.values():
        for fd in r.get("fields", ()): FIELD_TYPE[f"{r['qn']}::{fd['n']}"] = r["tu"].types[fd["t"]]
    inrep = lambda f: f.file.startswith((P.ARCHON, P.VERIF + "/selftest"))
    funcs = [f for f in prog.funcs.values() if inrep(f)]
    held = lambda f, i: (L.at[f.key].get(i, frozenset()) if f.key in L.at else L.entry.get(f.key) or frozenset())
    ctors = only_from(L, {f.key for f in prog.funcs.values() if f.d.get("kind") == "ctor"})
    owners = only_from(L, {f.key for f in prog.funcs.values() if f.qn in OWNERS or f.qn.startswith("selftest::") and f.name == "owner_run"})
    # classes that own a mutex
    owning = {}
    for r in prog.records.values():
        if not r["file"].startswith((P.ARCHON, P.VERIF + "/selftest")): continue
        fs = [(fd, r["tu"].types[fd["t"]]) for fd in r.get("fields", ())]
        if any(MUTEX.search(t) and not t.endswith("&") and "lock" not in t for fd, t in fs): owning.setdefault(r["qn"], {fd["n"]: t for fd, t in fs})
    # all accesses to their members
    acc = {}
    for f in funcs:
        for i, n in enumerate(f.nodes):
            if n["k"] == "MemberExpr" and n.get("dk") == "field":
                cls, nm = n["qn"].rsplit("::", 1)
                if cls in owning: acc.setdefault((cls, nm), []).append((f, i))
    used = set()
    for cls, fields in owning.items():
        c.count("classes with a mutex")
        for nm, t in fields.items():
            if MUTEX.search(t):
                sites = [(f, i) for f in funcs if f.key in L.at for i, n in enumerate(f.nodes) if n["k"] == "MemberExpr" and n.get("qn") == f"{cls}::{nm}"]
                c.count("mutexes"); c.count("obligations")
                if not sites: c.violation(f"mutex {cls}::{nm}", f"src/archon: the mutex {cls}::{nm} is never locked")
                continue
            if t.startswith("const ") and not t.endswith("*") or t.endswith("&") or t.startswith("std::atomic") or t.endswith("const"): continue
            sites = [(f, i) for f, i in acc.get((cls, nm), ()) if not own_object(f, i, ctors) and not local_object(f, i)]
            nonown = [(f, i) for f, i in sites if f.key not in owners]
            if not nonown or not any(is_write(f, i) for f, i in sites): continue
            # written by functions that anything may call: every access must have a lock in common
            want = None
            for f, i in nonown: want = held(f, i) if want is None else want & held(f, i)
            best = {}
            for f, i in nonown:
                for m in held(f, i): best[m] = best.get(m, 0) + 1
            # accesses from the owner are exempt if the lock is the mutex of the owned class, otherwise they must hold it, too
            c.count("protected members")
            m = max(best, key=best.get) if best else None
            for f, i in nonown:
                c.count("obligations"); c.count("accesses")
                if m is None or m not in held(f, i):
                    c.violation(f"{cls}::{nm} in {f.qn}", f"{f.loc(i)}: {f.qn}() {'modifies' if is_write(f, i) else 'reads'} {cls}::{nm} without holding " + (f"the lock on {m}, under which it is accessed elsewhere" if m else "any lock"))
            if m is not None and m.rsplit("::", 1)[0] != cls:
                for f, i in sites:
                    if f.key in owners:
                        c.count("obligations"); c.count("accesses")
                        if m not in held(f, i): c.violation(f"{cls}::{nm} in {f.qn}", f"{f.loc(i)}: {f.qn}() accesses {cls}::{nm} without holding the lock on {m}, under which it is accessed elsewhere")
            if m is not None: atomicity(L, c, cls, nm, m, nonown)
        # members of a class that is only driven by owners, but whose state is shared through another class's mutex
    # fields that the owners share with each other through another object (they hold its mutex)
    for (cls, nm), sites in acc.items():
        t = owning[cls].get(nm, "")
        if not t or MUTEX.search(t) or t.startswith(("const ", "std::atomic")) or t.endswith("&"): continue
        own = [(f, i) for f, i in sites if f.key in owners and not (f.nodes[i].get("arrow") and f.nodes[top(f, f.nodes[i]["c"][0])]["k"] == "CXXThisExpr")]
        if not own or not any(is_write(f, i) for f, i in own): continue
        c.count("members shared between threads")
        for f, i in own:
            c.count("obligations"); c.count("accesses")
            if not any(m.rsplit("::", 1)[0] == cls for m in held(f, i)):
                c.violation(f"{cls}::{nm} in {f.qn}", f"{f.loc(i)}: {f.qn}() accesses {cls}::{nm}, which all threads share, without holding a lock of {cls}")
    # shared classes without a mutex
    hooks = set()           # implementations of functions that are only called under a lock
    todo = [f.key for f in prog.funcs.values() if f.qn in SERIAL_HOOKS] + [k for k, g in prog.fninfo.items() if g["qn"] in SERIAL_HOOKS]
    while todo:
        k = todo.pop()
        if k not in hooks: hooks.add(k); todo += prog.overriders.get(k, [])
    shared = {}
    for r in prog.records.values():
        if SHARED.match(r["qn"]) and r["qn"] not in owning: shared.setdefault(r["qn"], {fd["n"]: r["tu"].types[fd["t"]] for fd in r.get("fields", ())})
    for f in funcs:
        if f.d.get("kind") in ("ctor", "dtor") or f.d.get("special") or f.key in ctors or f.qn in SETUP or f.key in hooks: continue
        for i, n in enumerate(f.nodes):
            if n["k"] != "MemberExpr" or n.get("dk") != "field": continue
            cls, nm = n["qn"].rsplit("::", 1)
            if cls not in shared or shared[cls].get(nm, "").startswith("std::atomic"): continue
            if SHARED.match(shared[cls].get(nm, "")): continue         # its own members are checked
            if shared[cls].get(nm, "").rstrip().endswith("&") or local_object(f, i) or param_object(f, i): continue
            c.count("accesses to members of lock-free shared classes"); c.count("obligations")
            if is_write(f, i) and not held(f, i):
                c.violation(f"{n['qn']} in {f.qn}", f"{f.loc(i)}: {f.qn}() modifies {n['qn']}, which other threads can access at the same time, but which is neither atomic nor protected by a lock")
    # calls that must be serialised
    bases = {}
    for r in prog.records.values(): bases.setdefault(r["qn"], set()).update(b.get("qn", "") if isinstance(b, dict) else "" for b in r.get("bases", ()))
    def derives(q, b, depth=8): return q == b or depth and any(derives(x, b, depth - 1) for x in bases.get(q, ()))
    creators = {f.key for f in funcs for n in f.nodes if n["k"] == "DeclStmt" for d in n.get("decls", ()) if (f.T(d.get("t", -1)) or "").rstrip() in owning}
    for f in funcs:
        for i, n in enumerate(f.nodes):
            if n["k"] not in CALLS: continue
            g = f.fn(i)
            if g is None: continue
            if g["qn"] in EXTERN:
                c.count("serialised external calls"); c.count("obligations")
                if not held(f, i): c.violation(f"{g['qn']} in {f.qn}", f"{f.loc(i)}: {f.qn}() calls {g['qn']}() without holding a lock ({EXTERN[g['qn']]} requires such calls to be serialised)")
            if g.get("virtual") and any(derives(g.get("cls", ""), b) for b in SERIAL) and not any(derives(f.cls or "", b) for b in SERIAL) and f.key not in creators:
                c.count("serialised virtual calls"); c.count("obligations")
                if not held(f, i): c.violation(f"{g['qn']} in {f.qn}", f"{f.loc(i)}: {f.qn}() calls {g['qn']}() without holding the lock that serialises reporting")
            if g["qn"] in SERIAL_HOOKS and f.qn not in SERIAL_HOOKS:
                c.count("serialised virtual calls"); c.count("obligations")
                if not held(f, i): c.violation(f"{g['qn']} in {f.qn}", f"{f.loc(i)}: {f.qn}() calls {g['qn']}() without holding the lock that keeps messages of different threads apart")
            if g["qn"].replace("std::", "", 1) in UNSAFE or g["qn"] in UNSAFE:
                if g.get("cls"): continue
                c.violation(f"{g['qn']} in {f.qn}", f"{f.loc(i)}: {f.qn}() calls {g['qn']}(), which is not safe to use with multiple threads")
            c.count("calls"); c.count("obligations")
    # lock order
    acquires = {}
    for f in L.rel:
        gs = L.guards(f); pid = {p["id"] for p in f.params}
        a = set()
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    if d["id"] in gs and not gs[d["id"]][1]:
                        a |= gs[d["id"]][0]
                        for m in gs[d["id"]][0] & held(f, i):
                            c.violation(f"deadlock {m} {f.qn}", f"{f.loc(i)}: {f.qn}() locks {m} while it already holds a lock on it")
        acquires[f.key] = a
    ch = True
    tr = {k: set(v) for k, v in acquires.items()}
    while ch:
        ch = False
        for k, cs in L.callers.items():
            src = tr.get(k)
            if not src: continue
            for g, i in cs:
                # what g's parameter guard releases first is not held during the call
                t = tr.setdefault(g.key, set())
                if not src <= t: t |= src; ch = True
    order = {}
    for f in funcs:
        if f.key not in L.at: continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclStmt":
                for d in n.get("decls", ()):
                    gs = L.guards(f).get(d["id"])
                    if gs and not gs[1]:
                        for m in gs[0]:
                            for h in held(f, i): order.setdefault((h, m), (f, i))
            if n["k"] in CALLS:
                g = f.fn(i)
                if g is None: continue
                h = held(f, i)
                for x in n.get("args", ()):
                    gm = self_guard(L, f, x)
                    if gm: h = h - gm        # the callee can release it
                if not h: continue
                ks = [g["key"]] + (prog.overriders.get(g["key"], []) if g.get("virtual") else [])
                for k in ks:
                    for m in tr.get(k, ()):
                        for x in h: order.setdefault((x, m), (f, i))
    c.count("lock order pairs", len(order))
    reach = {}
    for a, b in order: reach.setdefault(a, set()).add(b)
    def path(a, b, seen=()):
        return any(x == b or x not in seen and path(x, b, seen + (x,)) for x in reach.get(a, ()))
    for (a, b), (f, i) in order.items():
        c.count("obligations")
        if a == b: c.violation(f"deadlock {a} {f.qn}", f"{f.loc(i)}: {f.qn}() holds a lock on {a} while it calls something that locks it")
        elif path(b, a): c.violation(f"order {a} {b}", f"{f.loc(i)}: {f.qn}() locks {b} while holding {a}, and elsewhere {a} is locked while holding {b}")
    statics(prog, c, funcs, held)


def atomicity(L, c, cls, nm, m, sites):
    """a decision on a protected member and the modification that depends on it happen under one and the same lock"""
    by = {}
    for f, i in sites: by.setdefault(f.key, (f, set()))[1].add(i)
    for f, nodes in by.values():
        if f.key not in L.at: continue
        w = {i for i in nodes if is_write(f, i)}
        if not w or len(nodes) < 2: continue
        c.count("obligations"); c.count("functions with several accesses to a protected member")
        cfg = f.cfg(); at = L.at[f.key]; ins = {b: set() for b in cfg}
        def step(e, S, report=None):
            # states: "fresh" read in the present critical section, "stale" read in an earlier one
            if isinstance(e, dict) or e not in at: return S
            if m not in at[e]: S = {"stale" if x == "fresh" else x for x in S}
            elif e in nodes:
                if e in w and report is not None and S == {"stale"} and not compound(f, e): report(e)
                S = {"fresh"} if e not in w or compound(f, e) else S
            return S
        work = [f.entry]; seen = set()
        while work:
            b = work.pop(); S = set(ins[b]); seen.add(b)
            for e in cfg[b]["e"]: S = step(e, S)
            for s in cfg[b]["s"]:
                if s in cfg and (not S <= ins[s] or s not in seen):
                    ins[s] |= S; work.append(s)
        for b in cfg:
            S = set(ins[b])
            for e in cfg[b]["e"]: S = step(e, S, lambda e: c.violation(f"atomicity {cls}::{nm} in {f.qn}", f"{f.loc(e)}: {f.qn}() modifies {cls}::{nm} although the lock on {m} was released since it was examined"))


def compound(f, i):
    p = f.parent.get(i)
    return p is not None and (f.nodes[p]["k"] == "CompoundAssignOperator" or f.nodes[p]["k"] == "UnaryOperator")


def self_guard(L, f, x):
    m = L.guard_mutex(f, x)
    return frozenset(m) if m else None


def statics(prog, c, funcs, held):
    """variables with static storage duration are constant, synchronised, or never written after their initialisation"""
    names = {}
    for v in prog.vars:
        if not v["file"].startswith((P.ARCHON, P.VERIF + "/selftest")): continue
        t = v["tu"].types[v["t"]]
        if v.get("const") or v.get("constexpr") or t.startswith(("const ", "std::atomic", "std::mutex")) or v.get("tls"): continue
        names[(id(v["tu"]), v["d"])] = v["qn"]
    for q in set(names.values()): c.count("mutable static variables")
    qns = {v for k, v in names.items()}
    for f in funcs:
        if f.d.get("kind") == "ctor" and f.cls and any(q.startswith(f.cls + "::") for q in qns): continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclRefExpr" and n.get("dk") in ("global", "static") and not n.get("tls"):
                q = n.get("qn") or names.get((id(f.tu), n.get("d")))
                if q not in qns: continue
            elif n["k"] == "MemberExpr" and n.get("dk") == "staticmember" and n.get("qn") in qns: q = n["qn"]
            else: continue
            c.count("accesses to mutable static variables"); c.count("obligations")
            if is_write(f, i) and not held(f, i) and not returned_ref(f, i):
                c.violation(f"static {q} in {f.qn}", f"{f.loc(i)}: {f.qn}() modifies the static variable {q} without synchronisation")


def returned_ref(f, i):
    """the variable is passed on to an initialiser or returned by reference; no modification here"""
    par = f.parent; p = par.get(i)
    while p is not None and f.nodes[p]["k"] in STRIP: p = par.get(p)
    return p is not None and f.nodes[p]["k"] in ("ReturnStmt",)


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        for what, n in (("classes with a mutex", 4), ("protected members", 6), ("serialised external calls", 2), ("serialised virtual calls", 3), ("members shared between threads", 3)): c.require(what, n)
        return c.finish()
    hmain(body)
