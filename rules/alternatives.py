"""Every alternative is handled, and as what it is (C13)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import diag, harness
from archlint import program as P

FLAGS = ["-Wswitch", "-Wimplicit-fallthrough", "-Wreturn-type"]
CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def rep(path): return path.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(path)


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in CASTS and len(f.nodes[i].get("c", ())) == 1: i = f.nodes[i]["c"][0]
    return i


_w = {}


def words(name):
    if name not in _w:
        r = [w.lower() for w in re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z]+|[A-Z]+|[0-9]+", name or "")]
        if len(r) > 1 and r[0] == "m" and name.startswith("m_"): r = r[1:]
        _w[name] = tuple(r)
    return _w[name]


def untempl(t):
    out = []; d = 0
    for ch in t:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: out.append(ch)
    return re.sub(r"^(const |volatile |enum )+", "", "".join(out)).strip()


def enum_of(prog, t):
    t = re.sub(r"^(const |volatile |enum )+", "", t or "")
    return prog.enums_by_type.get(t) or prog.enums.get(t) or prog.enums.get(untempl(t))


# ---------------------------------------------------------------- switches

def arms(f, i):
    """[(labels, values, statements)]; a label is the name of the constant where it has one"""
    b = f.nodes[f.nodes[i]["body"]]; res = []
    for c in b.get("c", ()):
        labs = []; vals = []; st = c
        while st is not None and st >= 0 and f.nodes[st]["k"] in ("CaseStmt", "DefaultStmt"):
            m = f.nodes[st]
            if m["k"] == "CaseStmt": labs.append(m.get("cn")); vals.append(m.get("cv"))
            else: labs.append("default"); vals.append("default")
            st = m["c"][-1] if m.get("c") else None
        if labs: res.append((labs, vals, [st] if st is not None and st >= 0 else []))
        elif res: res[-1][2].append(c)
    return res


def mentions(f, stmts):
    """names that the statements mention, outermost contexts of messages of assertions excluded"""
    out = []; loc = []
    for s in stmts:
        for j in f.walk(s):
            m = f.nodes[j]; k = m["k"]
            if m.get("mac"): out.append(m["mac"])
            if k == "DeclRefExpr":
                if m.get("dk") not in ("local", "parm"): out.append(m.get("n"))
                else: loc.append(m.get("n"))
            elif k == "MemberExpr": out.append(m.get("n"))
            elif k == "StringLiteral" and len(m.get("s", "")) < 60 and not m.get("s", "").startswith(("Assertion", "/")): out.append(m["s"])
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and "t" in m: out.append(f.T(m["t"]).rsplit("<", 1)[-1] if "<" in f.T(m["t"]) else "")
    def good(ls): return [x for x in dict.fromkeys(ls) if x and not x.startswith(("ARCHON_", "__builtin"))]
    return good(out), good(loc)


VERBS = ("get", "create", "to", "on", "is", "has", "add", "format", "set", "do", "make", "handle", "process", "try")


def exactly(label, name):
    """does the name denote just what the label says, apart from a verb in front?"""
    ws = words(name)
    forms = [ws] + ([ws[1:]] if len(ws) > 1 and ws[0] in VERBS else [])
    ls = [label, tuple(SYN.get(x, x) for x in label)] + ([label[1:]] if len(label) > 1 and label[0] in ("unsupported", "invalid", "bad") else [])
    return any("".join(a) == "".join(b) or a == b for a in forms for b in ls)


def sub(a, b):
    """is the word sequence a contained in b?"""
    n = len(a)
    return any(b[i:i + n] == a for i in range(len(b) - n + 1)) or "".join(a) == "".join(b)


def common_prefix(ls):
    n = 0
    while all(len(l) > n + 1 for l in ls) and len({l[n] for l in ls}) == 1: n += 1
    return n


def value_of(f, stmts):
    """the constant that the arm yields: ('s', text) or ('e', enumerator) or ('f', function); None if it is not one"""
    if not stmts or any(f.nodes[x]["k"] != "BreakStmt" for x in stmts[1:]): return None
    s = f.nodes[stmts[0]]
    if s["k"] == "CompoundStmt" and len(stmts) == 1: return value_of(f, list(s.get("c", ())))
    e = None
    if s["k"] == "ReturnStmt" and s.get("c"): e = s["c"][0]
    elif s["k"] == "BinaryOperator" and s.get("op") == "=": e = s["c"][1]
    elif s["k"] in ("CXXOperatorCallExpr", "CallExpr", "CXXMemberCallExpr") and len(s.get("args", ())) == 1: e = s["args"][0]
    else: return None
    e = strip(f, e)
    seen = 0
    while e is not None and e >= 0 and seen < 6:
        n = f.nodes[e]; seen += 1
        if n["k"] == "StringLiteral": return ("s", n.get("s"))
        if n["k"] == "DeclRefExpr" and n.get("dk") == "enum": return ("e", n.get("n"))
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral", "CXXFunctionalCastExpr", "CallExpr", "CXXOperatorCallExpr", "InitListExpr", "CXXStdInitializerListExpr"):
            a = [x for x in (n.get("args") or n.get("c") or ()) if x is not None and x >= 0 and f.nodes[x]["k"] != "CXXDefaultArgExpr"]
            if n["k"] == "CXXOperatorCallExpr": return None
            if not a: return None
            if n["k"] == "CallExpr" and f.nodes[strip(f, a[0])]["k"] != "StringLiteral": return None
            if len(a) > 1 and f.nodes[strip(f, a[0])]["k"] != "StringLiteral": return None
            e = strip(f, a[0]); continue
        return None
    return None


def switches(prog):
    seen = set()
    for f in prog.funcs.values():
        if not rep(f.file): continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "SwitchStmt" or n.get("body") is None or f.nodes[n["body"]]["k"] != "CompoundStmt": continue
            k = (f.file, n.get("l"), f.name if hasattr(f, "name") else "")
            if k in seen: continue
            seen.add(k)
            yield f, i, n


STOP = {"of", "out", "not", "in", "is", "a", "the", "to", "be"}
SYN = {"gray": "lum", "grey": "lum", "llong": "long long"}


def check_switches(prog, c):
    maps = {}
    for f, i, n in switches(prog):
        A = arms(f, i)
        t = f.T(n["ct"]) if "ct" in n else ""
        en = enum_of(prog, t)
        c.count("switches examined"); c.count("obligations", len(A))
        where = f"{f.loc(i)}: {f.qn}()"
        ident = f"{f.rel()}:{f.qn}:switch"
        # every enumerator has an arm of its own
        if en and rep(en["file"]):
            have = {v for _, vs, _ in A for v in vs}
            missing = [x[0] for x in en["v"] if x[1] not in have and not re.match(r"^(num|count|max|min|last|first|_)", x[0])]
            if missing:
                c.violation(ident + ":missing:" + ",".join(missing), f"{where}: no arm for " + ", ".join(f"`{m}`" for m in missing) + f" of {untempl(t)}")
        # arms that yield constants yield different ones
        vals = {}
        for labs, vs, st in A:
            if "default" in labs: continue
            v = value_of(f, st)
            if v is not None: vals.setdefault(v, []).append((labs, vs))
        for v, ls in vals.items():
            if len(ls) > 1:
                names = [str(l[0][0] or l[1][0]) for l in ls]
                c.violation(ident + ":same:" + ",".join(names), f"{where}: `{'` and `'.join(names)}` both yield {v[1]!r}")
        if en and rep(en["file"]):
            mp = {}
            for v, ls in vals.items():
                if v[0] != "s": continue
                for labs, vs in ls:
                    for x in vs: mp[x] = v[1]
            num = {}
            for x, s in mp.items():
                m = re.findall(r"\d+", s)
                if len(m) == 1 and len(re.sub(r"\d+|[^A-Za-z]", "", s)) <= 1: num[x] = int(m[0])
            if len(num) >= 3: maps.setdefault(untempl(t), []).append((num, where, ident, en))
        # an arm does not do what belongs to another one
        labelled = [(labs, st) for labs, vs, st in A if "default" not in labs and all(labs)]
        L = {l: words(l) for labs, _ in labelled for l in labs}
        if len(labelled) < 2: continue
        p = common_prefix([w for w in L.values()]) if len(L) > 1 else 0
        W = {l: w[p:] for l, w in L.items()}
        res = []; ment = [mentions(f, st) for _, st in labelled]; freq = {}
        for ms, _ in ment:
            for m in ms: freq[m] = freq.get(m, 0) + 1
        uniq = {l: {x for x in W[l] if x not in STOP and sum(x in y for y in W.values()) == 1} for l in W}
        for (labs, st), (ms, ls) in zip(labelled, ment):
            own = {m for m in ms + ls if any(sub(W[l], words(m)) or sub(tuple(SYN.get(x, x) for x in W[l]), words(m)) or exactly(W[l], m) or ((m.isupper() or " " in m) and set(words(m)) & uniq[l]) for l in labs)}
            other = {}
            for m in ms:
                if m in own or freq[m] > 2: continue
                best = [l for l in W if l not in labs and exactly(W[l], m)]
                if not best and (m.isupper() or " " in m): # constants and texts of other origin: by the words that only one label has
                    sc = {l: len(set(words(m)) & uniq[l]) for l in W}
                    top = max(sc.values())
                    if top > (" " in m) and not any(sc[l] for l in labs): best = [l for l in W if sc[l] == top]
                    if len(best) != 1: best = []
                if best: other[m] = best[0]
            res.append((labs, own, other))
        nown = sum(1 for r in res if r[1]); nother = sum(1 for r in res if r[2] and not r[1])
        if not nother or not (nown and nother <= nown + 1 or (nown == 0 and nother >= 2 and nother == len(res))): continue
        for labs, own, other in res:
            if own or not other: continue
            m, l = sorted(other.items())[0]
            c.violation(ident + f":mixed:{labs[0]}", f"{where}: the arm of `{labs[0]}` uses `{m}`, which belongs to `{l}`")
    # two tables of the same codes agree
    for t, ms in maps.items():
        for j in range(len(ms)):
            num, where, ident, en = ms[j]
            offs = {}
            for k, v in num.items(): offs.setdefault(v - int(k), []).append(k)
            top = max(offs.values(), key=len)
            if len(top) >= 5 and len(top) < len(num):
                for k in num:
                    if k in top: continue
                    nm = next((x[0] for x in en["v"] if x[1] == k), k)
                    c.violation(ident + f":code:{nm}", f"{where}: code {num[k]} for `{nm}` falls outside the series of the other codes of {t}")
            for num2, where2, ident2, _ in ms[j + 1:]:
                ks = set(num) & set(num2); diff = [k for k in ks if num[k] != num2[k]]
                same = len(ks) - len(diff)
                if diff and (same >= 2 or sorted(num.values()) == sorted(num2.values())) and same * 2 >= len(ks) - 1:
                    nm = [next((x[0] for x in en["v"] if x[1] == k), k) for k in sorted(diff)]
                    c.violation(ident + ":agree:" + ",".join(nm), f"{where}: codes of `{'`, `'.join(nm)}` differ from those at {where2}")


# ---------------------------------------------------------------- tables of names

def check_tables(prog, c):
    done = set()
    for v in prog.vars:
        if v.get("init") is None or not rep(v["file"]): continue
        nodes = v["nodes"]; tu = v["tu"]
        root = nodes[v["init"]]
        if root["k"] != "InitListExpr": continue
        key = (v["file"], v["line"])
        if key in done: continue
        rows = []
        for r in root.get("c", ()):
            e = None; s = None
            st = [r]; kids = nodes[r].get("c", ())
            if nodes[r]["k"] not in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"): rows = []; break
            while st:
                x = st.pop(); n = nodes[x]
                if n["k"] == "DeclRefExpr" and n.get("dk") == "enum" and e is None: e = (n.get("n"), tu.types[n["t"]] if "t" in n else "")
                elif n["k"] == "StringLiteral" and s is None: s = n.get("s")
                st += [y for y in reversed(n.get("c", ())) if y is not None and y >= 0]
            rows.append((e, s, len(kids)))
        if len(rows) < 2 or any(e is None for e, _, _ in rows): continue
        done.add(key)
        c.count("tables of enumerators"); c.count("obligations", len(rows))
        where = f"{os.path.relpath(v['file'], P.REPO)}:{v['line']}"; ident = where.split(":")[0] + ":" + str(rows[0][0][1]) + ":table"
        names = [e[0] for e, _, _ in rows]
        for x in dict.fromkeys(n for n in names if names.count(n) > 1): c.violation(ident + f":twice:{x}", f"{where}: `{x}` occurs twice in the table")
        en = enum_of(prog, rows[0][0][1])
        if en:
            missing = [x[0] for x in en["v"] if x[0] not in names]
            if missing: c.violation(ident + ":missing:" + ",".join(missing), f"{where}: " + ", ".join(f"`{m}`" for m in missing) + f" of {rows[0][0][1]} missing from the table")
        texts = [s for _, s, _ in rows]
        if all(texts):
            for x in dict.fromkeys(t for t in texts if texts.count(t) > 1): c.violation(ident + f":name:{x}", f"{where}: the name {x!r} occurs twice in the table")
            def sq(x): return re.sub(r"[^a-z0-9]", "", (x or "").lower())
            for e, s, _ in rows:
                if sq(s) == sq(e[0]): continue
                o = [y[0] for y, _, _ in rows if sq(y[0]) == sq(s)]
                if o: c.violation(ident + f":text:{e[0]}", f"{where}: `{e[0]}` has the name {s!r}, which belongs to `{o[0]}`")


# ---------------------------------------------------------------- forwarding

def check_forwarding(prog, c):
    """A function that hands exactly its parameters to one function of another object forwards to the operation of its own name, where the other object has it"""
    byclass = {}
    for k, info in prog.fninfo.items():
        if info.get("cls"): byclass.setdefault(info["cls"], {}).setdefault(info["name"], []).append(info)
    enumnames = {}
    for q, e in prog.enums.items():
        if rep(e["file"]):
            for x in e["v"]: enumnames.setdefault(x[0], set()).add(q)
    seen = set()
    for f in prog.funcs.values():
        if not rep(f.file): continue
        info = prog.fninfo.get(f.key)
        if not info or info.get("lambda") or info.get("kind") or info.get("special"): continue
        name = info["name"]
        if name.startswith("operator"): continue
        root = f.d.get("root")
        body = f.nodes[root] if root is not None else None
        # delegating to the function of the same name
        if body and body["k"] == "CompoundStmt" and len(body.get("c", ())) == 1:
            s = body["c"][0]
            if f.nodes[s]["k"] == "ReturnStmt" and f.nodes[s].get("c"): s = f.nodes[s]["c"][0]
            s = strip(f, s)
            if s is not None and s >= 0 and f.nodes[s]["k"] == "CXXMemberCallExpr":
                n = f.nodes[s]; g = f.fn(s); o = strip(f, n.get("obj")) if n.get("obj") is not None else None
                if g and g.get("cls") and o is not None and f.nodes[o]["k"] != "CXXThisExpr" and g["name"] != name:
                    pars = [p["id"] for p in info.get("params", ())]
                    args = []
                    for a in n.get("args", ()):
                        a = strip(f, a)
                        while a is not None and f.nodes[a]["k"] == "CallExpr" and (f.fn(a) or {}).get("name") in ("move", "forward") and f.nodes[a].get("args"): a = strip(f, f.nodes[a]["args"][0])
                        while a is not None and f.nodes[a]["k"] == "CXXConstructExpr" and len(f.nodes[a].get("args", ())) == 1: a = strip(f, f.nodes[a]["args"][0])
                        args.append(f.nodes[a].get("d") if a is not None and f.nodes[a]["k"] == "DeclRefExpr" else None)
                    c.count("forwarding functions"); c.count("obligations")
                    same = [x for x in byclass.get(g["cls"], {}).get(name, []) if len(x.get("params", ())) == len(g.get("params", ()))]
                    if same and not sub(words(name), words(g["name"])) and len(args) == len(info.get("params", ())) and all(a is not None for a in args):
                        key = (f.rel(), f.qn, g["name"])
                        if key not in seen:
                            seen.add(key)
                            c.violation(f"{f.rel()}:{f.qn}:forward:{g['name']}", f"{f.loc()}: {f.qn}() forwards to {g['qn']}() although there is {g['cls'].split('::')[-1]}::{name}()")
        # a function that bears the name of an alternative stands for that alternative
        if name in enumnames and f.nodes:
            used = {}
            for i in f.walk():
                n = f.nodes[i]
                if n["k"] == "DeclRefExpr" and n.get("dk") == "enum" and "t" in n:
                    en = enum_of(prog, f.T(n["t"]))
                    if en and en["qn"] in enumnames[name]: used.setdefault(en["qn"], {})[n.get("n")] = i
            for q, ns in used.items():
                if len(prog.enums[q]["v"]) < 2 if q in prog.enums else False: continue
                c.count("functions named after an alternative"); c.count("obligations")
                if name in ns: continue
                key = (f.rel(), f.qn, q)
                if key in seen: continue
                seen.add(key); o, i = sorted(ns.items())[0]
                c.violation(f"{f.rel()}:{f.qn}:named:{o}", f"{f.loc(i)}: {f.qn}() uses `{o}` of {q} rather than `{name}`")


def bases(info, tu): return [tu.fns[o] for o in info.get("overrides") or ()]


def check_decorators(prog, c):
    """A class most of whose overriding functions forward to the same function of other objects forwards all functions of the interface, each to the same one"""
    ifaces = {}
    for k, i in prog.fninfo.items():
        if i.get("virtual") and i.get("cls") and not i.get("kind") and not i.get("overrides"): ifaces.setdefault(i["cls"], {})[i["name"]] = i
    cls = {}
    for f in prog.funcs.values():
        info = prog.fninfo.get(f.key)
        if not info or not rep(f.file) or not info.get("overrides") or info.get("kind") or not info.get("cls"): continue
        own = False; other = None
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "CXXMemberCallExpr": continue
            g = f.fn(i)
            if not g or not g.get("virtual"): continue
            o = strip(f, n.get("obj")) if n.get("obj") is not None else None
            if o is not None and o >= 0 and f.nodes[o]["k"] == "CXXThisExpr": continue
            if g["name"] == info["name"]: own = True
            elif other is None: other = (g, i)
        base = None
        for b in bases(info, info["tu"]):
            if b.get("cls") in ifaces and info["name"] in ifaces[b["cls"]]: base = b["cls"]
        if base is None: continue
        e = cls.setdefault((info["cls"], base), {}).setdefault(info["name"], {"own": False, "other": None, "f": f})
        e["own"] = e["own"] or own
        if other and other[0].get("cls") and (other[0]["cls"] == base or any(b.get("cls") == base for b in bases(other[0], f.tu))): e["other"] = (other, f)
    for (w, base), d in cls.items():
        y = [k for k in d if d[k]["own"]]
        if len(y) < 2 or len(y) * 2 < len(d): continue
        c.count("forwarding classes"); c.count("obligations", len(ifaces[base]))
        f0 = next(iter(d.values()))["f"]
        for m in sorted(d):
            if not d[m]["own"]:
                f = d[m]["f"]; o = d[m]["other"]
                c.violation(f"{f.rel()}:{w}:forward:{m}", f"{f.loc(o[0][1]) if o else f.loc()}: {w}::{m}() forwards to {o[0][0]['name'] + '()' if o else 'nothing'} rather than to {m}() of the other objects")
        for m in sorted(set(ifaces[base]) - set(d)): c.violation(f"{f0.rel()}:{w}:forward:{m}", f"{f0.loc()}: {w} does not forward {m}() of {base}")


# ---------------------------------------------------------------- delivery of events

EVENTS = {
    "on_keydown": {"KeyPress", "SDL_KEYDOWN"}, "on_keyrepeat": {"KeyPress", "SDL_KEYDOWN"}, "on_keyup": {"KeyRelease", "SDL_KEYUP"},
    "on_mousedown": {"ButtonPress", "SDL_MOUSEBUTTONDOWN"}, "on_mouseup": {"ButtonRelease", "SDL_MOUSEBUTTONUP"},
    "on_scroll": {"ButtonPress", "SDL_MOUSEWHEEL"}, "on_mousemove": {"MotionNotify", "SDL_MOUSEMOTION"},
    "on_mouseover": {"EnterNotify", "SDL_WINDOWEVENT_ENTER"}, "on_mouseout": {"LeaveNotify", "SDL_WINDOWEVENT_LEAVE"},
    "on_focus": {"FocusIn", "SDL_WINDOWEVENT_FOCUS_GAINED"}, "on_blur": {"FocusOut", "SDL_WINDOWEVENT_FOCUS_LOST"},
    "on_resize": {"ConfigureNotify", "SDL_WINDOWEVENT_SIZE_CHANGED", "SDL_WINDOWEVENT_RESIZED"}, "on_reposition": {"ConfigureNotify", "SDL_WINDOWEVENT_MOVED"},
    "on_close": {"ClientMessage", "SDL_WINDOWEVENT_CLOSE"}, "on_quit": {"SDL_QUIT"},
}


def text(f, i):
    i = strip(f, i)
    if i is None or i < 0: return "?"
    n = f.nodes[i]
    return n["k"] + ":" + str(n.get("n") or n.get("d") or n.get("op") or n.get("v") or "") + "(" + ",".join(text(f, x) for x in n.get("c", ()) if x is not None and x >= 0) + ")"


def const_name(f, i):
    i = strip(f, i)
    if i is None or i < 0: return None
    for j in f.walk(i):
        n = f.nodes[j]
        if n.get("mac") in ALLEV: return n["mac"]
        if n["k"] == "DeclRefExpr" and n.get("n") in ALLEV: return n["n"]
    return None


ALLEV = {x for s in EVENTS.values() for x in s} | {"SDL_WINDOWEVENT"}


def leaves(f, i):
    """does control never get past the statement?"""
    if i is None or i < 0: return False
    n = f.nodes[i]
    if n["k"] in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt", "CXXThrowExpr"): return True
    if n["k"] in ("CompoundStmt", "ExprWithCleanups", "AttributedStmt") and n.get("c"): return leaves(f, n["c"][-1])
    if n["k"] == "IfStmt": return leaves(f, n.get("then")) and leaves(f, n.get("else"))
    return False


def init_of(f, d):
    for n in f.nodes:
        if n["k"] == "DeclStmt":
            for x in n.get("decls", ()):
                if x.get("id") == d: return x.get("init")
    return None


def narrow(f, S, ct, cond, pos):
    """the events of S for which the condition can have the given value; None if the condition depends on the event in a way that is not understood"""
    q = strip(f, cond); m = f.nodes[q]
    if m["k"] == "UnaryOperator" and m.get("op") == "!": return narrow(f, S, ct, m["c"][0], not pos)
    if m["k"] == "CallExpr" and (f.fn(q) or {}).get("name") == "__builtin_expect": return narrow(f, S, ct, m["args"][0], pos)
    if m["k"] == "BinaryOperator" and m.get("op") in ("&&", "||"):
        a = narrow(f, S, ct, m["c"][0], pos); b = narrow(f, S, ct, m["c"][1], pos)
        if a is None or b is None: return None
        return a & b if (m["op"] == "&&") == pos else a | b
    if m["k"] == "BinaryOperator" and m.get("op") in ("==", "!="):
        a, b = m["c"][:2]
        if text(f, b) == ct: a, b = b, a
        if text(f, a) == ct:
            x = const_name(f, b)
            if x is None: return None
            return (S & {x}) if (m["op"] == "==") == pos else (S - {x})
        if const_name(f, a) or const_name(f, b): # some other variable that may hold the event
            return None if not ct.startswith("MemberExpr") or text(f, a).startswith("DeclRefExpr") or text(f, b).startswith("DeclRefExpr") else S
    if m["k"] == "DeclRefExpr" and m.get("dk") == "local":
        e = init_of(f, m.get("d"))
        if e is not None and e >= 0 and ct in text(f, e): return narrow(f, S, ct, e, pos)
        return S
    return None if ct in text(f, q) else S


def reaching(f, call):
    """names of the events for which control can reach the node within the innermost switch over them; None if it is under no such switch"""
    parent = f.parent; i = call; cons = []
    while True:
        p = parent.get(i)
        if p is None or p < 0: return None
        n = f.nodes[p]
        if n["k"] == "IfStmt" or n["k"] == "ConditionalOperator":
            ch = [x for x in n.get("c", ()) if x is not None and x >= 0]
            cond = n.get("cond", ch[0] if ch else None)
            then = n.get("then", ch[1] if len(ch) > 1 else None); els = n.get("else", ch[2] if len(ch) > 2 else None)
            if i in (then, els) and cond is not None: cons.append((cond, i == then))
        elif n["k"] in ("CompoundStmt", "CaseStmt", "DefaultStmt"):
            before = []
            for x in n.get("c", ()):
                if x == i: break
                if x is None or x < 0: continue
                if f.nodes[x]["k"] in ("CaseStmt", "DefaultStmt"): before = []
                while f.nodes[x]["k"] in ("CaseStmt", "DefaultStmt") and f.nodes[x].get("c"): x = f.nodes[x]["c"][-1] # the first statement of an arm
                before.append(x)
            if f.nodes[i]["k"] in ("CaseStmt", "DefaultStmt"): before = []
            for x in before:
                m = f.nodes[x]
                if not m or m["k"] != "IfStmt": continue
                if leaves(f, m.get("then")): cons.append((m["cond"], False))
                elif leaves(f, m.get("else")): cons.append((m["cond"], True))
        if n["k"] == "CompoundStmt" and p in parent_switch(f):
            sw = parent_switch(f)[p]
            S = None
            for labs, vs, st in arms(f, sw):
                if any(s == i or i in set(f.walk(s)) for s in st): S = labs
            if S is None: # i may be the case statement itself
                for labs, vs, st in arms(f, sw):
                    for s in st:
                        if s in set(f.walk(i)): S = labs
            if S is None: return None
            if not any(l in ALLEV for l in S): return None
            S = set(S); ct = text(f, f.nodes[sw]["cond"])
            for cond, pos in cons:
                S = narrow(f, S, ct, cond, pos)
                if S is None: return None
            return S
        i = p


_ps = {}


def parent_switch(f):
    if f.key not in _ps:
        _ps[f.key] = {f.nodes[i]["body"]: i for i in f.walk() if f.nodes[i]["k"] == "SwitchStmt" and f.nodes[i].get("body") is not None}
    return _ps[f.key]


def check_events(prog, c):
    handlers = {i["name"] for k, i in prog.fninfo.items() if i.get("virtual") and re.search(r"EventHandler$", i.get("cls") or "") and not i.get("kind") and not i.get("special")}
    called = {}; files = {}
    for f in prog.funcs.values():
        if not rep(f.file): continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] != "CXXMemberCallExpr": continue
            g = f.fn(i)
            if not g or g["name"] not in EVENTS or not re.search(r"EventHandler$", g.get("cls") or ""): continue
            S = reaching(f, i)
            c.count("calls of event handlers"); c.count("obligations")
            if S is None: continue
            wrong = sorted(x for x in S if x not in EVENTS[g["name"]])
            if wrong: c.violation(f"{f.rel()}:{f.qn}:event:{g['name']}:{wrong[0]}", f"{f.loc(i)}: {f.qn}(): {g['name']}() is called upon `{wrong[0]}`")
            elif not S: c.violation(f"{f.rel()}:{f.qn}:event:{g['name']}:never", f"{f.loc(i)}: {f.qn}(): {g['name']}() is called upon no event")
    # every connection delivers every kind of event
    conns = {}
    for f in prog.funcs.values():
        info = prog.fninfo.get(f.key) or {}
        if rep(f.file) and info.get("overrides") and any(b.get("cls", "").endswith("display::Connection") for b in bases(info, info["tu"])): conns.setdefault(f.file, set()).add(info.get("cls"))
    for file in sorted(conns):
        names = set()
        for f in prog.funcs.values():
            if f.file != file: continue
            for i in f.walk():
                if f.nodes[i]["k"] == "CXXMemberCallExpr":
                    g = f.fn(i)
                    if g and re.search(r"EventHandler$", g.get("cls") or ""): names.add(g["name"])
        c.count("connection implementations"); c.count("obligations", len(handlers))
        optional = {"on_quit", "on_screen_change"}
        for h in sorted(handlers - names - optional): c.violation(f"{os.path.relpath(file, P.REPO)}:undelivered:{h}", f"{os.path.relpath(file, P.REPO)}: {h}() is never called")
    return handlers


# ---------------------------------------------------------------- registries

def check_registries(prog, c):
    """Every public getter of an implementation of an interface that has a registry is listed in the registry"""
    getters = {}
    for k, i in prog.fninfo.items():
        m = re.match(r"get_(\w+?)_(implementation_slot|slot)$|get_(file_format)_(\w+)$", i["name"])
        if m and not i.get("params") and not i.get("cls"): getters[i["name"]] = i
    users = {}
    for f in prog.funcs.values():
        if not rep(f.file): continue
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] == "DeclRefExpr" and n.get("n") in getters: users.setdefault(n["n"], set()).add(f.file)
    for v in prog.vars:
        if v.get("init") is None: continue
        for n in v["nodes"]:
            if n["k"] == "DeclRefExpr" and n.get("n") in getters: users.setdefault(n["n"], set()).add(v["file"])
    for g in sorted(getters):
        c.count("implementations of registered interfaces"); c.count("obligations")
        us = {u for u in users.get(g, ()) if rep(u)}
        if not us: c.violation(f"registry:{g}", f"{getters[g].get('file', '')}: {g}() is listed in no registry")


def scan(prog, c):
    check_switches(prog, c); check_tables(prog, c); check_forwarding(prog, c); check_decorators(prog, c); check_events(prog, c); check_registries(prog, c)


def scan_diag(tus, c, label=""):
    for file, line, flag, msg in diag.run(tus, FLAGS):
        c.violation(f"{os.path.relpath(file, P.REPO)}:{flag}:{msg[:80]}", f"{os.path.relpath(file, P.REPO)}:{line}: {msg} [{flag}]")


def main(pid):
    def body():
        c = harness.Check(pid)
        tus = P.library_tus() + P.drivers()
        prog = P.load(tus)
        c.count("functions examined", len(prog.funcs))
        scan(prog, c)
        c.count("translation units diagnosed", len(tus))
        scan_diag(tus, c)
        harness.selftest(c, scan)
        pr = harness._Probe()
        scan_diag([P.VERIF + "/selftest/C13_diag.cpp"], pr)
        want = sum("// BAD" in l for l in open(P.VERIF + "/selftest/C13_diag.cpp"))
        if len(pr.viol) != want: raise P.CheckError(f"C13: self-test of the compiler diagnostics: {len(pr.viol)} reports, expected {want}: {pr.viol}")
        for what, n in (("functions examined", 8000), ("switches examined", 60), ("tables of enumerators", 3), ("forwarding functions", 40), ("calls of event handlers", 8)): c.require(what, n)
        return c.finish()
    harness.main(body)
