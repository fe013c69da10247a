"""What belongs to one dimension, channel or end is never taken for another (C24)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

# A family is a list of roles; each role is a set of words.  'full' families: values of different roles are never combined additively, compared, or
# assigned to each other.  'copy' families: values of different roles are not copied to each other as they are.
FULL = {
    "axis": [{"x", "width", "w", "horz", "horizontal", "horizontally", "col", "column", "cols", "columns"}, {"y", "height", "h", "vert", "vertical", "vertically", "row", "rows"}, {"z"}],
    "channel": [{"red", "r"}, {"green", "g"}, {"blue", "b"}, {"alpha"}],
}
COPY = {
    "sides": [{"left"}, {"right"}], "ends": [{"top"}, {"bottom"}], "limits": [{"min"}, {"max"}], "mantissa": [{"mantissa"}, {"exponent"}], "hsl": [{"hue"}, {"saturation"}, {"lightness"}],
    "layers": [{"foreground", "fg"}, {"background", "bg"}],
    "ascents": [{"ascent", "ascender"}, {"descent", "descender"}], "frac": [{"numer"}, {"denom"}], "depth": [{"near"}, {"far"}], "affix": [{"prefix"}, {"suffix"}],
}
ROLE = {}
for fam, rs in list(FULL.items()) + list(COPY.items()):
    for j, r in enumerate(rs):
        for w in r: ROLE[w] = (fam, j)
CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def rep(f): return f.file.startswith((P.ARCHON + "/", P.VERIF + "/selftest")) and not P.EXCLUDED.search(f.file)


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in CASTS and len(f.nodes[i].get("c", ())) == 1: i = f.nodes[i]["c"][0]
    return i


_words = {}


def words(name):
    if name in _words: return _words[name]
    r = [w.lower() for w in re.findall(r"[A-Z]?[a-z]+|[A-Z]+(?![a-z])|[0-9]+", name or "") if w]
    if r and r[0] == "m" and (name or "").startswith("m_"): r = r[1:]
    _words[name] = r
    return r


def roles(name):
    """{family: (role, rest of the name)}; nothing for families of which the name mentions several roles"""
    ws = words(name); out = {}; bad = set()
    for w in ws:
        if w in ROLE:
            fam, j = ROLE[w]
            if w in ("r", "g", "b", "w", "h", "x", "y", "z", "alpha") and fam == "channel" and len(w) == 1 and len(ws) > 1: continue
            if fam in out and out[fam][0] != j: bad.add(fam)
            out[fam] = (j, tuple(x for x in ws if x != w))
    return {k: v for k, v in out.items() if k not in bad}


def named(f, i):
    """(name, outer names) of the quantity that the expression denotes"""
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]; k = n["k"]
    if k == "UnaryOperator" and n.get("op") in ("-", "+", "*", "&", "++", "--"): return named(f, n["c"][0])
    if k == "DeclRefExpr":
        if n.get("dk") in ("enum", "func"): return None
        return n.get("n")
    if k == "MemberExpr":
        if n.get("dk") not in ("field", "staticmember"): return None
        return n.get("n")
    if k == "CXXOperatorCallExpr" and n.get("op") == "[]" and n.get("obj") is not None and n.get("args") and "math::Vec" in (f.type(strip(f, n["obj"])) or ""):
        v = f.nodes[strip(f, n["args"][-1])].get("v") or f.nodes[n["args"][-1]].get("v")
        b = named(f, n["obj"])
        if v in ("0", "1", "2") and b and "axis" not in roles(b): return f"{b}_{'xyz'[int(v)]}"
        return None
    if k in ("CXXMemberCallExpr", "CallExpr") and not n.get("args"):
        g = f.fn(i)
        return re.sub(r"^(get|calc|compute)_", "", g["name"]) if g else None
    return None


def leaves(f, i, out):
    """quantities that are combined additively (also through min, max, clamp, conditional expressions and conversions)"""
    i = strip(f, i)
    if i is None or i < 0: return
    n = f.nodes[i]; k = n["k"]
    if k == "BinaryOperator" and n.get("op") in ("+", "-"):
        for c in n["c"]: leaves(f, c, out)
        return
    if k == "UnaryOperator" and n.get("op") in ("-", "+"): leaves(f, n["c"][0], out); return
    if k == "ConditionalOperator":
        for c in n["c"][1:]: leaves(f, c, out)
        return
    if k == "CallExpr" and n.get("args"):
        g = f.fn(i)
        if g and (g["qn"] in ("std::min", "std::max", "std::clamp", "std::abs") or g["name"] in ("int_cast", "int_cast_a", "int_add", "int_sub", "to_int", "round")):
            for a in n["args"]: leaves(f, a, out)
            return
    m = named(f, i)
    if m: out.append((m, i))


def multiplicative(f, i):
    i = strip(f, i)
    if i is None or i < 0: return False
    n = f.nodes[i]
    if n["k"] == "BinaryOperator" and n.get("op") in ("*", "/"): return True
    return any(multiplicative(f, c) for c in n.get("c", ()) if c >= 0) if n["k"] in ("BinaryOperator", "UnaryOperator") else False


def owner(f, i):
    i = strip(f, i)
    n = f.nodes[i]
    return f.nodes[strip(f, n["c"][0])].get("d") or f.nodes[strip(f, n["c"][0])]["k"] if n["k"] == "MemberExpr" and n.get("c") else None


class Comp:
    def __init__(self, prog, c):
        self.prog = prog; self.c = c; self.seen = set(); self.n = {}

    def compat(self, a, b, fam):
        """do the two names say that they are the same kind of quantity, but in different roles?"""
        (ja, ra), (jb, rb) = a, b
        if ja == jb: return True
        if {"stride", "baseline"} & (set(ra) | set(rb)): return True     # a stride in one direction is an extent in the other one; baselines are horizontal where lines are stacked vertically
        da, db = {x for x in ra if x.isdigit()}, {x for x in rb if x.isdigit()}
        if da and db and da != db: return True
        ra, rb = set(ra) - da, set(rb) - db
        return not (set(ra) <= set(rb) or set(rb) <= set(ra))

    def report(self, f, i, what, a, b):
        k = (f.loc(i), a, b)
        if k in self.seen: return
        self.seen.add(k)
        self.c.violation(f"mixed {f.qn} {a} {b}", f"{f.loc(i)}: {f.qn}(): {what}")

    def flow(self, f, i, target, src, kind, lhs=None):
        """value of expression src becomes the value of something called `target`"""
        rt = roles(target)
        if not rt: return
        lv = []; leaves(f, src, lv)
        if not lv: return
        if target.startswith("__"): return
        s = strip(f, src)
        plain = named(f, src) is not None and not (f.nodes[s]["k"] == "UnaryOperator" and f.nodes[s].get("op") == "-")
        for fam, a in rt.items():
            if fam in COPY and not plain: continue
            if fam == "limits" and kind == "the value of": continue     # (the search for a maximum starts at the minimum)
            hits = [(m, j, roles(m)[fam]) for m, j in lv if fam in roles(m)]
            if not hits: continue
            key = (f.loc(i), target, fam)
            if key not in self.n: self.n[key] = 1
            if any(r[0] == a[0] for _, _, r in hits): 
                if fam in FULL:
                    for m, j, r in hits:
                        if not self.compat(a, r, fam) and not self.swap(f, i, j): self.report(f, i, f"`{m}` is part of what is {kind} `{target}`", target, m)
                continue
            for m, j, r in hits:
                if self.compat(a, r, fam): continue
                if self.gray(f, lhs, j): continue
                self.report(f, i, f"`{m}` is {kind} `{target}`", target, m)

    def swap(self, f, i, j): return False

    def gray(self, f, lhs, j):
        """copying between the components of one object (a shade of gray, a square)"""
        if lhs is None: return False
        a, b = owner(f, lhs), owner(f, j)
        return a is not None and a == b

    def scan(self, f):
        for i in f.walk():
            n = f.nodes[i]; k = n["k"]
            if k in ("BinaryOperator", "CompoundAssignOperator"):
                op = n.get("op", "")
                if op in ("=", "+=", "-="):
                    t = named(f, n["c"][0])
                    if t: self.flow(f, i, t, n["c"][1], "assigned to" if op == "=" else "combined with", n["c"][0])
                elif op in ("+", "-", "<", ">", "<=", ">="):
                    p = f.parent.get(i)
                    lv = []
                    if op in ("+", "-"):
                        while p is not None and f.nodes[p]["k"] in CASTS: p = f.parent.get(p)
                        if p is not None and f.nodes[p]["k"] == "BinaryOperator" and f.nodes[p].get("op") in ("+", "-"): continue
                        leaves(f, i, lv)
                    else:
                        leaves(f, n["c"][0], lv); leaves(f, n["c"][1], lv)
                    for fam in ("axis",):
                        h = [(m, j, roles(m)[fam]) for m, j in lv if fam in roles(m)]
                        if len(h) < 2: continue
                        self.n[(f.loc(i), op, fam)] = 1
                        for m, j, r in h[1:]:
                            if not self.compat(h[0][2], r, fam): self.report(f, i, f"`{h[0][0]}` and `{m}` are combined or compared (`{op}`)", h[0][0], m)
            elif k == "DeclStmt":
                for d in n.get("decls", ()):
                    if d.get("init") is not None and d["init"] >= 0: self.flow(f, i, d["n"], d["init"], "the value of")
            elif k == "InitListExpr":
                r = self.prog.records.get((f.type(i) or "").replace("const ", ""))
                if r and len(r["fields"]) >= len(n.get("c", ())):
                    for x, fd in zip(n.get("c", ()), r["fields"]):
                        if x >= 0: self.flow(f, i, fd["n"], x, "the value of member")
            if "fn" in n and n.get("args"):
                g = f.fn(i)
                if g and not g.get("lambda"):
                    for a, x in enumerate(n["args"]):
                        if a < len(g.get("params", ())) and x >= 0 and g["params"][a].get("n"): self.flow(f, i, g["params"][a]["n"], x, f"passed to {g['name']}() as")
        for d in f.d.get("inits", ()) or ():
            if d.get("init") and d.get("written"): self.flow(f, d["e"], d["init"], d["e"], "the initial value of")


def scan(prog, c):
    C = Comp(prog, c)
    nf = 0
    for f in prog.funcs.values():
        if rep(f): C.scan(f); nf += 1
    c.count("functions examined", nf); c.count("combinations of quantities of one family", len(C.n)); c.count("obligations", len(C.n))


def main(pid):
    from archlint.harness import Check, selftest, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        scan(prog, c)
        selftest(c, scan)
        c.require("functions examined", 8000); c.require("combinations of quantities of one family", 600)
        return c.finish()
    hmain(body)
