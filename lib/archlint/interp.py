"""Path-sensitive abstract interpreter over clang CFGs (disjunctive completion of an interval/exclusion domain,
computed to a fixpoint).  Rules are plugins which model calls and observe function exits.

Values (terms) are hashable tuples:
  ('k', n)            constant            ('s', label)          symbol (unknown value of one program point)
  ('add', t, n)       t + n               ('cmp', op, a, b)     comparison, op in == < <=
  ('not', t)          logical negation    ('op', op, a, b)      other arithmetic
  ('addr', loc)       address of location ('fn', key)           function
  ('lam', fkey, frame, caps)  closure     ('tup', ...)          aggregate
Locations:
  ('v', frame, id) local   ('g', qn) global   ('f', loc, name) field   ('e', loc) element   ('d', term) pointee
  ('this',) the object of the root function   ('t', frame, node) temporary
"""
import re

CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"}
SIDE = CALLS | CTORS | {"CompoundAssignOperator", "DeclStmt", "CXXNewExpr", "CXXDeleteExpr", "CXXThrowExpr", "ReturnStmt", "InitListExpr"}
ZERO = ('k', 0)
ONE = ('k', 1)


class Budget(Exception):
    pass


class IV:
    """Integer set: interval with exclusions."""
    __slots__ = ("lo", "hi", "ex")

    def __init__(self, lo=None, hi=None, ex=frozenset()):
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        ex = frozenset(e for e in ex if (lo is None or e > lo) and (hi is None or e < hi))
        self.lo = lo; self.hi = hi; self.ex = ex

    def key(self):
        return (self.lo, self.hi, self.ex)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def empty(self):
        return self.lo is not None and self.hi is not None and self.lo > self.hi

    def has(self, n):
        return not ((self.lo is not None and n < self.lo) or (self.hi is not None and n > self.hi) or n in self.ex)

    def single(self):
        return self.lo if self.lo is not None and self.lo == self.hi else None

    def meet(self, o):
        lo = self.lo if o.lo is None else o.lo if self.lo is None else max(self.lo, o.lo)
        hi = self.hi if o.hi is None else o.hi if self.hi is None else min(self.hi, o.hi)
        return IV(lo, hi, self.ex | o.ex)

    def join(self, o):
        lo = None if self.lo is None or o.lo is None else min(self.lo, o.lo)
        hi = None if self.hi is None or o.hi is None else max(self.hi, o.hi)
        ex = frozenset(e for e in self.ex | o.ex if not self.has(e) and not o.has(e))
        return IV(lo, hi, ex)

    def shift(self, k):
        return IV(None if self.lo is None else self.lo + k, None if self.hi is None else self.hi + k, frozenset(e + k for e in self.ex))

    def exclude(self, n):
        return IV(self.lo, self.hi, self.ex | {n})

    def __repr__(self):
        return f"[{self.lo},{self.hi}]" + (f"\\{sorted(self.ex)}" if self.ex else "")


TOP = IV()
BOOL = IV(0, 1)
NONNEG = IV(0, None)
UNSIGNED = re.compile(r"^(const )?(unsigned|size_t|std::size_t|char16_t|char32_t)")


def type_iv(t):
    if not t:
        return TOP
    if t in ("bool", "const bool"):
        return BOOL
    if UNSIGNED.match(t) and not t.endswith(("*", "&", "]")):
        return NONNEG
    if t.endswith("*") or t.endswith("*const"):
        return NONNEG
    return TOP


class State:
    __slots__ = ("store", "cons", "ev", "ts", "scopes")

    def __init__(self):
        self.store = {}; self.cons = {}; self.ev = {}; self.ts = {}; self.scopes = ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.cons = dict(self.cons); s.ev = dict(self.ev); s.ts = dict(self.ts); s.scopes = self.scopes
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.cons.items()), frozenset(self.ev.items()),
                frozenset(self.ts.items()), self.scopes)


def contains(term, sym):
    if term == sym:
        return True
    if isinstance(term, tuple):
        return any(contains(x, sym) for x in term if isinstance(x, tuple))
    return False


def subst(term, sym, new):
    if term == sym:
        return new
    if isinstance(term, tuple):
        r = None
        for i, x in enumerate(term):
            if isinstance(x, tuple):
                y = subst(x, sym, new)
                if y is not x:
                    if r is None:
                        r = list(term)
                    r[i] = y
        return tuple(r) if r is not None else term
    return term


def syms(t, out):
    if t and t[0] == 's':
        out.add(t)
        # symbols inside labels ('init' of a pointee, ...)
    for x in t:
        if isinstance(x, tuple): syms(x, out)


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max((depth(x) for x in t if isinstance(x, tuple)), default=0)


class Frame:
    __slots__ = ("f", "id", "this", "depth", "chain", "retloc", "exits", "lamcaps", "up")

    def __init__(self, f, fid, this, dep, chain, up=None):
        self.f = f; self.id = fid; self.this = this; self.depth = dep; self.chain = chain; self.exits = []; self.lamcaps = None
        self.up = up


class Plugin:
    param_dtors = False    # destroy by-value parameters of functions analysed in place
    exc = False            # model exceptions thrown by calls
    max_inline = 4
    max_pairs = 30000

    def __init__(self, prog):
        self.prog = prog

    # --- hooks -------------------------------------------------------------
    def inline(self, eng, fr, callee_info, func):
        """Should `func` be analysed in place at this call?"""
        return False

    def call(self, eng, st, fr, n, info, obj, args, argnodes):
        """Model of a call. Return None for the default, or list of (state, value) / (state, ('throw', type))."""
        return None

    def may_throw(self, eng, st, fr, n, info):
        return not (info and info.get("noexcept"))

    def on_dtor(self, eng, st, fr, loc, typ, info):
        return [st]

    def on_assign(self, eng, st, fr, n, loc, val):
        pass

    def on_read(self, eng, st, fr, n, loc):
        pass

    def on_return(self, eng, st, fr, n, val):
        pass

    def on_branch(self, eng, st, fr, n, truth):
        pass

    def on_stmt(self, eng, st, fr, n):
        pass

    def on_decl(self, eng, st, fr, n, loc, d):
        pass

    def initial(self, eng, fr, st, loc):
        """Initial value of an unread location, or None"""
        return None

    def sticky(self, eng, st, loc, val):
        """Is the content of loc out of reach of unknown code?"""
        return False

    def pinned(self, s):
        """Keep facts about symbol s although nothing refers to it?"""
        return False

    def prune(self, eng, fr, st):
        """Forget what is irrelevant to the rule (keeps the number of states down)"""
        pass


class Engine:
    def __init__(self, prog, plugin):
        self.prog = prog; self.pl = plugin
        self.pairs = 0
        self.cur = None
        self._roots = {}
        self._ctgt = {}
        self._try = {}
        self._catchblk = {}
        self._live = {}

    # ---- per function precomputation ---------------------------------------
    def stmt_roots(self, f):
        r = self._roots.get(f.key)
        if r is None:
            r = set()
            for i in f.walk():
                n = f.nodes[i]
                k = n["k"]
                if k == "CompoundStmt":
                    r.update(n.get("c", ()))
                elif k == "IfStmt":
                    for q in ("then", "else", "initst"):
                        if q in n: r.add(n[q])
                elif k in ("WhileStmt", "DoStmt", "CXXForRangeStmt"):
                    r.add(n["body"])
                    if k == "CXXForRangeStmt": r.add(n["inc"])
                elif k == "ForStmt":
                    for q in ("body", "inc", "init"):
                        if q in n: r.add(n[q])
                elif k in ("CaseStmt", "DefaultStmt", "LabelStmt"):
                    r.update(n.get("c", ())[-1:])
            self._roots[f.key] = r
        return r

    def ctor_targets(self, f):
        """construct-expression node -> ('var', declid) | ('field', name)"""
        r = self._ctgt.get(f.key)
        if r is None:
            r = {}
            for i, n in enumerate(f.nodes):
                if n["k"] == "DeclStmt":
                    for d in n.get("decls", ()):
                        if d.get("init", -1) >= 0:
                            r[d["init"]] = ("var", d["id"], d["t"])
            for d in f.d.get("inits", ()):
                if d.get("e", -1) >= 0 and "init" in d:
                    r[d["e"]] = ("field", d["init"])
            self._ctgt[f.key] = r
        return r

    def try_map(self, f):
        """node -> innermost enclosing try statement (for nodes inside the try block proper)"""
        r = self._try.get(f.key)
        if r is None:
            r = {}

            def rec(i, cur):
                st = [(i, cur)]
                while st:
                    i, cur = st.pop()
                    if i < 0 or i in r and r[i] == cur:
                        continue
                    if i not in r or cur is not None:
                        r[i] = cur
                    n = f.nodes[i]
                    if n["k"] == "CXXTryStmt":
                        cs = n["c"]
                        st.append((cs[0], i))
                        for h in cs[1:]:
                            st.append((h, cur))
                    else:
                        for c in n.get("c", ()):
                            if c >= 0 and c not in r:
                                st.append((c, cur))
            rec(f.d["root"], None)
            self._try[f.key] = r
        return r

    def catch_blocks(self, f):
        r = self._catchblk.get(f.key)
        if r is None:
            r = {}
            for b in f.cfg().values():
                l = b.get("label")
                if l and l["k"] == "CXXCatchStmt":
                    r[l["n"]] = b["id"]
            self._catchblk[f.key] = r
        return r

    # ---- symbols --------------------------------------------------------------
    def fresh(self, st, label, iv=TOP):
        """A new value of program point `label`; older values of the same point are renamed."""
        s = ('s', label)
        old = ('s', ('old', label))
        used = s in st.cons
        if not used:
            for v in st.store.values():
                if contains(v, s): used = True; break
        if not used:
            for v in st.ev.values():
                if contains(v, s): used = True; break
        if not used:
            for v in st.ts.values():
                if contains(v, s): used = True; break
        if used:
            # drop what was known about the previous generation
            st.cons = {k: v for k, v in st.cons.items() if not contains(k, old)}
            for d in (st.store, st.ev, st.ts):
                for k in list(d):
                    if contains(k, s):
                        v = d.pop(k); d[subst(k, s, old)] = subst(v, s, old)
                    elif contains(d[k], s):
                        d[k] = subst(d[k], s, old)
            nc = {}
            for k, v in st.cons.items():
                nc[subst(k, s, old)] = v
            st.cons = nc
        if iv != TOP:
            st.cons[s] = iv
        return s

    def sym(self, st, label, iv=TOP):
        s = ('s', label)
        if s not in st.cons and iv != TOP:
            st.cons[s] = iv
        return s

    def range(self, st, t):
        k = t[0]
        if k == 'k':
            return IV(t[1], t[1])
        if t in st.cons:
            return st.cons[t]
        if k == 'add':
            return self.range(st, t[1]).shift(t[2])
        if k == 'not':
            b = self.range(st, t[1])
            if b.single() == 0: return IV(1, 1)
            if not b.has(0): return IV(0, 0)
            return BOOL
        if k == 'cmp':
            r = self.cmp(st, t[1], t[2], t[3])
            return BOOL if r is None else IV(r, r)
        if k in ('addr', 'fn', 'lam'):
            return IV(1, None)
        if k == 'op':
            if t[1] in ('&', '%', '/', '>>'):
                a = self.range(st, t[2]); b = self.range(st, t[3])
                if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0: return NONNEG
            if t[1] in ('+', '*', '|', '<<'):
                a = self.range(st, t[2]); b = self.range(st, t[3])
                if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
                    if t[1] == '|' and (not a.has(0) or not b.has(0)): return IV(1, None)
                    if t[1] == '+' and (a.lo > 0 or b.lo > 0): return IV(1, None)
                    return NONNEG
        return TOP

    def cmp(self, st, op, a, b):
        """1/0/None for a op b"""
        if a == b:
            return 1 if op in ('==', '<=') else 0
        f = st.cons.get(('cmp', op, a, b))
        if f is not None:
            return f.single()
        if op == '==':
            f = st.cons.get(('cmp', op, b, a))
            if f is not None:
                return f.single()
        if a[0] == 'addr' and b[0] == 'addr' and op == '==':
            return None
        x = self.range(st, a); y = self.range(st, b)
        if op == '==':
            sx, sy = x.single(), y.single()
            if sx is not None and sy is not None: return 1 if sx == sy else 0
            if sx is not None and not y.has(sx): return 0
            if sy is not None and not x.has(sy): return 0
            if x.hi is not None and y.lo is not None and x.hi < y.lo: return 0
            if y.hi is not None and x.lo is not None and y.hi < x.lo: return 0
            # facts
            for o in ('<',):
                if st.cons.get(('cmp', o, a, b), BOOL).single() == 1 or st.cons.get(('cmp', o, b, a), BOOL).single() == 1: return 0
            return None
        strict = op == '<'
        if x.hi is not None and y.lo is not None:
            if x.hi < y.lo or (not strict and x.hi <= y.lo): return 1
        if x.lo is not None and y.hi is not None:
            if x.lo > y.hi or (strict and x.lo >= y.hi): return 0
        # facts about the reverse comparison:  b < a  => not (a <= b);  b <= a => not (a < b)
        r = st.cons.get(('cmp', '<' if not strict else '<=', b, a))
        if r is not None and r.single() is not None:
            return 1 - r.single()
        if not strict:
            r = st.cons.get(('cmp', '<', a, b))
            if r is not None and r.single() == 1: return 1
            r = st.cons.get(('cmp', '==', a, b)) or st.cons.get(('cmp', '==', b, a))
            if r is not None and r.single() == 1: return 1
        else:
            r = st.cons.get(('cmp', '<=', a, b))
            if r is not None and r.single() == 0: return 0
            r = st.cons.get(('cmp', '==', a, b)) or st.cons.get(('cmp', '==', b, a))
            if r is not None and r.single() == 1: return 0
        return None

    def restrict(self, st, t, iv):
        """meet range of term t with iv; returns False if infeasible"""
        k = t[0]
        if k == 'k':
            return iv.has(t[1])
        if k == 'add':
            return self.restrict(st, t[1], iv.shift(-t[2]))
        cur = self.range(st, t)
        m = cur.meet(iv)
        if m.empty():
            return False
        if m != cur:
            if k in ('cmp', 'not'):
                s = m.single()
                if s is not None:
                    return self.assume(st, t, bool(s))
                return True
            st.cons[t] = m
        return True

    def assume(self, st, t, truth):
        """Refines st in place; returns False if infeasible."""
        k = t[0]
        if k == 'k':
            return bool(t[1]) == truth
        if k == 'not':
            return self.assume(st, t[1], not truth)
        if k in ('addr', 'fn', 'lam', 'str'):
            return truth
        if k == 'cmp':
            _, op, a, b = t
            r = self.cmp(st, op, a, b)
            if r is not None:
                return bool(r) == truth
            x = self.range(st, a); y = self.range(st, b)
            if op == '==':
                if truth:
                    if not self.restrict(st, a, y) or not self.restrict(st, b, x): return False
                else:
                    if y.single() is not None:
                        c = self.range(st, a).exclude(y.single())
                        if c.empty() or not self.restrict(st, a, c): return False
                    if x.single() is not None:
                        c = self.range(st, b).exclude(x.single())
                        if c.empty() or not self.restrict(st, b, c): return False
            else:
                lt = op == '<'
                if truth:
                    if y.hi is not None and not self.restrict(st, a, IV(None, y.hi - (1 if lt else 0))): return False
                    if x.lo is not None and not self.restrict(st, b, IV(x.lo + (1 if lt else 0), None)): return False
                else:  # a >= b (for <) or a > b (for <=)
                    d = 0 if lt else 1
                    if y.lo is not None and not self.restrict(st, a, IV(y.lo + d, None)): return False
                    if x.hi is not None and not self.restrict(st, b, IV(None, x.hi - d)): return False
            if y.single() is None and x.single() is None:
                st.cons[t] = IV(int(truth), int(truth))
            return True
        cur = self.range(st, t)
        if truth:
            m = cur.exclude(0)
        else:
            m = cur.meet(IV(0, 0))
        if m.empty():
            return False
        if m != cur or k == 'op':
            st.cons[t] = m
        return True

    # ---- memory ---------------------------------------------------------------
    def read(self, st, fr, loc, typ=None, n=None):
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'f':
            # sub-object of a structure with known aggregate value
            pass
        v = self.pl.initial(self, fr, st, loc)
        if v is not None:
            return v
        # value at first read
        return self.sym(st, ('init', loc), type_iv(typ))

    def write(self, st, fr, n, loc, val):
        # sub-objects of the overwritten object are forgotten
        for k in [k for k in st.store if k[0] in ('f', 'e') and self.within(k, loc)]:
            del st.store[k]
        if loc[0] == 'e':
            # weak update: one of several elements
            old = st.store.get(loc)
            if old is not None and old != val:
                val = self.fresh(st, ('elem', loc))
        st.store[loc] = val
        self.pl.on_assign(self, st, fr, n, loc, val)

    def within(self, loc, base):
        while loc[0] in ('f', 'e'):
            loc = loc[1]
            if loc == base:
                return True
        return False

    def havoc(self, st, fr, label, loc, typ=None):
        for k in [k for k in st.store if self.within(k, loc)]:
            if self.pl.sticky(self, st, k, st.store[k]): continue
            st.store[k] = self.fresh(st, ('hv', label, k))
        # unread fields: their ('init', ..) symbols are no longer valid
        for k in [k for k in st.cons if isinstance(k, tuple) and k[0] == 's' and isinstance(k[1], tuple) and k[1][0] == 'init' and (k[1][1] == loc or self.within(k[1][1], loc))]:
            l2 = k[1][1]
            if l2 not in st.store and not self.pl.sticky(self, st, l2, k):
                st.store[l2] = self.fresh(st, ('hv', label, l2))
        st.store[loc] = self.fresh(st, ('hv', label, loc), type_iv(typ))

    # ---- expressions ------------------------------------------------------------
    def lv(self, st, fr, n):
        """location denoted by a glvalue expression"""
        f = fr.f
        nd = f.nodes[n]
        k = nd["k"]
        if k == "DeclRefExpr":
            dk = nd.get("dk")
            if dk in ("local", "parm", "binding"):
                return self.var(st, fr, nd["d"])
            if dk == "static":
                return ('g', f.qn + "::" + nd["n"])
            if dk == "func":
                return ('fnloc', f.fn(n)["key"])
            return ('g', nd.get("qn", nd["n"]))
        if k == "MemberExpr":
            b = nd["c"][0]
            if nd.get("dk") == "staticmember":
                return ('g', nd["qn"])
            if nd.get("arrow"):
                base = self.deref(self.ev(st, fr, b))
            else:
                base = self.lv(st, fr, b)
            return ('f', base, nd["n"])
        if k == "CXXThisExpr":
            return fr.this
        if k == "ArraySubscriptExpr":
            b = nd["c"][0]
            t = f.type(b) or ""
            if f.nodes[b].get("lv") and (t.endswith("]")):
                return ('e', self.lv(st, fr, b))
            v = self.ev(st, fr, b)
            return ('e', self.deref(v))
        if k == "UnaryOperator":
            if nd["op"] == "*":
                return self.deref(self.ev(st, fr, nd["c"][0]))
            return self.lv(st, fr, nd["c"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if nd["op"] == ",":
                return self.lv(st, fr, nd["c"][1])
            return self.lv(st, fr, nd["c"][0])
        if k == "ConditionalOperator":
            br = st.ev.get(('br', fr.id, n))
            if br is not None:
                return self.lv(st, fr, nd["c"][1 if br else 2])
            return ('t', fr.id, n)
        if k in CALLS:
            v = self.ev(st, fr, n)
            if nd.get("lv"):
                return self.deref(v)
            return ('t', fr.id, n)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "CXXDynamicCastExpr"):
            if nd.get("lv") or f.nodes[nd["c"][0]].get("lv") or True:
                return self.lv(st, fr, nd["c"][0])
        return ('t', fr.id, n)

    def var(self, st, fr, did):
        l = ('v', fr.id, did)
        b = st.store.get(('bind', l))
        if b is not None:
            return b[1]
        # captured variable: look in enclosing frames
        if l not in st.store and fr.lamcaps is not None:
            c = fr.lamcaps.get(did)
            if c is not None:
                return c
        return l

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        return ('d', v)

    def addr_of(self, loc):
        if loc[0] == 'd':
            return loc[1]
        if loc[0] == 'fnloc':
            return ('fn', loc[1])
        return ('addr', loc)

    def is_class(self, t):
        if not t:
            return False
        if t.endswith(("*", "&", "]")) or t.endswith("*const"):
            return False
        t = t.replace("const ", "").strip()
        base = t.split("<")[0]
        return base not in ("bool", "char", "int", "unsigned int", "unsigned", "long", "unsigned long", "short", "unsigned short",
                            "unsigned char", "signed char", "float", "double", "long double", "wchar_t", "char8_t", "char16_t",
                            "char32_t", "long long", "unsigned long long", "void", "std::nullptr_t", "__int128", "unsigned __int128") and t not in self.prog.enums_by_type

    def ev(self, st, fr, n):
        """value (term) of expression n"""
        if n is None or n < 0:
            return ('s', ('none',))
        f = fr.f
        r = st.ev.get((fr.id, n))
        if r is not None:
            return r
        nd = f.nodes[n]
        k = nd["k"]
        if "v" in nd and k not in CALLS:
            return ('k', int(nd["v"]))
        if nd.get("null"):
            return ZERO
        if k == "DeclRefExpr":
            if nd.get("dk") == "func":
                return ('fn', f.fn(n)["key"])
            loc = self.lv(st, fr, n)
            self.pl.on_read(self, st, fr, n, loc)
            return self.read(st, fr, loc, f.type(n), n)
        if k == "MemberExpr":
            if nd.get("dk") == "method":
                return ('fn', f.fn(n)["key"])
            loc = self.lv(st, fr, n)
            self.pl.on_read(self, st, fr, n, loc)
            return self.read(st, fr, loc, f.type(n), n)
        if k == "CXXThisExpr":
            return self.addr_of(fr.this)
        if k == "ArraySubscriptExpr":
            loc = self.lv(st, fr, n)
            return self.read(st, fr, loc, f.type(n), n)
        if k == "UnaryOperator":
            op = nd["op"]; c = nd["c"][0]
            if op == "!":
                return self.mk_not(self.ev(st, fr, c))
            if op == "&":
                return self.addr_of(self.lv(st, fr, c))
            if op == "*":
                loc = self.lv(st, fr, n)
                return self.read(st, fr, loc, f.type(n), n)
            if op == "-":
                v = self.ev(st, fr, c)
                return self.mk_op(st, fr, n, '-', ZERO, v)
            if op == "+":
                return self.ev(st, fr, c)
            if op in ("++", "--"):
                return self.read(st, fr, self.lv(st, fr, c), f.type(n), n)
            return self.sym(st, ('x', fr.id, n), type_iv(f.type(n)))
        if k == "BinaryOperator":
            op = nd["op"]; a, b = nd["c"][0], nd["c"][1]
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.mk_cmp(op, self.ev(st, fr, a), self.ev(st, fr, b))
            if op == "&&":
                br = st.ev.get(('br', fr.id, n))
                if br == 0: return ZERO
                if br == 1: return self.ev(st, fr, b)
                va, vb = self.ev(st, fr, a), self.ev(st, fr, b)
                return self.mk_and(st, fr, n, va, vb)
            if op == "||":
                br = st.ev.get(('br', fr.id, n))
                if br == 1: return ONE
                if br == 0: return self.ev(st, fr, b)
                va, vb = self.ev(st, fr, a), self.ev(st, fr, b)
                return self.mk_not(self.mk_and(st, fr, n, self.mk_not(va), self.mk_not(vb)))
            if op == ",":
                return self.ev(st, fr, b)
            if op == "=":
                return self.read(st, fr, self.lv(st, fr, a), f.type(n), n)
            if op in (".*", "->*"):
                return self.sym(st, ('x', fr.id, n), type_iv(f.type(n)))
            return self.mk_op(st, fr, n, op, self.ev(st, fr, a), self.ev(st, fr, b))
        if k == "ConditionalOperator":
            br = st.ev.get(('br', fr.id, n))
            if br is not None:
                return self.ev(st, fr, nd["c"][1 if br else 2])
            return self.sym(st, ('x', fr.id, n), type_iv(f.type(n)))
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "CXXDynamicCastExpr"):
            c = nd["c"][0]
            v = self.ev(st, fr, c)
            ck = nd.get("ck")
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                return self.to_bool(v)
            if ck in ("UserDefinedConversion",):
                return v
            if ck == "IntegralCast":
                # sign-changing casts keep the identity but a negative constant becomes positive
                t = type_iv(f.type(n))
                if v[0] == 'k' and t == NONNEG and v[1] < 0:
                    return self.sym(st, ('x', fr.id, n), NONNEG)
                return v
            return v
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr" or k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return ZERO
        if k == "StringLiteral":
            return ('str', nd.get("s", ""))
        if k == "LambdaExpr":
            fi = f.fn(n)
            caps = []
            for c in nd.get("caps", ()):
                if "id" in c:
                    caps.append((c["id"], self.var(st, fr, c["id"])))
            return ('lam', fi["key"] if fi else None, fr.id, tuple(caps), fr.this)
        if k == "InitListExpr":
            cs = nd.get("c", ())
            if len(cs) == 1 and not self.is_class(f.type(n)):
                return self.ev(st, fr, cs[0])
            if not cs:
                return ZERO
            if len(cs) <= 4:
                return ('tup',) + tuple(self.ev(st, fr, c) for c in cs)
            return self.sym(st, ('x', fr.id, n), type_iv(f.type(n)))
        if k in CALLS or k in CTORS:
            return self.sym(st, ('call', fr.id, n), type_iv(f.type(n)))
        if k == "CXXNewExpr":
            return self.sym(st, ('new', fr.id, n), IV(1, None))
        return self.sym(st, ('x', fr.id, n), type_iv(f.type(n)))

    def to_bool(self, v):
        if v[0] in ('cmp', 'not'):
            return v
        if v[0] == 'k':
            return ('k', int(v[1] != 0))
        return ('not', ('cmp', '==', v, ZERO))

    def mk_not(self, v):
        if v[0] == 'k':
            return ('k', int(not v[1]))
        if v[0] == 'not':
            return self.to_bool(v[1]) if v[1][0] not in ('cmp', 'not') else v[1]
        return ('not', v)

    def mk_and(self, st, fr, n, a, b):
        ra, rb = self.range(st, a), self.range(st, b)
        if ra.single() == 0 or rb.single() == 0: return ZERO
        if not ra.has(0): return b
        if not rb.has(0): return a
        return self.sym(st, ('x', fr.id, n), BOOL)

    def mk_cmp(self, op, a, b):
        if op == "==": return ('cmp', '==', a, b)
        if op == "!=": return ('not', ('cmp', '==', a, b))
        if op == "<": return ('cmp', '<', a, b)
        if op == ">": return ('cmp', '<', b, a)
        if op == "<=": return ('cmp', '<=', a, b)
        return ('cmp', '<=', b, a)

    def mk_op(self, st, fr, n, op, a, b):
        if op == '+':
            if b[0] == 'k' and abs(b[1]) <= 64:
                if b[1] == 0: return a
                if a[0] != 'add' and a[0] != 'k' and depth(a) < 6: return ('add', a, b[1])
            if a[0] == 'k' and a[1] == 0: return b
        if op == '-':
            if b == ZERO: return a
            if b[0] == 'k' and a[0] not in ('add', 'k') and abs(b[1]) <= 64 and depth(a) < 6: return ('add', a, -b[1])
            if a == b: return ZERO
        if a[0] != 'k' or b[0] != 'k':
            if depth(a) < 5 and depth(b) < 5:
                return ('op', op, a, b)
        return self.sym(st, ('x', fr.id, n), type_iv(fr.f.type(n)))

    # ---- running a function -------------------------------------------------------
    def run(self, f, st=None, this=('this',), bind=None, fid=(), dep=0, chain=(), lamcaps=None, up=None):
        """Returns list of (kind, state, value): kind in return/throw/noreturn."""
        st = st or State()
        fr = Frame(f, fid, this, dep, chain + (f.key,), up)
        fr.lamcaps = lamcaps
        if bind:
            for did, (how, v) in bind.items():
                if how == 'ref':
                    st.store[('bind', ('v', fid, did))] = ('addr', v)
                else:
                    st.store[('v', fid, did)] = v
                    t = next((f.T(p["t"]) for p in f.params if p["id"] == did), None)
                    if self.pl.param_dtors and self.has_dtor(f, t): st.scopes = st.scopes + (('v', fid, did, t),)
        cfg = f.cfg()
        if cfg is None:
            raise Budget(f"no control flow graph for {f.full}")
        exits = []
        seen = {}
        work = [(f.entry, st)]
        while work:
            bid, s = work.pop()
            key = s.key()
            if key in seen.setdefault(bid, set()):
                continue
            seen[bid].add(key)
            self.pairs += 1
            if self.pairs > self.pl.max_pairs:
                raise Budget(f"too many abstract states in {f.full}")
            for item in self.block(fr, cfg[bid], s):
                if item[0] == 'goto':
                    self.gc(fr, item[2], item[1])
                    work.append((item[1], item[2]))
                else:
                    exits.append(item)
        # drop frame-local data
        out = []
        seenx = set()
        if self.pl.param_dtors and bind:
            exits = [(kind, s2, v) for kind, s, v in exits for s2 in (self.destroy(fr, s.copy(), lambda x: True) if kind == 'return' and any(x[1] == fid for x in s.scopes) else [s])]
        for kind, s, v in exits:
            if kind == 'throw' and f.d.get("noexcept"):
                kind = 'noreturn'       # std::terminate()
            s = s.copy()
            if not self.keeps_frame(fid, v):
                s.store = {k: x for k, x in s.store.items() if not self.of_frame(k, fid)}
            s.ev = {k: x for k, x in s.ev.items() if not (k[0] == fid or (k[0] == 'br' and k[1] == fid))}
            s.scopes = tuple(x for x in s.scopes if x[1] != fid)
            kk = (kind, s.key(), v)
            if kk not in seenx:
                seenx.add(kk); out.append((kind, s, v))
        return out

    # ---- garbage: dead locals and facts about values nothing refers to -----------------
    def live(self, f):
        r = self._live.get(f.key)
        if r is None:
            cfg = f.cfg()
            use = {}
            always = set()
            for i, n in enumerate(f.nodes):
                if n["k"] == "LambdaExpr":
                    for c in n.get("caps", ()):
                        if "id" in c: always.add(c["id"])
                if n["k"] == "UnaryOperator" and n.get("op") == "&":
                    for x in f.walk(i):
                        if f.nodes[x]["k"] == "DeclRefExpr": always.add(f.nodes[x]["d"])
                if n["k"] == "DeclStmt":
                    for d in n.get("decls", ()):
                        if d.get("ref") and d.get("init", -1) >= 0:
                            for x in f.walk(d["init"]):
                                if f.nodes[x]["k"] == "DeclRefExpr": always.add(f.nodes[x]["d"])
                        for b in d.get("bindings", ()):
                            always.add(b["id"]); always.add(d["id"])
                if n["k"] == "CXXForRangeStmt":
                    for x in f.walk(i):
                        if f.nodes[x]["k"] == "DeclStmt":
                            for d in f.nodes[x].get("decls", ()):
                                if d["n"].startswith("__"): always.add(d["id"])
            for p in f.params:
                t = f.T(p["t"]) or ""
                if t.endswith("&"): always.add(p["id"])
            memo = {}

            def refs(n):
                return {f.nodes[x]["d"] for x in f.walk(n) if f.nodes[x]["k"] == "DeclRefExpr"}
            for bid, b in cfg.items():
                u = set()
                for el in b["e"]:
                    if isinstance(el, int):
                        u |= refs(el)
                    else:
                        if "dtor" in el: u.add(el["dtor"])
                        if "e" in el: u |= refs(el["e"])
                t = b.get("term")
                if t and t.get("c", -1) >= 0: u |= refs(t["c"])
                use[bid] = u
            live = {b: set(u) for b, u in use.items()}
            # handlers may be entered from anywhere
            hand = set()
            for bid, b in cfg.items():
                l = b.get("label")
                if l and l["k"] == "CXXCatchStmt": hand.add(bid)
            ch = True
            while ch:
                ch = False
                for bid, b in cfg.items():
                    n = len(live[bid])
                    for x in b["s"]:
                        if x >= 0: live[bid] |= live[x]
                    for h in hand: live[bid] |= live[h]
                    if len(live[bid]) != n: ch = True
            r = (live, always)
            self._live[f.key] = r
        return r

    def gc(self, fr, st, bid):
        self.pl.prune(self, fr, st)
        live, always = self.live(fr.f)
        lv = live[bid]
        dead = [k for k in st.store if k[0] == 'v' and k[1] == fr.id and k[2] not in lv and k[2] not in always]
        for k in dead:
            del st.store[k]
        if dead:
            ds = set(dead)
            for k in [k for k in st.store if k[0] in ('f', 'e') and self.root_loc(k) in ds]:
                del st.store[k]
        # unreferenced facts
        used = set()
        for d in (st.store, st.ev, st.ts):
            for k, v in d.items():
                if isinstance(v, tuple): syms(v, used)
                if isinstance(k, tuple): syms(k, used)
        nc = {}
        for k, v in st.cons.items():
            ss = set()
            syms(k, ss)
            ok = True
            for x in ss:
                if x in used or self.pl.pinned(x): continue
                lab = x[1]
                if isinstance(lab, tuple) and lab and lab[0] == 'init' and lab[1] not in st.store:
                    l2 = lab[1]
                    r = self.root_loc(l2)
                    if r[0] == 'v' and r[1] == fr.id and r[2] not in lv and r[2] not in always:
                        ok = False; break
                    continue
                ok = False; break
            if ok: nc[k] = v
        if len(nc) != len(st.cons): st.cons = nc

    def root_loc(self, loc):
        while loc[0] in ('f', 'e'):
            loc = loc[1]
        return loc

    def keeps_frame(self, fid, v):
        return fid == () or (isinstance(v, tuple) and v and v[0] in ('lam', 'addr'))

    def of_frame(self, loc, fid):
        while True:
            if loc[0] in ('v', 't'):
                return loc[1] == fid
            if loc[0] in ('f', 'e', 'bind', 'd'):
                loc = loc[1]
                if not isinstance(loc, tuple): return False
                continue
            return False

    def block(self, fr, b, st):
        """Executes a basic block; yields ('goto', block, state) and exits."""
        f = fr.f
        if b["id"] == f.exit:
            rv = st.ev.get((fr.id, 'ret'))
            yield ('return', st, rv)
            return
        states = [st.copy()]
        roots = self.stmt_roots(f)
        for el in b["e"]:
            nxt = []
            for s in states:
                for r in self.element(fr, s, el):
                    if r[0] == 'ok':
                        nxt.append(r[1])
                    elif r[0] == 'throw':
                        yield from self.unwind(fr, r[1], r[2], r[3])
                    else:
                        yield r
            if isinstance(el, int) and el in roots:
                for s in nxt:
                    if any(k[0] == fr.id or (k[0] == 'br' and k[1] == fr.id) for k in s.ev):
                        s.ev = {k: v for k, v in s.ev.items() if not ((k[0] == fr.id and k[1] != 'ret') or (k[0] == 'br' and k[1] == fr.id))}
            # merge duplicates
            if len(nxt) > 1:
                d = {}
                for s in nxt: d[s.key()] = s
                nxt = list(d.values())
            states = nxt
            if not states:
                return
        term = b.get("term")
        succ = b["s"]
        for s in states:
            if not term or term["k"] in ("GotoStmt", "BreakStmt", "ContinueStmt", "CXXTryStmt"):
                if term and term["k"] == "CXXTryStmt":
                    continue
                if b.get("noret"):
                    yield ('noreturn', s, None)
                    continue
                for x in succ:
                    if x >= 0: yield ('goto', x, s)
                continue
            yield from self.branch(fr, b, term, succ, s)

    def branch(self, fr, b, term, succ, s):
        f = fr.f
        k = term["k"]
        if k == "SwitchStmt":
            v = self.ev(s, fr, term["c"])
            cfg = f.cfg()
            others = []
            for x in succ:
                if x < 0: continue
                l = cfg[x].get("label")
                if l and l["k"] == "CaseStmt" and "v" in l:
                    others.append(int(l["v"]))
            for x in succ:
                if x < 0: continue
                l = cfg[x].get("label")
                s2 = s.copy()
                self.clear(s2, fr)
                if l and l["k"] == "CaseStmt" and "v" in l:
                    if not self.assume(s2, ('cmp', '==', v, ('k', int(l["v"]))), True): continue
                else:
                    ok = True
                    for c in others:
                        if not self.assume(s2, ('cmp', '==', v, ('k', c)), False): ok = False; break
                    if not ok: continue
                yield ('goto', x, s2)
            return
        if "c" not in term or term["c"] < 0 or len(succ) < 2:
            for x in succ:
                if x >= 0:
                    s2 = s.copy(); self.clear(s2, fr)
                    yield ('goto', x, s2)
            return
        c = term["c"]
        v = self.ev(s, fr, c)
        sc = k in ("BinaryOperator", "ConditionalOperator")
        for i, truth in ((0, True), (1, False)):
            x = succ[i]
            s2 = s.copy()
            if not self.assume(s2, v, truth):
                continue
            if x < 0:
                continue
            if sc:
                s2.ev[('br', fr.id, term["n"])] = int(truth)
            else:
                self.pl.on_branch(self, s2, fr, c, truth)
                self.clear(s2, fr)
            yield ('goto', x, s2)

    def clear(self, s, fr):
        s.ev = {k: v for k, v in s.ev.items() if not ((k[0] == fr.id and k[1] != 'ret') or (k[0] == 'br' and k[1] == fr.id))}

    def unwind(self, fr, s, typ, node):
        """exception of type typ (None: unknown) raised at node"""
        f = fr.f
        tm = self.try_map(f)
        t = tm.get(node)
        states = [s]
        while True:
            # destroy scope variables created inside the try block (or all)
            if t is None:
                for s1 in states:
                    for s2 in self.destroy(fr, s1, lambda x: True):
                        yield ('throw', s2, typ)
                return
            inside = set(f.walk(f.nodes[t]["c"][0]))
            ids = set()
            for i in inside:
                if f.nodes[i]["k"] == "DeclStmt":
                    ids.update(d["id"] for d in f.nodes[i].get("decls", ()))
            nxt = []
            for s1 in states:
                nxt.extend(self.destroy(fr, s1, lambda x: x[2] in ids))
            states = nxt
            stop = False
            cb = self.catch_blocks(f)
            for h in f.nodes[t]["c"][1:]:
                hn = f.nodes[h]
                m = self.catches(hn, f, typ)
                if m:
                    for s1 in states:
                        s2 = s1.copy()
                        self.clear(s2, fr)
                        s2.ts[('exc', fr.id)] = typ if typ is not None else (f.T(hn["ct"]) if "ct" in hn else None)
                        self.pl_catch(fr, s2, h, typ)
                        if h in cb:
                            yield ('goto', cb[h], s2)
                    if m == 'always':
                        stop = True
                        break
            if stop:
                return
            t = tm.get(t)

    def pl_catch(self, fr, s, h, typ):
        pass

    def catches(self, hn, f, typ):
        if hn.get("all"):
            return 'always'
        ct = (f.T(hn.get("ct")) or "").replace("const ", "").rstrip(" &")
        if typ is None:
            return 'maybe'
        ty = typ.replace("const ", "").rstrip(" &")
        if ty == ct:
            return 'always'
        if ct == "std::exception" and ty.startswith("std::"):
            return 'always'
        if self.derives(ty, ct):
            return 'always'
        return None

    def derives(self, a, b, seen=None):
        r = self.prog.records.get(a)
        if not r:
            std = {"std::system_error": "std::runtime_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
                   "std::invalid_argument": "std::logic_error", "std::overflow_error": "std::runtime_error"}
            while a in std:
                a = std[a]
                if a == b: return True
            return False
        for x in r.get("bases", ()):
            q = r["tu"].types[x["t"]]
            if q == b or self.derives(q, b): return True
        return False

    def destroy(self, fr, s, pred):
        vs = [x for x in s.scopes if x[1] == fr.id and pred(x)]
        states = [s]
        for x in reversed(vs):
            nxt = []
            for s1 in states:
                s2 = s1.copy()
                s2.scopes = tuple(y for y in s2.scopes if y != x)
                nxt.extend(self.pl.on_dtor(self, s2, fr, ('v', fr.id, x[2]), x[3], None))
            states = nxt
        return states

    def element(self, fr, st, el):
        f = fr.f
        if isinstance(el, dict):
            if "dtor" in el:
                t = f.T(el["t"])
                loc = ('v', fr.id, el["dtor"])
                st.scopes = tuple(x for x in st.scopes if not (x[1] == fr.id and x[2] == el["dtor"]))
                info = f.tu.fns.get(el["fn"]) if "fn" in el else None
                return [('ok', s) for s in self.pl.on_dtor(self, st, fr, loc, t, info)]
            if "init" in el:
                v = self.ev(st, fr, el["e"])
                loc = ('f', fr.this, el["init"])
                t = None
                en = f.nodes[el["e"]]
                if en["k"] in CTORS:
                    return [('ok', st)]
                self.write(st, fr, el["e"], loc, v)
                return [('ok', st)]
            return [('ok', st)]
        nd = f.nodes[el]
        k = nd["k"]
        self.pl.on_stmt(self, st, fr, el)
        if k in CALLS or k in CTORS:
            if (fr.id, el) in st.ev:
                return [('ok', st)]
            return self.do_call(fr, st, el)
        if k == "BinaryOperator" and nd["op"] == "=":
            lhs, rhs = nd["c"]
            v = self.ev(st, fr, rhs)
            loc = self.lv(st, fr, lhs)
            self.copy_fields(st, fr, rhs, loc, f.type(lhs))
            v = self.widen(st, fr, el, loc, v)
            self.write(st, fr, el, loc, v)
            return [('ok', st)]
        if k == "CompoundAssignOperator":
            lhs, rhs = nd["c"]
            loc = self.lv(st, fr, lhs)
            a = self.read(st, fr, loc, f.type(lhs)); b = self.ev(st, fr, rhs)
            ra, rb = self.range(st, a), self.range(st, b)
            iv = type_iv(f.type(lhs))
            op = nd["op"]
            if op == '+=' and ra.lo is not None and rb.lo is not None and ra.lo >= 0 and rb.lo >= 0:
                iv = IV(min(1, ra.lo + rb.lo), None)
            elif op == '|=' and ra.lo is not None and rb.lo is not None and ra.lo >= 0 and rb.lo >= 0:
                iv = IV(1 if (not ra.has(0) or not rb.has(0)) else 0, None)
            if f.type(lhs) == "bool" and op == '|=':
                iv = BOOL if iv.lo == 0 else IV(1, 1)
            v = self.fresh(st, ('upd', fr.id, el), iv)
            self.write(st, fr, el, loc, v)
            return [('ok', st)]
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            loc = self.lv(st, fr, nd["c"][0])
            a = self.read(st, fr, loc, f.type(nd["c"][0]))
            if nd.get("post"):
                st.ev[(fr.id, el)] = a
            ra = self.range(st, a)
            iv = type_iv(f.type(nd["c"][0]))
            if nd["op"] == "++" and ra.lo is not None and ra.lo >= 0:
                iv = IV(1, None)
            elif nd["op"] == "--" and ra.hi is not None and ra.hi <= 0:
                iv = IV(None, -1)
            v = self.fresh(st, ('upd', fr.id, el), iv)
            self.write(st, fr, el, loc, v)
            return [('ok', st)]
        if k == "DeclStmt":
            for d in nd.get("decls", ()):
                self.decl(fr, st, el, d)
            return [('ok', st)]
        if k == "ReturnStmt":
            v = None
            if nd.get("c"):
                c = nd["c"][0]
                rt = f.ret or ""
                if rt.endswith("&") and not rt.endswith("&&"):
                    v = self.addr_of(self.lv(st, fr, c))
                else:
                    v = self.ev(st, fr, c)
            self.pl.on_return(self, st, fr, el, v)
            if v is not None:
                st.ev[(fr.id, 'ret')] = v
            return [('ok', st)]
        if k == "CXXThrowExpr":
            typ = None
            if nd.get("c"):
                typ = f.type(nd["c"][0])
            else:
                typ = st.ts.get(('exc', fr.id))
            return [('throw', st, typ, el)]
        if k == "CXXNewExpr":
            st.ev[(fr.id, el)] = self.fresh(st, ('new', fr.id, el), IV(1, None))
            return [('ok', st)]
        return [('ok', st)]

    def widen(self, st, fr, n, loc, v):
        """values that grow through self-reference are cut off"""
        old = st.store.get(loc)
        if v[0] in ('add', 'op') and old is not None and (depth(v) > 5):
            r = self.range(st, v)
            lo = None if r.lo is None else min(r.lo, 1) if r.lo >= 0 else None
            return self.fresh(st, ('wid', fr.id, n), IV(lo, None))
        if v[0] == 'add' and old is not None and contains(v, old):
            r = self.range(st, v)
            lo = None if r.lo is None else min(r.lo, 1) if r.lo >= 0 else None
            return self.fresh(st, ('wid', fr.id, n), IV(lo, None))
        return v

    def copy_fields(self, st, fr, src, dst, typ):
        f = fr.f
        sn = f.nodes[src]
        if not self.is_class(f.type(src)):
            return
        if not sn.get("lv") and sn["k"] not in ("DeclRefExpr", "MemberExpr"):
            return
        sl = self.lv(st, fr, src)
        for k, v in list(st.store.items()):
            if k[0] in ('f', 'e') and self.within(k, sl):
                st.store[self.rebase(k, sl, dst)] = v

    def rebase(self, loc, a, b):
        if loc == a:
            return b
        return (loc[0], self.rebase(loc[1], a, b)) + loc[2:]

    def decl(self, fr, st, el, d):
        f = fr.f
        t = f.T(d["t"])
        loc = ('v', fr.id, d["id"])
        if d.get("static"):
            return
        init = d.get("init", -1)
        if d.get("ref"):
            if init >= 0:
                if f.nodes[init].get("lv") or f.nodes[init]["k"] in ("DeclRefExpr", "MemberExpr"):
                    st.store[('bind', loc)] = ('addr', self.lv(st, fr, init))
                else:
                    tl = ('t', fr.id, init)
                    st.store[tl] = self.ev(st, fr, init)
                    st.store[('bind', loc)] = ('addr', tl)
            return
        st.store.pop(('bind', loc), None)
        if init >= 0:
            k = f.nodes[init]["k"]
            if k in CTORS and (fr.id, init) not in st.ev:
                v = self.fresh(st, ('decl', fr.id, el, d["id"]))
            else:
                v = self.ev(st, fr, init)
            if k not in CTORS:
                self.copy_fields(st, fr, init, loc, t)
            for kk in [kk for kk in st.store if self.within(kk, loc)]:
                if k not in CTORS and not self.is_class(t):
                    del st.store[kk]
            st.store[loc] = v
        else:
            st.store[loc] = self.fresh(st, ('uninit', fr.id, d["id"]), type_iv(t))
        for b in d.get("bindings", ()):
            bl = ('v', fr.id, b["id"])
            st.store.pop(bl, None)
            if "b" in b:
                try:
                    st.store[('bind', bl)] = ('addr', self.lv(st, fr, b["b"]))
                except Exception:
                    pass
        if self.has_dtor(f, t):
            x = ('v', fr.id, d["id"], t)
            if x not in st.scopes:
                st.scopes = st.scopes + (x,)
        self.pl.on_decl(self, st, fr, el, loc, d)

    def has_dtor(self, f, t):
        return self.is_class(t)

    # ---- calls -------------------------------------------------------------------------
    def do_call(self, fr, st, n):
        f = fr.f
        nd = f.nodes[n]
        info = f.fn(n)
        k = nd["k"]
        argn = nd.get("args", [])
        obj = None
        if k in CTORS:
            tg = self.ctor_targets(f).get(n)
            if tg and tg[0] == "var":
                obj = ('v', fr.id, tg[1])
            elif tg and tg[0] == "field":
                obj = ('f', fr.this, tg[1])
            else:
                obj = ('t', fr.id, n)
        elif "obj" in nd:
            on = nd["obj"]
            me = f.nodes[nd["c"][0]] if nd.get("c") else {}
            ot = f.type(on) or ""
            if k == "CXXMemberCallExpr" and (ot.endswith("*") or ot.endswith("*const")):
                obj = self.deref(self.ev(st, fr, on))
            else:
                obj = self.lv(st, fr, on)
        res = self.pl.call(self, st, fr, n, info, obj, [None] * 0, argn)
        outs = []
        if res is not None:
            for s, v in res:
                if isinstance(v, tuple) and v and v[0] == 'throw':
                    outs.append(('throw', s, v[1], n))
                elif isinstance(v, tuple) and v and v[0] == 'noreturn':
                    outs.append(('noreturn', s, None))
                else:
                    if v is not None:
                        s.ev[(fr.id, n)] = v
                    outs.append(('ok', s))
            return outs
        # copies and moves of value-like objects
        if k in CTORS:
            sp = info.get("special") if info else None
            if sp in ("copyctor", "movector") and len(argn) >= 1:
                v = self.ev(st, fr, argn[0])
                if obj is not None and obj[0] != 't':
                    for kk in [kk for kk in st.store if self.within(kk, obj)]:
                        del st.store[kk]
                    self.copy_fields(st, fr, argn[0], obj, f.type(n))
                st.ev[(fr.id, n)] = v
                return self.maybe_throw(fr, st, n, info)
        if info and info.get("special") in ("copyassign", "moveassign") and obj is not None:
            v = self.ev(st, fr, argn[0])
            self.write(st, fr, n, obj, v)
            self.copy_fields(st, fr, argn[0], obj, f.type(argn[0]))
            st.ev[(fr.id, n)] = self.addr_of(obj)
            return self.maybe_throw(fr, st, n, info)
        qn = info["qn"] if info else None
        if qn in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::__addressof", "__builtin_addressof") and argn:
            st.ev[(fr.id, n)] = self.addr_of(self.lv(st, fr, argn[0]))
            return [('ok', st)]
        if qn == "__builtin_expect" and argn:
            st.ev[(fr.id, n)] = self.ev(st, fr, argn[0])
            return [('ok', st)]
        # closures
        target = None; lam = None
        if k == "CXXOperatorCallExpr" and nd.get("op") == "()" and obj is not None:
            v = st.store.get(obj)
            if v is None and obj[0] == 't':
                v = self.ev(st, fr, nd["obj"])
            if v is not None and v[0] == 'lam' and v[1] in self.prog.funcs:
                target = self.prog.funcs[v[1]]; lam = v
            elif v is not None and v[0] == 'lam' and info and info["key"] in self.prog.funcs:
                target = self.prog.funcs[info["key"]]; lam = v
        if target is None and info and info["key"] in self.prog.funcs:
            g = self.prog.funcs[info["key"]]
            if g.key not in fr.chain and fr.depth < self.pl.max_inline and self.pl.inline(self, fr, info, g) and g.cfg() is not None:
                target = g
        if target is not None and target.key not in fr.chain and fr.depth < self.pl.max_inline + 2:
            return self.inline_call(fr, st, n, info, target, obj, argn, lam)
        self.default_effects(fr, st, n, info, obj, argn)
        if info and info.get("noreturn"):
            if self.pl.exc and not info.get("noexcept") and not info.get("externc"):
                return [('throw', st, None, n)]
            return [('noreturn', st, None)]
        return self.maybe_throw(fr, st, n, info)

    def maybe_throw(self, fr, st, n, info):
        outs = [('ok', st)]
        if self.pl.exc and self.pl.may_throw(self, st, fr, n, info):
            s2 = st.copy()
            outs.append(('throw', s2, None, n))
        return outs

    def default_effects(self, fr, st, n, info, obj, argn):
        f = fr.f
        nd = f.nodes[n]
        k = nd["k"]
        ps = info["params"] if info else []
        tu = info["tu"] if info else None
        for i, a in enumerate(argn):
            if a < 0: continue
            if i < len(ps):
                pt = tu.types[ps[i]["t"]] if ps[i]["t"] >= 0 else ""
            else:
                pt = ""
            if pt.endswith("&") and not pt.endswith("&&") and not self.const_ref(pt):
                loc = self.lv(st, fr, a)
                self.havoc(st, fr, (fr.id, n, i), loc, pt[:-1].strip())
            elif pt.endswith("*") and not pt.startswith("const "):
                v = self.ev(st, fr, a)
                if v[0] == 'addr':
                    self.havoc(st, fr, (fr.id, n, i), v[1])
        if obj is not None and info is not None and not info.get("const") and k not in CTORS and not info.get("static") and not info.get("lambda"):
            self.havoc_obj(fr, st, n, info, obj)
        if k in CTORS:
            st.ev[(fr.id, n)] = self.fresh(st, ('call', fr.id, n))
            if obj is not None:
                for kk in [kk for kk in st.store if self.within(kk, obj)]:
                    del st.store[kk]
                st.store[obj] = st.ev[(fr.id, n)]
            return
        rt = tu.types[info["ret"]] if info and info["ret"] >= 0 else f.type(n)
        st.ev[(fr.id, n)] = self.fresh(st, ('call', fr.id, n), type_iv(f.type(n)) if not nd.get("lv") else IV(1, None))

    def const_ref(self, pt):
        b = pt[:-1].strip()
        if b.endswith("*") or b.endswith("*const"): return b.endswith("const")
        return b.startswith("const ") or b.endswith(" const")

    def havoc_obj(self, fr, st, n, info, obj):
        self.havoc(st, fr, (fr.id, n, 'obj'), obj)

    def inline_call(self, fr, st, n, info, g, obj, argn, lam=None):
        f = fr.f
        nd = f.nodes[n]
        fid = fr.id + ((f.key, n),)
        bind = {}
        s = st.copy()
        for i, p in enumerate(g.params):
            if i >= len(argn): break
            a = argn[i]
            pt = g.T(p["t"]) or ""
            if pt.endswith("&"):
                an = f.nodes[a]
                if an.get("lv") or an["k"] in ("DeclRefExpr", "MemberExpr") or (an["k"] in CALLS and (f.type(a) or "").endswith("&&")):
                    bind[p["id"]] = ('ref', self.lv(s, fr, a))
                elif an["k"] in CALLS and f.fn(a) and f.fn(a)["qn"] in ("std::move", "std::forward"):
                    bind[p["id"]] = ('ref', self.deref(self.ev(s, fr, a)))
                else:
                    tl = ('t', fr.id, a)
                    s.store[tl] = self.ev(s, fr, a)
                    bind[p["id"]] = ('ref', tl)
            else:
                bind[p["id"]] = ('val', self.ev(s, fr, a))
                tl = ('t', fr.id, a)
                for kk in [kk for kk in s.store if self.within(kk, tl)]:
                    s.store[self.rebase(kk, tl, ('v', fid, p["id"]))] = s.store.pop(kk)
        this = obj if obj is not None else ('none',)
        caps = None
        if lam is not None:
            caps = dict(lam[3])
            this = lam[4] if len(lam) > 4 else fr.this
        if nd["k"] in CTORS:
            for kk in [kk for kk in s.store if self.within(kk, obj)]:
                del s.store[kk]
        outs = []
        for kind, s2, v in self.run(g, s, this, bind, fid, fr.depth + 1, fr.chain, caps, fr):
            if kind == 'return':
                if nd["k"] in CTORS:
                    v = self.fresh(s2, ('call', fr.id, n))
                    s2.store[obj] = v
                s2.ev[(fr.id, n)] = v if v is not None else ('s', ('void',))
                outs.append(('ok', s2))
            elif kind == 'throw':
                outs.append(('throw', s2, v, n))
            else:
                outs.append(('noreturn', s2, None))
        return outs
