"""Which functions can let an exception escape, and which must not.

may_throw(f): least fixpoint over the call graph of the type-checked program:
  - a throw expression (or rethrow) outside every try block that ends in catch (...);
  - a call, outside such a try block, of something that may throw: a function with a body that may throw; a function without a
    visible body or a virtual function, unless it is declared noexcept, has C linkage, is a builtin, is defaulted, or is one of the
    standard library functions of NOTHROW (with arguments that cannot throw: lambdas handed to an algorithm count as called).
Roots that must not throw: functions declared noexcept, destructors, functions handed to C code as callbacks, thread bodies.
"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr", "CXXNewExpr"}

# Standard library functions that have no `noexcept` but cannot throw (given element operations that do not)
NOTHROW = re.compile(r"""^std::(
    copy_n|copy|copy_backward|move|move_backward|max|min|minmax|clamp|abs|sort|stable_sort|find|find_if|equal|lexicographical_compare|lower_bound|upper_bound|
    equal_range|fill|fill_n|swap|swap_ranges|reverse|rotate|remove|remove_if|unique|any_of|all_of|none_of|distance|next|prev|advance|accumulate|
    search|count|count_if|max_element|min_element|for_each|is_sorted|partition|ceil|floor|round|fmod|pow|sqrt|sin|cos|tan|atan2|log|exp|hypot|nextafter|trunc|ldexp|frexp|
    make_pair|pair::pair|tuple::tuple|less::operator\(\)|greater::operator\(\)|equal_to::operator\(\)|
    fpos::.*|chrono::.*|
    basic_streambuf::(pbump|gbump|eback|gptr|egptr|pbase|pptr|epptr|setg|setp)|
    ctype::(is|toupper|tolower|widen|narrow)|locale::classic|lock_guard::lock_guard|basic_streambuf::basic_streambuf|
    __ctype_abstract_base::is|
    ios_base::(flags|precision|width|setf|unsetf|getloc)|basic_ios::(rdstate|good|bad|fail|eof|fill|rdbuf|tie)|
    (map|set|multimap|multiset|unordered_map|unordered_set)::(find|count|contains|lower_bound|upper_bound)|
    unique_ptr::operator\[\]|unique_ptr::operator\*|
    (vector|basic_string|deque|map|set|list)::(pop_back|clear|operator\[\]|front|back|begin|end|size|empty|data)|vector::(erase)|basic_string_view::operator\[\]|
    optional::operator\*|optional::operator->|
    iter_swap|reverse_iterator::.*|move_iterator::.*|__normal_iterator::.*|operator[-+<>=!]+|forward|declval|
    initializer_list::.*|ratio.*|char_traits::.*|isnan|isinf|isfinite|signbit|copysign|fabs|lround|llround|lrint|log2|log10|cbrt|remainder|modf|ilogb|scalbn|asin|acos|atan|
    shared_ptr::(reset|operator\[\])|atomic.*|error_code::assign|generic_category|system_category
    )$""", re.X)


class Site:
    """reason why a function may throw"""
    __slots__ = ("what", "node", "callee")

    def __init__(self, what, node, callee=None):
        self.what = what; self.node = node; self.callee = callee


def guarded(f):
    """node -> is it inside a try block that catches everything (in this function)?"""
    out = {}
    st = [(f.d["root"], False)]
    for d in f.d.get("inits", ()):
        if d.get("e", -1) >= 0: st.append((d["e"], False))
    while st:
        i, p = st.pop()
        if i < 0 or i in out: continue
        n = f.nodes[i]
        if n["k"] == "CXXTryStmt":
            ca = any(f.nodes[h].get("all") for h in n["c"][1:])
            out[i] = p
            st.append((n["c"][0], p or ca))
            for h in n["c"][1:]: st.append((h, p))
            continue
        out[i] = p
        if n["k"] in ("LambdaExpr", "UnaryExprOrTypeTraitExpr", "CXXNoexceptExpr", "CXXTypeidExpr"): continue
        for c in n.get("c", ()): st.append((c, p))
    return out


def lambda_keys(f, i):
    n = f.nodes[i]
    if n["k"] == "LambdaExpr":
        g = f.fn(i)
        if g: yield g["key"]
        for s in n.get("gspecs", ()): yield f.tu.fns[s]["key"]


def functors(f, a, env):
    """functions that may be called through argument node a (lambdas, local variables holding lambdas)"""
    for x in f.walk(a):
        n = f.nodes[x]
        if n["k"] == "LambdaExpr": yield from lambda_keys(f, x)
        elif n["k"] == "DeclRefExpr" and n.get("d") in env: yield from env[n["d"]]


def lambda_env(f):
    """local variable -> lambdas in its initializer"""
    env = {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "DeclStmt":
            for d in n.get("decls", ()):
                if d.get("init", -1) is not None and d.get("init", -1) >= 0:
                    ks = [k for x in f.walk(d["init"]) for k in lambda_keys(f, x)]
                    if ks: env[d["id"]] = ks
    return env


def function_value(f, a, env):
    """keys of the functions that the value of expression a is (not the functions that are called to compute it)"""
    while a is not None and a >= 0:
        n = f.nodes[a]; k = n["k"]
        if k == "LambdaExpr": return list(lambda_keys(f, a))
        if k == "DeclRefExpr":
            g = f.fn(a)
            return [g["key"]] if g else env.get(n.get("d"), [])
        if k == "CXXMemberCallExpr" and n.get("obj", -1) is not None and n.get("obj", -1) >= 0:
            g = f.fn(a)
            if not g or g.get("kind") != "conv": return []
            a = n["obj"]; continue
        if k == "CallExpr":
            g = f.fn(a)
            if not g or g["qn"] not in ("std::move", "std::forward") or not n.get("args"): return []
            a = n["args"][0]; continue
        if k == "ConditionalOperator":
            return function_value(f, n["c"][1], env) + function_value(f, n["c"][2], env)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "UnaryOperator", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXConstructExpr"):
            cs = [x for x in n.get("c", ()) if x >= 0]
            if len(cs) != 1: return []
            a = cs[0]; continue
        return []
    return []


class Throwing:
    def __init__(self, prog, exempt=()):
        self.prog = prog; self.exempt = dict(exempt); self.used = set()
        self.edges = {}     # key -> [(site)]
        self.reason = {}    # key -> Site
        self.ncalls = 0
        for f in prog.funcs.values(): self.scan(f)
        self.fix()

    def has_value_tests(self, f):
        """objects (by spelling) on which has_value()/operator bool is tested in f"""
        out = set()
        for i, n in enumerate(f.nodes):
            if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
                g = f.fn(i)
                if g and g["qn"] in ("std::optional::has_value", "std::optional::operator bool", "std::optional::emplace", "std::optional::operator="):
                    o = n.get("obj", -1)
                    if o is None or o < 0: o = (n.get("args") or [-1])[0]
                    if o >= 0: out.add(self.spell(f, o))
        return out

    def spell(self, f, i):
        n = f.nodes[i]
        r = [n["k"] if n["k"] not in ("ImplicitCastExpr", "ParenExpr", "DeclRefExpr") else "", str(n.get("n", "")), str(n.get("d", ""))]
        for c in n.get("c", ()):
            if c >= 0: r.append(self.spell(f, c))
        return "/".join(r)

    def scan(self, f):
        g = guarded(f)
        env = lambda_env(f)
        hv = None
        final = set()   # operands of calls that never return: evaluated just before the end of the process
        for i, n in enumerate(f.nodes):
            if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
                c = f.fn(i)
                if c and c.get("noreturn") and c.get("noexcept"):
                    for a in n.get("args", ()):
                        if a >= 0: final.update(f.walk(a))
        out = []
        for i, p in g.items():
            if p: continue
            n = f.nodes[i]; k = n["k"]
            if k == "CXXThrowExpr": out.append(Site("throw", i)); continue
            if k not in CALLS: continue
            c = f.fn(i)
            if k == "CXXNewExpr" and n.get("place"): continue
            self.ncalls += 1
            if c is None:
                if k == "CallExpr" and not any(f.nodes[x]["k"] == "CXXPseudoDestructorExpr" for x in n.get("c", ())[:1] if x >= 0):
                    # through a pointer or a reference to function: what does its type promise?
                    out.append(Site("indirect", i))
                continue
            if i in final and c['key'] not in self.prog.funcs: continue
            if c["qn"] == "std::optional::value":
                if hv is None: hv = self.has_value_tests(f)
                o = n.get("obj", -1)
                if o >= 0 and self.spell(f, o) in hv: continue
            if c.get("noexcept") or c.get("externc") or c.get("builtin"): continue
            if (f.qn, c["qn"]) in self.exempt: self.used.add((f.qn, c["qn"])); continue
            if c["key"] not in self.prog.funcs and NOTHROW.match(c["qn"]):
                for a in n.get("args", ()):
                    if a >= 0:
                        for kk in functors(f, a, env): out.append(Site("functor", i, kk))
                continue
            out.append(Site("call", i, c["key"]))
        self.edges[f.key] = out

    def info(self, key):
        return self.prog.fninfo.get(key, {})

    def callee_throws(self, key):
        fi = self.info(key)
        if fi.get("noexcept"): return False
        if key in self.reason: return True
        if key in self.prog.funcs:
            if fi.get("virtual"): return any(self.callee_throws(o) for o in self.prog.overriders.get(key, ()))
            return False
        if fi.get("pure") or fi.get("virtual"):
            # open set of implementations: only a noexcept declaration is a promise
            return True
        if fi.get("defaulted") or fi.get("implicit"): return False
        return True

    def fix(self):
        while True:
            ch = False
            for k, es in self.edges.items():
                if k in self.reason: continue
                for s in es:
                    if self.throws(self.prog.funcs[k], s):
                        self.reason[k] = s; ch = True; break
            if not ch: break

    def throws(self, f, s):
        if s.what == "throw": return True
        if s.what == "indirect": return not self.indirect_ok(f, s.node)
        if s.callee in self.prog.funcs and not self.info(s.callee).get("virtual"):
            return s.callee in self.reason and not self.info(s.callee).get("noexcept")
        return self.callee_throws(s.callee)

    def indirect_ok(self, f, i):
        n = f.nodes[i]
        t = f.type(n["c"][0]) if n.get("c") else None
        if t and "noexcept" in t: return True
        return False

    def explain(self, f, s, depth=6):
        out = [f"{f.loc(s.node)}: {self.what(f, s)}"]
        k = s.callee
        while depth and k in self.prog.funcs and k in self.reason:
            g = self.prog.funcs[k]; r = self.reason[k]
            out.append(f"{g.loc(r.node)}: {g.qn}(): {self.what(g, r)}")
            k = r.callee; depth -= 1
        return out

    def what(self, f, s):
        if s.what == "throw": return "throw"
        if s.what == "indirect": return "call through a function pointer"
        return f"call of {self.info(s.callee).get('qn', s.callee)}()"


# function that may call -> callee: why the call cannot throw there
EXEMPT = {
    ("archon::core::FrozenSets::discard_from", "std::vector::resize"): "only shrinks the vector",
    ("archon::image::pack_int", "archon::core::int_cast"): "the precondition of pack_int() bounds the value",
    ("archon::core::cast_from_twos_compl_a", "archon::core::cast_from_twos_compl"): "unchecked variant; precondition",
    ("(anon loader_freetype)::fixed_26p6_round", "archon::core::cast_from_twos_compl"): "source and target types have the same width",
    ("archon::core::BasicSeedMemoryOutputStream::full_clear", "std::basic_ios::clear"): "clears the state to 'good'; throws only when a bad state is set",
    ("archon::core::BasicVarStringRef::copy_by_ref", "archon::core::BasicVarStringRef::BasicVarStringRef"): "constructs the string_view alternative of the variant",
    ("archon::core::BasicStringMatcher::Builder::clear", "std::vector::resize"): "there is always at least one set, so the vector only shrinks",
    ("archon::core::ThreadGuard::~ThreadGuard", "archon::core::ThreadGuard::join"): "join() of a joinable thread fails only on misuse (deadlock); terminating is documented behaviour",
    ("archon::core::ThreadGuard::operator=", "archon::core::ThreadGuard::join"): "as for the destructor",
    ("archon::core::ThreadGuard::ThreadGuard", "archon::core::ThreadGuard::join"): "as for the destructor",
}


def main(pid):
    from archlint.harness import Check, main as hmain

    def body():
        c = Check(pid)
        prog = P.load(P.library_tus() + P.drivers())
        an = Throwing(prog, EXEMPT)
        c.count("calls examined", an.ncalls)
        c.count("functions that may throw", len(an.reason))
        roots = {}
        for k, f in prog.funcs.items():
            if f.d.get("defaulted"): continue
            if f.file.startswith(P.VERIF): continue
            if f.d.get("kind") == "dtor": roots[k] = "a destructor"
            elif f.d.get("noexcept"): roots[k] = "declared noexcept"
        seen = set()
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n["k"] not in ("CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                g = f.fn(i)
                if not g or g.get("builtin"): continue
                if n["k"] == "CallExpr" and g.get("externc") and not g["name"].startswith("__"): why = f"called back by {g['qn']}()"
                elif g["qn"] == "std::thread::thread": why = "the entry function of a thread"
                else: continue
                env = lambda_env(f)
                for a in n.get("args", ()):
                    for kk in function_value(f, a, env):
                        if kk in prog.funcs: roots.setdefault(kk, why); seen.add((kk, why))
        c.count("callbacks handed to C code", sum(1 for k, w in seen if w.startswith("called back")))
        c.count("thread entry functions", sum(1 for k, w in seen if w.startswith("the entry")))
        c.count("functions that must not throw", len(roots))
        for k, why in roots.items():
            f = prog.funcs[k]
            for s in an.edges.get(k, ()):
                c.count("obligations")
                if not an.throws(f, s): continue
                if why == "declared noexcept" or why == "a destructor":
                    pass
                ch = an.explain(f, s)
                callee = an.info(s.callee).get("qn", s.what) if s.callee else s.what
                c.violation(f"{f.qn} <- {callee}", f"{f.loc(s.node)}: an exception can escape {f.full}, which is {why}: {an.what(f, s)}", path=ch)
        c.require("functions that must not throw", 2000)
        c.require("callbacks handed to C code", 5)
        c.require("thread entry functions", 1)
        return c.finish()
    hmain(body)
