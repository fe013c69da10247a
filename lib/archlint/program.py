"""Loads the type-checked program dumped by tool/astx (clang) into memory."""
import json, os, subprocess, hashlib, sys, concurrent.futures, re, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("ARCHLINT_REPO", "/repo")
SRC = REPO + "/src"
ARCHON = SRC + "/archon"
CACHE = os.environ.get("ARCHLINT_CACHE", VERIF + "/.cache")
EXCLUDED = re.compile(r"/(attic|test|demo|probe|tool)/")


class CheckError(Exception):
    """The check cannot give an answer (broken build, vanished anchor, ...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    src = VERIF + "/tool/astx.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = f"{CACHE}/astx-{h}"
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}"
        r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        if r.returncode != 0:
            raise CheckError("cannot build astx:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


def write_configs(outdir, defs=None, off=()):
    """Instantiates the config.h.in headers (all optional features on, except those in `off`)."""
    paths = []
    for d, _, fs in os.walk(ARCHON):
        for f in fs:
            if f == "config.h.in":
                paths.append(os.path.join(d, f))
    if not paths:
        raise CheckError("no config.h.in found in the source tree")
    vals = {"ARCHON_SOURCE_FROM_BUILD_PATH": "../../src", "ARCHON_ASSUME_VISUAL_STUDIO_CMAKE_GENERATOR": "0",
            "ARCHON_VERSION_MAJOR": "0", "ARCHON_VERSION_MINOR": "1"}
    cm = open(REPO + "/CMakeLists.txt").read() if os.path.exists(REPO + "/CMakeLists.txt") else ""
    if defs:
        vals.update(defs)
    feats = []
    for p in sorted(paths):
        txt = open(p).read()

        def rep(m):
            k = m.group(1)
            if k in vals:
                return vals[k]
            if "HAVE" in k:
                if k not in feats:
                    feats.append(k)
                return "0" if k in off else "1"
            return "0"
        txt = re.sub(r"@(\w+)@", rep, txt)
        o = os.path.join(outdir, "src", os.path.relpath(p, SRC))[:-len(".in")]
        os.makedirs(os.path.dirname(o), exist_ok=True)
        with open(o, "w") as fh:
            fh.write(txt)
    return feats


_EXTRA_INC = None


def extra_includes():
    """Include directories of the optional system libraries (as the build system finds them)."""
    global _EXTRA_INC
    if _EXTRA_INC is None:
        inc = []
        for pkg in ("freetype2", "sdl2", "libpng"):
            r = subprocess.run(["pkg-config", "--cflags-only-I", pkg], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            for w in r.stdout.split():
                if w.startswith("-I") and w not in inc:
                    inc.append(w)
        for d in ("/usr/include/freetype2", "/usr/include/SDL2", "/usr/include/libpng16"):
            if os.path.isdir(d) and "-I" + d not in inc:
                inc.append("-I" + d)
        _EXTRA_INC = inc
    return _EXTRA_INC


_INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)
_inc_memo = {}


def _file_info(p):
    r = _inc_memo.get(p)
    if r is None:
        b = open(p, "rb").read()
        r = (hashlib.sha256(b).hexdigest(), _INC.findall(b.decode("utf-8", "replace")))
        _inc_memo[p] = r
    return r


def closure(path, incdirs):
    """all project files that `path` can include, directly or not"""
    seen = {}
    st = [path]
    while st:
        p = st.pop()
        if p in seen: continue
        h, incs = _file_info(p)
        seen[p] = h
        for i in incs:
            for d in [os.path.dirname(p)] + incdirs:
                q = os.path.normpath(os.path.join(d, i))
                if os.path.isfile(q):
                    st.append(q); break
    return seen


def library_tus(libs=None):
    out = []
    for d, ds, fs in sorted(os.walk(ARCHON)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not EXCLUDED.search(p):
                if libs is None or os.path.relpath(p, ARCHON).split("/")[0] in libs:
                    out.append(p)
    return out


def drivers(names=None):
    dd = VERIF + "/drivers"
    out = []
    if os.path.isdir(dd):
        for f in sorted(os.listdir(dd)):
            if f.endswith(".cpp") and (names is None or f[:-4] in names):
                out.append(os.path.join(dd, f))
    return out


def test_tus(libs=None):
    out = []
    for d, ds, fs in sorted(os.walk(ARCHON)):
        if d.endswith("/test"):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".cpp") and (libs is None or os.path.relpath(p, ARCHON).split("/")[0] in libs):
                    out.append(p)
    return out


class TU:
    __slots__ = ("path", "types", "fns", "tflags")


class Func:
    """A function with a body."""
    __slots__ = ("tu", "d", "nodes", "key", "qn", "name", "file", "line", "_parent", "_cfg", "params", "cls", "full", "_trymap", "_cat")

    def __init__(self, tu, d):
        self.tu = tu; self.d = d; self.nodes = d["nodes"]; self.key = d["key"]; self.qn = d["qn"]; self.name = d["name"]
        self.file = d["dfile"]; self.line = d["dline"]; self.params = d["params"]; self.cls = d.get("cls"); self.full = d["full"]
        self._parent = None; self._cfg = None; self._trymap = None; self._cat = None

    def T(self, i):
        return self.tu.types[i] if i is not None and i >= 0 else None

    def TF(self, i):
        """1: copying copies bits, 2: the destructor does something, 4: polymorphic, 8: virtual destructor or final"""
        return self.tu.tflags[i] if i is not None and i >= 0 else 0

    def type(self, n):
        return self.T(self.nodes[n].get("t"))

    def fn(self, n):
        i = self.nodes[n].get("fn")
        return self.tu.fns[i] if i is not None and i >= 0 else None

    @property
    def ret(self):
        return self.T(self.d["ret"])

    @property
    def parent(self):
        if self._parent is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n.get("c", ()):
                    if c >= 0 and c not in p and c != i:
                        p[c] = i
            self._parent = p
        return self._parent

    def walk(self, root=None):
        st = [self.d["root"] if root is None else root]
        seen = set()
        while st:
            i = st.pop()
            if i is None or i < 0 or i in seen:
                continue
            seen.add(i)
            yield i
            st.extend(reversed(self.nodes[i].get("c", ())))

    def cfg(self):
        if self._cfg is None:
            c = self.d.get("cfg")
            if not c:
                return None
            self._cfg = {b["id"]: b for b in c["b"]}
        return self._cfg

    @property
    def entry(self):
        return self.d["cfg"]["entry"]

    @property
    def exit(self):
        return self.d["cfg"]["exit"]

    def loc(self, n=None):
        l = self.nodes[n]["l"] if n is not None and n >= 0 else self.line
        return f"{self.file.replace(REPO + '/', '')}:{l}"

    def rel(self):
        return self.file.replace(ARCHON + "/", "")

    def __repr__(self):
        return f"<Func {self.full}>"


class Program:
    def __init__(self):
        self.funcs = {}      # key -> Func
        self.by_qn = {}      # qn -> [Func]
        self.records = {}    # full name -> (tu, record)
        self.rec_by_qn = {}
        self.enums = {}
        self.enums_by_type = {}
        self.vars = []
        self.tus = []
        self.decls = {}      # (qn, type) -> decl record (every declared function, templates included)
        self.fninfo = {}     # key -> fn record (declaration info)
        self.fn_tu = {}
        self.tmpls = {}      # (file, line, qn) -> template declaration
        self.driver_errors = []   # (driver, line, error): explicit instantiations that do not compile

    def add_tu(self, path, fh):
        # members of unnamed namespaces are distinct in each translation unit
        stem = os.path.basename(path).rsplit(".", 1)[0]
        fh = (l.replace("(anonymous namespace)", f"(anon {stem})").replace("(anon)", f"(anon {stem})") if "(anon" in l else l for l in fh)
        tu = TU(); tu.path = path; tu.types = []; tu.fns = {}
        self.tus.append(tu)
        for line in fh:
            # cheap pre-filter: skip bodies that are already known
            r = json.loads(line)
            k = r["rec"]
            if k == "func":
                if r["key"] not in self.funcs:
                    f = Func(tu, r)
                    self.funcs[r["key"]] = f
                    self.by_qn.setdefault(f.qn, []).append(f)
            elif k == "fn":
                tu.fns[r["fid"]] = r
                r["tu"] = tu
                o = self.fninfo.get(r["key"])
                if o is None:
                    self.fninfo[r["key"]] = r
            elif k == "record":
                if r["full"] not in self.records:
                    r["tu"] = tu
                    self.records[r["full"]] = r
                    self.rec_by_qn.setdefault(r["qn"], []).append(r)
            elif k == "enum":
                r["tu"] = tu
                self.enums[r["qn"]] = r
            elif k == "var":
                r["tu"] = tu
                self.vars.append(r)
            elif k == "decl":
                dk = (r["qn"], r.get("key") or r["sig"])
                o = self.decls.get(dk)
                if o is None: self.decls[dk] = r
                elif r.get("def"):
                    for a in ("def", "nparams", "defline", "deffile", "unused"):
                        if a in r and a not in o: o[a] = r[a]
            elif k == "tmpl":
                o = self.tmpls.setdefault((r["file"], r["line"], r["qn"]), r)
                if o is not r:
                    o["unused"] = [x for x in o.get("unused", ()) if x in r.get("unused", ())]
                    if r.get("spec"): o["spec"] = True
                    if not r.get("nodef"): o.pop("nodef", None)
            elif k == "types":
                tu.types = r["v"]; tu.tflags = r.get("f", [])

    def finish(self):
        for q, e in self.enums.items():
            self.enums_by_type[e["tu"].types[e["t"]]] = e
        # overriders
        self.overriders = {}
        for key, fi in self.fninfo.items():
            for o in fi.get("overrides", ()):
                ok = fi["tu"].fns[o]["key"]
                self.overriders.setdefault(ok, []).append(key)
        return self

    def find(self, qn):
        return self.by_qn.get(qn, [])

    def cls_funcs(self, cls):
        return [f for f in self.funcs.values() if f.cls == cls]


def clang_args(cfgdir, extra=()):
    return (["-I" + cfgdir + "/src", "-I" + SRC, "-I" + VERIF + "/drivers"] + extra_includes() +
            ["-std=c++20", "-w", "-fconstexpr-steps=100000000", "-resource-dir=/usr/lib/llvm-18/lib/clang/18"] + list(extra))


def load(tus, roots=None, verbose=True, off=(), extra=(), tolerate=False):
    """Type-checks `tus` from the current tree and returns the merged Program."""
    t0 = time.time()
    exe = build_tool()
    base = CACHE + "/ast"
    os.makedirs(base, exist_ok=True)
    cfgdir = CACHE + "/cfg-" + hashlib.sha256((REPO + repr(sorted(off)) + str(os.getpid())).encode()).hexdigest()[:12]
    write_configs(cfgdir, off=off)
    roots = roots or [ARCHON + "/", VERIF + "/drivers/", VERIF + "/selftest/"]
    rt = ":".join(roots)
    args = clang_args(cfgdir, extra)
    incdirs = [cfgdir + "/src", SRC, VERIF + "/drivers"]

    def one(p):
        cl = closure(p, incdirs)
        h = hashlib.sha256(repr([sorted((k.replace(cfgdir, ""), v) for k, v in cl.items()), rt, os.path.basename(exe), sorted(off), extra]).encode()).hexdigest()[:24]
        out = f"{base}/{h}.jsonl"
        if os.path.exists(out):
            os.utime(out)
        else:
            tmp = out + f".{os.getpid()}.tmp"
            r = sh([exe, tmp, rt, p, "--"] + args)
            errs = []
            if r.returncode != 0 and p.startswith(VERIF + "/drivers/"):
                r, errs = without_broken_lines(exe, tmp, rt, p, args, r)
            if r.returncode != 0 or not os.path.exists(tmp):
                if os.path.exists(tmp): os.remove(tmp)
                return p, None, r.stdout[-3000:]
            if errs:
                with open(out + ".err", "w") as fh: json.dump(errs, fh)
            os.rename(tmp, out)
        return p, out, ""

    def without_broken_lines(exe, tmp, rt, p, args, r):
        """A driver with lines (includes, explicit instantiations) that do not compile: analyse the rest, remember the errors."""
        lines = open(p).read().split("\n")
        d = f"{cfgdir}-drv"; os.makedirs(d, exist_ok=True)
        q = os.path.join(d, os.path.basename(p)); cur = p; errs = []
        for _ in range(8):
            bad = {}
            ctx = []
            for l in r.stdout.split("\n"):
                if ": error: " in l or ": fatal error: " in l: ctx = [l]
                elif ctx: ctx.append(l)
                m = re.match(re.escape(cur) + r":(\d+):", l)
                if m and lines[int(m.group(1)) - 1].startswith(("template ", "static ", "#include")): bad.setdefault(int(m.group(1)) - 1, ctx[0] if ctx else l)
            if not bad: break
            for b, m in bad.items():
                errs.append([lines[b], m.replace(REPO + "/", "")]); lines[b] = ""
            with open(q, "w") as fh: fh.write("\n".join(lines))
            cur = q
            r = sh([exe, tmp, rt, q, "--"] + args + ["-ferror-limit=0"])
            if r.returncode == 0: break
        return r, errs
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, sorted(tus, key=lambda p: -os.path.getsize(p))))
    finally:
        import shutil
        if cfgdir.startswith(CACHE + "/cfg-"):
            shutil.rmtree(cfgdir, ignore_errors=True)
            shutil.rmtree(cfgdir + "-drv", ignore_errors=True)
    order = {p: i for i, p in enumerate(tus)}
    res.sort(key=lambda r: order[r[0]])
    bad = [(p, m) for p, o, m in res if o is None]
    if bad and not tolerate:
        raise CheckError("these files do not type-check:\n" + "\n".join(p + "\n" + m for p, m in bad))
    prog = Program()
    prog.bad = bad
    res = [r for r in res if r[1]]
    for p, o, _ in res:
        if os.path.exists(o + ".err"):
            prog.driver_errors += [(os.path.basename(p), l, m) for l, m in json.load(open(o + ".err"))]
    if prog.driver_errors and verbose:
        print(f"[archlint] {len(prog.driver_errors)} driver lines do not compile and are left out")
    t1 = time.time()
    for p, o, _ in res:
        with open(o) as fh:
            prog.add_tu(p, fh)
    prog.finish()
    if verbose:
        print(f"[archlint] {len(tus)} translation units, {len(prog.funcs)} function bodies, "
              f"{len(prog.records)} records (type-check {t1 - t0:.1f}s, load {time.time() - t1:.1f}s)")
    return prog


def prune_cache(keep=900):
    base = CACHE + "/ast"
    if not os.path.isdir(base):
        return
    fs = sorted((os.path.getmtime(os.path.join(base, f)), f) for f in os.listdir(base))
    for _, f in fs[:-keep]:
        try: os.remove(os.path.join(base, f))
        except OSError: pass
