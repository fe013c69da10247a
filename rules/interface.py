"""Every public header compiles on its own; everything declared is defined; everything referenced is defined, with every optional feature
on, each one off, and with and without debug mode; every explicit instantiation of drivers/*.cpp compiles."""
import os, re, sys, subprocess, concurrent.futures, hashlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P

SKIP_HDR = re.compile(r"/(attic|test|demo|probe|tool|noinst)/")


def headers():
    out = []
    for d, _, fs in sorted(os.walk(P.ARCHON)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".hpp", ".h")) and not SKIP_HDR.search(p): out.append(p)
    return out


def check_headers(c):
    cfg = P.CACHE + f"/hdr-{os.getpid()}"
    P.write_configs(cfg)
    args = P.clang_args(cfg)

    def one(h):
        r = P.sh(["clang++", "-fsyntax-only", "-x", "c++"] + args + [h])
        return h, r.returncode, [l for l in r.stdout.split("\n") if "error: " in l][:3]
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, headers()))
    finally: shutil.rmtree(cfg, ignore_errors=True)
    for h, rc, e in res:
        c.count("public headers compiled on their own"); c.count("obligations")
        rel = h.replace(P.REPO + "/", "")
        if rc: c.violation(f"header {rel}", f"{rel}:1: header does not compile on its own", errors=[x.replace(P.REPO + "/", "") for x in e])


def undefined_decls(c, prog):
    for (q, s), d in sorted(prog.decls.items()):
        if not d["file"].startswith(P.ARCHON) or SKIP_HDR.search(d["file"]): continue
        if d.get("pure") or d.get("deleted") or d.get("defaulted"): continue
        c.count("declared functions"); c.count("obligations")
        if d.get("def"): continue
        rel = d["file"].replace(P.REPO + "/", "")
        c.violation(f"undefined {q}", f"{rel}:{d['line']}: {q} is declared, but there is no definition of it ({d['sig']})")


def link_closure(c, prog, defined, what, cond=lambda f: True):
    """functions of the library that are referred to in a body must have a body"""
    seen = set()
    for f in prog.funcs.values():
        if not cond(f): continue
        for i, n in enumerate(f.nodes):
            g = f.fn(i)
            if g is None: continue
            k = g["key"]
            if k in seen: continue
            seen.add(k)
            if not g["file"].startswith(P.ARCHON): continue
            if g.get("pure") or g.get("defaulted") or g.get("implicit") or g.get("deleted") or g.get("builtin") or g.get("conscopy"): continue
            c.count("referenced functions"); c.count("obligations")
            if k in defined: continue
            if g.get("unevaluated"): continue
            c.violation(f"unresolved {g['qn']} {what}", f"{f.loc(i)}: {g['qn']}() is used in {f.qn}(), but nothing defines it{what}")


def main(pid):
    from archlint.harness import Check, main as hmain

    def body():
        c = Check(pid)
        check_headers(c)
        every = P.CACHE + f"/every-{os.getpid()}"
        os.makedirs(every)
        drv = every + "/all_headers.cpp"
        with open(drv, "w") as fh:
            for h in headers():
                if h.endswith(".hpp"): fh.write(f'#include <{os.path.relpath(h, P.SRC)}>\n')
        try:
            prog = P.load(P.library_tus() + P.drivers() + [drv], tolerate=True)
        finally: shutil.rmtree(every, ignore_errors=True)
        for d, l, m in prog.driver_errors:
            c.violation(f"instantiation {l.strip()}", f"{m.split(': ', 1)[0]}: `{l.strip()}` does not compile: {m}")
        bad(c, prog, "")
        for d in P.drivers():
            n = sum(1 for l in open(d) if l.startswith("template class"))
            c.count("explicitly instantiated class templates", n); c.count("obligations", n)
        undefined_decls(c, prog)
        link_closure(c, prog, prog.funcs, "")
        # without debug mode
        rel = P.load(P.library_tus() + P.drivers(), extra=("-DNDEBUG",), tolerate=True)
        bad(c, rel, " without debug mode")
        link_closure(c, rel, rel.funcs, " without debug mode")
        # with features off
        cfg = P.CACHE + f"/feat-{os.getpid()}"
        feats = P.write_configs(cfg); shutil.rmtree(cfg, ignore_errors=True)
        for off in [[f] for f in feats] + [feats]:
            libs = {re.match(r"ARCHON_(\w+?)_HAVE", f).group(1).lower() for f in off}
            tus = P.library_tus(libs)
            v = P.load(tus, off=off, tolerate=True, verbose=False)
            name = " with " + (off[0] if len(off) == 1 else "every optional feature") + " off"
            c.count("feature configurations")
            bad(c, v, name)
            defined = set(v.funcs) | {k for k, f in prog.funcs.items() if f.tu.path not in tus}
            link_closure(c, v, defined, name)
        c.require("public headers compiled on their own", 200)
        c.require("declared functions", 2000)
        c.require("referenced functions", 2000)
        c.require("feature configurations", 5)
        return c.finish()
    hmain(body)


def bad(c, prog, what):
    for p, m in prog.bad:
        rel = p.replace(P.REPO + "/", "")
        e = [l.replace(P.REPO + "/", "") for l in m.split("\n") if "error: " in l][:3]
        c.violation(f"{rel}{what}", f"{rel}:1: does not compile{what}", errors=e)
