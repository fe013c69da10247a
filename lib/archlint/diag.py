"""Diagnostics of the compiler front end (clang) over the current tree, restricted to selected classes."""
import concurrent.futures, hashlib, json, os, re, shutil
from . import program as P
from .program import CACHE, CheckError, REPO, SRC, VERIF

LINE = re.compile(r"^(/[^:]+):(\d+):(\d+): (warning|error|fatal error): (.*?)(?: \[(-W[^\]]+)\])?$")


def run(tus, flags, extra=()):
    """[(file, line, flag, message, context lines)]"""
    base = CACHE + "/diag"
    os.makedirs(base, exist_ok=True)
    cfgdir = CACHE + "/dcfg-" + hashlib.sha256((REPO + str(os.getpid())).encode()).hexdigest()[:12]
    P.write_configs(cfgdir)
    args = [a for a in P.clang_args(cfgdir, extra) if a != "-w"]
    args = ["clang++", "-fsyntax-only", "-fno-caret-diagnostics", "-ferror-limit=0", "-Wno-everything"][:4] + list(flags) + args
    incdirs = [cfgdir + "/src", SRC, VERIF + "/drivers"]

    def one(p):
        cl = P.closure(p, incdirs)
        h = hashlib.sha256(repr([sorted((k.replace(cfgdir, ""), v) for k, v in cl.items()), list(flags), list(extra), [a.replace(cfgdir, "") for a in args]]).encode()).hexdigest()[:24]
        out = f"{base}/{h}.json"
        if os.path.exists(out):
            os.utime(out)
            return json.load(open(out))
        r = P.sh(args + [p])
        res = []
        for l in r.stdout.split("\n"):
            m = LINE.match(l)
            if not m: continue
            if m.group(4) != "warning":
                if p.startswith(VERIF + "/drivers/"): continue
                raise CheckError(f"{p} does not type-check: {l}")
            res.append([m.group(1), int(m.group(2)), m.group(6) or "", m.group(5)])
        with open(out + f".{os.getpid()}", "w") as fh: json.dump(res, fh)
        os.rename(out + f".{os.getpid()}", out)
        return res
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            all_ = list(ex.map(one, sorted(tus, key=lambda p: -os.path.getsize(p))))
    finally:
        shutil.rmtree(cfgdir, ignore_errors=True)
    seen = set(); out = []
    for rs in all_:
        for f, l, w, m in rs:
            if not f.startswith((P.ARCHON + "/", VERIF + "/selftest/")): continue
            if P.EXCLUDED.search(f): continue
            k = (f, l, w)
            if k in seen: continue
            seen.add(k); out.append((f, l, w, m))
    return out
