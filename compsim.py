"""Build of the simulated compiler (properties C16 and C17): the compiler's own objects, as ninja builds them, with their
libc calls renamed to the simulation's, linked with the simulator's run driver."""
import os, glob, hashlib, re, shlex, subprocess, fcntl
from concurrent.futures import ThreadPoolExecutor
import check as C


def build():
    os.makedirs(C.BUILD, exist_ok=True)
    with open(os.path.join(C.BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rkey = C.repo_hash()
        hdir = os.path.join(C.VERIF, "harness/comp")
        key = hashlib.sha256((rkey + C.tree_hash([os.path.join(C.VERIF, "sim"), os.path.join(hdir, "h.cpp"), os.path.join(hdir, "gen.h"), os.path.join(C.VERIF, "compsim.py")])).encode()).hexdigest()[:16]
        out = os.path.join(C.BUILD, "h-comp-" + key)
        exe = os.path.join(out, "run-plain")
        if os.path.exists(exe):
            os.utime(out)
            return exe, out
        with ThreadPoolExecutor(3) as ex:
            os.makedirs(out, exist_ok=True)
            hobj = os.path.join(out, "h.o")
            f1 = ex.submit(C.build_cxy, rkey)
            f2 = ex.submit(C.build_sim)
            f3 = ex.submit(C.sh, [C.CLANGXX, "-std=c++17", "-O1", "-g1", "-w", "-D_GNU_SOURCE", "-I", os.path.join(C.VERIF, "sim"), "-c", os.path.join(hdir, "h.cpp"), "-o", hobj], what="compiling the harness")
            cxy, simdir, _ = f1.result(), f2.result(), f3.result()
        bdir = os.path.dirname(cxy)
        syms = [l.split()[2][4:] for l in C.sh(["nm", "--defined-only", hobj]).splitlines() if len(l.split()) == 3 and l.split()[1] in "TW" and l.split()[2].startswith("sim_")]
        redef = os.path.join(out, "redefine")
        with open(redef, "w") as f:
            f.write("main cxy_main\n")
            for s in sorted(syms):
                f.write("%s sim_%s\n" % (s, s))
        objs = []
        link = C.sh(["ninja", "-C", bdir, "-t", "commands", "cxy"]).splitlines()[-1]
        link = link.split("&&")[1].strip() if "&&" in link else link
        args, repl = shlex.split(link), []
        for a in args:
            if a.endswith(".o") and "cxy.dir" in a:
                o = os.path.join(out, hashlib.md5(a.encode()).hexdigest()[:12] + ".o")
                objs.append((os.path.join(bdir, a), o))
                repl.append(o)
            else:
                repl.append(a)
        i = repl.index("-o")
        repl[i + 1] = exe + ".tmp"
        with ThreadPoolExecutor(C.JOBS) as ex:
            list(ex.map(lambda p: C.sh(["objcopy", "--redefine-syms=" + redef, p[0], p[1]], what="objcopy"), objs))
        k = next(n for n, a in enumerate(repl) if a.endswith(".o"))
        repl[k:k] = [hobj, os.path.join(simdir, "core.plain.o")]
        C.sh(repl + ["-lpthread"], cwd=bdir, what="linking the simulated compiler")
        und = C.sh(["nm", "-u"] + [o for _, o in objs])
        dfn = set(l.split()[-1] for l in C.sh(["nm", "--defined-only"] + [o for _, o in objs]).splitlines() if len(l.split()) == 3)
        with open(os.path.join(out, "undefined-plain"), "w") as f:
            f.write("\n".join(sorted({l.split()[-1] for l in und.splitlines() if " U " in l and not l.split()[-1].startswith("_Z")} - dfn)))
        for _, o in objs:
            os.unlink(o)
        os.rename(exe + ".tmp", exe)
        C.prune("h-comp-*", 2)
        return exe, out


def binaries(name, variants):
    exe, out = build()
    return {v: exe for v in variants}, out
