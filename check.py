#!/usr/bin/env python3
"""Build a simulation of the current /repo tree and decide one property with it.

  check.py C01 [quick|thorough]        run the check (exit 0 held, 1 VIOLATION, 2 error of the check)
  check.py --replay FILE [--trace]     rebuild and replay a violation
  check.py --build HARNESS [VARIANT]   build only (development)
"""
import os, sys, json, time, hashlib, subprocess, shutil, glob, re, fcntl
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PROPS, HARNESSES

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = shutil.which("clang-18") or shutil.which("clang") or "/usr/bin/clang"
CLANGXX = shutil.which("clang++-18") or shutil.which("clang++") or "/usr/bin/clang++"
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    pass
class NotCompiled(CheckError):
    pass




def sh(cmd, cwd=None, env=None, timeout=600, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
    if p.returncode != 0:
        raise CheckError("%s failed (%d): %s\n%s" % (what or cmd[0], p.returncode, " ".join(cmd)[:400], p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def prune(pattern, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, pattern)), key=os.path.getmtime)
    for d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(d, ignore_errors=True)


def repo_hash():
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "CMakeLists.txt"), os.path.join(REPO, "cmake")])


def build_cxy(key):
    """The compiler of the current tree, built as /opt/vp/build.sh does, but in our own folder."""
    out = os.path.join(BUILD, "cxy-" + key)
    exe = os.path.join(out, "cxy")
    if os.path.exists(os.path.join(out, ".done")):
        os.utime(out)
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sh(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DLLVM_ROOT_DIR=/usr/lib/llvm-18",
        "-DCMAKE_C_COMPILER=/usr/bin/clang-18", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18"], what="cmake")
    sh(["ninja", "-C", out, "cxy"], what="building cxy")
    open(os.path.join(out, ".done"), "w").close()
    prune("cxy-*", 3)
    return exe


def sim_sources():
    return sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp")))


def build_sim():
    """The simulator itself; independent of /repo."""
    key = tree_hash([os.path.join(VERIF, "sim")])
    out = os.path.join(BUILD, "sim-" + key)
    if os.path.exists(os.path.join(out, ".done")):
        os.utime(out)
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    def comp(job):
        src, variant = job
        flags = ["-fsanitize=address"] if variant == "asan" else []
        sh([CLANGXX, "-std=c++17", "-O1", "-g", "-w", "-fno-sanitize=all"] + [] + flags[:0] + (["-DSIM_ASAN"] if variant == "asan" else []) +
           ["-c", src, "-o", os.path.join(out, os.path.basename(src)[:-4] + "." + variant + ".o")], what="compiling the simulator")
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, [(s, v) for s in sim_sources() for v in ("plain", "asan")]))
    open(os.path.join(out, ".done"), "w").close()
    prune("sim-*", 2)
    return out


def seam_symbols(simdir):
    """libc name -> sim name, from what the simulator defines"""
    syms = set()
    for o in glob.glob(os.path.join(simdir, "*.plain.o")):
        for line in sh(["nm", "--defined-only", o]).splitlines():
            f = line.split()
            if len(f) == 3 and f[1] in "TW" and f[2].startswith("sim_") and not f[2].startswith("sim_native_"):
                syms.add(f[2][4:])
    m = {s: "sim_" + s for s in syms}
    for s in list(syms):
        m[s + "64"] = "sim_" + s
    m.update({"pthread_sigmask": "sim_sigmask", "sigprocmask": "sim_sigmask", "main": "cxy_main", "__isoc23_random": "sim_random"})
    for s in ("read", "recv", "recvfrom", "pread", "poll", "realpath", "readlink", "getcwd"):
        if s in syms:
            m["__%s_chk" % s] = "sim_" + s
    return m


def fake_clang(dirname):
    os.makedirs(dirname, exist_ok=True)
    p = os.path.join(dirname, "clang")
    with open(p, "w") as f:
        f.write('#!/bin/sh\nfor a in "$@"; do [ "$a" = -E ] && exec "$REAL_CLANG" "$@"; done\nprintf "%s\\n" "$@" > "$FAKE_ARGS"\nexit 0\n')
    os.chmod(p, 0o755)


def cxy_generate(cxy, app, workdir):
    """Run the real compiler up to generated C; returns (c file, native sources, flags)."""
    os.makedirs(workdir, exist_ok=True)
    shutil.copy(app, os.path.join(workdir, "app.cxy"))
    fake_clang(os.path.join(workdir, "bin"))
    args = os.path.join(workdir, "args")
    env = dict(os.environ, PATH=os.path.join(workdir, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), REAL_CLANG=CLANG, FAKE_ARGS=args)
    last = ""
    for attempt in range(6):
        for f in (args, os.path.join(workdir, "app.c")):
            if os.path.exists(f):
                os.unlink(f)
        pre = ["setarch", "x86_64", "-R"] if attempt % 2 == 0 else []
        p = subprocess.run(pre + [cxy, "build", "--no-progress", "--stdlib", os.path.join(REPO, "src/cxy"), "--with-mm", "--output", "app", "app.cxy"],
                           cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, errors="replace")
        last = p.stdout
        if p.returncode == 0 and os.path.exists(args) and os.path.exists(os.path.join(workdir, "app.c")):
            a = open(args).read().split("\n")
            natives = [x for x in a if x.endswith(".c") and not x.endswith("app.c")]
            flags, libs = [], []
            i = 0
            while i < len(a):
                if a[i] in ("-I", "-D", "-include"):
                    flags += [a[i], a[i + 1]]
                    i += 1
                elif a[i] == "-o":
                    i += 1
                elif a[i].startswith(("-I", "-D", "-f", "-m", "-O", "-std")):
                    flags.append(a[i])
                elif a[i].startswith("-l"):
                    libs.append(a[i])
                i += 1
            return os.path.join(workdir, "app.c"), natives, flags, libs
    raise NotCompiled("cxy did not compile %s:\n%s" % (app, last[-5000:]))


VARIANT_FLAGS = {
    "plain": [],
    "asan": ["-fsanitize=address", "-mllvm", "-asan-stack=0", "-mllvm", "-asan-instrument-dynamic-allocas=0", "-fsanitize-address-use-after-return=never"],
    "tsan": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
}


def seam_libs():
    """The machine's OpenSSL as static archives whose reads, writes and clock are the simulator's."""
    libs = ["/usr/lib/x86_64-linux-gnu/libssl.a", "/usr/lib/x86_64-linux-gnu/libcrypto.a"]
    key = hashlib.sha256(json.dumps([(l, os.stat(l).st_size, os.stat(l).st_mtime_ns) for l in libs] + [SEAM_LIB_SYMS]).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "libs-" + key)
    if not os.path.exists(os.path.join(out, ".done")):
        os.makedirs(out, exist_ok=True)
        for l in libs:
            sh(["objcopy"] + ["--redefine-sym=%s=%s" % kv for kv in SEAM_LIB_SYMS.items()] + [l, os.path.join(out, os.path.basename(l))], what="objcopy")
        open(os.path.join(out, ".done"), "w").close()
        prune("libs-*", 1)
    return [os.path.join(out, os.path.basename(l)) for l in libs] + ["-ldl"]


SEAM_LIB_SYMS = {"read": "sim_read", "write": "sim_write", "time": "ossl_time", "gettimeofday": "ossl_gettimeofday"}


def build_harness(name, variants):
    """Returns {variant: binary}"""
    if name == "comp":
        import compsim
        return compsim.binaries(name, variants)
    spec = HARNESSES[name]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rkey = repo_hash()
        key = hashlib.sha256((rkey + tree_hash([os.path.join(VERIF, "sim"), os.path.join(VERIF, "harness", name), os.path.join(VERIF, "harness/common")]) + tree_hash([os.path.join(VERIF, "check.py")])).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "h-%s-%s" % (name, key))
        bins = {v: os.path.join(out, "run-" + v) for v in variants}
        if all(os.path.exists(b) for b in bins.values()):
            os.utime(out)
            return bins, out
        with ThreadPoolExecutor(2) as ex:
            f1, f2 = ex.submit(build_cxy, rkey), ex.submit(build_sim)
            cxy, simdir = f1.result(), f2.result()
        os.makedirs(out, exist_ok=True)
        hdir = os.path.join(VERIF, "harness", name)
        cfile, natives, flags, libs = cxy_generate(cxy, os.path.join(hdir, "app.cxy"), os.path.join(out, "gen"))
        redef = os.path.join(out, "redefine")
        for native in (False, True):  # allocations of the native libraries go through a seam of their own, where they can fail
            with open(redef + ("-native" if native else ""), "w") as f:
                for k, v in sorted(seam_symbols(simdir).items()):
                    if native and k in ("malloc", "calloc", "realloc"):
                        f.write("%s sim_native_%s\n" % (k, k))
                    else:
                        f.write("%s %s\n" % (k, v if v in ("cxy_main", "sim_" + k) else "simalias_" + k))
        if name == "tls":
            libs = [l for l in libs if l not in ("-lssl", "-lcrypto")] + seam_libs()
        jobs = []
        for v in variants:
            simv = "asan" if v == "asan" else "plain"
            for i, src in enumerate([cfile] + natives):
                jobs.append(("sut", v, src, os.path.join(out, "sut-%s-%d.o" % (v, i))))
            for src in sorted(glob.glob(os.path.join(hdir, "*.cpp"))):
                jobs.append(("har", v, src, os.path.join(out, "har-%s-%s.o" % (v, os.path.basename(src)[:-4]))))

        def comp(job):
            kind, v, src, obj = job
            if kind == "sut":
                try:
                    sh([CLANG, "-w", "-g1", "-fno-omit-frame-pointer"] + VARIANT_FLAGS[v] + flags + ["-c", src, "-o", obj + ".raw"], cwd=os.path.dirname(cfile), what="compiling generated code")
                except CheckError as e:
                    raise NotCompiled(str(e)) if src == cfile else e
                sh(["objcopy", "--redefine-syms=" + (redef if src == cfile or os.path.basename(src) == "ae.c" else redef + "-native"), "--rename-section", ".init_array=sut_init", "--rename-section", ".fini_array=sut_fini", obj + ".raw", obj], what="objcopy")
            else:
                sh([CLANGXX, "-std=c++17", "-O1", "-g1", "-w", "-I", os.path.join(VERIF, "sim"), "-I", os.path.join(VERIF, "harness/common"), "-c", src, "-o", obj], what="compiling the harness")
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(comp, jobs))
        for v in variants:
            simv = "asan" if v == "asan" else "plain"
            und = sh(["nm", "-u"] + [j[3] for j in jobs if j[0] == "sut" and j[1] == v])
            aliases = sorted({l.split()[-1] for l in und.splitlines() if "simalias_" in l})
            seam = seam_symbols(simdir)
            alias_flags = ["-Wl,--defsym=%s=%s" % (a, seam[a[9:]]) for a in aliases]
            objs = [j[3] for j in jobs if j[1] == v] + sorted(o for o in glob.glob(os.path.join(simdir, "*.%s.o" % simv)) if not ("tsanrt" in o and v != "tsan"))
            sh([CLANGXX, "-o", bins[v] + ".tmp"] + (["-fsanitize=address"] if v == "asan" else []) + alias_flags + objs + libs + spec.get("libs", []) + ["-lpthread", "-lm"], what="linking")
            with open(os.path.join(out, "undefined-" + v), "w") as f:
                f.write("\n".join(sorted({l.split()[-1] for l in und.splitlines() if " U " in l})))
            os.rename(bins[v] + ".tmp", bins[v])
        prune("h-%s-*" % name, 2)
        return bins, out


# ---------------------------------------------------------------- running
def run_json(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace")
    lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
    if p.returncode != 0 or not lines:
        raise CheckError("a simulation worker ended with %d\n%s\n%s" % (p.returncode, p.stdout[-1500:], p.stderr[-3000:]))
    return json.loads(lines[-1])


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check_sim(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    hname = spec["harness"]
    cfg = spec.get(tier, {})
    secs, count = cfg.get("secs", 40 if tier == "quick" else 600), cfg.get("count", 4000 if tier == "quick" else 10 ** 9)
    shares = spec.get("variants", {"plain": 6, "asan": 2})
    try:
        bins, out = build_harness(hname, list(shares))
    except NotCompiled as e:
        if not spec.get("compiled"):
            raise
        return not_compiled(prop, tier, seed, hname, str(e), t0)
    built = time.time()
    viol_dir = os.path.join(VERIF, "viol", prop)
    shutil.rmtree(viol_dir, ignore_errors=True)
    os.makedirs(viol_dir)
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    plan, w = [], 0
    total = sum(shares.values())
    for v, n in shares.items():
        for _ in range(max(1, round(n * JOBS / total))):
            plan.append((v, w))
            w += 1
    opts = ["--opt", "prop=" + prop]
    for k, v in spec.get("opts", {}).items():
        v = v.replace("{repo}", REPO).replace("{verif}", VERIF)
        opts += ["--opt", "%s=%s" % (k, v)]
    for k in known:
        if k.get("class"):
            opts += ["--known", k["class"]]

    def work(job):
        v, w = job
        n = max(1, count // len(plan)) if v != "asan" else max(1, count // len(plan) // 2)
        d = os.path.join(viol_dir, "w%d" % w)
        os.makedirs(d)
        return v, run_json([bins[v], "--seed", str(seed), "--first", str(w * 100000000), "--count", str(n), "--deadline", str(secs), "--viol", d, "--opt", "variant=" + v] + opts, secs + 240)
    with ThreadPoolExecutor(len(plan)) as ex:
        res = list(ex.map(work, plan))
    ran = time.time()
    # ---- merge
    tot = dict(runs=0, violations=0, caps=0, errors=0, sim_s=0.0, calls=0, choices=0)
    uniq, states, counts, viols, samples, perv = set(), set(), {}, [], [], {}
    errcls = ""
    for v, r in res:
        for k in tot:
            tot[k] += r[k]
        perv[v] = perv.get(v, 0) + r["runs"]
        errcls = errcls or r["errcls"]
        uniq.update(r["unique"])
        states.update(r["states"])
        for k, (n, runs) in r["counts"].items():
            c = counts.setdefault(k, [0, 0])
            c[0] += n
            c[1] += runs
        for x in r["viol"]:
            x["variant"] = v
            viols.append(x)
        samples += r["samples"]
    # ---- judge the violations: gate, minimise, replay in a fresh process
    confirmed, flaky, known_hit, seen = [], [], {}, {}
    for x in sorted(viols, key=lambda x: (x["class"], not (x["same"] and x["replays"]))):
        k = next((k for k in known if re.fullmatch(k["class"], x["class"]) and re.search(k.get("message", ""), x["msg"])), None)
        if k:
            known_hit[k["id"]] = x
            continue
        if seen.get(x["class"]) == "ok" or len(confirmed) >= 3:
            continue
        if not (x["same"] and x["replays"]):
            flaky.append(x)
            seen.setdefault(x["class"], "flaky")
            continue
        b = bins[x["variant"]]
        cls = re.sub(r"[^A-Za-z0-9]+", "-", x["class"])
        final = os.path.join(VERIF, "viol", "%s-%s.replay" % (prop, cls))
        sh([b, "--shrink", x["file"], "--out", final, "--secs", "20"], timeout=120, what="minimising")
        p = subprocess.run([b, "--replay", final], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", timeout=120)
        if p.returncode == 1 and "REPRODUCED" in p.stdout:
            # a known finding must not hide behind the minimised message
            confirmed.append((x, final))
            seen[x["class"]] = "ok"
        else:
            flaky.append(x)
            seen.setdefault(x["class"], "flaky")
    wall = time.time() - t0
    faults = {k[6:]: {"times": v[0], "runs": v[1]} for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k: {"times": v[0], "runs": v[1]} for k, v in sorted(counts.items()) if not k.startswith("fault:")}
    run_wall = max(ran - built, 0.001)
    und = open(os.path.join(out, "undefined-" + list(shares)[0])).read().split()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(uniq),
            "rule": "one evaluation = one simulated run of the whole program from one seed with the property's oracles active; distinct = different hash over the run's complete event trace with virtual times",
            "samples": samples[:3],
            "runs_per_hour": int(tot["runs"] / run_wall * 3600), "seeds_per_hour": int(tot["runs"] / run_wall * 3600),
            "runs_by_variant": perv,
            "simulated_seconds": round(tot["sim_s"], 3), "simulated_system_calls": tot["calls"], "decisions": tot["choices"],
            "faults_injected": faults, "probes": probes,
            "distinct_states": len(states), "state_measure": spec.get("state_measure", "hash of the harness' model state after each operation"),
            "runs_out_of_budget": tot["caps"],
            "real_code": spec.get("real", []), "stubs": spec.get("stubs", []),
            "unseamed_libc_symbols": [u for u in und if not u.startswith(("sim_", "hx_", "__asan", "__tsan"))],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": [{"class": x["class"], "message": x["msg"], "replay": f} for x, f in confirmed],
        "known_findings_seen": sorted(known_hit),
    }
    write_evidence(prop, ev)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d runs (%d distinct), %.0f simulated s, %d states, %.1f s build, %.1f s runs, classes: %s" %
          (prop, tier, tot["runs"], len(uniq), tot["sim_s"], len(states), built - t0, ran - built, sorted({x["class"] for x in viols})))
    if confirmed:
        for x, f in confirmed:
            print("  %s: %s" % (x["class"], x["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    shutil.rmtree(viol_dir, ignore_errors=True)
    if flaky:
        raise CheckError("a violation did not replay: %s %s" % (flaky[0]["class"], flaky[0]["msg"]))
    if tot["errors"]:
        raise CheckError("%d runs ended without a verdict (%s)" % (tot["errors"], errcls))
    if tot["runs"] == 0 or tot["caps"] > tot["runs"] // 2:
        raise CheckError("the simulation explored too little: %d runs, %d out of budget" % (tot["runs"], tot["caps"]))
    return 0


def not_compiled(prop, tier, seed, hname, msg, t0):
    """The compiler of the tree makes no program of valid source whose behaviour the property prescribes"""
    os.makedirs(os.path.join(VERIF, "viol"), exist_ok=True)
    f = os.path.join(VERIF, "viol", "%s-not-compiled.replay" % prop)
    with open(f, "w") as o:
        o.write("harness %s\nbuild-failure\n%s\n" % (hname, msg))
    write_evidence(prop, {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the compilation of the harness program, which failed", "samples": []},
                          "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": [{"class": prop + ":not-compiled", "message": msg[-2000:], "replay": f}]})
    print("  %s:not-compiled: %s" % (prop, msg))
    print("VIOLATION property=%s replay=%s" % (prop, f))
    return 1


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def do_replay(path, trace):
    opts = dict(re.findall(r"^opt (\S+) (\S+)", open(path).read(), re.M))
    name = re.search(r"^harness (\S+)", open(path).read(), re.M).group(1)
    if re.search(r"^build-failure$", open(path).read(), re.M):
        try:
            build_harness(name, ["plain"])
        except NotCompiled as e:
            print("REPRODUCED\n%s" % e)
            return 1
        print("NOT REPRODUCED: the program compiles")
        return 0
    bins, _ = build_harness(name, [opts.get("variant", "plain")])
    return subprocess.call([bins[opts.get("variant", "plain")], "--replay", path] + (["--trace"] if trace else []))


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            return do_replay(a[1], "--trace" in a)
        if a[0] == "--build":
            print(build_harness(a[1], a[2:] or ["plain"])[0])
            return 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        spec = PROPS[a[0]]
        if spec.get("runner"):
            mod = __import__(spec["runner"])
            return mod.check(a[0], tier, seed)
        return check_sim(a[0], tier, seed)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR: timeout: %s" % str(e)[:500])
        return 2


if __name__ == "__main__":
    sys.exit(main())
