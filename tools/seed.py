#!/usr/bin/env python3
"""Planted changes, tried out on a private copy of /repo that is mounted over /repo in a namespace of its own.
seed.py verify ID...   builds, runs the stable tests and the demonstration with and without the change
seed.py check ID...    runs the quick check of the property against the change
seed.py new ID PROP    takes the diff of /tmp/seed-edit (a copy of /repo) as the patch of a new entry
"""
import json, os, subprocess, sys, shutil
V = "/verif"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def ns(copy, script, timeout=1800):
    p = subprocess.run(["unshare", "-m", "bash", "-c", "mount --make-rprivate / && mount --bind %s /repo && cd /repo && %s" % (copy, script)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def copy_repo(ident):
    c = "/tmp/seedwt-" + ident
    shutil.rmtree(c, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", c])
    subprocess.check_call(["git", "-C", c, "checkout", "-q", "--", "."])
    return c


def run_demo(c, ident):
    d = "/tmp/seeddemo-" + ident
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", ident), d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = ns(c, "timeout 300 bash %s/demo.sh" % d)
    shutil.rmtree(d)
    return r


def verify(ident):
    c = copy_repo(ident)
    try:
        rc, out = ns(c, "bash /opt/vp/build.sh >/dev/null 2>&1; git status --short")
        rc, out = run_demo(c, ident)
        if rc != 0:
            return "demo fails on the unchanged tree (%d):\n%s" % (rc, out[-2500:])
        rc, out = ns(c, "git apply %s/seeded/%s/patch.diff" % (V, ident))
        if rc != 0:
            return "patch does not apply: " + out
        rc, out = ns(c, "bash /opt/vp/build.sh")
        if rc != 0:
            return "does not build: " + out[-2000:]
        rc, out = run_demo(c, ident)
        if rc == 0:
            return "demo passes with the change:\n" + out[-2500:]
        tail = out.strip().split("\n")[-1][:150]
        res = "/tmp/seedres-%s.json" % ident
        rc, out = ns(c, "bash /opt/vp/test.sh " + res)
        passed = set(json.load(open(res))["passed"])
        os.unlink(res)
        missing = [t for t in BASE if t not in passed]
        if missing:
            return "stable tests fail: %s" % missing
        return "OK (%s)" % tail
    finally:
        shutil.rmtree(c, ignore_errors=True)


def check(ident):
    meta = json.load(open(os.path.join(V, "seeded", ident, "meta.json")))
    props = sys.argv[3:] if len(sys.argv) > 3 and sys.argv[3].startswith("C") else [meta["property"]]
    c = copy_repo(ident)
    try:
        rc, out = ns(c, "git apply %s/seeded/%s/patch.diff" % (V, ident))
        assert rc == 0, out
        r = []
        for p in props:
            rc, out = ns(c, "cd /verif && VERIF_SEED=1 python3 check.py %s quick; e=$?; git -C /repo diff --stat | tail -1; exit $e" % p)
            v = [l for l in out.split("\n") if l.startswith(("VIOLATION", "  ")) or "CLASS" in l.upper()]
            r.append("%s exit %d %s" % (p, rc, " | ".join(x[:220] for x in v[:4]) or out[-600:]))
        return "\n   ".join(r)
    finally:
        shutil.rmtree(c, ignore_errors=True)


def new(ident, prop):
    d = os.path.join(V, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", "/tmp/seed-edit", "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.check_call(["git", "-C", "/tmp/seed-edit", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "new":
        new(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "")
    else:
        ids = [a for a in sys.argv[2:] if not (a.startswith("C") and len(a) == 3)] or sorted(os.listdir(os.path.join(V, "seeded")))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4 if cmd == "verify" else 1) as ex:
            for i, r in zip(ids, ex.map({"verify": verify, "check": check}[cmd], ids)):
                print(i, r, flush=True)
