#!/usr/bin/env python3
"""plant.py ID...: confirms planted changes (/verif/seeded/ID): the patch
applies to /repo's HEAD, builds, passes the stable tests, and demo.sh passes
without and fails with it. Works on a scratch copy; with --check PID also runs
the property's check against /repo with the patch applied, then undoes it."""
import json, os, subprocess, sys, shutil, tempfile
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
check = "--check" in sys.argv
if "--checkonly" in sys.argv: check = True
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if "--checkonly" not in sys.argv:
        w = tempfile.mkdtemp(dir="/tmp")
        try:
            r = w + "/repo"
            sh("cp", "-a", "/repo", r)
            dd = w + "/demo"; shutil.copytree(d, dd)
            for f in ("patch.diff", "meta.json"): os.remove(dd + "/" + f)
            def demo(): return sh("bash", dd + "/demo.sh", cwd=r, env=ENV)
            a = demo()
            ap = sh("git", "apply", d + "/patch.diff", cwd=r)
            b = demo()
            bl = sh("go", "build", "./...", cwd=r, env=ENV)
            t = sh("go", "test", "-vet=off", "-count=1", "./...", cwd=r, env=ENV)
            ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0 and bl.returncode == 0 and t.returncode == 0
            print(i, "OK" if ok else "BAD", "clean", a.returncode, "apply", ap.returncode, "patched", b.returncode, "build", bl.returncode, "tests", t.returncode, flush=True)
            if not ok: print((a.stdout + a.stderr)[-1500:], ap.stderr, (b.stdout + b.stderr)[-600:], bl.stderr, "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:800])
        finally: shutil.rmtree(w)
    if check:
        assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == ""
        sh("git", "-C", "/repo", "apply", d + "/patch.diff")
        try:
            c = sh("python3", "/verif/check.py", meta["property"], "quick", env=dict(os.environ, VERIF_SEED="1"))
        finally: sh("git", "-C", "/repo", "checkout", "--", ".")
        print(i, meta["property"], "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout else "MISSED rc=%d" % c.returncode, flush=True)
