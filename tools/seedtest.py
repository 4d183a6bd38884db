#!/usr/bin/env python3
"""seedtest.py [--no-tests] [--all] ID...: confirm planted bugs in scratch copies and run the checks on them."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(H, "seeded")))


def sh(cmd, cwd, env=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for i in ids:
    d = os.path.join(H, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", r, symlinks=True)
        ds = os.path.join(w, "demo")
        shutil.copytree(d, ds, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
        a = sh("bash %s/demo.sh" % ds, r, env)
        p = sh("git apply %s/patch.diff" % d, r)
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stdout)
            continue
        b = sh("bash %s/demo.sh" % ds, r, env)
        ok = "demo clean=%d patched=%d" % (a.returncode, b.returncode)
        if a.returncode or not b.returncode:
            ok += " BAD " + (a.stdout if a.returncode else b.stdout)[-800:]
        t = "-"
        if "--no-tests" not in opts:
            sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; sed 's#cd /repo#cd %s; export PYTHONPATH=%s#' /opt/vp/test.sh > %s/test.sh" % (r, w, r, r, w), w)
            q = sh("bash %s/build.sh" % w, r, env)
            q2 = sh("bash %s/test.sh %s/out.json" % (w, w), r, env)
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = json.load(open("%s/out.json" % w))
            want = set(base["stable"])
            miss = want - set(out["passed"])
            t = "build=%d tests missing=%d %s" % (q.returncode, len(miss), sorted(miss)[:3])
        pids = [meta["property"]]
        if "--all" in opts:
            pids = [c["property"] for c in json.load(open(os.path.join(H, "MANIFEST.json")))["checks"]]
        res = []
        for pid in pids:
            e = dict(os.environ, PWSA_REPO=r, PWSA_EVIDENCE=os.path.join(w, "ev"))
            c = sh("python3 check.py %s" % pid, H, e)
            v = [l for l in c.stdout.splitlines() if l.startswith("  [")]
            res.append("%s:%s" % (pid, {0: "quiet", 1: "CAUGHT"}.get(c.returncode, "ERR%d %s" % (c.returncode, c.stdout[-300:]))) + ((" " + v[0][:160]) if v and "--all" not in opts else ""))
        print(i, meta["property"], ok, "|", t, "|", "; ".join(res), flush=True)
    finally:
        shutil.rmtree(w)
