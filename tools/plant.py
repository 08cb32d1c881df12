#!/usr/bin/env python3
"""tools/plant.py FILE [ID...]: plants the bugs described in the python file FILE (list BUGS of dicts id, prop, edits [(file, old, new)],
needs, what, demo, checks) in scratch copies of /repo, confirms them (tests pass, demo fails only with the patch) and writes seeded/<id>/."""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
V = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PM4PY_SHOW_PROGRESS_BAR=False
T=$(mktemp -d); export TMPDIR="$T"; trap 'rm -rf "$T"' EXIT
/opt/venv/bin/python -W ignore "$D/demo.py"
"""
def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")
def one(b):
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="plant-")
    r = w + "/repo"
    try:
        sh("cp -a /repo %s && cd %s && git checkout -q -- ." % (r, r), "/")
        for f, old, new in b["edits"]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                return b["id"], "EDIT does not match once (%d) in %s" % (s.count(old), f)
            open(r + "/" + f, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", r)
        dd = w + "/demo"
        os.makedirs(dd)
        open(dd + "/demo.py", "w").write(b["demo"])
        open(dd + "/demo.sh", "w").write(SH)
        os.chmod(dd + "/demo.sh", 0o755)
        c0, o0 = sh("bash %s/demo.sh" % dd, "/repo")
        c1, o1 = sh("bash %s/demo.sh" % dd, r)
        if c0 != 0 or c1 == 0:
            return b["id"], "DEMO unpatched rc=%d patched rc=%d\n%s\n%s" % (c0, c1, o0[-1500:], o1[-800:])
        res = ""
        for c in b.get("checks", [b["prop"]]):
            rc, out = sh("bin/check %s" % c, V, {"VF_REPO": r})
            res += " %s:%s" % (c, {0: "MISSED", 1: "caught"}.get(rc, "rc%d" % rc))
            if rc not in (0, 1): res += out[-600:]
            if rc == 1: res += " " + " ".join(l.split("case:")[0].strip() for l in out.splitlines() if "clauses:" in l)[:150]
        t = open("/opt/vp/test.sh").read().replace("/repo", r)
        open(w + "/test.sh", "w").write(t)
        sh("bash %s/test.sh %s/t.json" % (w, w), w)
        T = json.load(open(w + "/t.json"))
        passed = T["passed"] if isinstance(T.get("passed"), list) else None
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        if passed is None:
            raise Exception("unknown result format %s" % list(T))
        lost = [x for x in st if x not in set(passed)]
        if lost:
            return b["id"], "TESTS notice it: %s %s" % (lost[:3], res)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.py", d); shutil.copy(dd + "/demo.sh", d)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        return b["id"], "ok" + res
    finally:
        shutil.rmtree(w, ignore_errors=True)
B = runpy.run_path(sys.argv[1])["BUGS"]
B = [b for b in B if not sys.argv[2:] or b["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, B):
        print(i, m, flush=True)
