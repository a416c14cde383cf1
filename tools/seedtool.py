"""Development tool: create a planted bug under /verif/seeded/<id>/ and confirm it.

    from seedtool import seed, main
    seed("C01-a", "C01", "py/desimeter/x.py", [(old, new), ...], demo_source, needs, breaks)
    main()

For each bug, in a scratch copy of /repo: the patch applies, the stable tests pass, the demo exits 0
without and nonzero with the patch, and whether the check of the property catches it is printed.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
here=$(cd "$(dirname "$0")" && pwd)
unset DESIMETER_DATA
export PYTHONPATH="$PWD/py"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""

def seed(sid, prop, path, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    edits = [e if len(e) == 3 else (path,) + e for e in edits]
    SEEDS.append(dict(id=sid, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, executable="/bin/bash")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def confirm(d, sid, prop, checks=None):
    """d: folder of the planted bug. Returns text."""
    out = []
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        dd = w + "/demo"; shutil.copytree(d, dd)
        rc0, o0 = sh("bash %s/demo.sh" % dd, repo, timeout=300)
        rc, o = sh("git apply %s/patch.diff" % d, repo)
        if rc: return sid, "PATCH FAILS " + o
        rc1, o1 = sh("bash %s/demo.sh" % dd, repo, timeout=300)
        ok = rc0 == 0 and rc1 not in (0, 124)
        out.append("demo %d/%d %s" % (rc0, rc1, "ok" if ok else "BAD " + o0[-500:] + o1[-800:]))
        rc, o = sh(". /opt/vp/env.sh; PYTHONPATH=%s/py /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 --junitxml=%s/j.xml py/desimeter/test" % (repo, w), repo)
        sh("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (w, w), repo)
        try:
            p = set(json.load(open(w + "/o.json"))["passed"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - p
            out.append("tests ok" if not miss else "TESTS FAIL %s" % sorted(miss)[:2])
        except Exception as e: out.append("TESTS? %s %s" % (e, o[-300:]))
        for c in (checks or [prop]):
            rc, o = sh("bin/check %s quick" % c, V, dict(DESIMETER_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=w))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            out.append("%s: %s" % (c, "CAUGHT" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-300:] if rc else "")))
    finally:
        shutil.rmtree(w)
    return sid, " | ".join(out)

def write(s):
    d = "%s/seeded/%s" % (V, s["id"])
    w = tempfile.mkdtemp(prefix="seedw_")
    try:
        for i in ("a", "b"):
            for p, _, _ in s["edits"]:
                os.makedirs(os.path.dirname("%s/%s/%s" % (w, i, p)), exist_ok=True)
                shutil.copy("/repo/" + p, "%s/%s/%s" % (w, i, p))
        for p, old, new in s["edits"]:
            f = "%s/b/%s" % (w, p)
            t = open(f).read()
            if t.count(old) != 1: raise SystemExit("%s: %d matches of %r" % (s["id"], t.count(old), old))
            open(f, "w").write(t.replace(old, new))
            base = subprocess.run(["git", "-C", "/repo", "show", "052bdf4:" + p], capture_output=True, text=True).stdout.splitlines()
            nl = new.splitlines()
            for l in old.splitlines():
                if l not in nl and not any(l in b for b in base): raise SystemExit("%s: line not in the original: %r" % (s["id"], l))
        r = subprocess.run("diff -ruN a b", shell=True, cwd=w, capture_output=True, text=True).stdout
        r = "".join(l for l in r.splitlines(True) if not l.startswith("diff "))
        lines = []
        for l in r.splitlines(True):
            if l.startswith(("--- ", "+++ ")): l = l.split("\t")[0].rstrip("\n") + "\n"
            lines.append(l)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write("".join(lines))
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write("def exit_if(bad):\n    raise SystemExit(1 if bad else 0)\n\n" + s["demo"].lstrip("\n").replace("sys.exit(", "exit_if("))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
    return d

def note(sid, text):
    f = V + "/tools/caught.json"
    d = json.load(open(f)) if os.path.exists(f) else {}
    c = [t.split(":")[0].strip() for t in text.split("|") if "CAUGHT" in t]
    d[sid] = ", ".join(c) if c else "missed"
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)
    print(sid, text, flush=True)

def main(n=3):
    ds = [(write(s), s["id"], s["prop"]) for s in SEEDS]
    with ThreadPoolExecutor(n) as ex:
        for sid, t in ex.map(lambda a: confirm(*a), ds): note(sid, t)

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    a = []
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        a.append((d, i, json.load(open(d + "/meta.json"))["property"]))
    with ThreadPoolExecutor(3) as ex:
        for sid, t in ex.map(lambda a: confirm(*a), a): note(sid, t)
