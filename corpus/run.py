"""Run all checks on every edit of the corpus (experiment driver, not a registered check): run.py [-j N] [name ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


import queue
DIRS = queue.Queue()
BASE = "/tmp/mvdsa-runs"
for _i in range(4):
    os.makedirs("%s/%d" % (BASE, _i), exist_ok=True)
    DIRS.put("%s/%d" % (BASE, _i))


def one(x):
    name, edits = x
    b = DIRS.get()
    try:
        return one_in(name, edits, b)
    finally:
        DIRS.put(b)


def one_in(name, edits, bd):
    d = tempfile.mkdtemp(prefix="ref-")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git", "*.mvd"))
        for f, a, b in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if a not in s:
                return name, {"error": "text not found in %s: %s" % (f, a[:80])}
            open(p, "w").write(s.replace(a, b, 1))
        env = dict(os.environ, MVDSA_BUILD=bd, PROCS="3")
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "mvdsa", "all.py"), repo], env=env, capture_output=True, text=True)
        try:
            return name, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            return name, {"error": (r.stdout + r.stderr)[-800:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    from refactors import R
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    items = [x for x in R if not names or x[0] in names]
    bad = 0
    with ThreadPoolExecutor(4) as p:
        for name, o in p.map(one, items):
            if "error" in o or "build" in o:
                print("%-26s ERROR %s" % (name, o.get("error") or o["build"]))
                continue
            bad += bool(o["viol"])
            print("%-26s viol=%s und=%s %.0fs" % (name, sorted(o["viol"]), len(o["und"]), o["wall"]), flush=True)
            for l in o["detail"][:6]:
                print("      " + l[:420])
    print("false alarms:", bad)


main()
