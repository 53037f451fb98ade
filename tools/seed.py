#!/usr/bin/env python3
"""seed.py make SPECS.py [ID...]   write seeded/<id>/ from specs and verify them in scratch copies
   seed.py check [ID...] [--pids P01,P02|own|all]   run checks against the seeded bugs (scratch copies)

SPECS.py defines BUGS = [dict(id, pid, needs, breaks, edits=[(file, old, new)], demo=python text)]
"""
import difflib, json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST = ("ip link set lo up; cd %s && timeout -k 10 400 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=150 "
        "--continue-on-collection-errors -o python_classes= -o 'python_files=unittest_*.py functest_*.py perftest_*.py' "
        "--ignore=tests/functest_modbus_rtu.py -o junit_family=xunit2 --junitxml=%s tests")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import threading
threading.Timer(100, lambda: os._exit(9)).start() if False else None


def leave(code):
    sys.stdout.flush()
    os._exit(code)


'''


def copy(name):
    d = os.path.join(tempfile.gettempdir(), "w", "seed-%d-%s" % (os.getpid(), name))
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    return d


def make(bug):
    sd = os.path.join(V, "seeded", bug["id"])
    os.makedirs(sd, exist_ok=True)
    diff = []
    byfile = {}
    for f, old, new in bug["edits"]:
        p = "modbus_tk/" + f
        if p not in byfile:
            s = open("/repo/" + p, newline="").read()
            byfile[p] = [s, s]
        s = byfile[p][1]
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            return "%s: %d matches of %r in %s" % (bug["id"], s.count(old), old, p)
        byfile[p][1] = s.replace(old, new)
    for p, (a, b) in byfile.items():
        diff += list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    open(os.path.join(sd, "patch.diff"), "w", newline="").write("".join(diff))
    open(os.path.join(sd, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(sd, "demo.sh"), 0o755)
    open(os.path.join(sd, "demo.py"), "w").write(PRE.replace("threading.Timer(100, lambda: os._exit(9)).start() if False else None\n", "").replace("import threading\n", "") + bug["demo"].strip("\n") + "\n")
    json.dump({"property": bug["pid"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(sd, "meta.json"), "w"), indent=1)
    return None


def verify(bid):
    sd = os.path.join(V, "seeded", bid)
    d = copy(bid)
    msg = []
    try:
        out = os.path.join(d, "..", bid + ".xml")
        demo = lambda: subprocess.run(["unshare", "-Urn", "bash", "-c", "ip link set lo up; bash %s/demo.sh" % sd], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = demo()
        if r.returncode:
            msg.append("demo fails on the clean tree rc=%d: %s" % (r.returncode, r.stdout[-1500:]))
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.join(sd, "patch.diff")], cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "--binary", "-i", os.path.join(sd, "patch.diff")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return "%s: patch: %s" % (bid, r.stdout)
        r = demo()
        if not r.returncode:
            msg.append("demo passes with the bug: %s" % r.stdout[-800:])
        last = (r.stdout.strip().splitlines() or [""])[-1][:200]
        subprocess.run(["unshare", "-Urn", "bash", "-c", TEST % (d, out)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0"))
        sys.path.insert(0, "/opt/vp")
        import results
        res = dict()
        for n, ok in results.junit(out):
            res[n] = res.get(n, True) and ok
        os.unlink(out)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in stable if not res.get(t)]
        if bad:
            msg.append("stable tests fail: %d %s" % (len(bad), bad[:3]))
        return "%s: %s (demo says: %s)" % (bid, "; ".join(msg) or "ok", last)
    finally:
        shutil.rmtree(d)


def check(bid, pids):
    sd = os.path.join(V, "seeded", bid)
    d = copy(bid)
    out = []
    try:
        subprocess.run(["patch", "-s", "-p1", "--binary", "-i", os.path.join(sd, "patch.diff")], cwd=d, check=True)
        for pid in pids:
            r = subprocess.run(["python3-vt", "check.py", pid], cwd=V, env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            why = [l for l in r.stdout.splitlines() if l.startswith(("reason", "CHECK ERROR"))]
            out.append("%s rc=%d %s" % (pid, r.returncode, (why or [""])[0][:160]))
    finally:
        shutil.rmtree(d)
    return "%s: %s" % (bid, " | ".join(out))


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "make":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        want = sys.argv[3:]
        ok = []
        for b in bugs:
            if want and b["id"] not in want:
                continue
            m = make(b)
            print(m) if m else ok.append(b["id"])
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(verify, ok):
                print(r, flush=True)
    elif cmd == "verify":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(verify, ids):
                print(r, flush=True)
    else:
        args = [a for a in sys.argv[2:] if not a.startswith("--")]
        mode = ([a.split("=")[1] for a in sys.argv[2:] if a.startswith("--pids=")] or ["own"])[0]
        ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
        allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]

        def one(bid):
            own = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))["property"]
            return check(bid, [own] if mode == "own" else allp if mode == "all" else mode.split(","))
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(one, ids):
                print(r, flush=True)
