#!/usr/bin/env python3
"""Development aid: apply behaviour-preserving rewrites to copies of /repo and run the checks; every alarm is a defect of the check.

refrun.py py|js [-t transform,..] [-p P20,P21] [-f file regex] [-q qualname regex]"""
import argparse
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
import refpy  # noqa: E402


def pyfiles(r):
    for d, _, fs in os.walk(r):
        for f in fs:
            if f.endswith(".py") and "test" not in f:
                yield os.path.join(d, f)


def make(lang, t, fre, qre):
    d = tempfile.mkdtemp(prefix="ref")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".git"), symlinks=True)
    n = 0
    if lang == "py":
        for p in pyfiles(r):
            rel = os.path.relpath(p, r)
            if not re.search(fre, rel) or not (rel.startswith("gyp/pylib") or rel in ("gyp/gyp_main.py", "update-gyp.py")):
                continue
            s = open(p).read()
            o = refpy.transform(s, t, lambda q: re.search(qre, q))
            b = refpy.transform(s, t, lambda q: False)
            if o != b:
                n += 1
                open(p, "w").write(o)
        q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", "x"], cwd=r, capture_output=True, text=True)
        ok = q.returncode == 0
        msg = q.stdout.splitlines()[-1:] if ok else q.stdout.splitlines()[-12:]
    else:
        js = [os.path.join(r, "lib", f) for f in os.listdir(os.path.join(r, "lib")) if f.endswith(".js")] + [os.path.join(r, "bin/node-gyp.js")]
        for p in js:
            rel = os.path.relpath(p, r)
            if not re.search(fre, rel):
                continue
            q = subprocess.run(["node", os.path.join(V, "dev/refjs.js"), t, p, p, qre], capture_output=True, text=True)
            if q.returncode:
                return d, r, 0, False, [rel + q.stderr[-500:]]
            n += q.stdout.strip() == "changed"
            q = subprocess.run(["node", "--check", p], capture_output=True, text=True)
            if q.returncode:
                return d, r, 0, False, [rel + q.stderr[-500:]]
        ok, msg = True, []
    return d, r, n, ok, msg


def one(r, pid, out):
    env = dict(os.environ, SA_JOBS="2", SA_REPO=r, SA_OUT=out)
    t0 = time.time()
    q = subprocess.run([sys.executable, os.path.join(V, "run.py"), pid], capture_output=True, text=True, env=env, timeout=1500)
    if q.returncode == 0:
        return f"   {pid} ok {time.time()-t0:.0f}s" if time.time() - t0 > 60 else None
    if q.returncode == 1:
        ls = [x for x in q.stdout.splitlines() if "[" in x]
        return f"!! {pid} ALARM ({len(ls)}) " + " || ".join(x.strip()[:170] for x in ls[:2])
    return f"!! {pid} ERROR " + q.stderr[-250:].replace("\n", " / ")


def main():
    a = argparse.ArgumentParser()
    a.add_argument("lang")
    a.add_argument("-t", default="")
    a.add_argument("-p", default="")
    a.add_argument("-f", default="")
    a.add_argument("-q", default="")
    a.add_argument("-k", action="store_true", help="keep the copy")
    o = a.parse_args()
    if o.lang == "py":
        ts = o.t.split(",") if o.t else refpy.ALL
    else:
        ts = o.t.split(",") if o.t else subprocess.run(["node", os.path.join(V, "dev/refjs.js"), "--list"], capture_output=True, text=True).stdout.split()
    ps = o.p.split(",") if o.p else sorted({f[:3].upper() for f in os.listdir(os.path.join(V, "sa/rules")) if re.match(r"p\d\d", f)})
    ex = ThreadPoolExecutor(8)
    jobs = []
    for t in ts:
        d, r, n, ok, msg = make(o.lang, t, o.f, o.q)
        jobs.append((t, d, r, n, ok, msg, [ex.submit(one, r, p, os.path.join(d, "out" + p)) for p in ps] if ok and n else []))
    for t, d, r, n, ok, msg, fs in jobs:
        print(f"== {t}: {n} files" + ("" if ok else " TESTS FAIL " + "\n".join(msg)), r if o.k else "")
        for f in fs:
            m = f.result()
            if m:
                print("  ", m)
        sys.stdout.flush()
        if not o.k:
            shutil.rmtree(d)


main()
