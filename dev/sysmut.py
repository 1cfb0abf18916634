#!/usr/bin/env python3
"""Development aid: systematic mutants of JavaScript files that no check reports.

sysmut.py <file regex> [check,check…]   prints the survivors; -t also drops those the tests of the file's module report."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = "P01,P02,P03,P04,P05,P06,P07,P08,P09,P10,P12,P13,P14,P15,P17,P18,P19,P26".split(",")

FIRST = {"build": ["P26", "P09"], "configure": ["P13", "P14", "P09"], "find-python": ["P10"], "config-gypi": ["P12"], "node-gyp": ["P19", "P08"], "process-release": ["P18"],
         "download": ["P07"], "find-node": ["P14"], "remove": ["P05"], "util": ["P14", "P10", "P17"]}


def one(job):
    f, (line, op, a, b, rep), ids = job
    d = tempfile.mkdtemp(prefix="sysmut")
    try:
        r = d + "/repo"
        os.makedirs(r)
        for x in ("lib", "bin", "gyp", "update-gyp.py", "package.json", "addon.gypi"):
            s = "/repo/" + x
            (shutil.copytree(s, r + "/" + x, ignore=shutil.ignore_patterns("__pycache__", "test*")) if os.path.isdir(s) else shutil.copy(s, r))
        p = f"{r}/{f}"
        t = open(p, encoding="utf-8").read().encode("utf-16-le")
        t = (t[:2 * a] + rep.encode("utf-16-le") + t[2 * b:]).decode("utf-16-le")
        old = open(p).read()
        open(p, "w").write(t)
        if subprocess.run(["node", "--check", p], capture_output=True).returncode:
            return None
        for i in ids:
            q = subprocess.run([sys.executable, V + "/run.py", i], capture_output=True, text=True, env=dict(os.environ, SA_JOBS="1", SA_REPO=r, SA_OUT=d + "/o"))
            if q.returncode == 1:
                return None
            if q.returncode:
                return f"ERROR {f}:{line} {op} {i} {q.stderr[-100:]}"
        ls = t.splitlines()
        return f"{f}:{line} {op}: {ls[line - 1].strip()[:150] if line <= len(ls) else ''}   [{rep[:60]!r}]"
    finally:
        shutil.rmtree(d)


def main():
    jobs = []
    ids = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    for f in sorted("lib/" + x for x in os.listdir("/repo/lib")) + ["bin/node-gyp.js"]:
        if not f.endswith(".js") or not re.search(sys.argv[1], f):
            continue
        ms = json.loads(subprocess.run(["node", V + "/dev/sysmut.js", "/repo/" + f], capture_output=True, text=True, check=True).stdout)
        lead = next((v for k, v in FIRST.items() if k in f), [])
        first = ids or (["P11", "P17"] if "visualstudio" in f else lead + [i for i in IDS if i not in lead])
        jobs += [(f, m, first) for m in ms if len(sys.argv) < 4 or re.search(sys.argv[3], m[1])]
    print(len(jobs), "mutants", flush=True)
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r:
                n += 1
                print(r, flush=True)
    print(n, "survive")


main()
