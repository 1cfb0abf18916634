#!/usr/bin/env python3
"""Development aid: run a check on edited copies of /repo.

dev/mutants/<ID>.py holds MUTANTS = [(name, expected, [(file, old, new), ...])], expected 'bad' (must be reported)
or 'ok' (behaviour-preserving edit, must stay quiet)."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, name, exp, edits):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        for x in ("lib", "bin", "gyp", "update-gyp.py", "package.json", "addon.gypi"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(r, x), ignore=shutil.ignore_patterns("__pycache__", "test*"))
            else:
                shutil.copy(s, r)
        for f, a, b in edits:
            p = os.path.join(r, f)
            if a is None:
                open(p, "w").write(b)
                continue
            t = open(p).read()
            if t.count(a) != 1:
                return f"{pid} {name}: EDIT DOES NOT APPLY ({t.count(a)}x) {f}: {a[:50]!r}"
            open(p, "w").write(t.replace(a, b))
        for f, a, b in edits:
            p = os.path.join(r, f)
            cmd = ["node", "--check", p] if f.endswith(".js") else [sys.executable, "-m", "py_compile", p]
            q = subprocess.run(cmd, capture_output=True, text=True)
            if q.returncode:
                return f"{pid} {name}: SYNTAX {q.stderr[:300]}"
        env = dict(os.environ, SA_JOBS="2", SA_REPO=r, SA_OUT=os.path.join(d, "out"))
        q = subprocess.run([sys.executable, os.path.join(V, "run.py"), pid], capture_output=True, text=True, env=env)
        got = {0: "ok", 1: "bad"}.get(q.returncode, "ERROR")
        tag = "  " if got == exp else "!!"
        msg = ""
        if got == "bad":
            msg = next((l for l in q.stdout.splitlines() if "[" in l), "")[:130]
        if got == "ERROR":
            msg = q.stderr[-400:]
        return f"{tag} {pid} {name}: {got} (want {exp}) {msg}"
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1:2] == ["adv"]:
        return adv(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "")
    ids = sys.argv[1:2] or sorted(f[:-3] for f in os.listdir(os.path.join(V, "dev/mutants")) if f.endswith(".py"))
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    jobs = []
    for i in ids:
        sp = importlib.util.spec_from_file_location(i, os.path.join(V, "dev/mutants", i + ".py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for mu in m.MUTANTS:
            if flt in mu[0]:
                jobs.append((i,) + tuple(mu))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: run(*j), jobs):
            print(r)


def adv(name, flt):
    """Independent bugs of dev/adv/<name>.py: (property, name, expected, edits)."""
    sp = importlib.util.spec_from_file_location(name, os.path.join(V, "dev/adv", name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: run(*j), [j for j in m.ADV if flt in j[0] + " " + j[1]]):
            print(r, flush=True)


main()
