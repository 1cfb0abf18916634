"""Create / re-check planted bugs:  python3 dev/mkseed.py [id ...]
Reads dev/seeds/*.py (ID lists) and writes /verif/seeded/<id>/; verifies in a scratch copy of /repo under /tmp."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, kind="js"):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind)


for f in sorted(glob.glob(V + "/dev/seeds/*.py")):
    exec(open(f).read())


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, (r.stdout + r.stderr)


def main(ids):
    tmp = tempfile.mkdtemp(prefix="mkseed-")
    try:
        for i in ids or SEEDS:
            s = SEEDS[i]
            R = tmp + "/repo"
            if os.path.exists(R):
                shutil.rmtree(R)
            shutil.copytree("/repo", R, symlinks=True)
            sh("git checkout -q -- .", R)
            for f, old, new in s["edits"]:
                t = open(f"{R}/{f}").read()
                if t.count(old) != 1:
                    print(i, "EDIT does not match once:", f, t.count(old), repr(old[:60]))
                    break
                open(f"{R}/{f}", "w").write(t.replace(old, new))
            else:
                D = f"{V}/seeded/{i}"
                os.makedirs(D, exist_ok=True)
                _, diff = sh("git diff", R)
                open(D + "/patch.diff", "w").write(diff)
                if s["kind"] == "js":
                    open(D + "/demo.js", "w").write(s["demo"].strip() + "\n")
                    shutil.copy(V + "/dev/seedlib/h.js", D + "/h.js")
                    shutil.copy(V + "/dev/seedlib/demo.sh", D + "/demo.sh")
                else:
                    open(D + "/demo.py", "w").write(s["demo"].strip() + "\n")
                    shutil.copy(V + "/dev/seedlib/h.py", D + "/h.py")
                    open(D + "/demo.sh", "w").write('#!/bin/sh\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$here/demo.py"\n')
                os.chmod(D + "/demo.sh", 0o755)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(D + "/meta.json", "w"), indent=1)
                rc1, o1 = sh(f"sh {D}/demo.sh", R)
                p = sh("python3 -m pytest -q -x 2>&1 | tail -3", R + "/gyp")[1] if s["kind"] != "js" else ""
                rcs = sh("for f in lib/*.js bin/*.js; do node --check $f || exit 1; done", R)[0]
                r = sh(f"python3 {V}/run.py {s['prop']}", V, dict(os.environ, SA_REPO=R, SA_OUT=tmp + "/ev"))
                sh("git checkout -q -- .", R)
                rc0, o0 = sh(f"sh {D}/demo.sh", R)
                print(i, s["prop"], "demo clean", rc0, "patched", rc1, "parse", rcs, p.strip().split("\n")[-1][:60], "| check", r[0], [l for l in r[1].split("\n") if "VIOLATION" in l][:1] if r[0] else "")
                if rc0 != 0:
                    print("   clean:", o0[-600:])
                if rc1 == 0:
                    print("   patched:", o1[-600:])
                elif "FAIL" not in o1:
                    print("   patched out:", o1[-600:])
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1:])
