"""Helpers of a demonstration: everything happens below a scratch directory that is removed again."""
import ast, os, pprint, subprocess, sys, tempfile

REPO = os.getcwd()
_tmp = tempfile.TemporaryDirectory(prefix="demo-")
D = os.path.realpath(_tmp.name)


def write(files):
    for name, data in files.items():
        p = os.path.join(D, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(data if isinstance(data, str) else pprint.pformat(data))


def gyp(*args, env=None, fmt="gypd", hashseed="0"):
    e = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    r = subprocess.run([sys.executable, REPO + "/gyp/gyp_main.py", "--no-parallel", "--depth=.", "-f", fmt, *args],
                       cwd=D, env=e, capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout + r.stderr


def generate(*gyps):
    """Makefiles in D/build, as node-gyp asks for them."""
    return gyp("--generator-output", "build", "-Goutput_dir=.", *gyps, fmt="make")


def make(*goals, dir="build"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CC", "CXX", "MAKE", "LINK", "AR", "LD", "CFLAGS", "BUILDTYPE"))}
    r = subprocess.run(["make", "V=1", *goals], cwd=os.path.join(D, dir), env=e, capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout + r.stderr


def run(prog, cwd="."):
    r = subprocess.run([os.path.join(D, prog)], cwd=os.path.join(D, cwd), capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout + r.stderr


def exists(name):
    return os.path.exists(os.path.join(D, name))


def data(name):
    with open(os.path.join(D, name)) as f:
        return ast.literal_eval(f.read())


def read(name):
    with open(os.path.join(D, name)) as f:
        return f.read()


def target(d, name):
    return [t for t in d["targets"] if t["target_name"] == name][0]


def main(fn):
    try:
        msg = fn()
    except Exception as e:
        msg = repr(e)
    _tmp.cleanup()
    print("FAIL: %s" % (msg,) if msg else "ok")
    sys.exit(1 if msg else 0)
