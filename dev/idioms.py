"""Python idioms a refactoring may introduce, each a function without parameters.
`python3 dev/idioms.py [name…]` compares the abstract interpreter's result with Python's, in a copy of /repo's gyp."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = open(V + "/dev/idioms_src.py").read()
if os.environ.get("SA_REPO") is None:
    t = tempfile.mkdtemp(prefix="idioms-")
    try:
        shutil.copytree("/repo", t + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules"))
        open(t + "/r/gyp/pylib/gyp/idioms.py", "w").write(SRC)
        open(t + "/r/gyp/pylib/gyp/input.py", "a").write("\nimport gyp.idioms\n")
        sys.exit(subprocess.run([sys.executable, __file__, *sys.argv[1:]], env=dict(os.environ, SA_REPO=t + "/r")).returncode)
    finally:
        shutil.rmtree(t)
sys.path.insert(0, V)
from sa.kit import Check
from sa.interp import Inter
from sa.rules.gencommon import Gen
from sa.rules.p24_dependencies import plain
c = Check("P28", "quick", 1)
g = Gen(c, "gyp.generator.make", others=("gyp.common", "gyp.xcode_emulation", "gyp.idioms"))
assert g.ok
ns = {"__name__": "idioms_src"}
sys.path.insert(0, "/repo/gyp/pylib")
sys.dont_write_bytecode = True
import types
sys.modules["idioms_src"] = types.ModuleType("idioms_src")
exec(compile(SRC, "idioms_src", "exec"), ns)
mod = c.py.mods["gyp.idioms"]
bad = n = 0
for f in mod.functions.values() if isinstance(mod.functions, dict) else mod.functions:
    if not (f.name or "").startswith("t_") or sys.argv[1:] and f.name[2:] not in sys.argv[1:]:
        continue
    if f.name not in ns:
        continue
    n += 1
    want = ns[f.name]()
    g.files = []
    try:
        e = Inter.of(c, f, g.model, maxstates=20000)
        rs = e.run(dict(g.base))
        got = [(k, plain(e, s.get(("v", "r", "$ret"), ("c", None)), s) if k == "return" else s["exc"]) for k, v, s in rs]
        if len(got) == 1 and got[0][0] == "return":
            w = lambda x: [w(y) for y in x] if isinstance(x, (list, tuple)) else {k: w(y) for k, y in x.items()} if isinstance(x, dict) else sorted(x) if isinstance(x, (set, frozenset)) else x
            z = w(got[0][1])
            if isinstance(want, set) and isinstance(z, list):
                z = sorted(z)
            if z == w(want):
                continue
        msg = got
    except Exception as x:
        import traceback
        msg = repr(x) + traceback.format_exc()[-300:] if os.environ.get("TB") else repr(x)
    bad += 1
    print("--", f.name[2:], "want", repr(want)[:80], "got", str(msg)[:220])
print(n, "idioms,", bad, "not decided")
