A = "addon.gypi"
G = "gyp/pylib/gyp/__init__.py"
ADDON = '''
SETTINGS = ["-I", REPO + "/addon.gypi", "-Dnode_engine=v8", "-Dnode_root_dir=/h", "-Dnode_gyp_dir=/n", "-Dstandalone_static_library=0",
            "-Dnode_lib_file=node.lib", "-Dnode_exp_file=node.exp", "--ignore-environment"]
def load(d, os, arch="x64", *more):
    write({"a.gyp": d})
    rc, out = gyp("a.gyp", "-DOS=" + os, "-Dtarget_arch=" + arch, *more, *SETTINGS)
    if rc:
        raise Exception(out)
    return data("a.gypd")
'''
seed("p31-pic-arm", "P31", [(A, """(OS=="linux" and target_arch!="ia32")""", """(OS=="linux" and target_arch=="x64")""")], """
from h import *""" + ADDON + """
def demo():
    for arch in ("x64", "arm64", "ppc64"):
        d = load({"targets": [{"target_name": "x", "sources": ["x.c"]}]}, "linux", arch)
        if "-fPIC" not in target(d, "x")["configurations"]["Default"].get("cflags", target(d, "x").get("cflags", [])):
            return "no -fPIC on " + arch
main(demo)
""", "an addon built on Linux for an architecture other than x64", "its objects are compiled without position-independent code", kind="py")

seed("p31-building-shared", "P31", [(A, "      'BUILDING_V8_SHARED=1',  # Inherited", "      'BUILDING_V8_SHARED',  # Inherited")], """
from h import *""" + ADDON + """
def demo():
    write({"common.gypi": {"target_defaults": {"defines": ["BUILDING_V8_SHARED=1", "BUILDING_UV_SHARED=1", "OTHER=1"]}}})
    d = load({"targets": [{"target_name": "x", "sources": ["x.c"]}]}, "win", "x64", "-Icommon.gypi")
    t = target(d, "x")
    s = t["configurations"]["Default"].get("defines", t.get("defines"))
    if "OTHER=1" not in s or "USING_V8_SHARED=1" not in s or [x for x in s if x.startswith("BUILDING_V8")]:
        return s
main(demo)
""", "an addon for a Node.js that was itself built with a shared V8", "addons are compiled as parts of V8", kind="py")

seed("p32-variables-leak", "P32", [(G, "    default_variables = copy.copy(default_variables)\n", "    default_variables = default_variables or {}\n")], """
from h import *
def demo():
    write({"a.gyp": {"targets": [{"target_name": "x", "type": "none"}]}})
    code = '''
import sys
sys.path.insert(0, %r)
import gyp, gyp.input
seen = []
orig = gyp.input.Load
def load(build_files, variables, *a, **k):
    seen.append(dict(variables))
    return orig(build_files, variables, *a, **k)
gyp.input.Load = load
for fs in (["-fgypd"], ["-fmake", "-fgypd"]):
    if gyp.main(["a.gyp", "--depth=.", "--no-parallel", "-Dx=1", "--generator-output=o", "--ignore-environment"] + fs):
        sys.exit("failed")
print(seen[0] == seen[2], [k for k in seen[2] if seen[0].get(k) != seen[2][k]])
''' % (REPO + "/gyp/pylib")
    r = subprocess.run([sys.executable, "-c", code], cwd=D, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    if not r.stdout.startswith("True"):
        return r.stdout + r.stderr
main(demo)
""", "several formats requested in one run together with a variable", "the variables of the first generator are kept for the second", kind="py")

seed("p32-regenerate-first-define", "P32", [(G, """            if value in flags:
                flags.remove(value)
            flags.append(value)
""", """            if value not in flags:
                flags.append(value)
""")], """
from h import *
def demo():
    write({"a.gyp": {"targets": [{"target_name": "x", "type": "none", "actions": [{"action_name": "a", "inputs": [], "outputs": ["out.txt"],
          "action": ["sh", "-c", "echo <(mode) > <@(_outputs)"]}]}]}})
    rc, out = gyp("a.gyp", "--generator-output", "build", "-Goutput_dir=.", fmt="make", env={"GYP_DEFINES": "mode=fast mode=slow mode=fast"})
    if rc:
        return out
    import re
    m = re.findall(r"-Dmode=(\\w+)", read("build/Makefile"))
    if not m or m[-1] != "fast":
        return m
main(demo)
""", "GYP_DEFINES that set a variable repeatedly, back to an earlier value", "a regenerated makefile uses another value of the variable", kind="py")

seed("p32-profile-shadows-home", "P32", [(G, 'home_vars.append("USERPROFILE")', 'home_vars.insert(0, "USERPROFILE")')], """
from h import *
def demo():
    write({"h/.gyp/include.gypi": {"variables": {"who": "home"}}, "p/.gyp/include.gypi": {"variables": {"who": "profile"}}, "a.gyp": {"targets": []}})
    code = '''
import os, sys
sys.path.insert(0, %r)
import gyp
seen = []
def load(build_files, format, variables={}, includes=[], *a, **k):
    seen.extend(includes)
    raise gyp.GypError("stop")
gyp.Load = load
sys.platform = "win32"
gyp.main(["a.gyp", "--depth=.", "-fgypd"])
print(seen)
''' % (REPO + "/gyp/pylib")
    e = {k: v for k, v in os.environ.items() if not k.startswith("GYP")}
    e.update(HOME=D + "/h", USERPROFILE=D + "/p", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", code], cwd=D, env=e, capture_output=True, text=True)
    if "/h/.gyp/include.gypi" not in r.stdout.splitlines()[-1]:
        return r.stdout + r.stderr
main(demo)
""", "Windows with both HOME and USERPROFILE set and a personal include file in each", "the include file of USERPROFILE is used instead of the one in HOME", kind="py")
