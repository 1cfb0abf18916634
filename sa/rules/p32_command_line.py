"""The command line and environment of gyp itself."""
import argparse
import contextlib
import io
import posixpath
import shlex

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter, PATH
from ..ir import Class
from ..match import *
from ..pyccp import RAISE, exc_name
from .gencommon import PATHCONST
from .p24_dependencies import Heap, Tally, outcome, plain
from .pycommon import *

ID = "P32"
EXPLANATION = (
    "Interprocedural constant propagation of gyp's main program from its arguments and environment to the calls of the loader and the generators, "
    "with the argument parser it builds applied to constant arguments; what reaches loader and generator, the order of these calls, the exit status and "
    "the arguments recorded for a later run are compared with the documented meaning of the command line for every class of arguments and environment.")
NONE = ("c", None)
AP = ("a", ("mod", "argparse"), "ArgumentParser")
CWD = "/w/src/app"
GENERATORS = ("make", "gypd", "ninja")


class Rec:
    """A recorded value, compared by its contents."""

    def __init__(self, v):
        self.v, self.r = v, repr(v)

    def __eq__(self, o):
        return isinstance(o, Rec) and self.r == o.r

    def __hash__(self):
        return hash(self.r)


class Front:
    """`main` up to the loader and the generators, which are recorded."""

    def __init__(self, c, entry="main"):
        self.c = c
        self.f = func(c, "gyp", entry)
        self.env, self.platform, self.exists, self.argv, self.script = {}, "linux", set(), [], "/n/gyp/gyp_main.py"
        self.result, self.fail = {"confs": ["Release", "Debug"]}, None
        self.cls = Class("Namespace", ("argparse", 1), c.py.mods["gyp"], None)
        self.base = {}
        self.ok = self.f is not None
        for m in ("gyp.common", "gyp.generator.make", "gyp.generator.gypd", "gyp"):
            r = Inter.load(c, m, self.model) if m in c.py.mods else None
            if r is None:
                self.ok = False
                continue
            self.base.update(r)

    def parse(self, s, e, n, a, kw):
        """What the parser built so far makes of constant arguments."""
        p = argparse.ArgumentParser(prog="gyp")
        for _, w, args in s.get("fx", ()):
            if w[0] == "ap" and w[1] == a[0]:
                p.add_argument(*args.v[0], **args.v[1])
        words = plain(e, a[1], s) if len(a) > 1 else self.argv
        if not isinstance(words, list):
            return None
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                ns, rest = p.parse_known_args([str(x) for x in words])
        except SystemExit:
            return e.bad("SystemExit")
        i = e.alloc(s, (n.id, "ns"))
        s[("K", i)] = self.cls
        for k, v in vars(ns).items():
            s[("W", ("new", i), ("c", k))] = ("list", tuple(("c", x) for x in v)) if isinstance(v, list) else ("c", v)
        for k, v in list(s.items()):
            if isinstance(k, tuple) and k[0] == "W" and k[1] == ("new", i) and v[0] == "list":
                j = e.alloc(s, (n.id, "nl", k[2][1]))
                s[("F", j)] = v
                s[k] = ("new", j)
        j = e.alloc(s, (n.id, "rest"))
        s[("F", j)] = ("list", tuple(("c", x) for x in rest))
        return ("tuple", (("new", i), ("new", j)))

    def model(self, op, t):
        if op == "value":
            if t == ("a", ("mod", "sys"), "platform"):
                return ("c", self.platform)
            if t == ("a", ("mod", "os"), "environ"):
                return ("dict", tuple((("c", k), ("c", v)) for k, v in self.env.items()))
            if t == ("a", ("mod", "sys"), "argv"):
                return ("list", tuple(("c", x) for x in [self.script] + list(self.argv)))
            if t == ("a", ("mod", "os"), "sep") or t == ("a", PATH, "sep"):
                return ("c", "/")
            if t == ("glob", "__name__"):
                return ("c", "gyp")
            if t in PATHCONST:
                return ("c", PATHCONST[t])
            return None
        if op == "call":
            return self.called(t[1], t[2])
        if op == "exec":
            cal, a, s, e, n = t
            base = cal[0] == "a" and (cal[1] == AP or cal[1][0] == "super")
            if base or cal[0] == "a" and cal[1] == ("a", ("mod", "argparse"), "ArgumentParser"):
                a = self.spread(e, s, a)
                kw = [(k, plain(e, v, s)) for k, v in e.kwargs(n, s)]
                if a is None:
                    return None
                if cal[1][0] == "super":
                    a = (cal[1][1],) + a
                if cal[2] == "__init__":
                    return NONE
                if cal[2] == "add_argument":
                    kw = {k: {"str": str, "int": int}.get(v[1]) if isinstance(v, tuple) and v[0] == "glob" else v for k, v in kw if k not in ("help",)}
                    words = [plain(e, x, s) for x in a[1:]]
                    if any(isinstance(x, tuple) for x in list(kw.values()) + words):
                        return None
                    s["fx"] = s.get("fx", ()) + ((n.id, ("ap", a[0]), Rec((words, kw))),)
                    return NONE
                if cal[2] in ("parse_known_args", "parse_args"):
                    return self.parse(s, e, n, a, kw)
            if cal[0] == "fn":
                nm, mod = cal[1].name, cal[1].module.name
                if mod == "gyp.input" and nm == "Load":
                    kw = dict(e.kwargs(n, s))
                    args = {p.id.split("#")[0]: v for (p, _, _), v in zip(cal[1].params, a)}
                    args.update((k, v) for k, v in kw.items())
                    self.event(s, e, n, "load", args)
                    if self.fail:
                        return e.bad(("call", ("cls", self.c.py.mods["gyp.common"].classes["GypError"]), (("c", "bad"),), ()) if self.fail == "GypError" else self.fail)
                    confs = ("dict", tuple((("c", x), ("dict", ())) for x in self.result["confs"]))
                    t1 = ("dict", ((("c", "t1"), ("dict", ((("c", "configurations"), confs),))), (("c", "t2"), ("dict", ((("c", "configurations"), ("dict", ())),)))))
                    return ("list", (("list", (("c", "t1"), ("c", "t2"))), t1, ("dict", ((("c", "data"), ("c", 1)),))))
                if nm in ("GenerateOutput", "PerformBuild") and mod.startswith("gyp.generator."):
                    self.event(s, e, n, nm + " " + mod.rsplit(".", 1)[1], {str(i): x for i, x in enumerate(a)})
                    return NONE
                if nm == "DebugOutput":
                    return NONE
            if cal == ("glob", "print") or cal[0] == "a" and cal[1] == ("a", ("mod", "sys"), "stderr"):
                self.event(s, e, n, "text", {"0": a[0] if a else NONE, "err": ("c", cal != ("glob", "print") or any(k == "file" for k, _ in e.kwargs(n, s)))})
                return NONE
            return self.called(cal, a)
        return None

    def spread(self, e, s, a):
        out = []
        for x in a:
            if x[0] == "star":
                q = e.seq(x[1], s)
                if q is None:
                    return None
                out += q
            else:
                out.append(x)
        return tuple(out)

    def event(self, s, e, n, what, args):
        s["fx"] = s.get("fx", ()) + ((n.id, ("ev", what), Rec({k: self.deep(e, v, s) for k, v in args.items()})),)

    def deep(self, e, v, s, d=0):
        if v[0] == "new" and ("K", v[1]) in s and d < 6:
            return {k[2][1]: self.deep(e, x, s, d + 1) for k, x in s.items() if isinstance(k, tuple) and k[0] == "W" and k[1] == v}
        f = e.fields(v, s) if v[0] in ("new", "dict", "list", "tuple") else None
        if f is not None and f[0] == "dict" and d < 6:
            return {k[1] if k[0] == "c" else k: self.deep(e, x, s, d + 1) for k, x in f[1]}
        r = plain(e, v, s)
        return r

    def called(self, cal, a):
        if cal == ("glob", "__import__") and a and a[0][0] == "c":
            return ("mod", a[0][1]) if a[0][1] in self.c.py.mods and a[0][1].rsplit(".", 1)[-1] in GENERATORS else RAISE
        if cal == ("a", ("mod", "importlib"), "import_module") and a and a[0][0] == "c":
            return ("mod", a[0][1]) if a[0][1] in self.c.py.mods else RAISE
        if cal == ("a", ("mod", "os"), "getcwd"):
            return ("c", CWD)
        if cal == ("a", ("mod", "os"), "listdir"):
            return ("list", tuple(("c", x) for x in self.result.get("dir", [])))
        if cal[0] == "a" and cal[1] == PATH and a and a[0][0] == "c" and isinstance(a[0][1], str):
            if cal[2] in ("exists", "isfile", "isdir", "lexists"):
                return ("c", posixpath.normpath(posixpath.join(CWD, a[0][1])) in self.exists)
            if cal[2] == "expanduser":
                return ("c", a[0][1].replace("~", "/home/u", 1) if a[0][1][:1] == "~" else a[0][1])
            if cal[2] in ("abspath", "realpath"):
                return ("c", posixpath.normpath(posixpath.join(CWD, a[0][1])))
        if cal == ("a", ("mod", "os"), "getenv") and a and a[0][0] == "c":
            return ("c", self.env[a[0][1]]) if a[0][1] in self.env else a[1] if len(a) > 1 else NONE
        return None

    def run(self, args, env=None, platform="linux", exists=(), fail=None, result=None):
        """[(kind, value, events)]"""
        self.env, self.platform, self.argv, self.fail = env or {}, platform, list(args), fail
        self.exists = set(exists)
        self.result = {"confs": ["Release", "Debug"], **(result or {})}
        h = Heap()
        if self.f.params:
            h.init[("param", self.f.params[0][0].id)] = h(list(args))
        h.init.update(self.base)
        e = Inter.of(self.c, self.f, self.model, maxstates=200000)
        try:
            rs = e.run(h.init)
        except Blowup:
            return [("undecided", "too many abstract states", [])]
        self.c.states += e.count
        out = []
        for k, _, s in rs:
            ev = [(w[1], a.v) for _, w, a in s.get("fx", ()) if w[0] == "ev"]
            out.append((k, plain(e, s.get(("v", "r", "$ret"), NONE), s) if k == "return" else exc_name(s["exc"]), ev))
        return out


# ---- what the command line means

def number(t):
    try:
        return int(t)
    except ValueError:
        return t


def pairs(words):
    out = {}
    for w in words:
        k, eq, v = w.partition("=")
        out[k] = number(v) if eq else True
    return out


def split(words):
    """(options by name, build files) of well-formed arguments."""
    takes = {"-D": "D", "-I": "I", "--include": "I", "-G": "G", "-f": "f", "--format": "f", "-R": "R", "--root-target": "R", "--depth": "depth",
             "--toplevel-dir": "top", "--generator-output": "out", "--build": "build", "-S": "suffix", "--suffix": "suffix", "--config-dir": "config",
             "-d": "debug", "--debug": "debug"}
    flags = {"--ignore-environment": "noenv", "--no-parallel": "serial", "--no-circular-check": "nocirc", "--check": "check"}
    o, files, it = {}, [], iter(words)
    for w in it:
        k = next((k for k in takes if w == k or w.startswith(k + "=" if k[:2] == "--" else k) and (k[:2] == "--" or w[:2] != "--")), None)
        if w in flags:
            o[flags[w]] = True
        elif k is None:
            files.append(w)
        else:
            v = next(it) if w == k else w[len(k):].removeprefix("=") if k[:2] == "--" else w[len(k):]
            o.setdefault(takes[k], []).append(v)
    return o, files


def expected(words, env, platform="linux", exists=(), listing=()):
    """What loader and generators are given; None for an error."""
    o, files = split(words)
    e = {} if o.get("noenv") else env
    last = lambda k: o[k][-1] if k in o else None
    files = files or sorted(x for x in listing if x.endswith(".gyp"))
    if not files:
        return None
    depth = last("depth")
    if not depth:
        for f in files:
            d = posixpath.dirname(posixpath.normpath(posixpath.join(CWD, f))).split("/")
            if "src" in d:
                depth = "/".join(d[:len(d) - d[::-1].index("src")])
                break
        if not depth:
            return None
    conf = last("config") or e.get("GYP_CONFIG_DIR")
    if conf:
        conf = conf.replace("~", "/home/u", 1) if conf[:1] == "~" else conf
    else:
        conf = next((h for h in (posixpath.join(env[v], ".gypi"[:-1]) for v in (("HOME", "USERPROFILE") if platform in ("win32", "cygwin") else ("HOME",)) if env.get(v))
                     if h in exists), None)
    here = lambda p: posixpath.normpath(posixpath.join(CWD, p))
    if conf and here(conf) not in exists:
        conf = None
    inc = [posixpath.join(conf, "include.gypi")] if conf and here(posixpath.join(conf, "include.gypi")) in exists else []
    fs = o.get("f") or [x for x in e.get("GYP_GENERATORS", "").replace(",", " ").split(" ") if x] or \
        [{"darwin": "xcode", "win32": "msvs", "cygwin": "msvs"}.get(platform, "make")]
    return {"formats": list(dict.fromkeys(fs)), "build_files": files, "defines": pairs(shlex.split(e.get("GYP_DEFINES", "")) + o.get("D", [])),
            "flags": pairs(shlex.split(e.get("GYP_GENERATOR_FLAGS", "")) + o.get("G", [])), "includes": inc + o.get("I", []), "depth": depth,
            "top": last("top") or depth, "out": last("out") or e.get("GYP_GENERATOR_OUTPUT") or None, "check": bool(o.get("check")), "circular": not o.get("nocirc"),
            "parallel": not o.get("serial"), "roots": o.get("R"), "suffix": last("suffix") or "", "build": o.get("build", [])}


def check(c):
    c.rule("B1", "variables are those of GYP_DEFINES, overridden by -D, before the generator's own")
    c.rule("B2", "every file is given the personal include file and those of the command line, in order")
    c.rule("B3", "each requested format is generated once, in order, from what was loaded for it")
    c.rule("B4", "loader and generator get the options and flags of the command line and environment")
    c.rule("B5", "errors end with status 1, a message and nothing generated after them")
    c.rule("B6", "the recorded arguments have the same meaning in another environment")
    p = Front(c)
    if not p.ok:
        return c.ob("B3", ("gyp/pylib/gyp/__init__.py", 1), False, "the main program exists")
    ob = Tally(c, p.f.loc)
    scenes(p, ob)
    errors(p, ob)
    regenerate(c, p, ob)
    script(c, ob)
    ob.done()


BASE = ["a.gyp", "--depth=."]


def words():
    D = "GYP_DEFINES"
    yield "plain", BASE, {}, {}
    for w in (["-Dx=1"], ["-Dx=abc", "-Dy=2=3", "-Dz="], ["-D", "x=-5", "-Dx=6"], ["-Dflag", "-Dpath=/a b/c d"], ["-Dx=0x10", "-Dy=1.5"], ["-DOS=other", "-Dtarget_arch=arm"],
              ["-DPRODUCT_DIR=mine", "-DGENERATOR=x", "-DCONFIGURATION_NAME=c"]):
        yield "variables", BASE + w, {}, {}
        yield "variables and environment", BASE + w, {D: "x=env 'w=a b' OS=envos flag=0"}, {}
        yield "variables without environment", BASE + w + ["--ignore-environment"], {D: "x=env w=2"}, {}
    yield "environment", BASE, {D: "x=1 x=2 'q=\"quoted\"' y"}, {}
    yield "environment", BASE, {D: "x=1 x=2 x=1"}, {}
    yield "empty environment", BASE, {D: "", "GYP_GENERATOR_FLAGS": "", "GYP_GENERATORS": "", "GYP_GENERATOR_OUTPUT": "", "GYP_CONFIG_DIR": ""}, {}
    for w in (["-I", "i.gypi"], ["-Ib.gypi", "-I", "a.gypi", "--include=c.gypi"], ["-Ia.gypi", "-Ia.gypi"]):
        yield "includes", BASE + w, {}, {}
        yield "includes and home", BASE + w, {"HOME": "/home/u"}, {"exists": ("/home/u/.gyp", "/home/u/.gyp/include.gypi")}
    yield "home without include file", BASE + ["-Ix"], {"HOME": "/home/u"}, {"exists": ("/home/u/.gyp",)}
    yield "no home", BASE + ["-Ix"], {"HOME": "/home/u"}, {"exists": ()}
    both = ("/home/u/.gyp", "/home/u/.gyp/include.gypi", "/home/p/.gyp", "/home/p/.gyp/include.gypi", "/etc/gyp", "/etc/gyp/include.gypi", "/home/u/c", "/home/u/c/include.gypi")
    for pl in ("linux", "win32", "cygwin"):
        yield f"profile on {pl}", BASE + ["-fmake"], {"USERPROFILE": "/home/p"}, {"exists": both, "platform": pl}
        yield f"home and profile on {pl}", BASE + ["-fmake"], {"HOME": "/home/u", "USERPROFILE": "/home/p"}, {"exists": both, "platform": pl}
    for w, e in (([], {"GYP_CONFIG_DIR": "/etc/gyp"}), ([], {"GYP_CONFIG_DIR": "/nowhere"}), ([], {"GYP_CONFIG_DIR": "~/c"}), (["--config-dir=/etc/gyp"], {"GYP_CONFIG_DIR": "~/c"}),
                 (["--config-dir=/nowhere"], {}), (["--config-dir", "~/c"], {}), (["--ignore-environment"], {"GYP_CONFIG_DIR": "/etc/gyp"})):
        yield "configuration directory", BASE + ["-Iz"] + w, {"HOME": "/home/u", **e}, {"exists": both}
    for w, e in ((["-fmake"], {}), (["-f", "gypd", "-f", "make"], {}), (["-fmake", "-fgypd", "-fmake"], {}), (["-fmake", "-fgypd", "-Dx=1", "-Ga=b", "-Ij"], {"GYP_DEFINES": "y=2"}), ([], {"GYP_GENERATORS": "gypd"}), ([], {"GYP_GENERATORS": "gypd,make"}),
                 ([], {"GYP_GENERATORS": "make gypd make"}), (["--format=make"], {"GYP_GENERATORS": "gypd"}), (["--ignore-environment"], {"GYP_GENERATORS": "gypd"})):
        yield "formats", BASE + w, e, {}
    for w, e in ((["-Ga=1", "-Gb"], {}), (["-Ga=1"], {"GYP_GENERATOR_FLAGS": "a=2 c='x y'"}), ([], {"GYP_GENERATOR_FLAGS": "a=2"}), (["--ignore-environment", "-Gq=r"], {"GYP_GENERATOR_FLAGS": "a=2"})):
        yield "generator flags", BASE + w, e, {}
    for w, e in ((["--generator-output=build"], {}), (["--generator-output=build"], {"GYP_GENERATOR_OUTPUT": "env"}), ([], {"GYP_GENERATOR_OUTPUT": "env"}),
                 (["--ignore-environment"], {"GYP_GENERATOR_OUTPUT": "env"}), (["--toplevel-dir=.."], {}), (["--check"], {}), (["--no-circular-check"], {}), (["--no-parallel"], {}),
                 (["-S.x"], {}), (["-Rt1", "-R", "t2"], {}), (["b/c.gyp", "d.gyp"], {})):
        yield "options", BASE + w, e, {}
    yield "several defaults", ["--depth", "..", "x/a.gyp", "-I", "x/i.gypi", "-Dm=/w/src/app"], {}, {}
    up = ["a.gyp", "--depth=.."]
    for w, e in ((["-Ii.gypi", "-I", "/abs/j.gypi"], {}), (["-I../k.gypi", "--generator-output=build"], {}), (["--toplevel-dir=../.."], {}), (["--generator-output=.."], {}),
                 ([], {"GYP_GENERATOR_OUTPUT": "env"}), (["-Dp=i.gypi"], {"GYP_DEFINES": "q=../r"})):
        yield "relative paths", up + w, e, {}
    yield "no depth", ["a.gyp"], {}, {}
    yield "no depth, several files", ["/q/a.gyp", "../../src/x/src/y/a.gyp"], {}, {}
    yield "the files of the directory", ["--depth=."], {}, {"listing": ("b.gyp", "a.gyp", "c.gypi", "a.gypx", ".gyp", "gyp")}
    yield "a goal to build", BASE + ["--build=Release"], {}, {}
    yield "goals to build", BASE + ["--build=Release", "--build", "Debug", "-fmake"], {}, {}


def alone(p, w):
    """The variables of the only load of these arguments."""
    rs = p.run(w, {}, result={"dir": []})
    vs = [a.get("variables") for r in rs for k, a in r[2] if k == "load"]
    return vs[0] if len(vs) == 1 else None


def scenes(p, ob):
    for what, w, env, kw in words():
        what = f"{what}: {' '.join(w)}" + (f" with {env}" if env else "")
        want = expected(w, env, kw.get("platform", "linux"), kw.get("exists", ()), kw.get("listing", ()))
        rs = p.run(w, env, kw.get("platform", "linux"), kw.get("exists", ()), result={"dir": list(kw.get("listing", ()))})
        key = what.split(":")[0]
        if len(rs) != 1 or rs[0][:2] != ("return", 0):
            ob("B3", False, what, f"ends with {[r[:2] for r in rs][:4]}", key)
            continue
        ev = [x for x in rs[0][2] if x[0] != "text"]
        loads = [a for k, a in ev if k == "load"]
        fs = want["formats"]
        order = []
        for f in fs:
            order += ["load", "GenerateOutput " + f] + (["PerformBuild " + f] if want["build"] else [])
        ob("B3", [k for k, _ in ev] == order, what, f"the calls are {[k for k, _ in ev]} instead of {order}", key)
        if [k for k, _ in ev] != order:
            continue
        for a, f in zip(loads, fs):
            v = a.get("variables")
            bad = {k: (v.get(k), x) for k, x in want["defines"].items() if k not in ("GENERATOR", "GENERATOR_FLAVOR") and (v.get(k), type(v.get(k))) != (x, type(x))}
            ob("B1", not bad, what, f"variables with a wrong value: {bad}", key)
            extra = {k for k in v if k not in want["defines"] and not k.isupper() and k not in ("target_arch",)}
            ob("B1", not extra and v.get("GENERATOR") == f, what, f"unexpected variables {extra}, generator {v.get('GENERATOR')}", key)
            ob("B2", a.get("includes") == want["includes"], what, f"the includes are {a.get('includes')} instead of {want['includes']}", key)
            got = {"build_files": a.get("build_files"), "depth": a.get("depth"), "check": a.get("check"), "circular": a.get("circular_check"), "parallel": a.get("parallel"),
                   "roots": a.get("root_targets")}
            diff = {k: (x, want[k]) for k, x in got.items() if x != want[k]}
            ob("B4", not diff, what, f"the loader gets {diff}", key)
            if f == "make" and "OS" not in want["defines"]:
                ob("B1", v.get("OS") == "linux" or kw.get("platform", "linux") != "linux", what, f"OS is {v.get('OS')}", key)
            cfg = want["defines"].get("CONFIGURATION_NAME", v.get("CONFIGURATION_NAME"))
            prod = posixpath.join(want["out"] or want["top"], str(cfg))
            ob("B1", v.get("PRODUCT_DIR_ABS") == prod and v.get("PRODUCT_DIR_ABS_CSTR") == prod, what, f"the product directory is {v.get('PRODUCT_DIR_ABS')} instead of {prod}", key)
            if len(fs) > 1:
                solo = alone(p, BASE + [x for x in w if x[:2] == "-D"] + ["-f" + f])
                ob("B1", solo == {k: x for k, x in v.items() if k in solo or k not in want["defines"]}, what,
                   f"the variables for {f} depend on the other formats: {sorted(set(solo or ()) ^ set(v))}", key)
        for a in [a for k, a in ev if k.startswith("GenerateOutput")]:
            o, ps = a["3"].get("options", {}), a["3"]
            got = {"build_files": ps.get("build_files"), "flags": ps.get("generator_flags"), "depth": o.get("depth"), "top": o.get("toplevel_dir"), "out": o.get("generator_output"),
                   "suffix": o.get("suffix")}
            diff = {k: (x, want[k]) for k, x in got.items() if x != want[k]}
            ob("B4", not diff, what, f"the generator gets {diff}", key)
            ob("B4", {k: type(x) for k, x in (ps.get("generator_flags") or {}).items()} == {k: type(x) for k, x in want["flags"].items()}, what, "the flags have other types", key)
            ob("B3", a["0"] == ["t1", "t2"] and set(a["1"]) == {"t1", "t2"} and a["2"] == {"data": 1}, what, "the generator gets something else than what was loaded", key)
        for a in [a for k, a in ev if k.startswith("PerformBuild")]:
            ob("B3", a["1"] == want["build"], what, f"builds {a['1']}", key)


def errors(p, ob):
    for what, w, kw, status in (("an error in a build file", BASE, {"fail": "GypError"}, 1), ("an error in the second format", BASE + ["-fmake", "-fgypd"], {"fail": "GypError"}, 1),
                                ("no build file", ["--depth=."], {"result": {"dir": ["a.gypi", "x"]}}, 1), ("no depth", ["/q/a.gyp"], {}, 1),
                                ("an unknown configuration", BASE + ["--build=Nope"], {}, 1), ("an unknown configuration after a known one", BASE + ["--build=Debug", "--build=debug"], {}, 1),
                                ("an unknown format", BASE + ["-f", "nonsense"], {}, "raise"), ("another exception", BASE, {"fail": "KeyError"}, "raise"),
                                ("arguments that cannot be parsed", BASE + ["-D"], {}, "raise"), ("arguments that cannot be parsed", ["--depth"], {}, "raise")):
        rs = p.run(w, {}, **kw)
        good = len(rs) == 1 and (rs[0][0] == "raise" if status == "raise" else rs[0][:2] == ("return", 1))
        ob("B5", good, what, f"ends with {[r[:2] for r in rs][:4]}", "errors")
        if good:
            ev = rs[0][2]
            ob("B5", not any(k.startswith("PerformBuild") for k, _ in ev) and (("--build" in str(w)) or not any(k.startswith("Generate") for k, _ in ev)), what,
               f"still calls {[k for k, _ in ev]}", "errors")
            if status == 1:
                ob("B5", any(k == "text" and a["err"] for k, a in ev), what, "says nothing on the error output", "errors")


def regenerate(c, p, ob):
    """Options, the arguments recorded for them, and what these mean without the environment."""
    f = func(c, "gyp", "RegenerateFlags")
    if f is None:
        return ob("B6", False, "recorded arguments", "there is no function recording them", "recorded arguments")
    q = Flags(c, f, p)
    for what, w, env, kw in words():
        if "listing" in kw or kw.get("platform", "linux") != "linux" or any(x.startswith("--build") for x in w) or what.startswith("no depth"):
            continue
        what = f"{what}: {' '.join(w)}" + (f" with {env}" if env else "")
        flags = q.flags(w, env, kw.get("exists", ()))
        if not isinstance(flags, list) or not all(isinstance(x, str) for x in flags):
            ob("B6", False, what, f"the recorded arguments are {flags}", "recorded arguments")
            continue
        o, files = split(w)
        again = flags + [x for x in ("--no-parallel", "--no-circular-check") if x in w] + files + ["-f" + x for x in expected(w, env)["formats"]]
        a = expected(w, env, exists=kw.get("exists", ()))
        b = expected(again, {"GYP_DEFINES": "evil=1", "GYP_GENERATOR_OUTPUT": "evil", "GYP_GENERATOR_FLAGS": "evil", "GYP_GENERATORS": "evil", "HOME": env.get("HOME", "")},
                     exists=kw.get("exists", ()))
        root = posixpath.join(CWD, a["depth"])   # where they are used again
        a, b = resolved(a, CWD), resolved(b, root)
        diff = {k: (a[k], b[k]) for k in a if a[k] != b[k]} if a and b else "an error"
        ob("B6", not diff, what, f"the recorded arguments {flags} differ in {diff}", "recorded arguments")


def resolved(d, cwd):
    """Expected options with the files and directories they name; build files are named by the caller."""
    at = lambda x: posixpath.normpath(posixpath.join(cwd, x))
    return d and {k: [at(x) for x in v] if k == "includes" else at(v) if k in ("depth", "top", "out") and v else v or None for k, v in d.items()}


class Flags:
    """The arguments recorded for options that were parsed from a command line."""

    def __init__(self, c, f, p):
        self.c, self.f, self.p = c, f, p

    def flags(self, words, env, exists):
        p = self.p
        p.env, p.platform, p.argv, p.fail, p.exists = env, "linux", list(words), None, set(exists)
        out = []

        def model(op, t):
            if op == "exec" and t[0][0] == "fn" and t[0][1].name == "GenerateOutput":
                cal, a, s, e, n = t
                o = e.fields(a[3], s)
                o = e.get(o, ("c", "options"), s) if o is not None else RAISE
                for kind, v, s2 in e.call_fn(self.f, None, (o,), (), s):
                    out.append(plain(e, v, s2) if kind == "return" else "an error")
                return NONE
            return p.model(op, t)
        h = Heap()
        h.init[("param", p.f.params[0][0].id)] = h(list(words))
        h.init.update(p.base)
        e = Inter.of(self.c, p.f, model, maxstates=200000)
        p.result = {"confs": ["Release", "Debug"]}
        try:
            e.run(h.init)
        except Blowup:
            return "undecided"
        self.c.states += e.count
        return out[0] if out and all(x == out[0] for x in out) else f"not decided ({len(out)})"


def script(c, ob):
    p = Front(c, "script_main")
    if not p.ok:
        return ob("B5", False, "the script", "does not exist", "script")
    for fail, want in ((None, 0), ("GypError", 1)):
        rs = p.run(BASE + ["-Dx=7"], {}, fail=fail)
        good = len(rs) == 1 and rs[0][:2] == ("return", want)
        ob("B5", good, "the script", f"ends with {[r[:2] for r in rs]}", "script")
        if good:
            a = next((a for k, a in rs[0][2] if k == "load"), {})
            ob("B4", a.get("build_files") == ["a.gyp"] and a.get("variables", {}).get("x") == 7, "the script", "does not use its arguments", "script")
