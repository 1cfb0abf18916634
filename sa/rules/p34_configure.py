"""The configure command: what gyp is given on every platform, for every kind of arguments and headers."""
import math
import ntpath
import posixpath
import re
from ..ccp import CCP, RAISE, Blowup, js_str
from ..cfg import show
from ..match import *
from .jscommon import *
from .p13_gyp_args import OPQ
from .p26_build import ENV, PROCESS, Prop, lift, text

ID = "P34"
EXPLANATION = (
    "Conditional constant propagation with trace partitioning over the supergraph of the configure command (helpers and "
    "callbacks spliced in), once for every class of platform, generator arguments, node directory, headers, existing "
    "files and environment. The arguments, module path and environment at the start of gyp are read from the abstract "
    "state, interpreted the way gyp reads its arguments, and compared with what the class calls for; errors and searches "
    "(Visual Studio, install) must happen in exactly the classes that call for them.")

EXP = ["include/node/node", "out/Release/node", "out/Debug/node", "node"]
SIDE = ["out/Release/lib.target/libnode", "out/Debug/lib.target/libnode", "out/Release/obj.target/libnode", "out/Debug/obj.target/libnode", "lib/libnode"]
ZOS = ["include/node/zoslib/zos-base.h", "include/zoslib/zos-base.h", "zoslib/include/zos-base.h", "install/include/node/zoslib/zos-base.h"]
ASKED = ([], ["-f", "make"], ["--format", "make"], ["--format=make"], ["-f", "msvs"], ["--format=msvs"], ["-Dfoo=1", "--no-x"], ["-f", "ninja", "-Dfoo=2"],
         ["-Dx=1", "--format", "make-linux"], ["-f", "msvs", "--format=make"], ["-fmake"], ["-fmsvs"])


class World:
    def __init__(self, platform="linux", argv=(), opts=(), env=(), files=(), prefix=None, version="18.1.2", code="ENOENT", semver=True, vs=True):
        self.platform, self.argv, self.opts, self.env, self.files = platform, list(argv), dict(opts), dict(env), set(files)
        self.prefix, self.version, self.code, self.semver, self.vs = prefix, version, code, semver, vs
        self.win = platform == "win32"
        self.p = ntpath if self.win else posixpath
        self.cwd = "C:\\w" if self.win else "/w"
        self.home = "C:\\home" if self.win else "/home/me"

    def label(self):
        out = [self.platform] + [f"--{k}={v}" for k, v in self.opts.items()] + [f"{k}={v}" for k, v in self.env.items()]
        out += ["gyp"] + self.argv if self.argv else []
        if self.files:
            out.append("with " + " ".join(sorted(self.files))[:60])
        if self.prefix:
            out.append(f"headers of {self.prefix[1] or 'no version'} in the prefix" + ("" if self.prefix[0] else " (not to be used)"))
        if self.version != "18.1.2":
            out.append("for " + self.version)
        if self.code != "ENOENT":
            out.append("stat fails with " + self.code)
        return " ".join(out)

    # ---- paths
    def resolve(self, xs):
        r = self.cwd
        for x in xs:
            r = self.p.join(r, x)
        return self.p.normpath(r)

    def short(self, x):
        """A path as the worlds name files: below the working directory or absolute, with slashes."""
        x = self.resolve([x])
        if x.startswith(self.cwd + self.p.sep):
            x = x[len(self.cwd) + 1:]
        return x.replace("\\", "/")

    def exists(self, x):
        return self.short(x) in self.files

    def path(self, name, xs):
        if any(not isinstance(x, str) for x in xs):
            return RAISE
        if name == "resolve":
            return ("c", self.resolve(xs))
        if name == "join":
            return ("c", self.p.normpath(self.p.join(*[x for x in xs if x][:1] or ["."], *[x.lstrip("/") for x in [x for x in xs if x][1:]])))
        if name == "normalize":
            return ("c", self.p.normpath(xs[0]))
        if name == "dirname":
            return ("c", self.p.dirname(xs[0]) or ".")
        if name == "basename":
            return ("c", self.p.basename(xs[0]))
        return None

    def __call__(self, op, t):
        if op == "value":
            if t == ("glob", "__dirname"):
                return ("c", self.resolve(["/ng/lib" if not self.win else "C:\\ng\\lib"]))
            if t == ("a", PROCESS, "platform"):
                return ("c", self.platform)
            if t == ("a", PROCESS, "version"):
                return ("c", "v18.1.2")
            if t == ("a", PROCESS, "jsEngine"):
                return ("c", None)
            if t == ("a", PROCESS, "config"):
                return lift({"variables": {"use_prefix_to_find_headers": bool(self.prefix and self.prefix[0]), "node_prefix": "/usr" if not self.win else "C:\\usr"}})
            if t == ("a", ("mod", "path"), "delimiter"):
                return ("c", ";" if self.win else ":")
            if t == ("a", ("mod", "path"), "sep"):
                return ("c", self.p.sep)
            if t[0] == "a" and t[1] == ENV:
                return ("c", self.env.get(t[2]))
            if t[0] == "i" and t[1] == ENV and t[2][0] == "c":
                return ("c", self.env.get(t[2][1]))
            if t[0] == "a" and t[2] == "code" and t[1][0] == "excof":
                return ("c", self.code)
            if t == ("a", ("sym", "vs"), "versionYear"):
                return ("c", 2022)
            if t == ("a", ("sym", "vs"), "path"):
                return ("c", "C:\\VS")
        if op == "truth" and t[0] in ("sym", "excof"):
            return True
        if op == "eq":
            for x, y in (t, t[::-1]):
                if x[0] in ("sym", "excof") and y[0] == "c":
                    return False
        if op == "throws":
            return False
        if op == "call":
            f, a = t[1], t[2]
            name = self.named(f) or (f[2] if f[0] == "a" else f[1] if f[0] in ("glob", "mod") else None)
            if name == "processRelease":
                return ("dict", lift({"version": self.version, "versionDir": self.version, "name": "node"})[1] + (
                    (("c", "semver"), ("sym", "semver") if self.semver else ("c", None)),))
            if name == "findPython":
                return ("c", "/py")
            if name == "findVisualStudio":
                return ("sym", "vs") if self.vs else RAISE
            if name == "createConfigGypi":
                return ("c", self.resolve(["build", "config.gypi"]))
            if name == "findNodeDirectory":
                return ("c", "/nroot")
            if f[0] == "a" and f[1] == ("mod", "path") and name in ("resolve", "join", "normalize", "dirname", "basename") and all(x[0] == "c" for x in a):
                return self.path(name, [x[1] for x in a])
            if f == ("a", PROCESS, "cwd"):
                return ("c", self.cwd)
            if f == ("a", ("mod", "os"), "homedir"):
                return ("c", self.home)
            if fs_op(f) in ("stat", "access", "open", "lstat") and a and a[0][0] == "c":
                return ("sym", "stat") if isinstance(a[0][1], str) and self.exists(a[0][1]) else RAISE
            if name == "existsSync" and a and a[0][0] == "c":
                return ("c", isinstance(a[0][1], str) and self.exists(a[0][1]))
            if fs_op(f) == "readFile" and a and a[0][0] == "c":
                want = self.resolve(["/usr" if not self.win else "C:\\usr", "include", "node", "node_version.h"])
                if self.prefix and a[0][1] == want and not self.prefix[1]:
                    return ("c", "#error\n")
                if self.prefix and a[0][1] == want and len(a) > 1:
                    x, y, z = self.prefix[1].split(".")
                    return ("c", f"#ifndef SRC_NODE_VERSION_H_\n#define NODE_MAJOR_VERSION {x}\n#define NODE_MINOR_VERSION {y}\n#define NODE_PATCH_VERSION {z}\n#endif\n")
                return RAISE
            if f[0] == "a" and name in ("match", "exec"):
                s, r = (f[1], a[0]) if name == "match" and a else (a[0], f[1]) if a else (None, None)
                if s is not None and s[0] == "c" and isinstance(s[1], str) and r[0] == "regex":
                    m = re.search(r[1], s[1], (re.I if "i" in r[2] else 0) | (re.M if "m" in r[2] else 0))
                    return ("list", tuple(("c", x) for x in (m.group(0), *m.groups()))) if m else ("c", None)
            if f == ("a", ("glob", "Math"), "min") and all(x[0] == "c" and isinstance(x[1], (int, float)) for x in a):
                return ("c", min(x[1] for x in a))
            if f == ("a", ("glob", "Math"), "min") and any(x[0] == "c" and x[1] is None for x in a):
                return ("c", math.nan)
            if f == ("glob", "Error"):
                return ("sym", "error")
            if name == "format" and f[0] == "a" and f[1] == ("mod", "util"):
                return ("c", "message")
            if f in (("glob", "parseInt"), ("a", ("glob", "Number"), "parseInt")) and a and a[0][0] == "c" and a[1:] in ((), (("c", 10),)):
                m = re.match(r"\s*([+-]?\d+)", js_str(a[0][1]))
                return ("c", int(m.group(1)) if m else math.nan)
            if f == ("glob", "Number") and len(a) == 1 and a[0][0] == "c" and re.fullmatch(r"\d+", str(a[0][1])):
                return ("c", int(a[0][1]))
        if op == "effect":
            f = t[1]
            return f[0] == "sym" or self.named(f) in ("findVisualStudio", "createConfigGypi") or f[0] == "a" and f[2] in ("mkdir", "mkdirSync", "install") or f[0] == "a" and f[2] in (
                "findVisualStudio", "createConfigGypi")
        return None

    @staticmethod
    def named(f):
        if f[0] in ("fn", "mod") or f[0] == "a" and f[1][0] == "mod":
            x = show(f)
            for k, v in (("process-release", "processRelease"), ("find-node-directory", "findNodeDirectory"), ("find-python", "findPython"),
                         ("find-visualstudio", "findVisualStudio"), ("create-config-gypi", "createConfigGypi")):
                if k in x:
                    return v
        return getattr(f[1], "name", None) if f[0] == "fn" else str(f[1]).split("#")[0] if f[0] == "free" else None


class Rec(Prop):
    """Recursion in tail position continues at the entry of the activation it repeats."""

    def again(self, n):
        if not hasattr(self, "memo"):
            self.memo = {}
        if n.id not in self.memo:
            self.memo[n.id] = None
            fs = {r[1] for r in self.g.resolve(n.callee, n) if r[0] == "fn"}
            es = [x for x in self.g.nodes if x.op == "enter" and x.fn in fs and x.id < n.id]
            if len(fs) == 1 and es and not n.args and not next(iter(fs)).params and self.tail(n):
                self.memo[n.id] = max(es, key=lambda x: x.id)
        return self.memo[n.id]

    def tail(self, n):
        todo, seen = [y for l, y in n.succ if l != "exc"], set()
        while todo:
            x = todo.pop()
            if x.op == "leave" or x in (self.g.exit,):
                continue
            if x.op not in ("nop", "assign") or x.id in seen:
                return False
            seen.add(x.id)
            todo += [y for _, y in x.succ]
        return True

    def op(self, o, args, s, d):
        if o in ("~", "u~") and len(args) == 1:
            v = self.ev(args[0], s, d)
            if v[0] == "c" and isinstance(v[1], int):
                return ("c", ~v[1])
        if o in ("typeof", "utypeof"):
            v = self.ev(args[0], s, d)
            if v[0] == "c":
                return ("c", "undefined" if v[1] is None else "boolean" if isinstance(v[1], bool) else "string" if isinstance(v[1], str) else "number")
        if o in ("<", "<=", ">", ">=") and len(args) == 2:
            x, y = (self.ev(a, s, d) for a in args)
            if x[0] == y[0] == "c" and (isinstance(x[1], str) != isinstance(y[1], str)):
                n = [number(v[1]) for v in (x, y)]
                if None not in n:
                    return ("c", {"<": n[0] < n[1], "<=": n[0] <= n[1], ">": n[0] > n[1], ">=": n[0] >= n[1]}[o])
        return super().op(o, args, s, d)

    def step(self, n, s):
        e = self.again(n) if n.op == "call" else None
        return [(e, s)] if e is not None else super().step(n, s)


def number(x):
    if isinstance(x, str):
        return int(x) if re.fullmatch(r"\s*\d+\s*", x) else math.nan
    return x if isinstance(x, (int, float)) else None


def outcomes(c, g, w, params, stop):
    e = Rec(g, w, heaplists=True, maxstates=60000)
    s = {"#": 0, ("F", "argv"): ("list", tuple(("c", x) for x in w.argv)),
         ("F", "opts"): ("dict", tuple((("c", k), ("c", v)) for k, v in w.opts.items())),
         ("F", "gyp"): ("dict", ((("c", "opts"), ("new", "opts")), (("c", "spawn"), ("sym", "spawn")), (("c", "devDir"), ("c", w.resolve(["/dev" if not w.win else "C:\\dev"]))),
                                 (("c", "commands"), ("sym", "commands"))))}
    for p, v in zip(params, (("new", "gyp"), ("new", "argv"))):
        s[("param", p)] = v
    rs = e.run(s, stop)
    c.states += e.count
    return [(kind, n, st, e) for kind, n, st in rs]


def gyp_args(xs):
    """What gyp understands."""
    r = {"formats": [], "includes": [], "defines": {}, "flags": [], "output": [], "depth": [], "files": [], "parallel": True, "other": []}
    i = 0
    while i < len(xs):
        x = xs[i]
        i += 1

        def value(short, long):
            nonlocal i
            if x in (short, long):
                i += 1
                return xs[i - 1] if i <= len(xs) else ""
            if long and x.startswith(long + "="):
                return x[len(long) + 1:]
            return x[2:] if short and x.startswith(short) and not x.startswith("--") else None
        for k, a, b in (("formats", "-f", "--format"), ("includes", "-I", "--include"), ("flags", "-G", None), ("depth", None, "--depth"), ("output", None, "--generator-output")):
            v = value(a, b)
            if v is not None:
                r[k].append(v)
                break
        else:
            v = value("-D", None)
            if v is not None:
                k, _, y = v.partition("=")
                r["defines"].setdefault(k, []).append(y)
            elif x == "--no-parallel":
                r["parallel"] = False
            elif x.startswith("-"):
                r["other"].append(x)
            else:
                r["files"].append(x)
    return r


def nodedir(w):
    """(directory, from the option or the prefix)"""
    if "nodedir" in w.opts:
        return re.sub(r"^~", lambda m: w.home, w.opts["nodedir"]), True
    if w.prefix and w.prefix[0] and w.prefix[1] == w.version:
        return "C:\\usr" if w.win else "/usr", True
    return w.resolve(["C:\\dev" if w.win else "/dev", w.version]), False


def first(w, base, names):
    return next((w.resolve([base, x]) for x in names if w.exists(w.resolve([base, x]))), None)


def make_asked(w):
    a = gyp_args(w.argv)["formats"]
    return any(x.startswith("make") for x in a)


def expect(w):
    """None where configure must fail, else what gyp is to be given."""
    d, given = nodedir(w)
    if not given and not w.semver or w.win and not make_asked(w) and not w.vs or w.code != "ENOENT":
        return None
    r = gyp_args(["binding.gyp", *w.argv])
    r["formats"] = r["formats"] or ["msvs" if w.win else "make"]
    ng = "C:\\ng" if w.win else "/ng"
    own = [w.resolve([x]) for x in ("config.gypi", "common.gypi") if w.exists(x)]
    common = first(w, d, ["include/node/common.gypi"]) or w.resolve([d, "common.gypi"])
    r["includes"] += [w.resolve(["build", "config.gypi"]), *own, w.resolve([ng, "addon.gypi"]), common]
    df = {"library": "shared_library", "visibility": "default", "node_root_dir": d, "node_gyp_dir": ng, "module_root_dir": w.cwd,
          "node_engine": w.opts.get("node_engine") or "v8",
          "node_lib_file": w.p.normpath(w.p.join(d, "$(Configuration)" if given else "<(target_arch)", "node.lib"))}
    if w.win:
        df["node_lib_file"] = df["node_lib_file"].replace("\\", "\\\\")
    if w.platform in ("aix", "os400"):
        df["node_exp_file"] = first(w, "/nroot", [x + ".exp" for x in EXP])
    if w.platform == "os390":
        df["node_exp_file"] = first(w, "/nroot", [x + ".x" for x in SIDE])
        z = w.env.get("ZOSLIB_INCLUDES")
        z = first(w, z, ["zos-base.h"]) if z else first(w, "/nroot", ZOS)
        if z:
            df["zoslib_include_dir"] = posixpath.dirname(z)
        elif int(w.version.split(".")[0]) >= 16:
            return None
    if None in df.values():
        return None
    for k, v in df.items():
        r["defines"].setdefault(k, []).append(v)
    r["flags"].append("output_dir=.")
    r["depth"].append(".")
    r["output"].append(w.resolve(["build"]))
    r["parallel"] = False
    return r


RULE = {"formats": "K2", "includes": "K3", "defines": "K4", "flags": "K1", "output": "K1", "depth": "K1", "files": "K1", "parallel": "K1", "other": "K1"}
WHAT = {"formats": "formats", "includes": "included files", "defines": "variables", "flags": "generator flags", "output": "output directory", "depth": "depth",
        "files": "files", "parallel": "parallel processing", "other": "other arguments"}


def worlds():
    for p in ("linux", "darwin", "freebsd", "win32"):
        for argv in ASKED:
            yield World(p, argv)
        nd = "C:\\nd" if p == "win32" else "/nd"
        for files in ((), (nd.replace("\\", "/") + "/include/node/common.gypi",), ("config.gypi",), ("common.gypi",), ("config.gypi", "common.gypi")):
            yield World(p, opts={"nodedir": nd}, files=files)
            yield World(p, files=files)
        for prefix in ((True, "18.1.2"), (False, "18.1.2"), (True, "18.1.3"), (True, "18.2.2"), (True, "17.1.2"), (True, "1.2.18"), (True, ""), (True, "18.12.20"), (True, "8.0.0")):
            yield World(p, prefix=prefix)
            yield World(p, prefix=prefix, opts={"nodedir": nd})
            yield World(p, prefix=prefix, version=prefix[1] or "18.3.0")
        for o in ({"nodedir": "~/nd" if p != "win32" else "~"}, {"tarball": "x.tgz"}, {"node_engine": "chakra"}, {"nodedir": "rel/~nd"}, {"msvs-version": "2019"}):
            yield World(p, opts=o)
        yield World(p, env={"PYTHONPATH": "/my/py"})
        yield World(p, code="EPERM")
        yield World(p, semver=False, version="x")
        yield World(p, semver=False, version="x", opts={"nodedir": nd})
    yield World("win32", vs=False)
    yield World("win32", ["-f", "make"], vs=False)
    yield World("win32", ["--format=make"], vs=False)
    yield World("win32", ["-f", "make"], vs=False, opts={"msvs-version": "2019"})
    yield World("win32", version="20.0.0")
    for p in ("aix", "os400"):
        yield World(p)
        for i in range(len(EXP)):
            yield World(p, files=["/nroot/" + x + ".exp" for x in EXP[i:]])
            yield World(p, files=["/nroot/" + EXP[i] + ".exp"], opts={"nodedir": "/nd"})
        yield World(p, files=["/nroot/" + x + ".x" for x in SIDE])
    lib = ["/nroot/lib/libnode.x"]
    yield World("os390", files=["/nroot/zoslib/include/zos-base.h"])
    yield World("os390", files=lib)
    for v in ("14.2.0", "8.17.0", "15.14.10", "16.0.0", "20.11.1", "100.0.0"):
        yield World("os390", files=lib, version=v)
    for i in range(len(SIDE)):
        yield World("os390", files=["/nroot/" + x + ".x" for x in SIDE[i:]] + ["/nroot/" + ZOS[2]])
    for i in range(len(ZOS)):
        yield World("os390", files=lib + ["/nroot/" + x for x in ZOS[i:]])
    yield World("os390", files=lib + ["/z/zos-base.h", "/nroot/" + ZOS[0]], env={"ZOSLIB_INCLUDES": "/z"})
    yield World("os390", files=lib + ["/nroot/" + ZOS[0]], env={"ZOSLIB_INCLUDES": "/z"})


def environment(w, s, r):
    out = []
    env = {k[2][1]: v for k, v in s.items() if isinstance(k, tuple) and k[0] == "W" and k[1] == ENV and k[2][0] == "c"}
    lib = w.resolve(["C:\\ng" if w.win else "/ng", "gyp", "pylib"])
    want = lib + ((";" if w.win else ":") + w.env["PYTHONPATH"] if w.env.get("PYTHONPATH") else "")
    got = env.get("PYTHONPATH")
    if got is None or text(got) != want:
        out.append(("K5", f"PYTHONPATH is {show(got)[:80] if got else 'not set'} instead of {want}"))
    if env.get("PYTHON") != ("c", "/py"):
        out.append(("K5", "PYTHON is not the Python that was found"))
    if w.win and not make_asked(w):
        y, p = env.get("GYP_MSVS_VERSION"), env.get("GYP_MSVS_OVERRIDE_PATH")
        if y is None or text(y) != "2015" or p != ("c", "C:\\VS"):
            out.append(("K5", f"gyp is told of Visual Studio {show(y) if y else 'nothing'} at {show(p) if p else 'no path'}"))
    return out


def effects(w, e, s):
    """What happens before gyp starts."""
    out = []
    fx = []
    for x in s.get("fx", ()):
        f, a = x[1], x[2]
        if not a and f[0] == "a" and f[1][0] == "call":
            a = f[1][2]  # a method of what was just made with them
        a = [e.deep(y, s) for y in a]
        if len(a) == 1 and a[0][0] == "star" and e.deep(a[0][1], s)[0] in ("list", "tuple"):
            a = list(e.deep(a[0][1], s)[1])
        fx.append((w.named(f) or (f[2] if f[0] == "a" else ""), a))
    vs = [a for f, a in fx if f == "findVisualStudio"]
    d, given = nodedir(w)
    if (len(vs) == 1) != (w.win and not make_asked(w)) or len(vs) > 1:
        out.append(("K6", f"Visual Studio is looked for {len(vs)} times"))
    for a in vs:
        if a[:1] != [("sym", "semver") if w.semver else ("c", None)] or len(a) < 2 or a[1] != ("c", w.opts.get("msvs-version")):
            out.append(("K6", f"Visual Studio is looked for with {[show(x)[:40] for x in a]}"))
    ins = [a for f, a in fx if f == "install"]
    if [strings_of(a) for a in ins] != ([] if given else [[w.version]]):
        out.append(("K6", f"install runs with {[show(x)[:40] for a in ins for x in a]}"))
    if not given and dict_of(s, "ensure") != ("c", not w.opts.get("tarball")):
        out.append(("K6", "headers are reinstalled although there is no tarball, or not although there is one"))
    mk = [i for i, (f, a) in enumerate(fx) if f in ("mkdir", "mkdirSync") and a and text(a[0]) is not None and w.resolve([text(a[0])]) == w.resolve(["build"])]
    cf = [i for i, (f, a) in enumerate(fx) if f == "createConfigGypi"]
    if not cf or not mk or mk[0] > cf[0]:
        out.append(("K6", "config.gypi is not written, or before its directory is there"))
    for i in cf:
        a = fx[i][1][0] if fx[i][1] else ("c", None)
        a = e.deep(a, s)
        for k, v in (("nodeDir", ("c", d)), ("python", ("c", "/py")), ("vsInfo", ("sym", "vs") if w.win and not make_asked(w) else None)):
            got = dict_get(a, k)
            if got is not None and v is not None and got != v:
                out.append(("K6", f"config.gypi is written for {k} {show(got)[:60]} instead of {show(v)[:60]}"))
    return out


def strings_of(a):
    return [text(x) for x in a[0][1]] if a and a[0][0] == "list" else None


def dict_of(s, k):
    f = s.get(("F", "opts"))
    return dict_get(f, k) if f is not None and f[0] == "dict" else None


def compare(w, want, got):
    out = []
    for k, v in want.items():
        g = got[k]
        if k == "output":
            g = [w.resolve([x]) if x and not (w.win and not w.p.isabs(x)) else x for x in g]
        if k == "includes":
            g = [w.resolve([x]) for x in g]
        if g == v or k == "formats" and set(g) == set(v):
            continue
        if k == "defines":
            for n in sorted(set(v) | set(g)):
                if v.get(n) != g.get(n):
                    out.append((RULE[k], f"the variable {n} is {g.get(n)} instead of {v.get(n)}"))
        else:
            out.append((RULE[k], f"the {WHAT[k]} of gyp are {g} instead of {v}"))
    return out


def started(c, g, root, w, stop):
    """[arguments of gyp], None where they are not known."""
    out = []
    for kind, n, s, e in outcomes(c, g, w, [p[0].id for p in root.params], stop):
        if kind == "stop":
            xs = e.deep(e.ev(n.args[1], s), s) if len(n.args) > 1 else ("c", None)
            names = [text(x) for x in xs[1]] if xs[0] in ("list", "tuple") else [None]
            out.append(None if None in names else names)
    return out


def formats(c, g, root, spawns):
    """(class, right, generator formats gyp is given) for every form of asking for one."""
    for p in ("linux", "win32"):
        for argv in ASKED:
            w = World(p, argv)
            want = set(gyp_args(argv)["formats"] or ["msvs" if w.win else "make"])
            try:
                rs = started(c, g, root, w, {n.id for n in spawns})
            except Blowup:
                rs = []
            got = [None if x is None else gyp_args(x[1:])["formats"] for x in rs]
            yield w.label(), bool(got) and all(x is not None and set(x) == want for x in got), got


def check(c):
    c.rule("K1", "gyp gets its own script, binding.gyp, the output directory, the options it needs and the user's arguments, each as given")
    c.rule("K2", "the generator is the one asked for, in every form gyp accepts, else msvs on Windows and make elsewhere")
    c.rule("K3", "the included files are the generated and the addon's own configuration, addon.gypi and the headers' common.gypi")
    c.rule("K4", "the variables are those of the headers and the platform: export files and zoslib where the platform needs them")
    c.rule("K5", "gyp's environment has its own library before the user's, and the Python and Visual Studio that were found")
    c.rule("K6", "headers are installed and Visual Studio is looked for exactly where that is called for, before config.gypi is written")
    c.rule("K7", "configure fails, and starts nothing, exactly where something it needs is missing or cannot be examined")
    root = exported(c.js, "lib/configure.js")
    if root is None:
        return c.ob("K1", ("lib/configure.js", 1), False, "the configure command is exported")
    params = [p[0].id for p in root.params]
    g = c.graph(root, opaque(*OPQ))
    sp = c.need("K1", [n for n in g.calls() if any(a[0] == "a" and a[2] == "spawn" for a in (g.callee(n), n.callee))], "start of gyp", root.loc)
    stop = {n.id for n in sp}
    if not sp:
        return
    seen = set()
    for w in worlds():
        try:
            rs = outcomes(c, g, w, params, stop)
        except Blowup:
            c.ob("K1", root.loc, False, "", f"configure ({w.label()}): the analysis does not end", key=f"blowup:{w.label()}")
            continue
        want = expect(w)
        bad = []
        for kind, n, s, e in rs:
            if kind != "stop":
                if kind == "return" or want is not None:
                    bad.append(("K7", "ends without starting gyp" + (" and reports success" if kind == "return" else "")))
                continue
            if want is None:
                bad.append(("K7", "starts gyp although it must fail"))
                continue
            prog = e.deep(e.ev(n.args[0], s), s) if n.args else None
            xs = e.deep(e.ev(n.args[1], s), s) if len(n.args) > 1 else ("c", None)
            names = [text(x) for x in xs[1]] if xs[0] in ("list", "tuple") else None
            if prog != ("c", "/py") or names is None or None in names:
                odd = [show(x)[:80] for x in xs[1] if text(x) is None][:2] if names else show(xs)[:100]
                bad.append(("K1", f"starts {show(prog)[:40] if prog else None} with arguments that are not known: {odd}"))
                continue
            if not names or w.resolve([names[0]]) != w.resolve(["C:\\ng" if w.win else "/ng", "gyp", "gyp_main.py"]):
                bad.append(("K1", f"runs {names[:1]} instead of gyp's script"))
            bad += compare(w, want, gyp_args(names[1:]))
            bad += environment(w, s, want)
            bad += effects(w, e, s)
        if not rs:
            bad.append(("K7", "has no outcome"))
        if not bad:
            c.ob("K7" if want is None else "K1", root.loc, True, f"configure: {w.label()}")
        for r, msg in dict.fromkeys(bad):
            if (r, msg[:24]) not in seen:
                seen.add((r, msg[:24]))
                c.ob(r, root.loc, False, "", f"configure ({w.label()}): {msg}", key=f"{r}:{msg[:80]}:{w.label()}")
