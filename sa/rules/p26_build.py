"""The build command: program, arguments and environment of the build tool."""
import json
import math
import re
from ..ccp import CCP, RAISE, Blowup, js_str
from ..cfg import show
from ..match import *
from .jscommon import *

ID = "P26"
EXPLANATION = (
    "Conditional constant propagation with trace partitioning over the supergraph of the build command (helpers and "
    "callbacks spliced in), once for every class of platform, configuration, environment and options. The program and "
    "argument vector of the process each outcome starts, and the file operations before it, are read from the abstract "
    "state, interpreted the way make and msbuild read their arguments, and compared with what the options ask for.")

ENV = ("a", ("glob", "process"), "env")
PROCESS = ("glob", "process")
CPUS = 12
CONF = {"target_defaults": {"default_configuration": "Release"},
        "variables": {"target_arch": "x64", "nodedir": "/nd", "python": "/usr/bin/python3", "msbuild_path": "C:\\#1\\MSBuild.exe"}}
POSIX = ("linux", "darwin", "freebsd", "openbsd", "aix", "os400", "sunos")
FS = ("readFile", "readFileSync", "mkdir", "mkdirSync", "unlink", "unlinkSync", "symlink", "symlinkSync", "rm", "rmSync")


def lift(x):
    if isinstance(x, dict):
        return ("dict", tuple((("c", k), lift(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ("list", tuple(lift(v) for v in x))
    return ("c", x)


class World:
    def __init__(self, platform="linux", opts=(), env=(), conf=None, argv=(), sln=(), mk=(), makefile=False, verbose=False, fault=None):
        self.platform, self.opts, self.env, self.argv = platform, dict(opts), dict(env), list(argv)
        self.conf = CONF if conf is None else conf
        self.sln, self.mk, self.makefile, self.verbose, self.fault = sln, mk, makefile, verbose, fault
        self.data = "# Do not edit. File was generated by node-gyp's \"configure\" step\n" + json.dumps(self.conf, indent=2) + "\n"

    def label(self):
        out = [self.platform]
        out += [f"--{k}={v}" for k, v in self.opts.items()] + [f"{k}={v}" for k, v in self.env.items()] + self.argv
        if self.conf is not CONF:
            out.append(f"default {self.conf['target_defaults'].get('default_configuration')} arch {self.conf['variables'].get('target_arch')}")
        if self.verbose:
            out.append("verbose")
        if self.fault:
            out.append(f"{self.fault} fails")
        if self.platform == "win32":
            out.append("solution" if self.sln else "no solution")
        return " ".join(out)

    def __call__(self, op, t):
        if op == "value":
            if t == ("a", PROCESS, "platform"):
                return ("c", self.platform)
            if t[0] == "a" and t[1] == ENV:
                return ("c", self.env.get(t[2]))
            if t[0] == "i" and t[1] == ENV and t[2][0] == "c":
                return ("c", self.env.get(t[2][1]))
            if t[0] == "a" and t[2] == "length" and t[1][0] == "call" and t[1][1] == ("a", ("mod", "os"), "cpus"):
                return ("c", CPUS)
            if t[0] == "a" and t[2] == "code" and t[1][0] == "excof":
                return ("c", self.code)
            if t[0] == "a" and t[1][0] == "excof" and t[2] == "message":
                return ("sym", "message")
        if op == "truth":
            if t[0] in ("sym", "excof") or t[0] == "call" and joined(t):
                return True
        if op == "eq":
            a, b = t
            for x, y in ((a, b), (b, a)):
                if x[0] in ("sym", "excof") and y[0] == "c":
                    return False
        if op in ("call", "throws"):
            f, a = t[1], t[2]
            name = f[2] if f[0] == "a" else f[1] if f[0] in ("glob", "mod") else None
            if op == "throws":
                return False
            if self.fault is not None and self.what(f, name, a) == self.fault:
                return RAISE
            if name == "parseInt" and f in (("glob", "parseInt"), ("a", ("glob", "Number"), "parseInt")) and a and a[0][0] == "c":
                b = a[1][1] if len(a) > 1 and a[1][0] == "c" and a[1][1] else 10
                digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:b] if isinstance(b, int) and 2 <= b <= 36 else "0"
                m = re.match(rf"\s*([+-]?[{digits}]+)", str(js_str(a[0][1])), re.I)
                return ("c", int(m.group(1), b) if m and len(digits) > 1 else math.nan)
            if f == ("glob", "Number") and a and a[0][0] == "c":
                x = js_str(a[0][1]).strip()
                return ("c", int(x) if re.fullmatch(r"[+-]?\d+", x) else 0 if not x else math.nan)
            if name in ("isNaN",) and a and a[0][0] == "c":
                return ("c", isinstance(a[0][1], float) and math.isnan(a[0][1]))
            if name in ("isInteger", "isSafeInteger", "isFinite") and a and a[0][0] == "c":
                return ("c", isinstance(a[0][1], int) and not isinstance(a[0][1], bool))
            if f == ("a", ("mod", "os"), "availableParallelism"):
                return ("c", CPUS)
            if name in ("readFile", "readFileSync") and a and joined(a[0]) != "build/config.gypi":
                return RAISE
            if name in ("readFile", "readFileSync"):
                return ("c", self.data) if len(a) > 1 else ("sym", "bytes")
            if f in (("a", ("sym", "bytes"), "toString"), ("glob", "String")) and (not a or a == (("sym", "bytes"),)):
                return ("c", self.data)
            if f == ("a", ("glob", "JSON"), "parse") and a and a[0][0] == "c":
                try:
                    return lift(json.loads(a[0][1]))
                except (ValueError, TypeError):
                    return RAISE
            if name in ("glob", "globSync") and a:
                p = a[0] if a[0][0] == "c" else a[0][1][0] if a[0][0] == "list" and len(a[0][1]) == 1 else None
                if p is not None and p[0] == "c":
                    k = p[1].replace("\\", "/")
                    k = k[2:] if k.startswith("./") else k
                    return lift(list({"build/*.sln": self.sln, "build/*.mk": self.mk}.get(k, ())))
            if name in ("existsSync",) and a:
                return ("c", self.makefile if joined(a[0]) == "build/Makefile" else False)
            if name == "isVisible":
                return ("c", self.verbose if a == (("c", "verbose"),) else False)
            if name == "extname" and len(a) == 1 and a[0][0] == "c":
                if not isinstance(a[0][1], str):
                    return RAISE
                m = re.search(r"[^/\\](\.[^./\\]*)$", a[0][1])
                return ("c", m.group(1) if m else "")
            if f == ("glob", "Error"):
                return ("sym", "error")
            if name == "spawn" and f[0] == "sym":
                return ("sym", "proc")
            if f == ("mod", "which") or name == "sync" and f[1] == ("mod", "which"):
                return ("sym", "which:" + (a[0][1] if a and a[0][0] == "c" and isinstance(a[0][1], str) else show(a[0]) if a else ""))
        if op == "effect":
            f = t[1]
            return f[0] == "a" and f[2] in FS or f[0] in ("sym",) or f == ("mod", "which") or f[0] == "a" and f[1] == ("mod", "which")
        return None

    def what(self, f, name, a):
        if name in ("readFile", "readFileSync"):
            return "read"
        if name in ("unlink", "unlinkSync"):
            return "unlink"
        if name in ("rm", "rmSync") and (self.code != "ENOENT" or len(a) < 2 or dict_get(a[1], "force") != ("c", True)):
            return "unlink"
        if f == ("mod", "which") or f[0] == "a" and f[1] == ("mod", "which"):
            return "which"
        if name in ("symlink", "symlinkSync", "mkdir", "mkdirSync"):
            return name.replace("Sync", "")
        return None

    code = "ENOENT"


def joined(t):
    ps = path_parts(t)
    out = []
    for p in ps:
        if p[0] != "c" or not isinstance(p[1], str):
            return None
        out += [x for x in p[1].replace("\\", "/").split("/") if x not in ("", ".")]
    return "/".join(out)


class Prop(CCP):
    def docall(self, callee, args, kw, s):
        return super().docall(callee, tuple(self.deep(a, s) if a[0] == "new" and s.get(("F", a[1]), ("", ()))[0] == "dict" else a for a in args)
                              if callee[0] == "a" and callee[2] in FS else args, kw, s)


def outcomes(c, g, w, params, stop):
    e = Prop(g, w, heaplists=True, maxstates=60000)
    s = {"#": 0, ("F", "argv"): ("list", tuple(("c", x) for x in w.argv)),
         ("F", "opts"): ("dict", tuple((("c", k), ("c", v)) for k, v in w.opts.items())),
         ("F", "gyp"): ("dict", ((("c", "opts"), ("new", "opts")), (("c", "spawn"), ("sym", "spawn"))))}
    for p, v in zip(params, (("new", "gyp"), ("new", "argv"))):
        s[("param", p)] = v
    rs = e.run(s, stop)
    c.states += e.count
    return [(kind, n, st, e) for kind, n, st in rs]


def text(v):
    return js_str(v[1]) if v[0] == "c" else None


def strings(v):
    """[str] of an argument list value, or None."""
    if v[0] not in ("list", "tuple"):
        return None
    xs = [text(x) for x in v[1]]
    return None if None in xs else xs


def make_args(xs):
    """What make understands: targets, variables, directory, jobs, anything else."""
    r = {"targets": [], "vars": {}, "dir": [], "jobs": None, "other": []}
    i = 0
    while i < len(xs):
        x = xs[i]
        nxt = xs[i + 1] if i + 1 < len(xs) else None
        if x in ("-C", "--directory"):
            r["dir"].append(nxt)
            i += 1
        elif x.startswith("-C") or x.startswith("--directory="):
            r["dir"].append(x[2:] if x.startswith("-C") else x.split("=", 1)[1])
        elif x in ("-j", "--jobs"):
            if nxt is not None and nxt.isdigit():
                r["jobs"] = nxt
                i += 1
            else:
                r["jobs"] = "unlimited"
        elif re.fullmatch(r"-j.+|--jobs=.*", x):
            r["jobs"] = x[2:] if not x.startswith("--") else x.split("=", 1)[1]
        elif x.startswith("-"):
            r["other"].append(x)
        elif re.match(r"\w+=", x):
            k, v = x.split("=", 1)
            r["vars"][k] = v
        else:
            r["targets"].append(x)
        i += 1
    return r


def msbuild_args(xs):
    r = {"files": [], "targets": [], "props": {}, "jobs": None, "other": []}
    for x in xs:
        m = re.match(r"[/-](\w+)(?::(.*))?$", x, re.S)
        if not m:
            r["files"].append(x)
            continue
        k, v = m.group(1).lower(), m.group(2)
        if k in ("t", "target"):
            r["targets"] += v.split(";")
        elif k in ("p", "property"):
            for y in v.split(";"):
                a, _, b = y.partition("=")
                r["props"][a] = b
        elif k in ("m", "maxcpucount"):
            r["jobs"] = v if v else "unlimited"
        elif k in ("clp", "consoleloggerparameters", "nologo", "v", "verbosity"):
            pass
        else:
            r["other"].append(x)
    return r


def want_jobs(w):
    j = w.opts.get("jobs") or w.env.get("JOBS")
    if not j:
        return None
    m = re.match(r"\s*([+-]?\d+)", j)
    if m and int(m.group(1)) > 0:
        return str(int(m.group(1)))
    return str(CPUS) if j.upper() == "MAX" else None


def want_type(w):
    if "debug" in w.opts:
        return "Debug" if w.opts["debug"] else "Release"
    return w.conf["target_defaults"].get("default_configuration") or "Release"


def want_make(w):
    d = "gmake" if w.platform in ("aix", "os400") or "bsd" in w.platform else "make"
    return w.opts.get("make") or w.env.get("MAKE") or d


def want_platform(arch):
    return {"x64": "x64", "arm": "ARM", "arm64": "ARM64"}.get(arch.lower(), "Win32")


def conf(default=CONF["target_defaults"]["default_configuration"], arch="x64", **variables):
    d = {} if default is None else {"default_configuration": default}
    v = {**CONF["variables"], "target_arch": arch, **variables}
    return {"target_defaults": d, "variables": {k: x for k, x in v.items() if x is not None}}


SLN = ("build/binding.sln",)


def worlds(c):
    """(rule, world) for every input class."""
    for p in POSIX:
        for o in ({}, {"make": "/opt/mk"}):
            for e in ({}, {"MAKE": "mymake"}):
                yield "B1", World(p, o, e)
    for sln in ((), SLN):
        for mk, makefile in (((), False), ((), True), (("build/x.target.mk",), False)):
            for o in ({}, {"make": "mk.exe"}):
                for e in ({}, {"MAKE": "mymake"}):
                    yield "B1", World("win32", o, e, sln=sln, mk=mk, makefile=makefile)
    yield "B1", World("win32", sln=SLN, conf=conf(msbuild_path=None))
    for p in ("linux", "win32"):
        sln = SLN if p == "win32" else ()
        for d in (None, "Debug", "Release", "Custom"):
            for o in ({}, {"debug": True}, {"debug": False}):
                yield "B2", World(p, o, conf=conf(d), sln=sln)
        for arch in ("x64", "X64", "ia32", "x86", "arm", "ARM", "arm64", "Arm64", "mips"):
            yield "B2", World(p, conf=conf(arch=arch), sln=sln)
        for j in (None, "1", "4", "16", "max", "MAX", "Max", "0", "-3", "nonsense", "8x", "maximum"):
            for e in (None, "7", "max", "0", "foo"):
                yield "B3", World(p, {} if j is None else {"jobs": j}, {} if e is None else {"JOBS": e}, sln=sln)
    yield "B3", World("win32", {"jobs": "3"}, makefile=True)
    for p, sln, makefile in (("linux", (), False), ("win32", SLN, False), ("win32", (), True)):
        for verbose in (False, True):
            for argv in ([], ["foo"], ["foo", "bar"], ["foo", "sub\\other.sln"] if sln else ["foo", "x.y"], ["all", "all"]):
                for o in ({}, {"solution": "build\\other.sln"}):
                    yield "B4", World(p, o, sln=sln, makefile=makefile, argv=argv, verbose=verbose)
    yield "B4", World("win32", sln=("build/a.sln", "build/b.sln"))
    for p in POSIX:
        for e in ({}, {"PATH": "/bin:/usr/bin"}, {"PYTHON": "/py", "NODE_GYP_FORCE_PYTHON": "/py3", "npm_config_python": "/np", "PATH": "/b"}):
            yield "B5", World(p, {}, e)
    for f in ("unlink", "symlink", "mkdir", "which", "read"):
        for code in ("ENOENT", "EPERM", "ENOTDIR"):
            w = World("linux", {}, {"PATH": "/bin"}, fault=f)
            w.code = code
            yield "B5" if f not in ("which", "read") else "B6", w
    for p, sln in (("win32", SLN), ("win32", ())):
        w = World(p, sln=sln, makefile=not sln, fault="read")
        yield "B6", w
    yield "B6", World("win32", makefile=True, fault="which")
    w = World("linux")
    w.data = "# comment\n{ broken"
    yield "B6", w


def expect(w):
    """None when nothing may be started, else ("make"|"msbuild", facts)."""
    if w.fault == "read" or "broken" in w.data:
        return None
    if w.platform == "win32" and w.sln:
        mb = w.conf["variables"].get("msbuild_path")
        return ("msbuild", mb) if mb else None
    if w.platform == "win32" and not (w.makefile or w.mk):
        return None
    if w.fault in ("which", "symlink", "mkdir") or w.fault == "unlink" and w.code != "ENOENT":
        return None
    return "make", want_make(w)


def diff(w, prog, xs, e, n, s):
    """What is wrong with starting prog with xs in this world, as [(rule, message)]."""
    out = []
    kind, want = expect(w)
    if prog != want:
        out.append(("B1", f"starts {prog} instead of {want}"))
    jobs = want_jobs(w)
    if kind == "make":
        a = make_args(xs)
        if a["vars"].get("BUILDTYPE") != want_type(w):
            out.append(("B2", f"BUILDTYPE is {a['vars'].get('BUILDTYPE')}, not {want_type(w)}"))
        if a["dir"] not in (["build"], ["./build"]):
            out.append(("B4", f"make runs in {a['dir']}, not in build"))
        if a["targets"] != w.argv:
            out.append(("B4", f"make builds {a['targets']}, not {w.argv}"))
        extra = {k: v for k, v in a["vars"].items() if k != "BUILDTYPE"}
        if extra != ({"V": "1"} if w.verbose else {}):
            out.append(("B4", f"make gets {extra} {'when' if w.verbose else 'without'} --verbose"))
        if a["other"]:
            out.append(("B4", f"make gets {a['other']}"))
    else:
        a = msbuild_args(xs)
        own = [x for x in w.argv if x.endswith(".sln")]
        if a["files"] != (own or [w.opts.get("solution") or w.sln[0]]):
            out.append(("B4", f"msbuild builds the files {a['files']}, not {own or [w.opts.get('solution') or w.sln[0]]}"))
        if a["targets"] != [x for x in w.argv if x not in own]:
            out.append(("B4", f"msbuild builds the targets {a['targets']}, not {[x for x in w.argv if x not in own]}"))
        if a["props"] != {"Configuration": want_type(w), "Platform": want_platform(w.conf["variables"]["target_arch"])}:
            out.append(("B2", f"msbuild gets {a['props']}"))
        if a["other"]:
            out.append(("B4", f"msbuild gets {a['other']}"))
    if a["jobs"] != jobs:
        out.append(("B3", f"uses {a['jobs'] or 'no'} jobs instead of {jobs or 'none'}"))
    out += links(w, e, s)
    return out


BINS = "build/node_gyp_bins"


def links(w, e, s):
    """The python3 link in the PATH of the build tool."""
    fx = [(x[1][2].replace("Sync", "") if x[1][0] == "a" else "", [e.deep(y, s) for y in x[2]]) for x in s.get("fx", ())]
    path = s.get(("W", ENV, ("c", "PATH")))
    if w.platform == "win32":
        return [("B5", "links or PATH are changed on Windows")] if path is not None or any(f == "symlink" for f, _ in fx) else []
    out = []
    sl = [a for f, a in fx if f == "symlink"]
    py = w.conf["variables"]["python"]
    if [(text(a[0]), joined(a[1])) for a in sl if len(a) > 1] != [(py, BINS + "/python3")]:
        out.append(("B5", f"python3 for the build is {[show(x)[:60] for a in sl for x in a]}, not a link to the Python that configured it"))
    names = [(f, joined(a[0]) if a else None) for f, a in fx if f in ("mkdir", "unlink", "rm")]
    order = [f for f, _ in fx]
    if ("mkdir", BINS) not in names or "symlink" in order and "mkdir" in order and order.index("mkdir") > order.index("symlink"):
        out.append(("B5", "the link's directory is not created first"))
    else:
        a = next(a for f, a in fx if f == "mkdir")
        if len(a) < 2 or dict_get(a[1], "recursive") != ("c", True):
            out.append(("B5", "an existing link directory makes the build fail"))
    if w.fault != "unlink" and not ({("unlink", BINS + "/python3"), ("rm", BINS + "/python3"), ("rm", BINS)} & set(names)):
        out.append(("B5", "a link left behind by an earlier build is not replaced"))
    ps = path[1] if path is not None and path[0] == "cat" else ()
    head, rest = ps[0] if ps else None, "".join(p[1] for p in ps[1:] if p[0] == "c" and isinstance(p[1], str)) if ps else ""
    ok = head is not None and joined(head) == BINS and all(p[0] == "c" for p in ps[1:])
    ok = ok and (rest == ":" + w.env["PATH"] if "PATH" in w.env else rest in ("", ":", ":null"))
    if not ok:
        out.append(("B5", f"PATH is {show(path)[:100] if path is not None else 'unchanged'}"))
    return out


def check(c):
    c.rule("B1", "the build tool is the configured MSBuild where there is a solution, else --make, MAKE or the platform's make, found in PATH")
    c.rule("B2", "the configuration is --debug/--no-debug, else the configured one, else Release; msbuild gets the configured architecture")
    c.rule("B3", "the number of jobs is that of --jobs, else of JOBS: a positive number, or one per processor for max")
    c.rule("B4", "exactly the named targets are built, of the given or found solution or the Makefile in build")
    c.rule("B5", "the build finds the configured Python as python3, through a link replaced before and removed after it")
    c.rule("B6", "without a configuration, a solution or a build tool the command fails and starts nothing")
    root = exported(c.js, "lib/build.js")
    if root is None:
        return c.ob("B1", ("lib/build.js", 1), False, "the build command is exported")
    params = [p[0].id for p in root.params]
    g = c.graph(root, opaque())
    sp = [n for n in g.calls() if any(a[0] == "a" and a[2] == "spawn" for a in [g.callee(n), n.callee])]
    sp = c.need("B1", sp, "the build command starts a process", root.loc)
    stop = {n.id for n in sp}
    if not sp:
        return
    seen = set()
    for rule, w in worlds(c):
        try:
            rs = outcomes(c, g, w, params, stop)
        except Blowup:
            c.ob(rule, root.loc, False, f"build: {w.label()}", f"build: {w.label()}: the analysis does not end", key=f"blowup:{rule}")
            continue
        want = expect(w)
        bad = []
        for kind, n, s, e in rs:
            if kind != "stop":
                if kind == "return" or want is not None:
                    bad.append((rule, "ends without starting a build"))
                continue
            if want is None:
                bad.append((rule, "starts a build"))
                continue
            if len(n.args) < 2:
                bad.append(("B4", "the build tool gets no arguments"))
                continue
            prog, xs = e.deep(e.ev(n.args[0], s), s), e.deep(e.ev(n.args[1], s), s)
            prog, names = found(prog, s), strings(xs)
            if prog is None or names is None:
                bad.append((rule, f"starts {show(e.deep(e.ev(n.args[0], s), s))[:80]} with {show(xs)[:160]}"))
                continue
            bad += diff(w, prog, names, e, n, s)
            if want[0] == "make" and not any(x[1] == ("mod", "which") or x[1][0] == "a" and x[1][1] == ("mod", "which") for x in s.get("fx", ())):
                bad.append(("B1", "make is started without looking for it in PATH"))
        if not any(k == "stop" or k == "raise" for k, _, _, _ in rs):
            bad.append((rule, "has no outcome"))
        if not bad:
            c.ob(rule, root.loc, True, f"build: {w.label()}")
        for r, msg in dict.fromkeys(bad):
            if (r, msg.split(" ", 1)[0]) not in seen:
                c.ob(r, root.loc, False, "", f"build ({w.label()}) {msg}", key=f"{r}:{msg}:{w.label()}")
    after(c, g, root, params)


def found(t, s):
    """The program: a constant, or where `which` found it."""
    if t[0] == "c" and isinstance(t[1], str):
        return t[1]
    if t[0] == "sym" and t[1].startswith("which:"):
        return t[1][6:]
    return None


def after(c, g, root, params):
    """The link is gone when the command settles."""
    settle = {n.id for n in g.calls() if any(r[0] in ("reject", "resolve") for r in g.resolve(n.callee, n))}
    for p in ("linux", "win32"):
        w = World(p, {}, {"PATH": "/bin"}, sln=SLN if p == "win32" else ())
        try:
            rs = outcomes(c, g, w, params, settle)
        except Blowup:
            continue
        for kind, n, s, e in rs:
            if kind != "stop":
                continue
            fx = [(x[1][2].replace("Sync", ""), joined(e.deep(x[2][0], s)) if x[2] else None) for x in s.get("fx", ()) if x[1][0] == "a"
                  and not (x[1][2] in ("rm", "rmSync") and x[2] and joined(e.deep(x[2][0], s)) == BINS
                           and (len(x[2]) < 2 or dict_get(e.deep(x[2][1], s), "recursive") != ("c", True)))]
            order = [f for f in fx if f[0] in ("symlink", "rm", "unlink") or f[0] == "mkdir"]
            last = [f for f in order if f[0] in ("symlink", "rm", "unlink")]
            ok = p == "win32" and not last or p != "win32" and bool(last) and last[-1] in (("rm", BINS), ("rm", BINS + "/python3"), ("unlink", BINS + "/python3"))
            c.ob("B5", n.loc, ok, "the link is removed when the build ends", f"{p}: the build ends with {last[-1:]} as the last change to its links")
