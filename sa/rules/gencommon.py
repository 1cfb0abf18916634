"""Text a generator writes for given targets, by constant propagation of its source."""
import hashlib
import os.path as ospath
import posixpath

from ..ccp import Blowup
from ..cfg import show
from ..interp import PATH, Inter
from ..mk import Make
from ..pyccp import RAISE, exc_name
from .p24_dependencies import Heap, NONE, plain
from .pycommon import func

TOP = "/w"
PATHCONST = {("a", x, n): v for x in (PATH, ("mod", "os")) for n, v in (("pardir", ".."), ("curdir", "."), ("extsep", "."))}


def const(v):
    return v[0] == "c" and isinstance(v[1], str)


class Gen:
    """The files written by `GenerateOutput` of one generator module."""

    def __init__(self, c, module, others=("gyp.common", "gyp.xcode_emulation"), platform="linux", env=None):
        self.c = c
        self.module = module
        self.platform = platform
        self.env = env or {}
        self.options = {}
        self.stubs = {"RegenerateFlags": lambda a, s, e, n: ("list", (("c", "--flag"), ("c", "-Dx=y z")))}
        self.f = func(c, module, "GenerateOutput")
        self.base = {}
        self.ok = self.f is not None
        for m in (module, *others):
            r = Inter.load(c, m, self.model) if m in c.py.mods else None
            if r is None:
                self.ok = False
                continue
            self.base.update(r)

    def model(self, op, t):
        if op == "value":
            if t == ("a", ("mod", "sys"), "platform"):
                return ("c", self.platform)
            if t == ("a", ("mod", "sys"), "executable"):
                return ("c", "/usr/bin/python3")
            if t == ("a", ("mod", "os"), "sep") or t == ("a", PATH, "sep"):
                return ("c", "/")
            if t in PATHCONST:
                return ("c", PATHCONST[t])
            if t == ("a", ("mod", "os"), "environ"):
                return ("dict", tuple((("c", k), ("c", v)) for k, v in self.env.items()))
            if t[0] == "a" and t[1] == ("sym", "options") and t[2] in self.options:
                v = self.options[t[2]]
                return v if isinstance(v, tuple) else ("list", tuple(("c", x) for x in v)) if isinstance(v, list) else ("c", v)
            return None
        if op in ("truth", "notnull") and t[0] == "handle":
            return True
        if op == "call":
            f, a = t[1], t[2]
            if f == ("glob", "open") or f[0] == "a" and f[1] in (("mod", "io"), ("mod", "codecs")) and f[2] == "open":
                return ("handle", a[0])
            if f == ("a", ("mod", "os"), "getcwd"):
                return ("c", TOP)
            if f[0] == "a" and f[1] == PATH and f[2] in ("realpath", "abspath") and const(a[0]):
                return ("c", posixpath.normpath(posixpath.join(TOP, a[0][1])))
            if f[0] == "a" and f[1] == PATH and f[2] == "commonprefix" and a and a[0][0] in ("list", "tuple"):
                return None
            if f[0] == "a" and f[2] == "hexdigest" and f[1][0] == "call" and f[1][1][0] == "a" and f[1][1][1] == ("mod", "hashlib") and f[1][2]:
                x = f[1][2][0]
                if x[0] == "call" and x[1][0] == "a" and x[1][2] == "encode" and const(x[1][1]):
                    return ("c", hashlib.new(f[1][1][2], x[1][1][1].encode()).hexdigest())
                if x[0] == "c" and isinstance(x[1], bytes):
                    return ("c", hashlib.new(f[1][1][2], x[1]).hexdigest())
            return None
        if op == "exec":
            cal, a, s, e, n = t
            if cal[0] == "a" and cal[1][0] == "handle":
                if cal[2] == "write":
                    s["fx"] = s.get("fx", ()) + ((n.id, ("write", cal[1][1]), a),)
                    return NONE
                if cal[2] == "writelines":
                    q = e.seq(a[0], s)
                    if q is not None:
                        s["fx"] = s.get("fx", ()) + tuple((n.id, ("write", cal[1][1]), (x,)) for x in q)
                        return NONE
                if cal[2] in ("close", "flush"):
                    return NONE
                if cal[2] == "readlines":
                    return ("list", (("c", "#!/usr/bin/env python3\n"), ("c", "body\n")))
                if cal[2] in ("__enter__",):
                    return cal[1]
            if cal[0] == "fn" and cal[1].name in self.stubs:
                return self.stubs[cal[1].name](a, s, e, n)
        return None

    def run(self, targets, data=None, options=None, flags=None, flavor="linux", build_files=None, env=None, params=None):
        """('ok', {file: text}, effects) | ('raise', name) | ('undecided', why); `targets` is a list of (qualified name, settings)."""
        self.options = {"toplevel_dir": ".", "depth": ".", "generator_output": None, "suffix": "", "parallel": False, **(options or {})}
        self.env = env or {}
        files = []
        for q, _ in targets:
            f = q.rsplit(":", 1)[0]
            if f not in files:
                files.append(f)
        data = data or {f: {"included_files": [posixpath.basename(f)]} for f in files}
        ps = {"options": ("sym", "options"), "generator_flags": flags or {}, "build_files": build_files or files, "home_dot_gyp": None, "flavor": flavor,
              "build_files_arg": build_files or files, "gyp_binary": "gyp/gyp_main.py", **(params or {})}
        h = Heap()
        args = ([q for q, _ in targets], {q: d for q, d in targets}, data, ps)
        for (p, _, _), v in zip(self.f.params, args):
            h.init[("param", p.id)] = h(v)
        h.init.update(self.base)
        e = Inter.of(self.c, self.f, self.model, maxstates=300000)
        try:
            rs = e.run(h.init)
        except Blowup:
            return ("undecided", "too many abstract states")
        self.c.states += e.count
        if len(rs) != 1:
            ks = {k if k == "return" else "raise " + str(exc_name(s["exc"])) for k, _, s in rs}
            if len(ks) == 1 and next(iter(ks)).startswith("raise"):
                return ("raise", next(iter(ks))[6:])
            return ("undecided", f"{len(rs)} outcomes")
        k, _, s = rs[0]
        if k == "raise":
            return ("raise", str(exc_name(s["exc"])))
        out, other = {}, []
        for _, w, a in s.get("fx", ()):
            if w[0] == "open" and const(w[1]):
                out[posixpath.normpath(posixpath.join(TOP, w[1][1]))] = []
                continue
            if w[0] != "write":
                other.append((w, a))
                continue
            if not const(w[1]) or len(a) != 1 or not const(a[0]):
                return ("undecided", "text " + show(a[0] if a else w[1])[:150])
            out.setdefault(posixpath.normpath(posixpath.join(TOP, w[1][1])), []).append(a[0][1])
        return ("ok", {k: "".join(v) for k, v in out.items()}, other)


def T(name, kind, conf=None, confs=None, toolset="target", **kw):
    """A target as the generators receive it; `confs` for several configurations."""
    confs = confs or {"Default": conf or {}}
    return dict(target_name=name, type=kind, toolset=toolset, default_configuration=next(iter(confs)), configurations=confs, **kw)


class Scene:
    """One set of targets, the makefiles generated for it, and what make does with them.

    `targets` is [(build file, T(...))]; mode "node" is how node-gyp calls gyp
    (output in build/), mode "plain" gyp's default (output in out/)."""

    def __init__(self, gen, label, targets, mode="node", flavor="linux", flags=None, options=None, **kw):
        self.gen, self.label, self.mode, self.flavor, self.targets = gen, label, mode, flavor, targets
        out = "." if mode == "node" else "out"
        self.cwd = TOP + "/build" if mode == "node" else TOP
        self.out = posixpath.normpath(posixpath.join(self.cwd, out))
        f = {"output_dir": out} if mode == "node" else {}
        o = {"generator_output": "build"} if mode == "node" else {}
        self.names = [f"{b}:{t['target_name']}#{t['toolset']}" for b, t in targets]
        self.res = gen.run(list(zip(self.names, (t for _, t in targets))), flags={**f, **(flags or {})}, options={**o, **(options or {})}, flavor=flavor, **kw)

    def __iter__(self):
        return ((b, posixpath.dirname(b), t) for b, t in self.targets)

    def inputs(self):
        """The files that exist before the build."""
        out = set()
        for _, d, t in self:
            fs = list(t.get("sources", ()))
            for a in t.get("actions", ()):
                fs += a["inputs"]
            for r in t.get("rules", ()):
                fs += list(r.get("inputs", ())) + list(r.get("rule_sources", ()))
            for x in t.get("copies", ()):
                fs += x["files"]
            for x in fs:
                if "$(" not in x:
                    out.add(posixpath.normpath(posixpath.join(TOP, d, x)))
        for _, d, t in self:
            for a in t.get("actions", ()):
                out -= {posixpath.normpath(posixpath.join(TOP, d, x)) for x in a["outputs"] if "$(" not in x}
            for r in t.get("rules", ()):
                for q in r.get("rule_sources", ()):
                    out -= {posixpath.normpath(posixpath.join(TOP, d, x)) for x in rule_outputs(r, q) if "$(" not in x}
        return out

    def make(self, goal="all", given=None, env=None):
        m = Make(self.res[1], self.cwd + "/Makefile", self.cwd, self.inputs(), given, env)
        if goal:
            m.build(goal)
        return m

    def here(self, p):
        """Absolute form of a path in a makefile or command."""
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def there(self, d, p, t=None, conf="Default", obj=None):
        """Absolute form of a path in the settings of target `t` of a build file in directory `d`."""
        if "$(" not in p:
            return posixpath.normpath(posixpath.join(TOP, d, p))
        b = f"{self.out}/{conf}"
        for k, v in (("$(obj)", b + "/obj"), ("$(builddir)", b), ("$(srcdir)", TOP), ("$(abs_builddir)", b), ("$(abs_srcdir)", TOP), ("$(abs_obj)", b + "/obj"),
                     ("$(TOOLSET)", t and t["toolset"]), ("$(TARGET)", t and t["target_name"]), ("$(BUILDTYPE)", conf)):
            p = p.replace(k, v or k)
        return posixpath.normpath(p)


def rule_outputs(r, source):
    d, b = posixpath.split(source)
    root = posixpath.splitext(b)[0]
    return [x.replace("%(INPUT_ROOT)s", root).replace("%(INPUT_DIRNAME)s", d) for x in r["outputs"]]
