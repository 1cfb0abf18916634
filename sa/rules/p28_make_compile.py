"""P28: on make platforms every source is compiled once, the right way, and linked."""
import posixpath

from ..mk import MakeError, argv, commands
from .gencommon import Gen, Scene, T
from .p24_dependencies import Tally
from .pycommon import py_in

ID = "P28"
EXPLANATION = (
    "Rule M1/M2/M3: the text the make generator writes for template target sets is obtained by constant propagation of GenerateOutput and everything it calls, "
    "and interpreted by a model of GNU make and of the shell's word splitting (sa/mk.py; nothing is executed). M1: the compile commands of a goal are, for every target, exactly one per "
    "compilable source, with the compiler of its language and toolset and exactly the definitions, include directories and flags of the configuration that is built. M2: each target's "
    "product is linked or archived once from exactly its objects, the products of its link dependencies, its flags and libraries, in a valid order. M3: products appear under the name and place their settings give.")

LANG = {".c": "CC", ".cc": "CXX", ".cpp": "CXX", ".cxx": "CXX", ".s": "CC", ".S": "CC"}
TOOLS = {"target": {"CC": "cc", "CXX": "g++", "AR": "ar"}, "host": {"CC": "gcc", "CXX": "g++", "AR": "ar"}}
SOLIB = {"aix": ".a", "zos": ".x"}


class Judge:
    def __init__(self, ob, s, m, conf, tools=None, extra=None):
        self.ob, self.s, self.m, self.conf = ob, s, m, conf
        self.tools = tools or TOOLS
        self.extra = extra or {}
        self.lab = f"{s.label} ({s.flavor}, {s.mode}, {conf})"
        self.cmds = []
        for t, b in m.built.items():
            for ln in b["lines"]:
                cs = commands(ln)
                for _, w in cs or []:
                    a = argv(w)
                    if a:
                        self.cmds.append((t, a))
        self.unread = [ln for b in m.built.values() for ln in b["lines"] if commands(ln) is None]

    def check(self, rule, ok, what, why, key):
        self.ob(rule, ok, f"{self.lab}: {what}", why, key)

    def compiles(self):
        """[(object, compiler, source, definitions, include dirs, other flags)]"""
        out = []
        for t, a in self.cmds:
            if "-c" in a and "-o" in a:
                rest = a[1:]
                o = rest.index("-o")
                obj = rest[o + 1]
                del rest[o:o + 2]
                rest.remove("-c")
                if "-MF" in rest:
                    i = rest.index("-MF")
                    del rest[i:i + 2]
                src = [x for x in rest if not x.startswith("-")]
                out.append((self.s.here(obj), a[0], [self.s.here(x) for x in src], [x for x in rest if x.startswith("-D")],
                            [self.s.here(x[2:]) for x in rest if x.startswith("-I")],
                            [x for x in rest if x.startswith("-") and x[:2] not in ("-D", "-I") and x not in ("-MMD", "-qmakedep=gcc")]))
        return out

    def expected(self, d, t):
        cf = t["configurations"][self.conf]
        out = []
        src = list(t.get("sources", ()))
        for a in t.get("actions", ()):
            if int(a.get("process_outputs_as_sources", 0)):
                src += a["outputs"]
        for x in src:
            e = posixpath.splitext(x)[1]
            if e not in LANG:
                continue
            lang = LANG[e]
            out.append((self.s.there(d, x, t, self.conf), self.tools[t["toolset"]][lang], ["-D" + v for v in cf.get("defines", ())],
                        [self.s.there(d, v, t, self.conf) for v in cf.get("include_dirs", ())],
                        list(cf.get("cflags", ())) + list(cf.get("cflags_c" if lang == "CC" else "cflags_cc", ())) + self.extra.get((t["toolset"], lang), [])))
        return out

    def name(self, t):
        """Name of the product."""
        n, k = t["target_name"], t["type"]
        pre = suf = ""
        if k != "executable":
            n = n[3:] if n.startswith("lib") else n
            pre, suf = "lib", ".a" if k == "static_library" else SOLIB.get(self.s.flavor, ".so")
        n = t.get("product_name", n)
        pre = t.get("product_prefix", pre)
        if t.get("product_extension"):
            suf = "." + t["product_extension"]
        return pre + n + suf

    def product(self, d, t):
        """Where the linker writes the product."""
        k = t["type"]
        b = f"{self.s.out}/{self.conf}"
        if "product_dir" in t:
            return posixpath.join(self.s.there(d, t["product_dir"], t, self.conf), self.name(t))
        if k == "executable":
            return f"{b}/{self.name(t)}"
        return posixpath.normpath(f"{b}/obj.{t['toolset']}/{d}/{self.name(t)}")

    def run(self):
        s = self.s
        self.check("M1", not self.unread, "every command is a readable shell command", f"{self.unread[:1]}", "compile")
        self.check("M1", not s_missing(self.m), "every makefile is found", f"{self.m.missing}", "compile")
        comp = self.compiles()
        byobj = {}
        for x in comp:
            byobj.setdefault(x[0], []).append(x)
        used = []
        outs = {}
        for b, d, t in s:
            if t["type"] != "none":
                outs[f"{b}:{t['target_name']}#{t['toolset']}"] = self.product(d, t)
        for b, d, t in s:
            if t["type"] != "none":
                used += self.target(b, d, t, byobj, outs)
        extra = [x for x in comp if x[0] not in used]
        self.check("M1", not extra, "nothing else is compiled", f"also compiles {[x[2] for x in extra]}", "compile")
        dup = [o for o in byobj if len(byobj[o]) > 1 or used.count(o) > 1]
        self.check("M1", not dup, "every object is made once", f"{dup} is made several times", "compile")

    def target(self, b, d, t, byobj, outs):
        s = self.s
        q = f"{b}:{t['target_name']}#{t['toolset']}"
        prod = outs[q]
        link = [(x, a) for x, a in self.cmds if s.here(x) == prod and self.is_link(a)]
        objs = []
        if self.one(t, prod, link):
            objs = self.linked(d, t, prod, link[0][1], outs)
        got = []
        for o in objs:
            for x in byobj.get(o, ()):
                got.append(x)
        want = self.expected(d, t)
        srcs = [x[2] for x in got]
        self.check("M1", srcs == [[w[0]] for w in want], f"the objects of {q} come from its sources", f"{srcs} instead of {[w[0] for w in want]}", "compile")
        for w in want:
            for x in got:
                if x[2] == [w[0]]:
                    n = posixpath.basename(w[0])
                    self.check("M1", x[1] == w[1], f"{n} is compiled by {w[1]}", f"by {x[1]}", "compile")
                    self.check("M1", x[3] == w[2], f"{n} of {q} gets the definitions {w[2]}", f"gets {x[3]}", "definitions")
                    self.check("M1", x[4] == w[3], f"{n} of {q} gets the include directories {w[3]}", f"gets {x[4]}", "include directories")
                    self.check("M1", x[5] == w[4], f"{n} of {q} gets the flags {w[4]}", f"gets {x[5]}", "flags")
        self.placed(d, t, prod)
        return objs

    def one(self, t, prod, link):
        self.check("M2", len(link) == 1, f"{t['target_name']} is linked once, at {prod}", f"{len(link)} commands make it", "link")
        return len(link) == 1

    @staticmethod
    def is_link(a):
        return a[0] not in ("rm", "mkdir", "printf", "touch", "sed", ":", "cp", "ln", "grep", "cd", "echo", "export") and "-c" not in a and "=" not in a[0] and len(a) > 2

    def linked(self, d, t, prod, av, outs):
        s, k = self.s, t["type"]
        cf = t["configurations"][self.conf]
        q = t["target_name"]
        want = [w[0] for w in self.expected(d, t)]
        olib = [s.there(d, x, t, self.conf) for x in t.get("sources", ()) if x.endswith(".o")]
        pos = {f"{b}:{x['target_name']}#{x['toolset']}": x for b, _, x in s}
        deps = [(outs[y], pos[y]) for y in t.get("dependencies", ()) if y in outs and pos[y]["type"] in ("static_library", "shared_library")]
        tool = self.tools[t["toolset"]]
        if k == "static_library":
            a = av[1:]
            ok = av[0] == tool["AR"]
            flags = [x for x in a if x.startswith("-")]
            a = [x for x in a if not x.startswith("-")]
            ops, ar = (a[0], a[1:]) if a else ("", [])
            self.check("M2", ok and bool(ar) and s.here(ar[0]) == prod and set("crs") <= set(ops), f"{q} is archived by {tool['AR']} into {prod}", f"by {av[:3]}", "archive")
            thin = "T" in ops
            self.check("M2", not (thin and t.get("standalone_static_library")), f"the standalone library {q} contains its objects", "it is a thin archive", "archive")
            mem = []
            for x in ar[1:]:
                mem += self.listed(x[1:]) if x.startswith("@") else [x]
            mem = [s.here(x) for x in mem]
            made = [x for x in mem if x not in olib]
            self.check("M2", [x for x in mem if x in olib] == olib and len(made) == len(want), f"{q} contains its objects", f"contains {mem} for the sources {want} and {olib}", "archive")
            return made
        self.check("M2", av[0] == tool["CXX"], f"{q} is linked by {tool['CXX']}", f"by {av[0]}", "link")
        a = list(av[1:])
        o = a.index("-o") if "-o" in a else -1
        ok = o >= 0 and o + 1 < len(a) and s.here(a[o + 1]) == prod
        self.check("M2", ok, f"{q} is linked into {prod}", f"{a[:6]}", "link")
        if not ok:
            return []
        del a[o:o + 2]
        shared = "-shared" in a or "-bundle" in a
        if s.flavor != "zos":
            self.check("M2", shared == (k != "executable"), f"{q} is linked as a {k}", f"-shared is {'there' if shared else 'missing'}", "link")
        son = [x for x in a if x.startswith("-Wl,-soname=")]
        self.check("M2", son in ([], ["-Wl,-soname=" + self.name(t)]), f"{q} is named {self.name(t)} inside", f"{son}", "link")
        whole = [i for i, x in enumerate(a) if x.endswith("whole-archive")]
        group = [i for i, x in enumerate(a) if x in ("-Wl,--start-group", "-Wl,--end-group")]
        inp = [i for i, x in enumerate(a) if not x.startswith("-")]
        for name, w in (("--whole-archive", whole), ("--start-group", group)):
            self.check("M2", not w or len(w) == 2 and "no-" not in a[w[0]] and "end-" not in a[w[0]] and all(w[0] < i for i in inp if s.here(a[i]) not in olib), f"{name} encloses the inputs of {q}", f"{a}", "link")
        self.check("M2", len(whole) != 2 or not [x for x in a[whole[0]:whole[1]] if x in t.get("libraries", ())], f"only the inputs of {q} are taken as a whole", f"{a}", "link")
        if s.flavor in ("linux", "freebsd", "openbsd", "netbsd", "solaris", "android") and k == "shared_library":
            self.check("M2", len(whole) == 2, f"all of the archives of {q} goes into it", f"{a}", "link")
        a = [x for i, x in enumerate(a) if i not in whole and i not in group and x not in ("-shared", "-bundle") and x not in son]
        fl = list(cf.get("ldflags", ()))
        dirs = ["-L" + s.there(d, x, t, self.conf) for x in cf.get("library_dirs", ())]
        if any(p.endswith(".so") or ".so." in p for p, x in [(self.installed(x), x) for _, x in deps]):
            fl = fl + ["-Wl,-rpath=$ORIGIN/", "-Wl,-rpath-link=" + s.here(self.conf if s.mode == "node" else "out/" + self.conf)]
        fl += dirs + self.extra.get((t["toolset"], "LD"), [])
        gotf = [next((p + s.here(x[len(p):]) for p in ("-Wl,-rpath-link=", "-L") if x.startswith(p)), x) for x in a[:len(fl)]]
        self.check("M2", gotf == fl, f"{q} is linked with the flags {fl}", f"{a}", "link flags")
        rest = a[len(fl):]
        libs = list(dict.fromkeys(t.get("libraries", ())))
        n = len(rest) - len(libs)
        self.check("M2", rest[n:] == libs, f"the libraries {libs} of {q} follow its inputs", f"{rest}", "libraries")
        ins = [s.here(x) for x in rest[:n]]
        dl = list(dict.fromkeys(p for p, _ in deps))
        self.check("M2", ins[len(ins) - len(dl):] == dl if dl else True, f"{q} links {dl}, its link dependencies, after its objects", f"links {ins}", "inputs")
        ins = ins[:len(ins) - len(dl)] if dl else ins
        made = [x for x in ins if x not in olib]
        self.check("M2", [x for x in ins if x in olib] == olib, f"{q} links {olib}", f"links {ins}", "inputs")
        self.check("M2", len(made) == len(want), f"{q} links one object for each of {want}", f"links {made}", "inputs")
        return made

    def listed(self, f):
        """Words printed into the file `f` (an archiver's response file)."""
        out = []
        for b in self.m.built.values():
            for ln in b["lines"]:
                for _, w in commands(ln) or []:
                    for i, x in enumerate(w):
                        if isinstance(x, tuple) and x[1] in (">", ">>") and i + 1 < len(w) and w[i + 1] == f:
                            words = argv(w)
                            if x[1] == ">":
                                out = []
                            if words and words[0] == "printf" and len(words) > 1 and words[1] in ("%s\\n", "%s\n"):
                                out += words[2:]
        return out

    def installed(self, t):
        return f"{self.s.out}/{self.conf}/{self.name(t)}"

    def placed(self, d, t, prod):
        """Installable products are in the build directory."""
        s = self.s
        if t["type"] == "static_library" and not t.get("standalone_static_library"):
            return
        at = self.installed(t)
        if at == prod:
            return
        cp = [a for x, a in self.cmds if s.here(x) == at and a[0] in ("ln", "cp")]
        ok = bool(cp) and all(s.here(a[-1]) == at and s.here(a[-2]) == prod for a in cp) and any(a[0] == "cp" for a in cp) and all("-s" not in a and "-sf" not in a for a in cp)
        self.check("M3", ok, f"{t['target_name']} is put at {at}", f"commands {cp}", "product")


def s_missing(m):
    return [x for x in m.missing if not x.endswith(".d")]


def judge(c, ob, g, label, targets, confs=("Default",), given=None, env=None, tools=None, extra=None, goal="all", mode="node", **kw):
    s = Scene(g, label, targets, mode=mode, env=env, **kw)
    lab = f"{label} ({s.flavor}, {mode})"
    ob("M1", s.res[0] == "ok", f"{lab}: generated", str(s.res[1])[:300], "generated")
    if s.res[0] != "ok":
        return
    for cf in confs:
        try:
            m = s.make(goal, given if given is not None else {"BUILDTYPE": cf}, env)
        except MakeError as x:
            ob("M1", False, f"{lab}: make {goal}", str(x)[:300], "generated")
            continue
        Judge(ob, s, m, cf, tools, extra).run()


F1 = {"defines": ["A=1", "B"], "include_dirs": ["inc", "/abs/i", "../up", "$(obj)/gen", "."], "cflags": ["-O2", "-g"], "cflags_c": ["-std=c99"], "cflags_cc": ["-std=c++17", "-fno-rtti"], "ldflags": ["-Wl,-z", "-pthread"], "library_dirs": ["/l1", "$(builddir)/l2"]}


def check(c):
    c.rule("M1", "one compile command per source, with the right compiler, definitions, include directories and flags")
    c.rule("M2", "one link or archive command per product, with exactly its inputs, flags and libraries")
    c.rule("M3", "products are named and placed as their settings say")
    g = Gen(c, "gyp.generator.make")
    c.need("M1", [1] * g.ok, "gyp.generator.make.GenerateOutput")
    if not g.ok:
        return
    t = Tally(c, g.f.loc)
    scenes(c, g, t)
    t.done()


F2 = {"defines": ['S="a b"', "Q='q'", "D=$x", "H=#1", "P=50%", "W=a;b&c|d", "X=`x`", "T=tab\\n", "M=$(CC)", "E", "G=*?[a]~", "Z=x\\#y", "N=1"], "include_dirs": [], "cflags": ["-Wno-x", '-fy="z"'], "cflags_cc": ["-fCC"]}
ODD = [("plain", {}), ("libdash", {}), ("named", {"product_name": "other"}), ("pre", {"product_prefix": "p-"}), ("ext", {"product_extension": "node"}), ("libbil", {"product_extension": "a.b"}), ("both", {"product_name": "libz"}), ("empty", {"product_prefix": "", "product_extension": ""}),
       ("liball", {"product_name": "lib", "product_prefix": "x", "product_extension": "e.f"}), ("dir", {"product_dir": "$(builddir)/out/deep"})]


def scenes(c, g, ob):
    J = lambda *a, **k: judge(c, ob, g, *a, **k)
    every = ["0.o", "a.c", "b.cc", "sub/c.cpp", "../d.cxx", "e.s", "f.S", "g.h", "h.hpp", "README", "i.o", "sub/j.h", "k.c.in", "lcc", "m.c++", "n.proto"]
    for mode in ("node", "plain"):
        J("an addon", [("a.gyp", T("addon", "loadable_module", F1, sources=every, product_extension="node", product_prefix="", libraries=["-lz", "-lm", "/x/libq.a", "-lz"]))], mode=mode)
        J("special characters", [("a.gyp", T("x", "executable", F2, sources=["a.c", "b.cc"]))], mode=mode)
        J("a library in another directory", [
            ("deps/l/l.gyp", T("l", "static_library", {"defines": ["L"], "include_dirs": ["inc", "../.."]}, sources=["l.c", "src/m.cc", "n.o"], libraries=["-lunused"])),
            ("a.gyp", T("x", "executable", {"defines": ["X"], "ldflags": ["-s"]}, sources=["x.c", "../y.cc"], dependencies=["deps/l/l.gyp:l#target"], libraries=["-ldl"]))], mode=mode)
    for k in ("executable", "loadable_module", "shared_library", "static_library"):
        J(f"names of {k}s", [("a.gyp", T(n, k, {}, sources=["a.c"], **kw)) for n, kw in ODD if not (k == "static_library" and n == "dir")])
        J(f"names of {k}s in a directory", [("sub/a.gyp", T(n, k, {"defines": [n]}, sources=["a.c", "b/a.c"], **kw)) for n, kw in ODD[:8]], mode="plain")
    J("standalone libraries", [("s/a.gyp", T("s", "static_library", {}, sources=["a.c", "b.cc"], standalone_static_library=1)), ("s/a.gyp", T("libt", "static_library", {}, sources=["a.c"], standalone_static_library=1, product_extension="lib"))])
    J("shared and static dependencies", [
        ("p/a.gyp", T("st", "static_library", {}, sources=["a.c"])),
        ("p/a.gyp", T("st2", "static_library", {}, sources=["c.c"], dependencies=["p/a.gyp:st#target"])),
        ("q/b.gyp", T("sh", "shared_library", F1, sources=["b.c"], dependencies=["p/a.gyp:st#target"])),
        ("a.gyp", T("nn", "none", {}, dependencies=["p/a.gyp:st#target"])),
        ("a.gyp", T("mod", "loadable_module", {}, sources=["m.c"])),
        ("a.gyp", T("x", "executable", {"ldflags": ["-a"]}, sources=["x.c"], dependencies=["a.gyp:nn#target", "q/b.gyp:sh#target", "a.gyp:mod#target", "p/a.gyp:st2#target", "p/a.gyp:st#target"], libraries=["-lm"])),
        ("a.gyp", T("m2", "loadable_module", {}, sources=["n.c"], dependencies=["q/b.gyp:sh#target", "p/a.gyp:st#target"]))])
    two = {"Debug": {"defines": ["DEBUG", "A=d"], "include_dirs": ["d"], "cflags": ["-g"], "cflags_c": ["-dc"], "cflags_cc": ["-dcc"], "ldflags": ["-ld"], "library_dirs": ["/ld"]},
           "Release": {"defines": ["A=r"], "include_dirs": ["r", "s"], "cflags": ["-O3"], "cflags_c": ["-rc"], "cflags_cc": ["-rcc"], "ldflags": ["-lr"], "library_dirs": ["/lr"]}}
    sparse = {"Alpha": {"defines": ["A"], "cflags": ["-a"], "cflags_c": ["-ac"], "cflags_cc": ["-acc"], "ldflags": ["-al"], "library_dirs": ["/al"], "include_dirs": ["ai"]}, "Beta": {}, "Gamma": {"ldflags": [], "defines": ["G"]}}
    J("settings of one configuration", [("a.gyp", T("x", "executable", confs=sparse, sources=["a.c", "b.cc"]))], tuple(sparse))
    J("one generated source in two targets", [("a.gyp", T("g", "none", actions=[dict(action_name="g", inputs=[], outputs=["$(obj)/gen/g.c"], action=["g"])]))] +
      [("a.gyp", T(n, "executable", {"defines": [n]}, sources=["$(obj)/gen/g.c"], dependencies=["a.gyp:g#target"])) for n in ("x", "y")])
    for given in (None, {}):
        J("two configurations", [("a.gyp", T("x", "shared_library", confs=two, sources=["a.c", "b.cc"], libraries=["-lq"])), ("a.gyp", T("y", "static_library", confs=two, sources=["a.c", "b.cc"]))],
          ("Debug", "Release") if given is None else ("Debug",), given=given)
    J("toolsets", [("a.gyp", T("l", "static_library", {"defines": ["LH"]}, toolset="host", sources=["l.c"])),
                   ("a.gyp", T("l", "static_library", {"defines": ["LT"]}, sources=["l.c"])),
                   ("a.gyp", T("h", "executable", {"defines": ["H"]}, toolset="host", sources=["a.c", "b.cc"], dependencies=["a.gyp:l#host"])),
                   ("a.gyp", T("t", "executable", {"defines": ["T"]}, sources=["a.c", "b.cc"], dependencies=["a.gyp:l#target"]))], mode="plain")
    gen = [dict(action_name="g", inputs=["i"], outputs=["$(obj)/gen/g.cc", "$(obj).$(TOOLSET)/$(TARGET)/geni/h.c", "$(obj)/gen/g.h"], action=["x"], process_outputs_as_sources=1),
           dict(action_name="n", inputs=["i"], outputs=["$(obj)/gen/n.c"], action=["x"]), dict(action_name="s", inputs=["i"], outputs=["sub/s.c"], action=["x"], process_outputs_as_sources="1"),
           dict(action_name="z", inputs=["i"], outputs=["z.c"], action=["x"], process_outputs_as_sources="0")]
    for mode in ("node", "plain"):
        J("generated sources", [("d/a.gyp", T("x", "executable", F1, sources=["a.c"], actions=gen)), ("a.gyp", T("y", "loadable_module", F2, sources=[], actions=gen[2:]))], mode=mode)
    for fl in ("freebsd", "openbsd", "netbsd", "solaris", "aix", "os400", "android", "wasi", "cygwin"):
        J("every kind", [("d/a.gyp", T("st", "static_library", F1, sources=["a.c", "b.cc"])), ("a.gyp", T("sh", "shared_library", F1, sources=["a.c", "b.cc"], dependencies=["d/a.gyp:st#target"], libraries=["-lm"])),
                         ("a.gyp", T("mo", "loadable_module", F1, sources=["a.c", "b.cc"], product_extension="node", dependencies=["d/a.gyp:st#target"], libraries=["-lm"])),
                         ("a.gyp", T("x", "executable", F1, sources=["a.c", "b.cc"], dependencies=["d/a.gyp:st#target"], libraries=["-lm"])),
                         ("a.gyp", T("hx", "executable", F1, toolset="host", sources=["a.c", "b.cc"])), ("a.gyp", T("sa", "static_library", F1, sources=["a.c"], standalone_static_library=1))], flavor=fl)
    ct = {"CFLAGS": "-ec", "CXXFLAGS": "-ecc", "CPPFLAGS": "-ep", "LDFLAGS": "-el", "CFLAGS_host": "-hc", "CXXFLAGS_host": "-hcc", "CPPFLAGS_host": "-hp", "LDFLAGS_host": "-hl"}
    ex = {("target", "CC"): ["-ep", "-ec"], ("target", "CXX"): ["-ep", "-ecc"], ("target", "LD"): ["-el"], ("host", "CC"): ["-hp", "-hc"], ("host", "CXX"): ["-hp", "-hcc"], ("host", "LD"): ["-hl"]}
    both = [("a.gyp", T("h", "executable", {"cflags": ["-1"], "ldflags": ["-2"]}, toolset="host", sources=["a.c", "b.cc"])), ("a.gyp", T("t", "loadable_module", {"cflags": ["-1"], "cflags_c": ["-3"], "ldflags": ["-2"]}, sources=["a.c", "b.cc"]))]
    J("flags of the environment", both, env=ct, extra=ex)
    tl = lambda cc, cxx, ar, hcc, hcxx, har: {"target": {"CC": cc, "CXX": cxx, "AR": ar}, "host": {"CC": hcc, "CXX": hcxx, "AR": har}}
    J("tools of the environment", both, env={"CC": "ecc", "CXX": "ecxx", "AR": "ear"}, tools=tl("ecc", "ecxx", "ear", "ecc", "ecxx", "ear"))
    J("tools of the environment by toolset", both, env={"CC_target": "t1", "CXX_target": "t2", "CC_host": "h1", "CXX_host": "h2", "CC": "c1", "CXX": "c2"}, tools=tl("t1", "t2", "ar", "h1", "h2", "ar"))
