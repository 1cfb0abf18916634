"""P29: on make platforms actions, rules and copies run as written, in the right place and order."""
import posixpath

from ..mk import ACTIVE, MakeError, argv, commands
from .gencommon import Gen, Scene, T, rule_outputs
from .p24_dependencies import Tally

ID = "P29"
EXPLANATION = (
    "The text the make generator writes for template target sets is obtained by constant propagation of GenerateOutput and everything it calls, and interpreted by a model of GNU make "
    "and of the shell's word splitting (sa/mk.py; nothing is executed). M4: every action and every rule (once per source) runs exactly the argument list it declares, in its build file's "
    "directory, after the directories of its outputs are made, whichever output is asked for first. M5: it is run again when any of its inputs changes. M6: compilation, linking and the target's stamp "
    "follow the target's own actions, rules and copies, and everything of a target follows the products of its dependencies. M7: copies put every listed file, by name, into the destination.")


class Judge:
    def __init__(self, ob, s, m, conf, top=()):
        self.ob, self.s, self.m, self.conf = ob, s, m, conf
        self.lab = f"{s.label} ({s.flavor}, {s.mode}, {conf})"
        self.at = {}
        for t in m.built:
            self.at.setdefault(s.here(t), t)
        self.top = top

    def check(self, rule, ok, what, why, key):
        self.ob(rule, ok, f"{self.lab}: {what}", why, key)

    def words(self, t, ws, d):
        """The argument list as the settings declare it, make variables replaced."""
        b = f"{self.s.out}/{self.conf}"
        out = []
        for w in ws:
            for k, v in (("$(obj)", b + "/obj"), ("$(builddir)", b), ("$(abs_builddir)", b), ("$(TOOLSET)", t["toolset"]), ("$(TARGET)", t["target_name"]), ("$(BUILDTYPE)", self.conf), ("$$", ACTIVE + "$")):
                w = w.replace(k, v)
            out.append(w)
        return out

    def runner(self, name):
        """The built entry whose commands produce the target `name`."""
        b = self.m.built[name]
        if [x for x in b["lines"] if x != ":"]:
            return name
        cand = [x for x in b["prereqs"] if x.endswith(".intermediate")]
        return cand[0] if len(cand) == 1 else None

    def step(self, t, d, what, outs, ins, argv_, multi):
        """One execution of a declared command."""
        s = self.s
        names = [self.at.get(s.there(d, o, t, self.conf)) for o in outs]
        missing = [o for o, n in zip(outs, names) if n is None]
        self.check("M4", not missing, f"{what} produces {list(outs)}", f"make knows no {missing}", "outputs")
        if missing:
            return None
        runs = {self.runner(n) for n in names}
        self.check("M4", len(runs) == 1 and None not in runs, f"{what} runs once for all its outputs", f"run by {sorted(map(str, runs))}", "outputs")
        if len(runs) != 1 or None in runs:
            return None
        r = runs.pop()
        b = self.m.built[r]
        want = self.words(t, argv_, d)
        place, made, found, used = s.cwd, [], [], None
        for ln in b["lines"]:
            cs = commands(ln)
            self.check("M4", cs is not None, f"the command of {what} is readable", ln, "command")
            place = s.cwd
            for _, w in cs or []:
                a = argv(w)
                if not a:
                    continue
                if a[0] == "cd" and len(a) == 2:
                    place = posixpath.normpath(posixpath.join(place, a[1]))
                elif a[0] == "mkdir":
                    made += [posixpath.normpath(posixpath.join(place, x)) for x in a[1:] if not x.startswith("-")]
                elif a == want:
                    found.append((place, list(made)))
        lines = [x for x in b["lines"] if "export" in x]
        self.check("M4", len(found) == 1, f"{what} runs {want} once", f"{len(found)} times in {lines or b['lines']}", "command")
        if len(found) == 1:
            place, made = found[0]
            home = posixpath.normpath(posixpath.join(s.cwd, posixpath.relpath("/w", s.cwd), d))
            self.check("M4", place == home, f"{what} runs in {home}", f"in {place}", "directory")
            for o in outs:
                p = posixpath.dirname(s.there(d, o, t, self.conf))
                self.check("M4", p in made or not posixpath.dirname(o), f"the directory of {o} is made before {what}", f"made {made}", "output directories")
        pre = {s.here(x) for x in b["prereqs"]}
        for i in ins:
            p = s.there(d, i, t, self.conf)
            self.check("M5", p in pre, f"{what} depends on {i}", f"depends on {sorted(pre)}", "inputs")
        self.check("M5", "FORCE_DO_CMD" in b["prereqs"] or not multi, f"{what} is examined in every build", f"{b['prereqs']}", "inputs")
        return r

    def run(self):
        s = self.s
        done, prods = {}, {}
        for b, d, t in s:
            q = f"{b}:{t['target_name']}#{t['toolset']}"
            mine = []
            for a in t.get("actions", ()):
                r = self.step(t, d, f"action {a['action_name']} of {q}", a["outputs"], a["inputs"], a["action"], True)
                mine += [(f"action {a['action_name']}", r, a["outputs"])] if r else []
            for ru in t.get("rules", ()):
                for src in ru.get("rule_sources", ()):
                    sub = lambda x: rule_outputs({"outputs": [x]}, src)[0]
                    cmd = []
                    for x in ru["action"]:
                        x = sub(x)
                        for var in ("$(abspath $<)", "$<"):
                            x = x.replace(var, s.there(d, src, t, self.conf) if "abspath" in var else s.there(d, src, t, self.conf))
                        cmd.append(x)
                    outs = rule_outputs(ru, src)
                    r = self.step(t, d, f"rule {ru['rule_name']} for {src} of {q}", outs, [src] + list(ru.get("inputs", ())), cmd, False)
                    mine += [(f"rule {ru['rule_name']}", r, outs)] if r else []
            for cp in t.get("copies", ()):
                for f in cp["files"]:
                    r = self.copied(t, d, q, cp["destination"], f)
                    mine += [(f"copy of {f}", r, [cp["destination"].rstrip("/") + "/" + posixpath.basename(f.rstrip("/"))])] if r else []
            done[q] = mine
            prods[q] = self.products(b, d, t)
        for b, d, t in s:
            q = f"{b}:{t['target_name']}#{t['toolset']}"
            self.ordered(b, d, t, q, done[q], prods)

    def copied(self, t, d, q, dest, f):
        s = self.s
        src = s.there(d, f, t, self.conf)
        at = posixpath.join(s.there(d, dest, t, self.conf), posixpath.basename(src))
        n = self.at.get(at)
        self.check("M7", n is not None, f"{q} copies {f} to {at}", f"make knows {sorted(x for x in self.at if 'obj.' not in x)}", "copies")
        if n is None:
            return None
        b = self.m.built[n]
        cs = [a for ln in b["lines"] for a in map(argv, (w for _, w in commands(ln) or [])) if a and a[0] in ("ln", "cp")]
        ok = bool(cs) and any(a[0] == "cp" for a in cs) and all(s.here(a[-1]) == at and s.here(a[-2]) == src and not any(x.startswith("-") and "s" in x for x in a[1:-2]) for a in cs)
        self.check("M7", ok, f"{q} copies {src} to {at}", f"with {cs}", "copies")
        self.check("M7", src in {s.here(x) for x in b["prereqs"]}, f"the copy of {f} is remade when {f} changes", f"depends on {b['prereqs']}", "copies")
        return n

    def products(self, b, d, t):
        """Built entries of the target's own product: link output or stamp."""
        s = self.s
        o = posixpath.normpath(f"{s.out}/{self.conf}/obj.{t['toolset']}/{d}")
        n = t["target_name"]
        m = n[3:] if n.startswith("lib") else n
        paths = {"none": [f"{o}/{n}.stamp"], "executable": [f"{s.out}/{self.conf}/{n}"], "static_library": [f"{o}/lib{m}.a"],
                 "shared_library": [f"{o}/lib{m}.so", f"{s.out}/{self.conf}/lib{m}.so"], "loadable_module": [f"{o}/lib{m}.so", f"{s.out}/{self.conf}/lib{m}.so"]}[t["type"]]
        out = [self.at.get(p) for p in paths]
        self.check("M6", None not in out, f"{n} is built", f"no {paths}", "order")
        return [x for x in out if x]

    def ordered(self, b, d, t, q, mine, prods):
        s = self.s
        prod = prods[q]
        if not prod:
            return
        pref = f"{s.out}/{self.conf}/obj.{t['toolset']}/{t['target_name']}/"
        objs = [x for x in self.m.built if s.here(x).startswith(pref) and x.endswith(".o") and x in self.m.needs(prod[0])]
        dep = [(y, x) for y in t.get("dependencies", ()) for x in prods.get(y, ())]
        for what, r, outs in mine:
            need = self.m.needs(r)
            for x in objs + prod[:1]:
                self.check("M6", r in self.m.needs(x), f"{x} of {q} waits for its {what}", f"needs {sorted(self.m.needs(x))}", "own actions first")
            for o in outs:
                n = self.at.get(s.there(d, o, t, self.conf))
                for y, x in dep:
                    if n:
                        self.check("M6", x in need or x in self.m.needs(n), f"{what} of {q} waits for {x}, of {y}", f"needs {sorted(need)}", "dependencies first")
        for x in objs + prod[:1]:
            need = self.m.needs(x)
            for y, p in dep:
                self.check("M6", p in need, f"{x} of {q} waits for {p}, of {y}", f"needs {sorted(need)}", "dependencies first")


def judge(c, ob, g, label, targets, confs=("Default",), goals=("all",), mode="node", env=None, **kw):
    s = Scene(g, label, targets, mode=mode, env=env, **kw)
    lab = f"{label} ({s.flavor}, {mode})"
    ob("M4", s.res[0] == "ok", f"{lab}: generated", str(s.res[1])[:300], "generated")
    if s.res[0] != "ok":
        return
    for cf in confs:
        for goal in goals:
            try:
                m = s.make(None, {"BUILDTYPE": cf}, env)
                for x in goal.split():
                    m.build(m.expand(x) if "$" in x else x)
                if goal != "all":
                    m.build("all")
            except MakeError as x:
                ob("M4", False, f"{lab}: make {goal}", str(x)[:300], "generated")
                continue
            Judge(ob, s, m, cf).run()


def check(c):
    c.rule("M4", "every action and rule runs its declared argument list in its build file's directory, once, for all its outputs")
    c.rule("M5", "actions and rules depend on all their inputs")
    c.rule("M6", "a target's own steps precede its compilation and product, and its dependencies precede all of it")
    c.rule("M7", "copies put every file into the destination")
    g = Gen(c, "gyp.generator.make")
    c.need("M4", [1] * g.ok, "gyp.generator.make.GenerateOutput")
    if not g.ok:
        return
    t = Tally(c, g.f.loc)
    scenes(c, g, t)
    t.done()


def A(name, ins, outs, cmd, **kw):
    return dict(action_name=name, inputs=ins, outputs=outs, action=cmd, **kw)


GEN, INT = "$(obj)/gen", "$(obj).$(TOOLSET)/$(TARGET)/geni"
WORDS = ["python3", "a b", "it's", 'say "x"', "a\\b", "c;d&e|f<g>h", "*?[x]", "#c", "a#b", "x\\#y", "~", "", "%d", "k=v", "(p)", "{q}", "tab\tx", "`w`", "$$HOME", "!n", "a,b", "-Dx='y z'"]


def scenes(c, g, ob):
    J = lambda *a, **k: judge(c, ob, g, *a, **k)
    for mode in ("node", "plain"):
        J("argument lists", [("a.gyp", T("x", "none", actions=[A("w", ["i"], [GEN + "/o"], WORDS), A("v", [], ["o2"], ["./tool.sh", "$(builddir)/x", GEN + "/y", INT + "/z", "$(BUILDTYPE)"])])),
                             ("d/b.gyp", T("y", "none", rules=[dict(rule_name="r", extension="t", inputs=["k"], outputs=[GEN + "/%(INPUT_ROOT)s.1"], action=WORDS + ["%(INPUT_ROOT)s", "%(INPUT_DIRNAME)s/x"], rule_sources=["p/a.t", "b.t"])]))], mode=mode)
        outs = [GEN + "/m.h", GEN + "/m.c", INT + "/m.txt", "deep/er/m.x"]
        goals = ["all"]
        for o in outs[:3]:
            goals.append(o.replace("$(TOOLSET)", "target").replace("$(TARGET)", "x"))
        J("several outputs", [("d/a.gyp", T("x", "executable", sources=["x.c"], actions=[A("m", ["i", "../j", GEN + "/early"], outs, ["tool", "$(obj)", INT, "$(builddir)"], process_outputs_as_sources=1), A("e", [], [GEN + "/early"], ["touch", GEN + "/early"])]))], mode=mode, goals=goals)
        J("only generated sources", [("d/a.gyp", T("x", "executable", sources=[], actions=[A("m", ["i"], outs, ["tool", INT], process_outputs_as_sources=1)])),
                                     ("d/a.gyp", T("y", "executable", sources=[], rules=[dict(rule_name="r", extension="r", inputs=[], outputs=[GEN + "/%(INPUT_ROOT)s.h", GEN + "/%(INPUT_ROOT)s.c"], action=["tool", GEN, INT, "$(builddir)"], process_outputs_as_sources=1, rule_sources=["u.r", "v.r"])]))], mode=mode)
        J("rules", [("d/a.gyp", T("x", "static_library", sources=["x.c"], rules=[
            dict(rule_name="one", extension="y", inputs=["tool.py", "../t2"], outputs=["%(INPUT_DIRNAME)s/%(INPUT_ROOT)s.c", GEN + "/%(INPUT_ROOT)s.h"], action=["python", "tool.py", "$(abspath $<)" if 0 else "%(INPUT_DIRNAME)s/%(INPUT_ROOT)s.y", "%(INPUT_ROOT)s"], process_outputs_as_sources=1, rule_sources=["s/a.y", "t/b.y"]),
            dict(rule_name="two", extension="z", outputs=[INT + "/%(INPUT_ROOT)s.cc"], action=["z", INT + "/%(INPUT_ROOT)s.cc", "$(builddir)"], process_outputs_as_sources=1, rule_sources=["a.z", "b.z"]),
            dict(rule_name="three", extension="q", outputs=["q"], action=["q"], rule_sources=[])])), ("b.gyp", T("last", "none"))], mode=mode)
        J("copies", [("d/a.gyp", T("x", "none", copies=[dict(destination="$(builddir)/res", files=["a.txt", "sub/b.txt", "../c"]), dict(destination="lib/out/", files=[GEN + "/g.bin", "a.txt"]), dict(destination="/abs/to", files=["/abs/from/f", "dir/"])],
                                   actions=[A("g", ["i"], [GEN + "/g.bin"], ["g"])]))], mode=mode)
        chain = [("p/a.gyp", T("gen", "none", actions=[A("g", ["i"], [GEN + "/g.h", GEN + "/g.c"], ["g"])])),
                 ("p/a.gyp", T("tool", "executable", sources=["t.c"], dependencies=["p/a.gyp:gen#target"], copies=[dict(destination="$(builddir)/t", files=["t.dat"])])),
                 ("q/b.gyp", T("lib", "static_library", sources=["l.c", GEN + "/g.c"], dependencies=["p/a.gyp:tool#target", "p/a.gyp:gen#target"], actions=[A("t", ["$(builddir)/tool", "in"], [INT + "/l2.c"], ["$(builddir)/tool", INT + "/l2.c"], process_outputs_as_sources=1), A("t2", ["in"], [INT + "/l3.h"], ["l3"])], rules=[dict(rule_name="r", extension="r", outputs=[INT + "/%(INPUT_ROOT)s.h"], action=["r"], rule_sources=["a.r"])], copies=[dict(destination="$(builddir)/u", files=["u.dat"])])),
                 ("q/b.gyp", T("so", "shared_library", sources=["s.c"], dependencies=["q/b.gyp:lib#target"], rules=[dict(rule_name="r", extension="r", outputs=[INT + "/%(INPUT_ROOT)s.h"], action=["r"], rule_sources=["a.r", "b.r"])])),
                 ("a.gyp", T("mod", "loadable_module", sources=["m.c"], dependencies=["q/b.gyp:so#target", "q/b.gyp:lib#target"])),
                 ("a.gyp", T("group", "none", dependencies=["a.gyp:mod#target", "p/a.gyp:tool#target", "q/b.gyp:lib#target"])),
                 ("a.gyp", T("end", "none", dependencies=["a.gyp:mod#target"], copies=[dict(destination="out", files=["$(builddir)/libmod.so"])], actions=[A("z", [], ["zz"], ["z"])]))]
        J("a chain of targets", chain, mode=mode)
    for mode in ("node", "plain"):
        p = "Default/" if mode == "node" else "out/Default/"
        J("two toolsets", [("d/a.gyp", T("y", "none", toolset="host", actions=[A("m", ["i"], [INT + "/h", INT + "/k"], ["m", INT + "/k", "$(TOOLSET)"])])),
                           ("d/a.gyp", T("x", "executable", toolset="host", sources=["a.c"], actions=[A("m", ["i"], [INT + "/h", INT + "/k.c"], ["m", INT + "/k.c", "$(TOOLSET)"], process_outputs_as_sources=1)])),
                           ("a.gyp", T("z", "none"))], mode=mode, goals=["all", p + "obj.host/y/geni/k", p + "obj.host/x/geni/k.c"])
        J("one name twice", [(f, T("x", "none", toolset=ts, actions=[A("m", [f + "." + ts], [INT + "/" + f[0] + k for k in o], ["m", f, ts])])) for f in ("p/a.gyp", "q/b.gyp") for ts in ("host", "target") for o in (("1", "2"),)], mode=mode)
    two = {"Debug": {"defines": ["D"]}, "Release": {"defines": ["R"]}}
    J("two configurations", [("d/a.gyp", T("x", "executable", confs=two, sources=["a.c"], actions=[A("m", ["i"], [GEN + "/h", GEN + "/k.c"], ["m", "$(BUILDTYPE)", GEN], process_outputs_as_sources=1)]))], ("Debug", "Release"))
    for fl in ("aix", "freebsd", "solaris", "openbsd", "zos", "android", "os400"):
        J("another platform", [("d/a.gyp", T("x", "executable", sources=["a.c"], copies=[dict(destination="$(builddir)/c", files=["f"])], actions=[A("m", ["i"], [GEN + "/k.c"], ["m", GEN, "a b"], process_outputs_as_sources=1)],
                                             rules=[dict(rule_name="r", extension="r", outputs=[INT + "/%(INPUT_ROOT)s.h"], action=["r", "x y"], rule_sources=["a.r"])]))], flavor=fl)
