"""P30: what a make goal builds, when steps are repeated, and when the makefile is regenerated."""
import posixpath

from ..mk import ACTIVE, Make, MakeError, argv, commands
from .gencommon import Gen, Scene, T, TOP
from .p24_dependencies import Tally
from .p29_make_actions import A, GEN, INT

ID = "P30"
EXPLANATION = (
    "The text the make generator writes for template target sets is obtained by constant propagation of GenerateOutput and everything it calls, and interpreted by a model of GNU make (sa/mk.py; nothing is "
    "executed). M8: the default goal reaches exactly the targets of the given build files and their dependencies. M9: the name of a target and of an installed product are goals that build it. "
    "M10: the wrapper makefile of a build file asks the main makefile for that file's targets. M11: the makefile depends on every build file and include, and is remade by the same gyp command. "
    "M12: the record each step leaves is read back by the next build and equals the command, so that a step is repeated only when needed.")


def product(s, d, t, conf):
    """Where a target's product is for its users."""
    o = posixpath.normpath(f"{s.out}/{conf}/obj.{t['toolset']}/{d}")
    n = t["target_name"]
    m = n[3:] if n.startswith("lib") else n
    return {"none": f"{o}/{n}.stamp", "executable": f"{s.out}/{conf}/{n}", "static_library": f"{o}/lib{m}.a"}.get(t["type"], f"{s.out}/{conf}/lib{m}.so")


def closure(s, files):
    by = {f"{b}:{t['target_name']}#{t['toolset']}": t for b, _, t in s}
    todo = [q for q in by if q.rsplit(":", 1)[0] in files]
    out = set(todo)
    while todo:
        for y in by[todo.pop()].get("dependencies", ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def judge(c, ob, g, label, targets, files, confs=("Default",), mode="node", data=None, flags=None, **kw):
    inc = data or {f: {"included_files": [posixpath.basename(f)]} for f in {b for b, _ in targets}}
    s = Scene(g, label, targets, mode=mode, build_files=files, data=inc, flags=flags, **kw)
    lab = f"{label} ({s.flavor}, {mode})"
    ok = lambda rule, x, what, why, key: ob(rule, x, f"{lab}: {what}", str(why)[:500], key)
    ok("M8", s.res[0] == "ok", "generated", s.res[1] if s.res[0] != "ok" else "", "generated")
    if s.res[0] != "ok":
        return
    want = closure(s, files)
    try:
        for cf in confs:
            m = s.make(None, {"BUILDTYPE": cf})
            if flags is None or "default_target" not in flags:
                ok("M8", m.goal == "all", "the default goal is all", m.goal, "default goal")
            else:
                ok("M8", m.goal == flags["default_target"], "the default goal is the requested one", m.goal, "default goal")
            m.build("all")
            made = {s.here(x) for x in m.built}
            miss = [x for x in m.missing if not x.endswith(".d")]
            ok("M8", not miss, "every included makefile exists", miss, "all")
            for b, d, t in s:
                q = f"{b}:{t['target_name']}#{t['toolset']}"
                p = product(s, d, t, cf)
                ok("M8", (p in made) == (q in want), f"all {'builds' if q in want else 'does not build'} {q}", f"builds {sorted(x for x in made if x.startswith(s.out + '/'))}", "all")
            named(s, ok, cf)
            records(s, m, ok, {"BUILDTYPE": cf})
        regeneration(s, m, ok, files, inc, flags)
        wrappers(s, ok, files, want)
    except MakeError as x:
        ok("M8", False, "make understands the makefiles", x, "generated")


def named(s, ok, cf):
    for b, d, t in s:
        p = product(s, d, t, cf)
        names = [t["target_name"]]
        if t["type"] in ("executable", "shared_library", "loadable_module"):
            names.append(posixpath.basename(p))
        for n in names:
            m = s.make(None, {"BUILDTYPE": cf})
            if n not in m.rules:
                ok("M9", False, f"{n} is a goal", "make knows no such target", "named goals")
                continue
            m.build(n)
            made = {s.here(x) for x in m.built}
            ok("M9", p in made, f"make {n} builds {p}", f"builds {sorted(made)}", "named goals")
            b_ = m.built[m.name(n)]
            phony = n in m.phony or s.here(n) == p
            ok("M9", phony, f"a file called {n} does not hide the goal", "it is not phony", "named goals")
            ok("M9", not [x for x in b_["lines"] if x != ":"] or s.here(n) == p, f"the goal {n} has no commands of its own", b_["lines"], "named goals")


def records(s, m, ok, given):
    dd = m.expand("$(depsdir)")
    kept, have = {}, []
    for t, b in m.built.items():
        if "FORCE_DO_CMD" not in b["prereqs"] or t.endswith(".intermediate"):
            continue
        for ln in b["lines"]:
            for _, w in commands(ln) or []:
                for i, y in enumerate(w):
                    if isinstance(y, tuple) and y[1] == ">" and i + 1 < len(w) and s.here(w[i + 1]).startswith(s.here(dd) + "/"):
                        a = argv(w)
                        if len(a) == 3 and a[0] == "printf" and a[1] == "%s\\n":
                            kept[s.here(w[i + 1].replace(ACTIVE, ""))] = a[2] + "\n"
        have.append((t, b))
    n = Make({**s.res[1], **kept}, s.cwd + "/Makefile", s.cwd, s.inputs() | set(kept), given)
    for t, b in have:
        v = n.expand(f"$(cmd_{t.replace(' ', '?')})").strip()
        ok("M12", v != "" and v in b["lines"], f"the next build knows the command that made {t}", f"reads back {v!r}, ran {b['lines']}", "records")


def regeneration(s, m, ok, files, inc, flags):
    name = "Makefile"
    r = m.rules.get(name)
    if flags and flags.get("auto_regeneration") is False:
        return ok("M11", r is None or not r.recipe, "the makefile is not regenerated when that is turned off", r and r.recipe, "regeneration")
    ok("M11", r is not None and bool(r.recipe), "the makefile is regenerated", "no rule", "regeneration")
    if r is None:
        return
    pre = {s.here(x) for x in r.prereqs}
    need = set()
    for b in {b for b, _, _ in s}:
        need.add(posixpath.normpath(posixpath.join(TOP, b)))
        for f in inc[b]["included_files"]:
            need.add(posixpath.normpath(posixpath.join(TOP, posixpath.dirname(b), f)))
    ok("M11", pre == need, f"the makefile depends on {sorted(need)}", f"depends on {sorted(pre)}", "regeneration")
    k = Make(s.res[1], s.cwd + "/Makefile", s.cwd, s.inputs() | need)
    k.build(name)
    place, found = s.cwd, []
    for ln in k.built[name]["lines"]:
        place = s.cwd
        for _, w in commands(ln) or []:
            a = argv(w)
            if a[:1] == ["cd"]:
                place = posixpath.normpath(posixpath.join(place, a[1]))
            elif "-fmake" in a and a[0] != "printf":
                found.append((place, a))
    want = [posixpath.normpath(posixpath.join(TOP, f)) for f in files]
    good = [x for x in found if x[0] == TOP and posixpath.normpath(posixpath.join(TOP, x[1][0])) == TOP + "/gyp/gyp_main.py" and x[1][1:len(x[1]) - len(files)] == ["-fmake", "--flag", "-Dx=y z"]
            and [posixpath.normpath(posixpath.join(TOP, y)) for y in x[1][len(x[1]) - len(files):]] == want]
    ok("M11", len(found) == 1 and len(good) == 1, f"regeneration runs gyp on {files} with the flags it was given", found or k.built[name]["lines"], "regeneration")


def wrappers(s, ok, files, want):
    for b in dict.fromkeys(b for b, _, _ in s):
        d, n = posixpath.split(b)
        ts = [t["target_name"] for x, _, t in s if x == b and f"{x}:{t['target_name']}#{t['toolset']}" in want]
        f = posixpath.normpath(posixpath.join(s.cwd, d, posixpath.splitext(n)[0] + ".Makefile"))
        if not ts:
            continue
        ok("M10", f in s.res[1], f"{f} is written", sorted(s.res[1]), "wrapper makefiles")
        if f not in s.res[1]:
            continue
        w = Make(s.res[1], f, posixpath.dirname(f), [])
        ok("M10", w.goal == "all" and "all" in w.phony, f"the default goal of {f} is all", w.goal, "wrapper makefiles")
        w.build("all")
        cs = [argv(x) for ln in w.built["all"]["lines"] for _, x in commands(ln) or []]
        good = len(cs) == 1 and cs[0][0] == "make"
        if good:
            a = cs[0][1:]
            place = posixpath.dirname(f)
            if a[:1] == ["-C"]:
                place, a = posixpath.normpath(posixpath.join(place, a[1])), a[2:]
            good = place == s.cwd and sorted(a) == sorted(ts)
        ok("M10", good, f"{f} asks the makefile of {s.cwd} for {ts}", cs, "wrapper makefiles")


def check(c):
    c.rule("M8", "the default goal builds exactly the targets of the given build files and their dependencies")
    c.rule("M9", "target and product names are goals that build them")
    c.rule("M10", "wrapper makefiles ask for the targets of their build file")
    c.rule("M11", "the makefile depends on all build files and is remade by the same command")
    c.rule("M12", "records of commands are read back and equal the commands")
    g = Gen(c, "gyp.generator.make")
    c.need("M8", [1] * g.ok, "gyp.generator.make.GenerateOutput")
    if not g.ok:
        return
    t = Tally(c, g.f.loc)
    scenes(c, g, t)
    t.done()


def scenes(c, g, ob):
    J = lambda *a, **k: judge(c, ob, g, *a, **k)
    K = ("executable", "static_library", "shared_library", "loadable_module", "none")
    for mode in ("node", "plain"):
        many = []
        for f in ("a.gyp", "deps/b.gyp", "other/c.gyp"):
            for i, k in enumerate(K):
                many.append((f, T(f"{f[-5]}{i}", k, {"defines": ['S="$x y"', "Q='q'", "H=#"]}, sources=["s.c"], actions=[A("z", ["zi"], [INT + f"/{f[-5]}{i}"], ["z", "a b", "$$X"])] if k == "none" else [])))
        dep = dict(many[1][1], dependencies=["deps/b.gyp:b0#target", "deps/b.gyp:b4#target"])
        far = dict(many[5][1], dependencies=["other/c.gyp:c2#target"])
        many[1], many[5] = ("a.gyp", dep), ("deps/b.gyp", far)
        order = many[10:] + many[5:10] + many[:5]
        data = {"a.gyp": {"included_files": ["a.gyp", "build/config.gypi", "../up.gypi"]}, "deps/b.gyp": {"included_files": ["b.gyp", "../common.gypi", "sub/x.gypi"]}, "other/c.gyp": {"included_files": ["c.gyp"]}}
        J("three build files", order, ["a.gyp"], mode=mode, data=data)
        J("two of three build files", order, ["a.gyp", "other/c.gyp"], mode=mode, data=data)
        J("nested build file", [("p/q/a.gyp", T("x", "executable", sources=["s.c"])), ("p/q/a.gyp", T("y", "none", copies=[dict(destination="$(builddir)/it is", files=["a b.txt"])]))], ["p/q/a.gyp"], mode=mode)
    two = {"Debug": {}, "Release": {}}
    J("two configurations", [("a.gyp", T("x", "executable", confs=two, sources=["s.c"])), ("a.gyp", T("y", "shared_library", confs=two, sources=["s.c"]))], ["a.gyp"], confs=("Debug", "Release"))
    small = [("a.gyp", T("x", "executable", sources=["s.c"])), ("a.gyp", T("y", "none"))]
    J("another default goal", small, ["a.gyp"], flags={"default_target": "y"})
    J("no regeneration", small, ["a.gyp"], flags={"auto_regeneration": False})
