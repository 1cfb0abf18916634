"""Dependencies between targets: names, order, cycles, published settings, linking."""
import itertools
import posixpath

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter
from ..match import *
from ..pyccp import dc, lst
from .pycommon import *

ID = "P24"
EXPLANATION = (
    "Interprocedural constant propagation of the loading pipeline from the loaded build files to the targets handed to the generator, "
    "on an abstract heap, for every dependency relation over three targets and every combination of target types along a chain; "
    "the resulting order, errors, dependency lists and settings are compared to the rules of the input format.")
NONE = ("c", None)
I = ("gyp/pylib/gyp/input.py", 1)
LINK = ("executable", "shared_library", "loadable_module", "mac_kernel_extension", "windows_driver")
PATHS = ("destination", "files", "include_dirs", "inputs", "libraries", "outputs", "sources")
LATER = ("ProcessVariablesAndConditionsInDict", "SetUpConfigurations", "ValidateTargetType", "ValidateRulesInTarget", "ValidateRunAsInTarget",
         "ValidateActionsInTarget", "TurnIntIntoStrInDict")


class Heap:
    """Abstract heap objects for nested literals."""

    def __init__(self):
        self.init = {}
        self.n = 0

    def __call__(self, v):
        if isinstance(v, tuple):
            return v
        if not isinstance(v, (dict, list, set)):
            return ("c", v)
        self.n += 1
        k = ("in", self.n)
        if isinstance(v, dict):
            self.init[("F", k)] = dc([(a, self(b)) for a, b in v.items()])
        elif isinstance(v, list):
            self.init[("F", k)] = lst(*[self(x) for x in v])
        else:
            self.init[("F", k)] = ("set", tuple(self(x) for x in sorted(v)))
        return ("new", k)


def plain(e, v, s, d=0):
    """A Python value for a decided abstract one; terms stay terms."""
    f = e.fields(v, s)
    if f is None:
        return v[1] if v[0] == "c" else v
    if d > 30:
        return v
    if f[0] == "dict":
        return {plain(e, k, s, d + 1): plain(e, x, s, d + 1) for k, x in f[1]}
    return [plain(e, x, s, d + 1) for x in f[1]]


def relative(a, b):
    return posixpath.relpath(posixpath.join("/w", a), posixpath.join("/w", b))


class Pipeline:
    def __init__(self, c):
        self.c = c
        self.f = func(c, "gyp.input", "Load")
        self.count = 0

    def load(self, files, roots=(), adjust=True, circular=True, sort=False, toolsets=True, filters=False):
        """Outcomes [('return', order, targets, effects) | ('raise', exception name)]."""
        h = Heap()
        contents = {k: h({"targets": v}) for k, v in files.items()}
        gii = {"path_sections": [], "non_configuration_keys": [], "generator_supports_multiple_toolsets": toolsets,
               "generator_filelist_paths": None, "extra_sources_for_rules": [], "generator_wants_static_library_dependencies_adjusted": adjust,
               "generator_wants_sorted_dependencies": sort}
        args = {"build_files": list(files)[:1], "variables": {}, "includes": [], "depth": ".", "generator_input_info": gii, "check": False,
                "circular_check": circular, "parallel": False, "root_targets": list(roots)}
        for p, _, _ in self.f.params:
            h.init[("param", p.id)] = h(args.get(p.id))

        def model(op, t):
            if op == "exec":
                cal, args, s, e, n = t
                if cal[0] not in ("fn", "bound"):
                    return None
                nm = cal[1].name
                if nm == "LoadTargetBuildFile":
                    data = next((a for a in args if a[0] == "new" and e.fields(a, s)[0] == "dict" and
                                 e.get(e.fields(a, s), ("c", "target_build_files"), s)[0] == "new"), None)
                    if data is None:
                        return NONE
                    d = s[("F", data[1])]
                    tb = e.get(d, ("c", "target_build_files"), s)
                    for k, v in contents.items():
                        d = e.put(d, ("c", k), v, s)
                    s[("F", data[1])] = d
                    s[("F", tb[1])] = ("set", tuple(("c", k) for k in contents))
                    return NONE
                if nm in LATER or nm == "ProcessListFiltersInDict" and not filters:
                    return NONE
                if nm == "RelativePath" and all(a[0] == "c" for a in args[:2]):
                    return ("c", relative(args[0][1], args[1][1]))
                if nm == "IsPathSection" and args[0][0] == "c":
                    return ("c", args[0][1].rstrip("=+?!") in PATHS)
                if nm == "MakePathRelative" and all(a[0] == "c" for a in args[:3]):
                    to, fro, item = (a[1] for a in args[:3])
                    if to == fro or str(item)[:1] in "-/$<>^":
                        return args[2]
                    return ("c", posixpath.normpath(posixpath.join(relative(posixpath.dirname(fro), posixpath.dirname(to)), item)))
                if nm == "FindCycles":
                    return ("list", ())
            if op == "call" and t[1][0] == "cls" and t[1][1].name == "OrderedSet":
                return ("set", ()) if not t[2] else None
        e = Inter.of(self.c, self.f, model, maxstates=400000)
        try:
            rs = e.run(h.init)
        except Blowup:
            return [("undecided", "too many abstract states")]
        self.c.states += e.count
        out = []
        for k, _, s in rs:
            if k == "raise":
                from ..pyccp import exc_name
                out.append(("raise", exc_name(s["exc"])))
            else:
                r = plain(e, s.get(("v", "r", "$ret"), NONE), s)
                if not isinstance(r, list) or len(r) != 3:
                    out.append(("undecided", show(r)[:80] if isinstance(r, tuple) else str(r)[:80]))
                else:
                    out.append(("return", r[0], r[1], r[2]))
        return out


def T(name, deps=None, type="static_library", toolset="target", **kw):
    d = dict(target_name=name, toolset=toolset, type=type, **kw)
    if deps is not None:
        d["dependencies"] = list(deps)
    return d


def q(n, f="a.gyp", ts="target"):
    return f"{f}:{n}#{ts}"


def check(c):
    c.rule("G1", "targets are ordered so that each comes after everything it depends on, and none is lost")
    c.rule("G2", "cyclic, missing and ambiguous targets are errors")
    c.rule("G3", "dependency names mean the target they name, relative to their file and toolset")
    c.rule("G4", "settings are published to exactly the targets that depend on their owner in the declared way")
    c.rule("G5", "linkable targets depend on everything they link, static libraries only on hard dependencies")
    c.rule("G6", "restricting the build to some targets keeps everything they need")
    p = Pipeline(c)
    if p.f is None:
        return c.ob("G1", I, False, "the loading pipeline exists")
    ob = Tally(c, p.f.loc)
    order(c, p, ob)
    names(c, p, ob)
    settings(c, p, ob)
    rebased(c, p, ob)
    roots(c, p, ob)
    ob.done()


class Tally:
    """One obligation per scenario and rule, failures reported individually."""

    def __init__(self, c, loc):
        self.c, self.loc, self.n = c, loc, {}

    def __call__(self, rule, ok, what, why, key):
        self.n[(rule, key)] = self.n.get((rule, key), 0) + 1
        if not ok:
            self.c.ob(rule, self.loc, False, what, f"{what}: {why}"[:400], key=key)

    def done(self):
        for (rule, key), n in self.n.items():
            self.c.ob(rule, self.loc, True, f"{key}: {n} scenarios")


def reach(edges, x):
    seen, todo = set(), [x]
    while todo:
        for y in edges.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def outcome(rs):
    return "; ".join(str(r[:2])[:120] for r in rs) or "nothing"


def sorted_ok(lst_, edges, want):
    if sorted(map(str, lst_)) != sorted(want):
        return False
    pos = {x: i for i, x in enumerate(lst_)}
    return all(pos[y] < pos[x] for x in edges for y in edges[x])


def order(c, p, ob):
    for ns in ("ABC",):
        pairs = [(x, y) for x in ns for y in ns if x != y]
        for k in range(2 ** len(pairs)):
            es = [e for i, e in enumerate(pairs) if k >> i & 1]
            ed = {x: [y for a, y in es if a == x] for x in ns}
            ordering(c, p, ob, ed, ns)
    extra = ["A>B B>C C>D", "A>B A>C B>D C>D", "A>B C>B D>B", "A>B A>C A>D", "D>C C>B B>A D>A", "A>B B>C C>D D>B", "A>B C>D D>C", "A>A", "A>B B>B",
             "C>A C>B B>A D>C", "A>B B>A C>D", "A>B A>C A>D A>E",
             "E>A E>B A>C B>C C>D", "A>B B>C C>D D>E E>B"]
    for x in extra:
        ns = "ABCDE" if "E" in x else "ABCD"
        ed = {y: [] for y in ns}
        for w in x.split():
            ed[w[0]].append(w[2])
        ordering(c, p, ob, ed, ns)
        # the same between build files
        ed = {k: [y for y in v if y != k] for k, v in ed.items()}
        files = {f"{n}.gyp": [T(n, [f"{y}.gyp:{y}" for y in ed[n]]), T(n + "2", [n])] for n in ns}
        cyc = any(n in reach(ed, n) for n in ns)
        rs = p.load(files, adjust=False)
        what = f"build files with the dependencies {x}"
        ob("G2" if cyc else "G1", bool(rs) and all(r[0] == ("raise" if cyc else "return") for r in rs), what + (" are an error" if cyc else " are accepted"), outcome(rs), "files")
    # two files that depend on each other through different targets
    files = {"a.gyp": [T("A", ["b.gyp:B"]), T("A2")], "b.gyp": [T("B", ["a.gyp:A2"])]}
    for circ in (True, False):
        rs = p.load(files, circular=circ, adjust=False)
        ob("G2", bool(rs) and all(r[0] == ("raise" if circ else "return") for r in rs),
           "build files that depend on each other without a cycle of targets are " + ("an error" if circ else "accepted when asked to"), outcome(rs), "file cycles")
        for extra in ({"c.gyp": [T("C")]}, {"c.gyp": [T("C", ["b.gyp:B"])]}, {"c.gyp": [T("C", ["d.gyp:D"])], "d.gyp": [T("D")]}):
            rs = p.load({**files, **extra}, circular=circ, adjust=False)
            ob("G2", bool(rs) and all(r[0] == ("raise" if circ else "return") for r in rs),
               f"with {sorted(extra)} beside them, build files that depend on each other are " + ("an error" if circ else "accepted when asked to"),
               outcome(rs), "file cycles")


def ordering(c, p, ob, ed, ns):
    files = {"a.gyp": [T(n, ed[n] if ed[n] or n in "AC" else None) for n in ns]}
    rs = p.load(files, adjust=False)
    cyc = any(n in reach(ed, n) for n in ns)
    what = "targets with the dependencies " + " ".join(f"{a}>{b}" for a in ns for b in ed[a])
    if cyc:
        ob("G2", bool(rs) and all(r[0] == "raise" for r in rs), what + " are an error", outcome(rs), "cycles")
    else:
        qe = {q(a): [q(b) for b in ed[a]] for a in ns}
        ok = bool(rs) and all(r[0] == "return" and sorted_ok(r[1], qe, [q(n) for n in ns]) and sorted(r[2]) == sorted(q(n) for n in ns) for r in rs)
        ob("G1", ok, what + " come after what they depend on", outcome(rs), "order")


def deps_of(r, t, key="dependencies"):
    return r[2].get(t, {}).get(key) or []


def names(c, p, ob):
    def case(files, want, what, key="names", rule="G3", t=q("A"), section="dependencies", **kw):
        kw.setdefault("adjust", False)
        rs = p.load(files, **kw)
        if want is None:
            ok = bool(rs) and all(r[0] == "raise" for r in rs)
        else:
            ok = bool(rs) and all(r[0] == "return" and deps_of(r, t, section) == want for r in rs)
        got = outcome(rs) if want is None or any(r[0] != "return" for r in rs) else str([deps_of(r, t, section) for r in rs])[:200]
        ob(rule, ok, what, got, key)
    case({"a.gyp": [T("A", ["Z"])]}, None, "a dependency on a target that does not exist is an error", "missing", "G2")
    case({"a.gyp": [T("A", ["b.gyp:Z"])], "b.gyp": [T("B")]}, None, "a dependency on a target that another file does not have is an error", "missing", "G2")
    case({"a.gyp": [T("A"), T("B"), T("A", type="executable")]}, None, "two targets with one name in a file are an error", "duplicate", "G2")
    case({"a.gyp": [T("A", ["b.gyp:A"])], "b.gyp": [T("A")]}, None, "two targets with one name in a directory are an error", "colliding", "G2")
    case({"d/a.gyp": [T("A", ["b.gyp:A"])], "d/b.gyp": [T("A")]}, None, "two targets with one name in a directory are an error", "colliding", "G2")
    case({"a.gyp": [T("A", ["d/b.gyp:A"])], "d/b.gyp": [T("A")]}, [q("A", "d/b.gyp")], "targets with one name in different directories are accepted", "colliding")
    case({"a.gyp": [T("A", ["A#host"]), T("A", toolset="host")]}, [q("A", ts="host")], "targets with one name for different toolsets are accepted", "colliding")
    case({"a.gyp": [T("A", ["B", "b.gyp:C"]), T("B")], "b.gyp": [T("C")]}, [q("B"), q("C", "b.gyp")], "dependencies keep their order and are qualified")
    case({"d/a.gyp": [T("A", ["B", "e/b.gyp:C", "../c.gyp:D"]), T("B")], "d/e/b.gyp": [T("C")], "c.gyp": [T("D")]},
         [q("B", "d/a.gyp"), q("C", "d/e/b.gyp"), q("D", "c.gyp")], "dependencies are relative to the file they appear in", t=q("A", "d/a.gyp"))
    case({"a.gyp": [T("A", ["B", "C#target"], toolset="host"), T("B", toolset="host"), T("B"), T("C"), T("C", toolset="host")]},
         [q("B", ts="host"), q("C")], "a dependency has the toolset of its target unless it names one", t=q("A", ts="host"))
    case({"a.gyp": [T("A", ["B#host"]), T("B")]}, [q("B")], "toolsets in dependencies are ignored where there is only one", toolsets=False)
    case({"a.gyp": [T("A", ["B", "B", "a.gyp:B", "C", "B"]), T("B"), T("C")]}, [q("B"), q("C")], "every dependency is listed once", "duplicates removed")
    # wildcards
    b = [T("B1"), T("B2", suppress_wildcard=1), T("B3"), T("B4", toolset="host")]
    case({"a.gyp": [T("A", ["L", "b.gyp:*", "M"]), T("L"), T("M")], "b.gyp": b}, [q("L"), q("B1", "b.gyp"), q("B3", "b.gyp"), q("M")],
         "a wildcard means the targets of the file that do not suppress it", "wildcards")
    case({"a.gyp": [T("A", ["b.gyp:*#*", "M"]), T("M")], "b.gyp": b}, [q("B1", "b.gyp"), q("B3", "b.gyp"), q("B4", "b.gyp", "host"), q("M")],
         "a wildcard toolset means every toolset", "wildcards")
    case({"a.gyp": [T("A", ["b.gyp:B1#*"])], "b.gyp": [T("B1"), T("B2"), T("B1", toolset="host")]}, [q("B1", "b.gyp"), q("B1", "b.gyp", "host")],
         "a wildcard toolset of one target means that target", "wildcards")
    case({"a.gyp": [T("A", ["b.gyp:*", "c.gyp:*"])], "b.gyp": [T("B", suppress_wildcard=1)], "c.gyp": [T("C"), T("D", suppress_wildcard=0)]},
         [q("C", "c.gyp"), q("D", "c.gyp")], "a wildcard that matches nothing leaves nothing", "wildcards")
    for kw in ({}, {"suppress_wildcard": 1}):
        case({"a.gyp": [T("A", ["a.gyp:*"], **kw), T("B")]}, None, "a wildcard for the own build file is an error", "wildcards")
    case({"a.gyp": [T("A", ["b.gyp:*"], export_dependent_settings=["b.gyp:*"])], "b.gyp": b}, [q("B1", "b.gyp"), q("B3", "b.gyp")],
         "wildcards are expanded in every section", "wildcards", section="export_dependent_settings")
    # sections
    case({"a.gyp": [T("A", ["B"], export_dependent_settings=["C"]), T("B"), T("C")]}, None,
         "exporting the settings of something that is no dependency is an error", "sections", "G2")
    case({"a.gyp": [T("A", ["B"], export_dependent_settings=["B"]), T("B")]}, [q("B")], "exported settings are qualified", "sections", section="export_dependent_settings")
    case({"a.gyp": [T("A", ["B", "C"], **{"dependencies!": ["B"]}), T("B"), T("C")]}, [q("C")], "excluded dependencies are dropped", "excluded", filters=True)
    case({"a.gyp": [T("A", ["B", "A"], variables={"prune_self_dependency": 1}), T("B")]}, [q("B")], "a dependency on itself is dropped when asked to", "pruned")
    case({"a.gyp": [T("A", ["B", "A"]), T("B")]}, None, "a dependency on itself is an error otherwise", "pruned", "G2")
    L = {"variables": {"link_dependency": 1}}
    case({"a.gyp": [T("A", ["B", "C", "D"], type="none"), T("B", **L), T("C"), T("D", **L)]}, [q("C")], "a target of type none does not keep link dependencies", "pruned")
    case({"a.gyp": [T("A", ["B", "C"], type="executable"), T("B", **L), T("C")]}, [q("B"), q("C")], "other targets keep link dependencies", "pruned")


def link_deps(ts, a, shared):
    """Targets linked into a (including a), by the rules of the format."""
    out = []

    def go(x, first):
        t = ts[x]
        ty = t["type"]
        if first and ty not in LINK:
            return
        if ty == "none" and not t.get("dependencies_traverse", True):
            out.append(x)
            return
        if not first and ty in ("executable", "loadable_module", "mac_kernel_extension", "windows_driver"):
            return
        if not first and ty == "shared_library" and not shared:
            return
        if x in out:
            return
        out.append(x)
        if first or ty not in LINK:
            for y in t.get("dependencies", ()):
                go(y, False)
    go(a, True)
    return out


def imported(ts, a):
    out = list(ts[a].get("dependencies", ()))
    i = 0
    while i < len(out):
        for y in ts[out[i]].get("export_dependent_settings", ()):
            if y not in out:
                out.append(y)
        i += 1
    return out


def expect(ts, adjust):
    """name -> (all, direct, link, dependencies) expected for each target."""
    ed = {n: t.get("dependencies", []) for n, t in ts.items()}
    r = {}
    for n, t in ts.items():
        al = reach(ed, n)
        di = imported(ts, n)
        li = link_deps(ts, n, t.get("allow_sharedlib_linksettings_propagation", True))
        d = list(ed[n])
        if adjust and t["type"] == "static_library":
            d = [x for x in di if ts[x]["type"] == "static_library" and ts[x].get("hard_dependency") or ts[x]["type"] != "static_library" and x in ed[n]]
        elif adjust and t["type"] in LINK:
            d += [x for x in link_deps(ts, n, True) if x != n and x not in d]
        r[n] = (set(al), set(di), set(li), set(d))
    return r


def scenario(c, p, ob, ts, adjust=True, sort=False):
    """ts: name -> options; checks G4 and G5."""
    spec = []
    for n, t in ts.items():
        spec.append(T(n, **{"deps": t.get("dependencies"), **{k: v for k, v in t.items() if k != "dependencies"}},
                      all_dependent_settings={"defines": [n + "_all"]}, direct_dependent_settings={"defines": [n + "_direct"]},
                      link_settings={"defines": [n + "_link"]}))
    rs = p.load({"a.gyp": spec}, adjust=adjust, sort=sort)
    want = expect(ts, adjust)
    what = "targets " + ", ".join(f"{n} ({t['type']}" + "".join(f" {k}" for k in t if k not in ("type", "dependencies")) + ")" +
                                  (">" + "".join(t["dependencies"]) if t.get("dependencies") else "") for n, t in ts.items())
    if not rs or any(r[0] != "return" for r in rs):
        return ob("G4", False, what + " are accepted", outcome(rs), "settings")
    for r in rs:
        for n in ts:
            got = r[2][q(n)]
            al, di, li, d = want[n]
            exp = {x + "_all" for x in al} | {x + "_direct" for x in di} | {x + "_link" for x in li}
            have = got.get("defines", [])
            ob("G4", len(have) == len(exp) and set(map(str, have)) == exp, f"{what}: {n} has the settings of {sorted(exp)}", str(sorted(map(str, have))), "settings")
            left = [k for k in ("all_dependent_settings", "direct_dependent_settings", "link_settings") if k in got]
            ob("G4", not left, f"{what}: published settings are taken out", str(left), "removed")
            dd = got.get("dependencies", [])
            ob("G5", len(set(dd)) == len(dd) and set(dd) == {q(x) for x in d}, f"{what}: {n} depends on {sorted(d)}", str(dd), "dependencies")
            if sort and ts[n]["type"] in LINK:
                o = [x for x in reversed(r[1]) if x in dd]
                ob("G5", dd == o, f"{what}: dependencies are sorted for the generators that want it", str(dd), "sorted")
            if adjust and ts[n]["type"] == "static_library" and ts[n].get("dependencies") is not None:
                ob("G5", got.get("dependencies_original") == [q(x) for x in ts[n]["dependencies"]],
                   f"{what}: the original dependencies of a static library are kept", str(got.get("dependencies_original")), "original")


def rebased(c, p, ob):
    """Relative paths in published settings are relative to the file that publishes them."""
    if any(func(c, "gyp.input", x) is None for x in ("IsPathSection", "MakePathRelative")):
        return
    for fa, fb, ref, want in (("a.gyp", "d/b.gyp", "d/b.gyp:B", "d/inc"), ("d/a.gyp", "b.gyp", "../b.gyp:B", "../inc"),
                              ("d/a.gyp", "e/b.gyp", "../e/b.gyp:B", "../e/inc"), ("a.gyp", "a.gyp", "B", "inc"),
                              ("d/a.gyp", "d/e/b.gyp", "e/b.gyp:B", "e/inc")):
        for key in ("all_dependent_settings", "direct_dependent_settings", "link_settings"):
            a = T("A", [ref], type="executable")
            b = T("B", **{key: {"include_dirs": ["inc"], "defines": ["inc"], "libraries": ["-linc", "inc"]}})
            files = {fa: [a, b]} if fa == fb else {fa: [a], fb: [b]}
            rs = p.load(files, adjust=False)
            got = [(r[2][q("A", fa)].get("include_dirs"), r[2][q("A", fa)].get("defines"), r[2][q("A", fa)].get("libraries"))
                   for r in rs if r[0] == "return"]
            ob("G4", bool(rs) and len(got) == len(rs) and all(x == ([want], ["inc"], ["-linc", want]) for x in got),
               f"the {key} of {fb} reach {fa} with paths relative to {fa}", str(got)[:200] or outcome(rs), "rebased")


TYPES = ("executable", "shared_library", "static_library", "none", "loadable_module")


def settings(c, p, ob):
    deep = c.tier == "thorough"
    for a in ("executable", "shared_library", "static_library", "none") if not deep else TYPES + ("mac_kernel_extension", "windows_driver"):
        for b in TYPES if not deep else TYPES + ("mac_kernel_extension", "windows_driver"):
            for d in ("static_library", "shared_library", "none") if not deep else TYPES:
                scenario(c, p, ob, {"A": {"type": a, "dependencies": ["B"]}, "B": {"type": b, "dependencies": ["C"]}, "C": {"type": d}})
    for ty in ("mac_kernel_extension", "windows_driver", "loadable_module"):
        scenario(c, p, ob, {"A": {"type": ty, "dependencies": ["B"]}, "B": {"type": "static_library"}})
        scenario(c, p, ob, {"A": {"type": "executable", "dependencies": ["B"]}, "B": {"type": ty, "dependencies": ["C"]}, "C": {"type": "static_library"}})
    # exported settings over several levels
    for exp in itertools.product((True, False), repeat=2):
        for ta in ("executable", "static_library"):
            scenario(c, p, ob, {"A": {"type": ta, "dependencies": ["B"]},
                                "B": {"type": "static_library", "dependencies": ["C"], **({"export_dependent_settings": ["C"]} if exp[0] else {})},
                                "C": {"type": "static_library", "dependencies": ["D"], **({"export_dependent_settings": ["D"]} if exp[1] else {})},
                                "D": {"type": "static_library"}})
    # hard dependencies
    for hard in ("B", "C", "D", "BC", ""):
        for exp in (True, False):
            t = {"A": {"type": "static_library", "dependencies": ["B", "E"]},
                 "B": {"type": "static_library", "dependencies": ["C"], **({"export_dependent_settings": ["C"]} if exp else {})},
                 "C": {"type": "static_library", "dependencies": ["D"]}, "D": {"type": "static_library"}, "E": {"type": "none"}}
            for x in hard:
                t[x]["hard_dependency"] = 1
            scenario(c, p, ob, t)
    # imported dependencies that are no static libraries, flags
    scenario(c, p, ob, {"A": {"type": "static_library", "dependencies": ["B"]}, "B": {"type": "static_library", "dependencies": ["C"], "export_dependent_settings": ["C"]},
                        "C": {"type": "none"}})
    scenario(c, p, ob, {"A": {"type": "executable", "dependencies": ["B", "C"]}, "B": {"type": "none", "dependencies": ["D"], "dependencies_traverse": 0},
                        "C": {"type": "none", "dependencies": ["E"]}, "D": {"type": "static_library"}, "E": {"type": "static_library"}})
    for fl in (True, False):
        scenario(c, p, ob, {"A": {"type": "shared_library", "dependencies": ["B"], "allow_sharedlib_linksettings_propagation": fl},
                            "B": {"type": "shared_library", "dependencies": ["C"]}, "C": {"type": "static_library"}})
    # diamonds, in both orders
    for ta in ("executable", "static_library", "none"):
        for o in (["B", "C"], ["C", "B"]):
            scenario(c, p, ob, {"A": {"type": ta, "dependencies": o}, "B": {"type": "static_library", "dependencies": ["D"]},
                                "C": {"type": "static_library", "dependencies": ["D"], "export_dependent_settings": ["D"]}, "D": {"type": "static_library"}})
    # the order of the targets does not matter
    scenario(c, p, ob, {"D": {"type": "static_library"}, "C": {"type": "static_library", "dependencies": ["D"], "export_dependent_settings": ["D"]},
                        "B": {"type": "static_library", "dependencies": ["C"], "export_dependent_settings": ["C"]}, "A": {"type": "executable", "dependencies": ["B"]}})
    chain = {"A": {"type": "executable", "dependencies": ["B", "D"]}, "B": {"type": "static_library", "dependencies": ["C"]},
             "C": {"type": "static_library", "dependencies": ["D"]}, "D": {"type": "static_library"}}
    scenario(c, p, ob, chain, adjust=False)
    scenario(c, p, ob, chain, sort=True)
    scenario(c, p, ob, {**chain, "E": {"type": "executable", "dependencies": ["A", "C", "F"]}, "F": {"type": "shared_library", "dependencies": ["B"]}}, sort=True)


def roots(c, p, ob):
    ts = {"A": "B", "B": "C", "C": "", "D": "C", "E": "A", "F": ""}
    files = {"a.gyp": [T(n, list(d)) for n, d in ts.items()], "b.gyp": [T("G")]}
    for rt in (["A"], ["D"], ["F"], ["D", "F"], ["E", "D"], [" B "]):
        rs = p.load(files, roots=rt, adjust=False)
        ed = {n: list(d) for n, d in ts.items()}
        want = {x.strip() for x in rt}
        for x in rt:
            want |= reach(ed, x.strip())
        ok = bool(rs) and all(r[0] == "return" and sorted_ok(r[1], {q(n): [q(y) for y in ed[n]] for n in want}, [q(n) for n in want]) and set(r[2]) == {q(n) for n in want}
                              and {t["target_name"] for t in r[3]["a.gyp"]["targets"]} == want and r[3]["b.gyp"]["targets"] == [] for r in rs)
        ob("G6", ok, f"building {rt} keeps exactly what it needs", outcome(rs), "roots")
    rs = p.load(files, roots=["Z"], adjust=False)
    ob("G6", bool(rs) and all(r[0] == "raise" for r in rs), "building a target that does not exist is an error", outcome(rs), "unknown root")
    rs = p.load(files, adjust=False)
    ob("G6", bool(rs) and all(r[0] == "return" and len(r[1]) == 7 for r in rs), "without a restriction every target is built", outcome(rs), "all")
