"""Exclusion filters, validation and normalisation of the loaded targets."""
import copy
import itertools
import re

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter
from ..match import *
from ..pyccp import RAISE, exc_name
from .p24_dependencies import Heap, NONE, I, Tally, outcome, plain, relative
from .pycommon import *

ID = "P27"
EXPLANATION = (
    "Interprocedural constant propagation of the loading pipeline from the loaded build files to the targets handed to the generator, on an "
    "abstract heap, with regular expressions over constants folded; for every class of list filter, target type, rule, action, run_as section "
    "and number the targets handed on, or the error, are compared with the rules of the input format.")
STUBS = ("ProcessVariablesAndConditionsInDict", "SetUpConfigurations", "AdjustStaticLibraryDependencies", "DoDependentSettings")
TYPES = ("executable", "loadable_module", "static_library", "shared_library", "mac_kernel_extension", "none", "windows_driver")
RX = ("search", "match", "fullmatch", "findall")


class Fail(Exception):
    pass


class Finish:
    def __init__(self, c):
        self.c = c
        self.f = func(c, "gyp.input", "Load")

    def load(self, files, extra=()):
        """Outcomes [('return', {file: contents}) | ('raise', name)]."""
        h = Heap()
        contents = {k: h(copy.deepcopy(v)) for k, v in files.items()}
        gii = {"path_sections": [], "non_configuration_keys": [], "generator_supports_multiple_toolsets": True,
               "generator_filelist_paths": None, "extra_sources_for_rules": list(extra), "generator_wants_static_library_dependencies_adjusted": False,
               "generator_wants_sorted_dependencies": False}
        args = {"build_files": list(files)[:1], "variables": {}, "includes": [], "depth": ".", "generator_input_info": gii, "check": False,
                "circular_check": False, "parallel": False, "root_targets": []}
        for p, _, _ in self.f.params:
            h.init[("param", p.id)] = h(args.get(p.id))

        def rx(kind, pattern, text):
            try:
                m = getattr(re, kind)(pattern, text)
            except (re.error, TypeError):
                return RAISE
            return ("list", tuple(("c", x) for x in m)) if kind == "findall" else ("sym", "match") if m else NONE

        def model(op, t):
            if op in ("truth", "notnull") and t == ("sym", "match"):
                return True
            if op == "eq" and ("sym", "match") in t and NONE in t:
                return False
            if op == "call":
                f, a = t[1], t[2]
                if f[0] == "a" and f[1] == ("mod", "re") and a and all(x[0] == "c" for x in a[:2]):
                    if f[2] == "compile":
                        try:
                            re.compile(a[0][1])
                        except (re.error, TypeError):
                            return RAISE
                        return ("rx", a[0][1])
                    if f[2] in RX and len(a) == 2:
                        return rx(f[2], a[0][1], a[1][1])
                if f[0] == "a" and f[1][0] == "rx" and f[2] in RX and len(a) == 1 and a[0][0] == "c":
                    return rx(f[2], f[1][1], a[0][1])
                if f[0] == "cls" and f[1].name == "OrderedSet":
                    return ("set", ()) if not a else None
            if op == "exec":
                cal, a, s, e, n = t
                if cal[0] not in ("fn", "bound"):
                    return None
                nm = cal[1].name
                if nm == "LoadTargetBuildFile":
                    data = next((x for x in a if x[0] == "new" and e.fields(x, s)[0] == "dict" and
                                 e.get(e.fields(x, s), ("c", "target_build_files"), s)[0] == "new"), None)
                    if data is None:
                        return NONE
                    d = s[("F", data[1])]
                    tb = e.get(d, ("c", "target_build_files"), s)
                    for k, v in contents.items():
                        d = e.put(d, ("c", k), v, s)
                    s[("F", data[1])] = d
                    s[("F", tb[1])] = ("set", tuple(("c", k) for k in contents))
                    return NONE
                if nm in STUBS:
                    return NONE
                if nm == "RelativePath" and all(x[0] == "c" for x in a[:2]):
                    return ("c", relative(a[0][1], a[1][1]))
                if nm == "FindCycles":
                    return ("list", ())
        e = Inter.of(self.c, self.f, model, maxstates=900000)
        try:
            rs = e.run(h.init)
        except Blowup:
            return [("undecided", "too many abstract states")]
        self.c.states += e.count
        out = []
        for k, _, s in rs:
            if k == "raise":
                out.append(("raise", exc_name(s["exc"])))
                continue
            r = plain(e, s.get(("v", "r", "$ret"), NONE), s)
            if not isinstance(r, list) or len(r) != 3 or not isinstance(r[2], dict):
                out.append(("undecided", show(r)[:80] if isinstance(r, tuple) else str(r)[:80]))
            else:
                out.append(("return", {k: v for k, v in r[2].items() if k in files}))
        return out


# ---- the rules of the input format

def filtered(d):
    if isinstance(d, list):
        return [filtered(x) for x in d]
    if not isinstance(d, dict):
        return d
    d = dict(d)
    done = []
    for k in list(d):
        if not k or k[-1] not in "!/":
            continue
        if not isinstance(d[k], list):
            raise Fail
        if k[:-1] not in d:
            del d[k]
            continue
        if not isinstance(d[k[:-1]], list):
            raise Fail
        if k[:-1] not in done:
            done.append(k[:-1])
    for k in done:
        if k + "_excluded" in d:
            raise Fail
        out = [False] * len(d[k])
        for x in d.pop(k + "!", []):
            out = [o or y == x for o, y in zip(out, d[k])]
        for r in d.pop(k + "/", []):
            if len(r) != 2 or r[0] not in ("exclude", "include"):
                raise Fail
            out = [r[0] == "exclude" if re.search(r[1], y) else o for o, y in zip(out, d[k])]
        gone = [x for x, o in zip(d[k], out) if o]
        d[k] = [x for x, o in zip(d[k], out) if not o]
        if gone:
            d[k + "_excluded"] = gone
    return {k: filtered(v) for k, v in d.items()}


def texts(d):
    if isinstance(d, list):
        return [texts(x) for x in d]
    if isinstance(d, dict):
        return {k: texts(v) for k, v in d.items()}
    return str(d) if isinstance(d, int) else d


def ext(x):
    m = re.search(r"[^/.][^/]*?(\.[^./]*)$", x)
    return m.group(1) if m else ""


def ruled(t, extra):
    for r in t.get("rules", []):
        e = r["extension"].lstrip(".") if r["extension"].startswith(".") else r["extension"]
        src = [x for k in ("sources", *extra) for x in t.get(k, []) if ext(x)[1:] == e]
        if src:
            r["rule_sources"] = src
    return t


def T(name, **kw):
    return {"target_name": name, "toolset": "target", "type": "none", **kw}


def check(c):
    c.rule("F1", "exclusion filters remove exactly the items they select, keep the order of the others and record what was removed")
    c.rule("F2", "malformed filters are errors")
    c.rule("F3", "targets that cannot be built as described are errors")
    c.rule("F4", "a rule's sources are the remaining sources with its extension")
    c.rule("F5", "the generator sees numbers as text and everything else unchanged")
    p = Finish(c)
    if p.f is None:
        return c.ob("F1", I, False, "the loading pipeline exists")
    ob = Tally(c, p.f.loc)
    same(c, p, ob, "F1", "filters", [T(f"t{i}", **d) for i, d in enumerate(lists(c))])
    same(c, p, ob, "F1", "filters in nested sections", [T(f"t{i}", **d) for i, d in enumerate(nested())])
    for what, d in malformed():
        refused(p, ob, "F2", what, [T("a"), T("b", **d)])
    same(c, p, ob, "F3", "target types", [T(f"t{i}", type=t) for i, t in enumerate(TYPES)] +
         [T("s1", type="static_library", standalone_static_library=1), T("s2", standalone_static_library=0)])
    same(c, p, ob, "F3", "well-formed sections", [T(f"t{i}", **d) for i, d in enumerate(wellformed())])
    for what, d in invalid():
        refused(p, ob, "F3", what, [T("a"), {k: v for k, v in T("b", **d).items() if v is not None}])
    for what, a, b, ok in (("equal names in one directory", "d/x.gyp", "d/y.gyp", False), ("equal names in two directories", "d/x.gyp", "e/y.gyp", True),
                           ("equal names in the current directory", "x.gyp", "y.gyp", False)):
        rs = p.load({a: {"targets": [T("t")]}, b: {"targets": [T("t")]}})
        good = len(rs) == 1 and (rs[0][0] == "return") == ok and rs[0][0] in ("return", "raise")
        ob("F3", good, what, outcome(rs), "collisions")
    sources(c, p, ob)
    numbers(c, p, ob)
    ob.done()


def same(c, p, ob, rule, key, targets, extra=(), step=8):
    for i in range(0, len(targets), step):
        part = targets[i:i + step]
        rs = p.load({"a.gyp": {"targets": part}}, extra)
        if len(rs) != 1 or rs[0][0] != "return":
            # find the target at fault
            bad = next((t for t in part for r in [p.load({"a.gyp": {"targets": [t]}}, extra)] if len(r) != 1 or r[0][0] != "return"), part[0])
            ob(rule, False, f"{key}: {brief(bad)}", outcome(p.load({"a.gyp": {"targets": [bad]}}, extra)), key)
            continue
        got = {t["target_name"]: t for t in rs[0][1].get("a.gyp", {}).get("targets", []) if isinstance(t, dict)}
        for t in part:
            want = texts(ruled(filtered(copy.deepcopy(t)), extra))
            g = got.get(t["target_name"])
            ob(rule, g == want, f"{key}: {brief(t)}", f"gives {brief(g)}, not {brief(want)}", key)
            if g == want:
                order = [k for k in g if isinstance(g[k], list)]
                ob(rule, len(order) == len(set(order)), key, "repeated keys", key)


def brief(t):
    return str({k: v for k, v in t.items() if k not in ("target_name", "toolset") and not (k == "type" and v == "none")}) if isinstance(t, dict) else str(t)


def refused(p, ob, rule, what, targets):
    rs = p.load({"a.gyp": {"targets": targets}})
    ob(rule, len(rs) >= 1 and all(r[0] == "raise" for r in rs), what, f"is accepted: {outcome(rs)}", what)


def lists(c):
    items = [[], ["a"], ["b"], ["a", "b"], ["b", "a", "b"], ["ab", "a", "b", "ab"], ["a", "c", "b", "d", "a"]]
    excl = [None, [], ["a"], ["b", "zz"], ["b", "a"], ["ab", "ab"]]
    pats = [("exclude", "a"), ("exclude", "^b$"), ("include", "a"), ("include", "b"), ("exclude", ".")]
    seqs = [None, []] + [[p] for p in pats] + [[x, y] for x in pats for y in pats if x != y]
    if c.tier == "thorough":
        seqs += [list(x) for x in itertools.permutations(pats, 3)]
    n = 0
    for x in items:
        for e in excl:
            for r in seqs:
                n += 1
                if c.tier != "thorough" and len(x) < 2 and n % 7:
                    continue
                if c.tier != "thorough" and r and len(r) > 1 and (n % 3 or e and len(e) > 1 and n % 2):
                    continue
                d = {"sources": x}
                if e is not None:
                    d["sources!"] = e
                if r is not None:
                    d["sources/"] = [list(y) for y in r]
                yield copy.deepcopy(d)
    yield {"sources!": ["a"]}
    yield {"sources/": [["exclude", "a"]]}
    yield {"sources/": [["exclude", "a"]], "sources!": ["a"]}
    yield {"sources/": [["exclude", "a"]], "sources": ["a", "b"], "defines!": ["x"], "defines": ["x", "y"], "libraries": ["a"]}
    yield {"sources!": ["x.c"], "sources": ["x.c", "xxc", "./x.c", "X.C", "y/x.c"]}
    yield {"sources/": [["exclude", "x.c"]], "sources": ["x.c", "xxc", "./x.c", "X.C", "y/x.cc"]}
    yield {"sources/": [["exclude", "^x"], ["include", "xy"], ["exclude", "z$"]], "sources": ["xa", "xy", "xyz", "a"]}
    yield {"defines": ["A=1", "B", "A=1"], "defines!": ["A"]}
    yield {"sources_excluded": ["kept"], "sources": ["a"]}


def nested():
    f = {"defines": ["x", "y"], "defines!": ["x"]}
    yield {"configurations": {"Default": f, "Other": {"defines": ["x"], "defines/": [["exclude", "x"]]}}}
    yield {"configurations": {"Default": {"msvs_settings": {"VCLinkerTool": f}}}}
    yield {"actions": [{"action_name": "n", "inputs": ["x", "i"], "inputs!": ["x"], "action": ["run"]}, {"action_name": "m", "inputs": [], "inputs/": [["exclude", "a"]]}]}
    yield {"copies": [{"files": ["a", "b", "c"], "files!": ["a"], "files/": [["include", "a"], ["exclude", "c"]]}]}
    yield {"deep": [[f], [[f, "x"], "x"]], "xcode_settings": {"a": {"b": f}}}
    yield {"sources": ["a", "b"], "sources!": ["a"], "configurations": {"Default": dict(f)}, "more": {"sources!": ["a"], "sources": ["a"]}}
    yield {"x!": [{"defines": ["x"], "defines!": ["x"]}], "x": ["y"], "z": [{"defines!": ["y"]}]}


def malformed():
    yield "a ! filter that is no list", {"sources": ["a"], "sources!": "a"}
    yield "a / filter that is no list", {"sources": ["a"], "sources/": {"exclude": "a"}}
    yield "a filter that is no list without a list", {"sources!": "a"}
    yield "a ! filter of a string", {"sources": "a", "sources!": ["a"]}
    yield "a / filter of a dictionary", {"sources": {"a": "b"}, "sources/": [["exclude", "a"]]}
    yield "an unknown action", {"sources": ["a"], "sources/": [["delete", "a"]]}
    yield "an unknown action after a known one", {"sources": ["a"], "sources/": [["exclude", "b"], ["Exclude", "a"]]}
    yield "a regular expression without action", {"sources": ["a"], "sources/": [["a"]]}
    yield "an action with two expressions", {"sources": ["a"], "sources/": [["exclude", "a", "b"]]}
    yield "a malformed regular expression", {"sources": ["a"], "sources/": [["exclude", "(a"]]}
    yield "a list of excluded items in the input", {"sources": ["a"], "sources!": ["a"], "sources_excluded": ["b"]}
    yield "a list of excluded items in the input (/)", {"sources": ["b"], "sources/": [["exclude", "a"]], "sources_excluded": []}
    yield "a malformed filter in a configuration", {"configurations": {"Default": {"defines": ["x"], "defines!": "x"}}}
    yield "a malformed filter in an action", {"actions": [{"action_name": "n", "inputs": ["x"], "inputs/": [["no", "x"]]}]}


def wellformed():
    yield {"run_as": {"action": ["a"], "working_directory": "w", "environment": {"A": "b"}}}
    yield {"run_as": {"action": ["a"]}}
    yield {"run_as": {}}
    yield {"run_as": {"action": ["a"], "working_directory": "", "environment": {}}}
    yield {"actions": []}
    yield {"actions": [{"action_name": "n", "inputs": [], "outputs": [], "action": ["a", ""]}, {"action_name": "n", "inputs": ["x"]}]}
    yield {"actions": [{"action_name": "n", "inputs": [], "action": []}]}
    yield {"rules": [{"rule_name": "r", "extension": "x"}, {"rule_name": "s", "extension": "xx"}]}
    yield {"rules": []}


def invalid():
    yield "a target without type", {"type": None}
    for t in ("library", "Executable", "", "<(type)", "none "):
        yield f"target type {t!r}", {"type": t}
    for t in TYPES:
        if t != "static_library":
            yield f"a standalone {t}", {"type": t, "standalone_static_library": 1}
    R = lambda n, e, **kw: {"rule_name": n, "extension": e, **kw}
    yield "two rules of one name", {"rules": [R("r", "x"), R("r", "y")]}
    yield "two rules of one name, not adjacent", {"rules": [R("r", "x"), R("s", "z"), R("r", "y")]}
    yield "two rules for one extension", {"rules": [R("r", "x"), R("s", "x")]}
    yield "two rules for one extension, with dot", {"rules": [R("r", ".x"), R("s", "x")]}
    yield "two rules for one extension, with dots", {"rules": [R("r", ".x"), R("q", "y"), R("s", ".x")]}
    yield "rule sources in the input", {"rules": [R("r", "x", rule_sources=["a.x"])]}
    yield "rule sources in the input of a second rule", {"rules": [R("q", "y"), R("r", "x", rule_sources=[])]}
    yield "a rule without name", {"rules": [{"extension": "x"}]}
    yield "a rule without extension", {"rules": [{"rule_name": "x"}]}
    yield "run_as as a list", {"run_as": ["a"]}
    yield "run_as as a string", {"run_as": "a"}
    yield "run_as without action", {"run_as": {"environment": {"a": "b"}}}
    yield "run_as with an empty action", {"run_as": {"action": []}}
    yield "run_as with a string as action", {"run_as": {"action": "a b"}}
    yield "run_as with a list as directory", {"run_as": {"action": ["a"], "working_directory": ["x"]}}
    yield "run_as with a list as environment", {"run_as": {"action": ["a"], "environment": ["x"]}}
    yield "run_as with a string as environment", {"run_as": {"action": ["a"], "environment": "A=b"}}
    yield "an action without name", {"actions": [{"inputs": [], "action": ["a"]}]}
    yield "an action with an empty name", {"actions": [{"action_name": "", "inputs": [], "action": ["a"]}]}
    yield "an action without inputs", {"actions": [{"action_name": "n", "action": ["a"]}]}
    yield "a second action without inputs", {"actions": [{"action_name": "n", "inputs": [], "action": ["a"]}, {"action_name": "m", "outputs": ["x"]}]}
    yield "an empty command", {"actions": [{"action_name": "n", "inputs": [], "action": ["", "a"]}]}


def sources(c, p, ob):
    R = lambda n, e: {"rule_name": n, "extension": e}
    ss = ["a.x", "b.y", "d.x/c", "sub/c.x", "x", ".x", "e.x.y", "f.X", "g.xx", "b.y", "h."]
    ts = [T("r1", rules=[R("r", "x")], sources=ss), T("r2", rules=[R("r", ".x"), R("s", "y")], sources=ss),
          T("r3", rules=[R("r", "q")], sources=ss), T("r4", rules=[R("r", "x")]), T("r5", rules=[R("r", "y"), R("s", "x")], sources=["b.y", "a.x", "c.y"], more=["m.y", "n.x"], other=["o.y"]),
          T("r6", rules=[R("r", "x")], sources=["a.x", "b.x", "c.x"], **{"sources!": ["b.x"]}),
          T("r7", rules=[R("r", "x")], sources=["a.x", "b.x"], **{"sources/": [["exclude", "a"]]}),
          T("r8", sources=["a.x"]), T("r9", rules=[R("r", "x"), R("s", "z")], more=["z.z"]), T("r10", rules=[R("r", "x")], sources=["a.x"], **{"sources/": [["exclude", "x"]]})]
    for extra in ((), ("more",), ("other", "more")):
        same(c, p, ob, "F4", "sources of rules", ts, extra)


def numbers(c, p, ob):
    d = {"targets": [T("n", a=1, b=[0, "x", [2, {"c": 3}], {"d": -4, "e": "5"}], f={"g": {"h": 10}, "i": []}, j="k")], "other": {"x": 7, "y": ["z", 8]}, "variables": {"v": 0}}
    e = {"targets": [], "list": [1, [2]], "k": 3}
    rs = p.load({"a.gyp": d, "b.gyp": e})
    if len(rs) != 1 or rs[0][0] != "return":
        return ob("F5", False, "numbers", outcome(rs), "numbers")
    for f, x in (("a.gyp", d), ("b.gyp", e)):
        ob("F5", rs[0][1].get(f) == texts(x), f"numbers in {f}", f"become {rs[0][1].get(f)}", "numbers")
