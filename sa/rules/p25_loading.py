"""Loading build files: includes, defaults, toolsets, dependency files, the order of the phases."""
import ast as pyast
import copy
import posixpath

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter, PATH
from ..match import *
from ..pyccp import RAISE, exc_name
from .p24_dependencies import Heap, Tally, outcome, plain, relative
from .pycommon import *

ID = "P25"
EXPLANATION = (
    "Interprocedural constant propagation of the loader from the names on the command line to the targets handed on, on an abstract heap, "
    "with the contents of the build files as abstract data and the variable, filter and validation phases replaced by recorded events; "
    "what was loaded, merged and passed to each phase is compared with the rules of the input format.")
NONE = ("c", None)
PATHS = ("include_dirs", "sources", "libraries", "inputs", "outputs")
STUBS = ("SetUpConfigurations", "ValidateTargetType", "ValidateRulesInTarget", "ValidateRunAsInTarget", "ValidateActionsInTarget", "TurnIntIntoStrInDict")
DEPS = ("dependencies", "dependencies!", "dependencies/", "export_dependent_settings")


class Gone(Exception):
    pass


def rel(a, b):
    r = relative(a, b)
    return "" if r == "." else r


class Loader:
    def __init__(self, c):
        self.c = c
        self.f = func(c, "gyp.input", "Load")

    def build(self, v, s, e, n, tag):
        if isinstance(v, (dict, list)):
            i = e.alloc(s, (n.id, "file") + tag)
            if isinstance(v, dict):
                s[("F", i)] = ("dict", tuple((("c", k), self.build(x, s, e, n, tag + (k,))) for k, x in v.items()))
            else:
                s[("F", i)] = ("list", tuple(self.build(x, s, e, n, tag + (j,)) for j, x in enumerate(v)))
            return ("new", i)
        return ("c", v)

    def load(self, files, start=("a.gyp",), includes=(), depth=".", multi=False, check=False, circular=False, path_sections=()):
        """Outcomes [('return', data, order, events) | ('raise', name)]."""
        h = Heap()
        gii = {"path_sections": list(path_sections), "non_configuration_keys": [], "generator_supports_multiple_toolsets": multi,
               "generator_filelist_paths": None, "extra_sources_for_rules": ["extra"], "generator_wants_static_library_dependencies_adjusted": False,
               "generator_wants_sorted_dependencies": False}
        args = {"build_files": list(start), "variables": {"given": "1"}, "includes": list(includes), "depth": depth, "generator_input_info": gii,
                "check": check, "circular_check": circular, "parallel": False, "root_targets": []}
        for p, _, _ in self.f.params:
            h.init[("param", p.id)] = h(args.get(p.id))

        late = phase(self.c, "PHASE_LATE")

        def path(v):
            return posixpath.normpath(v[1]) if v[0] == "c" and isinstance(v[1], str) else None

        def event(s, *x):
            s["fx"] = s.get("fx", ()) + ((0, ("ev",) + x, ()),)

        def text(v):
            return v[1] if isinstance(v, tuple) and v and v[0] == "text" else None

        def evaluate(t, s, e, n):
            p = text(t)
            if p is None or p not in files:
                return None
            if isinstance(files[p], Exception):
                return RAISE
            event(s, "read", p)
            return self.build(files[p], s, e, n, (p, len(s.get("fx", ()))))

        def dup(v, s, e, n, tag=()):
            f = e.fields(v, s) if v[0] == "new" else None
            if f is None or f[0] not in ("dict", "list"):
                return v
            i = e.alloc(s, (n.id, "copy") + tag)
            s[("F", i)] = ("dict", tuple((k, dup(x, s, e, n, tag + (j,))) for j, (k, x) in enumerate(f[1]))) if f[0] == "dict" else \
                ("list", tuple(dup(x, s, e, n, tag + (j,)) for j, x in enumerate(f[1])))
            return ("new", i)

        def touch(v, s, e, *who):
            """The later phases change what they are given in place."""
            f = e.fields(v, s) if v[0] == "new" else None
            if f is None:
                return
            for x in [x for _, x in f[1]] if f[0] == "dict" else f[1]:
                touch(x, s, e, *who)
            if f[0] == "list":
                s[("F", v[1])] = ("list", f[1] + (("c", "touched " + " ".join(map(str, who))),))

        def called(cal, a, s, e, n):
            if cal[0] == "a" and cal[1] == PATH and cal[2] in ("exists", "isfile", "lexists") and a and path(a[0]) is not None:
                return ("c", path(a[0]) in files)
            if cal[0] == "glob" and cal[1] == "open" or cal[0] == "a" and cal[1] in (("mod", "io"), ("mod", "codecs")) and cal[2] == "open":
                if path(a[0]) is None:
                    return None
                return ("handle", path(a[0])) if path(a[0]) in files else RAISE
            if cal[0] == "a" and cal[1][0] == "handle" and cal[2] == "read":
                return ("text", cal[1][1])
            if cal[0] == "a" and cal[1][0] == "handle" and cal[2] == "__enter__":
                return cal[1]
            if cal[0] == "a" and cal[1][0] == "handle" and cal[2] in ("close", "__exit__"):
                return NONE
            if cal[0] == "a" and cal[1] == PATH and cal[2] in ("realpath", "abspath") and path(a[0]) is not None:
                return ("c", posixpath.normpath(posixpath.join("/w", a[0][1])))
            return None

        def model(op, t):
            if op == "exec":
                cal, a, s, e, n = t
                if a and (cal[0] == "fn" and cal[1].name == "deepcopy" or cal == ("a", ("mod", "copy"), "deepcopy")):
                    return dup(a[0], s, e, n)
                if cal == ("glob", "eval") and a:
                    return evaluate(a[0], s, e, n)
                if cal[0] not in ("fn", "bound"):
                    return called(cal, a, s, e, n)
                nm = cal[1].name
                if nm == "CheckedEval" and a:
                    event(s, "checked", text(a[0]))
                    return evaluate(a[0], s, e, n)
                if nm == "ProcessVariablesAndConditionsInDict":
                    v = plain(e, a[2], s)
                    event(s, "expand", plain(e, a[1], s), plain(e, a[3], s), v.get("DEPTH") if isinstance(v, dict) else None,
                          v.get("given") if isinstance(v, dict) else None, repr(plain(e, a[0], s)))
                    d = e.fields(a[0], s)
                    if d is not None and d[0] == "dict" and a[0][0] == "new":
                        w = e.get(d, ("c", "when_early"), s)
                        if w != RAISE and w[0] == "new":
                            d = ("dict", tuple((k, v) for k, v in d[1] if k != ("c", "when_early")))
                            for k, v in e.fields(w, s)[1]:
                                d = e.put(d, k, v, s)
                            s[("F", a[0][1])] = d
                        if a[1] == ("c", late):
                            touch(a[0], s, e, e.get(d, ("c", "target_name"), s)[1], e.get(d, ("c", "toolset"), s)[1])
                    return NONE
                if nm == "ProcessListFiltersInDict":
                    d = plain(e, a[1], s)
                    if not isinstance(d, dict) or not d or set(d) <= set(DEPS):
                        return NONE
                    event(s, "filter", plain(e, a[0], s), repr(d))
                    return NONE
                if nm in STUBS:
                    event(s, nm, *[repr(plain(e, x, s)) if x[0] == "new" else plain(e, x, s) for x in a])
                    return NONE
                if nm == "RelativePath" and len(a) > 1 and all(x[0] == "c" for x in a[:2]):
                    return ("c", rel(a[0][1], a[1][1]))
                if nm in ("DebugOutput", "ExceptionAppend"):
                    return NONE
                if nm == "MakePathRelative" and all(x[0] == "c" for x in a[:3]):
                    to, fro, item = (x[1] for x in a[:3])
                    if to == fro or str(item)[:1] in "-/$<>^":
                        return a[2]
                    return ("c", posixpath.normpath(posixpath.join(relative(posixpath.dirname(fro), posixpath.dirname(to)), item)))
                if nm == "FindCycles":
                    return ("list", ())
            if op == "call":
                if t[1][0] == "cls" and t[1][1].name == "OrderedSet":
                    return ("set", ()) if not t[2] else None
                return called(t[1], t[2], None, None, None)
        e = Inter.of(self.c, self.f, model, maxstates=400000)
        try:
            rs = e.run(h.init)
        except Blowup:
            return [("undecided", "too many abstract states")]
        self.c.states += e.count
        out = []
        for k, _, s in rs:
            ev = [x[1][1:] for x in s.get("fx", ()) if x[1][0] == "ev"]
            if k == "raise":
                out.append(("raise", exc_name(s["exc"])))
                continue
            r = plain(e, s.get(("v", "r", "$ret"), NONE), s)
            if not isinstance(r, list) or len(r) != 3 or not isinstance(r[2], dict):
                out.append(("undecided", show(r)[:80] if isinstance(r, tuple) else str(r)[:80]))
            else:
                out.append(("return", r[2], r[0], ev))
        return out


# ---- the rules of the input format

class Fail(Exception):
    pass


def merge(to, fro, to_file, fro_file, paths):
    for k, v in fro.items():
        if isinstance(v, dict):
            if k in to and not isinstance(to[k], dict):
                raise Fail
            merge(to.setdefault(k, {}), v, to_file, fro_file, paths)
        elif isinstance(v, list):
            if k in to and not isinstance(to[k], list):
                raise Fail
            to.setdefault(k, []).extend(item(x, k, to_file, fro_file, paths) for x in v)
        else:
            if k in to and isinstance(to[k], (dict, list)):
                raise Fail
            to[k] = item(v, k, to_file, fro_file, paths) if isinstance(v, str) else v


def item(x, k, to, fro, paths):
    if isinstance(x, dict):
        d = {}
        merge(d, x, to, fro, paths)
        return d
    if isinstance(x, list):
        return [item(y, None, to, fro, paths) for y in x]
    if k not in paths or to == fro or str(x)[:1] in "-/$<>^":
        return x
    return posixpath.normpath(posixpath.join(relative(posixpath.dirname(fro), posixpath.dirname(to)), x))


def reference(files, start, includes=(), depth=".", multi=False, path_sections=(), early=None, **kw):
    """data of the target build files, or Fail."""
    data, inc, paths = {}, {}, tuple(PATHS) + tuple(path_sections)
    done = []

    def read(p, extra):
        if p in data:
            return data[p]
        if p not in files or not isinstance(files[p], dict):
            raise Fail
        d = data[p] = copy.deepcopy(files[p])
        inc[p] = []
        if not d.get("skip_includes"):
            resolve(d, p, extra)
        return d

    def resolve(d, p, extra):
        todo = list(extra) + [posixpath.normpath(posixpath.join(posixpath.dirname(p), x)) for x in d.pop("includes", [])]
        for i in todo:
            inc[p].append(i)
            merge(d, read(i, ()), p, i, paths)
        for v in d.values():
            inner(v, p)

    def inner(v, p):
        if isinstance(v, dict):
            resolve(v, p, ())
        elif isinstance(v, list):
            for x in v:
                inner(x, p)

    def closure_of(p, seen):
        if p not in seen:
            seen.append(p)
            for x in inc[p]:
                closure_of(x, seen)
        return seen

    def toolsets(d):
        if "targets" in d:
            new = []
            for t in d["targets"]:
                if "toolset" in t and "toolsets" not in t:
                    new.append(t)
                    continue
                ts = t.pop("toolsets", ["target"])
                for x in ts if multi else ["target"]:
                    new.append({**copy.deepcopy(t), "toolset": x})
            d["targets"] = new
        for cond in d.get("conditions", []):
            for x in cond[1:] if isinstance(cond, list) else ():
                if isinstance(x, dict):
                    toolsets(x)

    def target_file(p):
        if p in done:
            return
        done.append(p)
        d = read(p, includes)
        d["_DEPTH"] = depth
        if "included_files" in d:
            raise Fail
        d["included_files"] = [rel(x, posixpath.dirname(p)) for x in closure_of(p, [])]
        toolsets(d)
        if early is not None:
            early[p] = copy.deepcopy(d)
        d.update(d.pop("when_early", {}))
        toolsets(d)
        if "target_defaults" in d:
            if "targets" not in d:
                raise Fail
            dflt = d.pop("target_defaults")
            out = []
            for t in d["targets"]:
                new = copy.deepcopy(dflt)
                merge(new, t, p, p, paths)
                out.append(new)
            d["targets"] = out
        for t in d.get("targets", []):
            for x in t.get("dependencies", []):
                f = x.split(":")[0] if ":" in x else None
                if f:
                    target_file(posixpath.normpath(posixpath.join(posixpath.dirname(p), f)))
    for p in start:
        target_file(posixpath.normpath(p))
    for p in done:
        for t in data[p].get("targets", []):
            touched({k: v for k, v in t.items() if k not in DEPS}, t)
    return {p: data[p] for p in done}


def touched(v, t):
    for x in v.values() if isinstance(v, dict) else v if isinstance(v, list) else ():
        touched(x, t)
    if isinstance(v, list):
        v.append("touched " + str(t["target_name"]) + " " + str(t["toolset"]))


def norm(d):
    """Build file data with the order of the targets of one name made irrelevant and dependencies qualified by the later steps removed."""
    d = copy.deepcopy(d)
    for t in d.get("targets", []) if isinstance(d.get("targets"), list) else []:
        if isinstance(t, dict):
            for k in DEPS:
                t.pop(k, None)
    sort_targets(d)
    return d


def keep(d):
    d = copy.deepcopy(d)
    sort_targets(d)
    return d


def sort_targets(d):
    for x in d.values() if isinstance(d, dict) else d if isinstance(d, list) else ():
        sort_targets(x)
    if isinstance(d, dict) and isinstance(d.get("targets"), list):
        d["targets"].sort(key=lambda t: (str(t.get("target_name")), str(t.get("toolset"))) if isinstance(t, dict) else ("", ""))


def check(c):
    c.rule("L1", "includes are found relative to the including file, merged where they stand and in order; global includes reach only build files")
    c.rule("L2", "missing, malformed and contradicting build files are errors")
    c.rule("L3", "the defaults of a file apply below the settings of each of its targets")
    c.rule("L4", "a target exists once per toolset it lists")
    c.rule("L5", "the files of dependencies are loaded once each, with their own DEPTH")
    c.rule("L6", "the list of included files is complete")
    c.rule("L7", "every target passes every phase once and in order")
    c.rule("L8", "checked build files have no repeated keys")
    p = Loader(c)
    if p.f is None:
        return c.ob("L1", ("gyp/pylib/gyp/input.py", 1), False, "the loader exists")
    ob = Tally(c, p.f.loc)
    includes(c, p, ob)
    errors(c, p, ob)
    defaults(c, p, ob)
    toolsets(c, p, ob)
    dependencies(c, p, ob)
    phases(c, p, ob)
    checked(c, p, ob)
    evaluator(c, p, ob)
    ob.done()


def t(name="t", **kw):
    return {"target_name": name, "type": "none", **kw}


def compare(c, p, ob, rule, what, key, files, start=("a.gyp",), **kw):
    early = {}
    try:
        want = reference(files, start, early=early, **kw)
    except Fail:
        want = None
    rs = p.load(files, start, **kw)
    if want is None:
        return ob(rule, bool(rs) and all(r[0] == "raise" for r in rs), what + " is an error", outcome(rs), key)
    if not rs or any(r[0] != "return" for r in rs):
        return ob(rule, False, what, outcome(rs), key)
    for r in rs:
        got = set(r[1].get("target_build_files") or ())
        ob(rule, got == set(want), what, f"target build files {sorted(got)} instead of {sorted(want)}", key)
        for f, d in want.items():
            a, b = norm(r[1].get(f, {})), norm(d)
            ob(rule, a == b, f"{what}: {f}", diff(a, b), key)
            seen = [parsed(x[5]) for x in r[3] if x[0] == "expand" and x[1] == phase(c, "PHASE_EARLY") and x[2] == f]
            ob(rule, len(seen) == 1 and keep(seen[0]) == keep(early[f]), f"{what}: {f} as it is first expanded", diff(keep(seen[0]), keep(early[f])) if seen else "never expanded", key)
    return rs


def diff(a, b):
    if not isinstance(a, dict):
        return str(a)[:200]
    ks = [k for k in list(a) + list(b) if a.get(k) != b.get(k)]
    return "; ".join(f"{k}: {a.get(k)} instead of {b.get(k)}" for k in dict.fromkeys(ks))[:300]


def includes(c, p, ob):
    def case(what, files, key="includes", **kw):
        compare(c, p, ob, "L6" if key == "included files" else "L1", what, key, files, **kw)
    x = {"x": ["i"], "include_dirs": ["inc", "-I", "/abs", "$(V)"], "v": "i", "d": {"k": ["i"]}}
    for inc, f in (("i.gypi", "a.gyp"), ("d/i.gypi", "a.gyp"), ("../i.gypi", "s/a.gyp"), ("../e/i.gypi", "s/a.gyp"), ("./i.gypi", "s/a.gyp"), ("e/../i.gypi", "a.gyp")):
        ip = posixpath.normpath(posixpath.join(posixpath.dirname(f), inc))
        case(f"{f} includes {inc}", {f: {"includes": [inc], "targets": [t(include_dirs=["own"])], "x": ["a"], "include_dirs": ["own"], "v": "a", "d": {"k": ["a"]}}, ip: x}, start=(f,))
        case(f"a target of {f} includes {inc}", {f: {"targets": [t(includes=[inc], x=["a"], include_dirs=["own"]), t("u")]}, ip: x}, start=(f,))
    two = {"i.gypi": {"x": ["i"], "v": "i"}, "j.gypi": {"x": ["j"], "v": "j", "w": "j"}}
    for o in (["i.gypi", "j.gypi"], ["j.gypi", "i.gypi"]):
        case(f"a file that includes {o}", {"a.gyp": {"includes": o, "x": ["a"], "w": "a"}, **two})
        case(f"command line includes {o}", {"a.gyp": {"x": ["a"], "targets": [t(x=["t"])]}, **two}, includes=o)
    case("command line includes come before the file's own", {"a.gyp": {"x": ["a"], "includes": ["j.gypi"]}, **two}, includes=["i.gypi"])
    case("command line includes reach the dependencies and not the included files",
         {"a.gyp": {"includes": ["k.gypi"], "targets": [t(dependencies=["d/b.gyp:u"])]}, "d/b.gyp": {"targets": [t("u")], "x": ["b"]}, "k.gypi": {"x": ["k"], "n": {"m": ["q"]}}, **two}, includes=["i.gypi"])
    case("nested includes", {"a.gyp": {"includes": ["d/i.gypi"], "include_dirs": ["a"]}, "d/i.gypi": {"includes": ["e/j.gypi"], "include_dirs": ["i"]},
                             "d/e/j.gypi": {"includes": ["../../k.gypi"], "include_dirs": ["j"]}, "k.gypi": {"include_dirs": ["k"]}})
    case("one file included from two places", {"a.gyp": {"targets": [t(includes=["d/i.gypi"]), t("u", includes=["d/i.gypi"])], "includes": ["d/j.gypi"]},
                                               "d/i.gypi": {"x": ["i"], "include_dirs": ["i"], "d": {"k": [{"m": ["n"]}]}}, "d/j.gypi": {"includes": ["i.gypi"], "y": ["j"]}})
    case("one file included by two build files", {"a.gyp": {"includes": ["d/i.gypi"], "x": ["a"], "targets": [t(dependencies=["b/b.gyp:u"])]},
                                                  "b/b.gyp": {"includes": ["../d/i.gypi"], "x": ["b"], "targets": [t("u")]}, "d/i.gypi": {"x": ["i"], "include_dirs": ["i"], "d": {"k": ["z"]}}})
    case("includes in a list in a list", {"a.gyp": {"targets": [t(conditions=[["c", {"includes": ["i.gypi"], "x": ["c"]}, {"x": ["e"], "includes": ["j.gypi"]}]])],
                                                    "conditions": [["c", {"includes": ["j.gypi"]}]]}, **two})
    case("includes in nested sections", {"a.gyp": {"target_defaults": {"includes": ["i.gypi"], "configurations": {"D": {"includes": ["j.gypi"]}}}, "targets": [t(), t("u", x=["u"])]}, **two})
    case("a file that skips its includes", {"a.gyp": {"skip_includes": 1, "x": ["a"], "includes": ["i.gypi"], "targets": [t(x=["t"])]}, **two}, includes=["j.gypi"])
    case("a file that does not skip its includes", {"a.gyp": {"skip_includes": 0, "x": ["a"], "includes": ["i.gypi"], "targets": [t(x=["t"])]}, **two}, includes=["j.gypi"])
    case("sections the generator calls paths", {"a.gyp": {"includes": ["d/i.gypi"], "gen": ["a"]}, "d/i.gypi": {"gen": ["i"], "oth": ["i"]}}, path_sections=["gen"])
    case("included files of a file", {"s/a.gyp": {"includes": ["i.gypi", "../j.gypi"], "targets": [t(includes=["d/k.gypi"])]}, "s/i.gypi": {"includes": ["l.gypi"]}, "s/l.gypi": {}, "j.gypi": {"includes": ["s/l.gypi"]},
                                      "s/d/k.gypi": {}, "g.gypi": {}}, "included files", start=("s/a.gyp",), includes=["g.gypi"])
    case("included files of files in different directories", {"a.gyp": {"includes": ["i.gypi"], "targets": [t(dependencies=["d/b.gyp:u"])]}, "d/b.gyp": {"includes": ["../i.gypi"], "targets": [t("u")]}, "i.gypi": {"includes": ["j.gypi"]}, "j.gypi": {}},
         "included files")
    case("an include in an untaken condition", {"a.gyp": {"conditions": [["0", {"includes": ["i.gypi"]}]]}, **two}, "included files")


def errors(c, p, ob):
    def case(what, files, **kw):
        compare(c, p, ob, "L2", what, "errors", files, **kw)
    case("a build file that does not exist", {})
    case("a second build file that does not exist", {"a.gyp": {}}, start=("a.gyp", "b.gyp"))
    case("an include that does not exist", {"a.gyp": {"includes": ["i.gypi"]}})
    case("a command line include that does not exist", {"a.gyp": {}}, includes=["i.gypi"])
    case("a nested include that does not exist", {"a.gyp": {"targets": [t(includes=["i.gypi"])]}})
    case("an include of an include that does not exist", {"a.gyp": {"includes": ["i.gypi"]}, "i.gypi": {"includes": ["j.gypi"]}})
    case("a dependency's file that does not exist", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}})
    for bad in ([], ["x"], "text", 1):
        case(f"a build file that is {bad!r}", {"a.gyp": bad})
        case(f"an include that is {bad!r}", {"a.gyp": {"includes": ["i.gypi"]}, "i.gypi": bad})
        case(f"a dependency's file that is {bad!r}", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": bad})
    case("a build file that cannot be evaluated", {"a.gyp": Gone()})
    case("an include that cannot be evaluated", {"a.gyp": {"includes": ["i.gypi"]}, "i.gypi": Gone()})
    case("a dependency's file that cannot be evaluated", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": Gone()})
    case("a file that lists its included files itself", {"a.gyp": {"included_files": []}})
    case("a file with defaults but no targets", {"a.gyp": {"target_defaults": {"x": ["d"]}}})
    case("an included file with defaults for a file without targets", {"a.gyp": {"includes": ["i.gypi"]}, "i.gypi": {"target_defaults": {}}})
    case("an include that contradicts the file", {"a.gyp": {"includes": ["i.gypi"], "x": ["a"]}, "i.gypi": {"x": {"a": "b"}}})
    bad = {"includes": ["i.gypi"], "x": ["a"]}
    contra = {"i.gypi": {"x": {"a": "b"}}}
    case("an include that contradicts another", {"a.gyp": {"includes": ["k.gypi"]}, "k.gypi": bad, **contra})
    case("an include that contradicts a target", {"a.gyp": {"targets": [t(**bad)]}, **contra})
    case("an include that contradicts a second build file", {"a.gyp": {"targets": [t("s")]}, "b.gyp": {"targets": [t("u")], **bad}, **contra}, start=("a.gyp", "b.gyp"))
    case("an include that contradicts a dependency's file", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [t("u")], **bad}, **contra})
    case("a second build file that lists its included files itself", {"a.gyp": {"targets": [t("s")]}, "b.gyp": {"targets": [t("u", toolset="target")], "included_files": []}}, start=("a.gyp", "b.gyp"))
    case("a dependency's file that lists its included files itself", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [t("u")], "included_files": []}})
    case("a dependency's file with a dependency on a file that contradicts its defaults", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [t("u", dependencies=["c.gyp:v"])]},
                                                                                          "c.gyp": {"target_defaults": {"x": "d"}, "targets": [t("v"), t("w", x=["w"])]}})
    case("defaults that contradict a target", {"a.gyp": {"target_defaults": {"x": "d"}, "targets": [t(x=["t"])]}})


def defaults(c, p, ob):
    def case(what, files, **kw):
        compare(c, p, ob, "L3", what, "defaults", files, **kw)
    d = {"x": ["d"], "v": "d", "w": "d", "n": {"k": ["d"], "l": [{"q": ["z"]}]}, "include_dirs": ["d"]}
    case("defaults and targets", {"a.gyp": {"target_defaults": d, "targets": [t(x=["t"], v="t", n={"k": ["t"]}, include_dirs=["t"]), t("u", y=["u"]), t("w", x=["w"])]}})
    case("defaults for a file without targets in its list", {"a.gyp": {"target_defaults": d, "targets": []}})
    case("empty defaults", {"a.gyp": {"target_defaults": {}, "targets": [t(x=["t"])]}})
    case("defaults of an included file", {"d/a.gyp": {"includes": ["../i.gypi"], "target_defaults": {"x": ["o"]}, "targets": [t(x=["t"]), t("u")]}, "i.gypi": {"target_defaults": d}}, start=("d/a.gyp",))
    case("defaults that a condition adds", {"a.gyp": {"when_early": {"target_defaults": d}, "targets": [t(x=["t"]), t("u")]}})
    case("targets that a condition adds", {"a.gyp": {"when_early": {"targets": [t(x=["t"]), t("u")]}, "target_defaults": d}})
    case("defaults do not reach other files", {"a.gyp": {"target_defaults": d, "targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [t("u", x=["u"])]}})
    case("each file's own defaults", {"a.gyp": {"target_defaults": d, "targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"target_defaults": {"x": ["e"]}, "targets": [t("u", x=["u"])]}})
    case("defaults with dependencies", {"a.gyp": {"target_defaults": {"dependencies": ["b.gyp:u"]}, "targets": [t("v"), t("w")]}, "b.gyp": {"targets": [t("u", x=["u"])]}})
    # every target has its own copy of the defaults
    f = {"a.gyp": {"target_defaults": {"x": ["d"], "n": {"k": ["d"]}}, "targets": [t(), t("u")], "includes": []}}
    case("defaults and toolsets", {"a.gyp": {"target_defaults": d, "targets": [t(toolsets=["host", "target"], x=["t"]), t("u", toolsets=["host"])]}}, multi=True)
    case("defaults, no include", f)


def toolsets(c, p, ob):
    def case(what, files, **kw):
        compare(c, p, ob, "L4", what, "toolsets", files, **kw)
    for multi in (True, False):
        m = "" if multi else " (generator with one toolset)"
        for ts in (["target"], ["host"], ["host", "target"], ["target", "host", "extra"]):
            case(f"targets with the toolsets {ts}{m}", {"a.gyp": {"targets": [t(toolsets=ts, x=["t"], n={"k": [1]}), t("u")]}}, multi=multi)
        case(f"a target without toolsets{m}", {"a.gyp": {"targets": [t()]}}, multi=multi)
        case(f"a target with a toolset{m}", {"a.gyp": {"targets": [t(toolset="host"), t("u", toolset="target")]}}, multi=multi)
        case(f"a target with an empty list of toolsets{m}", {"a.gyp": {"targets": [t(toolsets=[]), t("u", toolsets=["target"])]}}, multi=multi)
        case(f"toolsets of targets that a condition adds{m}", {"a.gyp": {"when_early": {"targets": [t(toolsets=["host", "target"]), t("u")]}}}, multi=multi)
        case(f"toolsets of targets in conditions{m}", {"a.gyp": {"targets": [t()], "conditions": [["c", {"targets": [t("u", toolsets=["host", "target"])]}, {"targets": [t("v")]}],
                                                                                                 ["d", {"conditions": [["e", {"targets": [t("w", toolsets=["host"])]}]]}]]}}, multi=multi)
        case(f"toolsets of a dependency's file{m}", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"], toolsets=["target"])]}, "b.gyp": {"targets": [t("u", toolsets=["target", "host"], x=["a"])]}}, multi=multi)


def dependencies(c, p, ob):
    def case(what, files, **kw):
        rs = compare(c, p, ob, "L5", what, "dependencies", files, **kw)
        depth = kw.get("depth", ".")
        for r in rs or ():
            reads = [x[1] for x in r[3] if x[0] == "read"]
            ob("L5", len(reads) == len(set(reads)), what + ": each file is read once", str(reads), "read once")
            early = [x for x in r[3] if x[0] == "expand" and x[2] in files and x[1] == r[3][[y[0] for y in r[3]].index("expand")][1]]
            fs = [x[2] for x in early]
            ob("L5", sorted(fs) == sorted(reference(files, kw.get("start", ("a.gyp",)), **{k: v for k, v in kw.items() if k != "start"})),
               what + ": every build file is processed once", str(fs), "processed once")
            for x in early:
                w = rel(depth, posixpath.dirname(x[2])) or "."
                ob("L5", x[3] == w and x[4] == "1", f"{what}: DEPTH is {w} in {x[2]}", f"{x[3]}, given {x[4]}", "DEPTH")
    u = {"targets": [t("u")]}
    for ds in (".", "d", ".."):
        case(f"files in several directories with the depth {ds}", {"a.gyp": {"targets": [t(dependencies=["d/b.gyp:u", "e.gyp:u"])]}, "d/b.gyp": {"targets": [t("u", dependencies=["f/c.gyp:u", "../e.gyp:u"])]},
                                                                   "d/f/c.gyp": u, "e.gyp": u}, depth=ds)
    case("files that depend on each other", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u"]), t("s")]}, "b.gyp": {"targets": [t("u", dependencies=["a.gyp:s"])]}})
    case("several names for a file", {"a.gyp": {"targets": [t(dependencies=["d/../b.gyp:u", "./b.gyp:v"])]}, "b.gyp": {"targets": [t("u"), t("v")]}})
    case("several build files", {"a.gyp": {"targets": [t("s")]}, "b.gyp": {"targets": [t("v", dependencies=["a.gyp:s"])]}}, start=("a.gyp", "./b.gyp", "d/../a.gyp", "b.gyp"))
    case("dependencies for other toolsets", {"a.gyp": {"targets": [t(dependencies=["b.gyp:u#host"])]}, "b.gyp": {"targets": [t("u", toolsets=["host"])]}}, multi=True)
    case("all targets of a file", {"a.gyp": {"targets": [t(dependencies=["b.gyp:*"])]}, "b.gyp": u})
    case("dependencies that a condition adds", {"a.gyp": {"when_early": {"targets": [t(dependencies=["b.gyp:u"])]}}, "b.gyp": u})
    case("dependencies of an included file", {"a.gyp": {"targets": [t(includes=["d/i.gypi"])]}, "d/i.gypi": {"dependencies": ["b.gyp:u"]}, "b.gyp": u})
    case("a file without targets", {"a.gyp": {"x": ["a"]}})
    case("a file that both is included and a dependency", {"a.gyp": {"includes": ["i.gypi"], "targets": [t(dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [t("u")], "includes": ["i.gypi"]}, "i.gypi": {"x": ["i"]}})


def phases(c, p, ob):
    files = {"a.gyp": {"targets": [t("s", dependencies=["d/b.gyp:u"]), t("v")]}, "d/b.gyp": {"targets": [t("u")]}}
    rs = p.load(files, multi=True)
    what = "the phases of loading"
    if not rs or any(r[0] != "return" for r in rs):
        return ob("L7", False, what, outcome(rs), "phases")
    vals = {n: phase(c, n) for n in ("PHASE_EARLY", "PHASE_LATE", "PHASE_LATELATE")}
    for r in rs:
        ev, order = r[3], r[2]
        ob("L7", sorted(order) == ["a.gyp:s#target", "a.gyp:v#target", "d/b.gyp:u#target"], what, f"targets {order}", "phases")
        early = [i for i, x in enumerate(ev) if x[0] == "expand" and x[1] == vals["PHASE_EARLY"]]
        late = [x for x in ev if x[0] == "expand" and x[1] == vals["PHASE_LATE"]]
        ob("L7", len(early) == len(files) and len(late) == len(order), what, f"{len(early)} files and {len(late)} targets are expanded", "phases")
        for q in order:
            f, n = q.split(":")[0], q.split(":")[1].split("#")[0]
            mine = []
            for i, x in enumerate(ev):
                if x[0] == "expand" and x[1] != vals["PHASE_EARLY"] and x[2] == f and f"'target_name': '{n}'" in x[5]:
                    mine.append(("late" if x[1] == vals["PHASE_LATE"] else "latelate", i))
                elif x[0] == "filter" and x[1] == q:
                    mine.append(("filter", i))
                elif x[0] in STUBS and x[1] == q:
                    mine.append((x[0], i))
            seq = [m for m, _ in mine]
            want = ["late", "SetUpConfigurations", "filter", "latelate"]
            ob("L7", seq[:4] == want, f"{q} passes late expansion, configurations, filters and final expansion in this order", str(seq), "phases")
            ob("L7", sorted(seq[4:]) == sorted(STUBS[1:5]), f"{q} is validated", str(seq), "phases")
            ob("L7", not mine or not early or max(early) < mine[0][1], f"{q} is expanded after all files were loaded", str(seq), "phases")
            for x in ev:
                if x[0] in STUBS[1:5] and x[1] == q:
                    ob("L7", f"'target_name': '{n}'" in str(x[2]), f"{q} is validated with its own settings", str(x)[:200], "phases")
                if x[0] in STUBS[3:5] and x[1] == q and len(x) > 3:
                    ob("L7", x[3] == f, f"{q} is validated for its own file", str(x[3]), "phases")
                if x[0] == "ValidateRulesInTarget" and x[1] == q:
                    ob("L7", "extra" in str(x[3:]), f"{q}: sources lists of the generator are looked at by rules", str(x[3:]), "phases")
        last = [i for i, x in enumerate(ev) if x[0] == "TurnIntIntoStrInDict"]
        ob("L7", len(last) == 1 and last[0] == len(ev) - 1 and set(files) <= set(parsed(ev[last[0]][1])),
           "numbers become strings at the end, in everything", str(last), "phases")


def phase(c, name):
    v = module_const(c, "gyp.input", name)
    return v[1] if v is not None and v[0] == "c" else name


def parsed(text):
    try:
        return pyast.literal_eval(text)
    except (ValueError, SyntaxError):
        return {}


def checked(c, p, ob):
    files = {"a.gyp": {"includes": ["i.gypi"], "targets": [t(dependencies=["b.gyp:u"])]}, "i.gypi": {"x": ["i"]}, "b.gyp": {"targets": [t("u")]}}
    for chk in (True, False):
        rs = p.load(files, check=chk)
        for r in rs:
            got = sorted({x[1] for x in r[3] if x[0] == "checked"}) if r[0] == "return" else None
            ob("L8", got == (sorted(files) if chk else []), "every file is checked" if chk else "files are not checked unless asked to", str(got), "checked")


SAMPLES = (
    ("{'a': 'b', 'c': ['d', {'e': 'f'}, []], 'g': {}}", True), ("{'a': {'a': 'b'}, 'b': {'a': ['a', {'a': 'c'}]}}", True), ("{}", True),
    ("{'a': 'b', 'a': 'b'}", False), ("{'a': 'b', 'c': 'd', 'a': ['e']}", False), ("{'x': {'a': 'b', 'a': 'c'}}", False),
    ("{'x': ['y', {'a': 'b', 'c': 'd', 'a': {}}]}", False), ("{'x': [['y', [{'z': [{'a': 'b', 'a': 'b'}]}]]]}", False), ("{'x': 'y', 'z': {'w': {'a': {}, 'a': {}}}}", False),
    ("{'a': f('b')}", False), ("{'a': [x]}", False), ("{f(): 'a'}", False), ("{'a': 'b'}\n{'c': 'd'}", False))


def evaluator(c, p, ob):
    """The evaluation of checked build files itself, on syntax trees."""
    f = func(c, "gyp.input", "CheckedEval")
    if f is None:
        return
    for text, good in SAMPLES:
        nodes = [None] + list(pyast.walk(pyast.parse(text)))
        ids = {id(n): i for i, n in enumerate(nodes)}

        def term(v):
            if isinstance(v, pyast.AST):
                return ("astn", ids[id(v)]) if id(v) in ids else ("astn", 0)
            if isinstance(v, list):
                return ("list", tuple(term(x) for x in v))
            return ("c", v)

        def kinds(v):
            if v[0] != "astn":
                return ()
            x = nodes[v[1]]
            return {y.__name__ for y in type(x).__mro__} | ({"Str"} if isinstance(x, pyast.Constant) and isinstance(x.value, str) else set())

        def model(op, t):
            if op == "value" and t[0] == "a" and t[1][0] == "astn":
                x = nodes[t[1][1]]
                nm = "value" if t[2] == "s" else t[2]
                return term(getattr(x, nm)) if hasattr(x, nm) else RAISE
            if op in ("call", "exec"):
                cal, a = (t[1], t[2]) if op == "call" else t[:2]
                if cal == ("a", ("mod", "ast"), "parse"):
                    return term(nodes[1])
                if cal == ("glob", "isinstance") and len(a) == 2 and a[0][0] in ("astn", "c", "list"):
                    ts = a[1][1] if a[1][0] == "tuple" else (a[1],)
                    if all(x[0] == "a" and x[1] == ("mod", "ast") for x in ts):
                        return ("c", any(x[2] in kinds(a[0]) for x in ts))
            return None
        e = Inter.of(c, f, model, maxstates=100000)
        h = {("param", q.id): ("c", text) for q, _, _ in f.params[:1]}
        try:
            rs = e.run(h)
        except Blowup:
            rs = []
        c.states += e.count
        if good:
            want = pyast.literal_eval(text)
            got = [plain(e, s.get(("v", "r", "$ret"), NONE), s) if k == "return" else "an error" for k, _, s in rs]
            ob("L8", bool(rs) and all(g == want for g in got), f"{text} is evaluated to what it says", str(got)[:200], "evaluated")
        else:
            ob("L8", bool(rs) and all(k == "raise" for k, _, _ in rs), f"{text!r} is an error when checked", f"{[k for k, _, _ in rs]}", "repeated keys")
