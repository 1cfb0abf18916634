"""Merging of dictionaries, lists and paths; configurations."""
import itertools
import re

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter
from ..match import *
from ..pyccp import PyCCP, RAISE, TOP, dc, lst, sym
from .pycommon import *

ID = "P23"
EXPLANATION = (
    "Conditional constant propagation of dictionary merging, list merging, path rebasing and the set-up of configurations "
    "over their supergraphs on an abstract heap, for every combination of list policy, existing value, item class and "
    "direction; object identities on the abstract heap decide that merged values are copies.")
NONE = ("c", None)
I = ("gyp/pylib/gyp/input.py", 1)
KEEP = ("MergeDicts", "MergeLists", "MakePathRelative", "IsPathSection", "MergeConfigWithInheritance")


def graph(c, f, keep=KEEP):
    return c.graph(f, lambda fn, d: fn.module is f.module and fn is not f and fn.name not in keep and d < 5)


def run(c, g, model, init, rule, loc, stop=()):
    e = PyCCP(g, model)
    try:
        rs = e.run(init, stop)
    except Blowup:
        c.ob(rule, loc, False, "the function is decided", "too many abstract states")
        rs = []
    c.states += e.count
    return e, rs


def check(c):
    c.rule("M1", "list policies: none appends, + prepends, = replaces, ? sets only what is unset; conflicts are errors")
    c.rule("M2", "list items are added once, in order, flags always, at the right end")
    c.rule("M3", "merged dictionaries and lists are copies")
    c.rule("M4", "relative paths are rebased from the file they come from to the file they go to, exactly in path sections")
    c.rule("M5", "configurations contain the target's settings, their parents' and their own, in this order")
    dicts(c)
    lists(c)
    paths(c)
    sections(c)
    configs(c)
    deep(c)


def dicts(c):
    f = func(c, "gyp.input", "MergeDicts")
    if f is None:
        return c.ob("M1", I, False, "merging of dictionaries exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    OLD = {"str": sym("old", "str"), "int": sym("oldint", "int"), "list": ("new", "oldl"), "dict": ("new", "oldd")}
    VAL = {"str": sym("val", "str"), "int": sym("valint", "int"), "list": ("new", "vall"), "dict": ("new", "vald"), "float": sym("valf", "float")}

    def go(to, fro, path=False):
        calls = []

        def model(op, t):
            if op == "value" and t[0] == "param":
                return {pn[0]: ("new", "to"), pn[1]: ("new", "fro")}.get(t[1])
            if op == "call" and t[1][0] == "fn" and t[1][1].name == "IsPathSection":
                return ("c", path)
            if op == "exec":
                cal, args, s, e, n = t
                if cal[0] != "fn" or cal[1].name not in KEEP:
                    return None
                nm = cal[1].name
                if nm == "IsPathSection":
                    s["fx"] = s.get("fx", ()) + ((nm, args),)
                    return ("c", path)
                if nm == "MakePathRelative":
                    return ("sym", "rebased", "str", args)
                s["fx"] = s.get("fx", ()) + ((nm, args + tuple(v for _, v in sorted((k, e.ev(v, s)) for k, v in n.kw))),
                                            )
                d = s[("F", "to")]
                s["snap"] = e.deep(args[0], s)
                return NONE
        init = {("F", "to"): dc(to), ("F", "fro"): dc(fro), ("F", "oldl"): lst(sym("o", "str")), ("F", "oldd"): dc([("a", sym("o", "str"))]),
                ("F", "vall"): lst(sym("n", "str")), ("F", "vall2"): lst(sym("n2", "str")), ("F", "vald"): dc([("b", sym("n", "str"))])}
        return run(c, g, model, init, "M1", f.loc)
    FILES = (("param", pn[2]), ("param", pn[3]))
    n = bad = 0

    def result(ok, what, why, rule="M1", key=None):
        nonlocal n, bad
        n += 1
        if not ok:
            bad += 1
        if not ok or n % 25 == 1:
            c.ob(rule, f.loc, ok, what, why, key=key or what[:40])
    # scalars
    for old in (None, "str", "int", "list", "dict"):
        for val in ("str", "int"):
            for path in (False, True):
                e, rs = go([("k", OLD[old])] if old else [], [("k", VAL[val])], path)
                want = "raise" if old in ("list", "dict") else "set"
                for k, _, s in rs:
                    v = dict_get(s[("F", "to")], "k")
                    exp = ("sym", "rebased", "str", FILES + (VAL[val],)) if path else VAL[val]
                    ok = k == "raise" if want == "raise" else k == "return" and v == exp
                    result(ok, f"a {val} merged onto {old or 'nothing'} {'is an error' if want == 'raise' else 'replaces it'}", f"{k} {show(v)[:60] if v else None}", key="scalar")
                result(bool(rs), "scalars are decided", "")
    # dictionaries
    for old in (None, "str", "list", "dict"):
        e, rs = go([("k", OLD[old])] if old else [], [("k", VAL["dict"])])
        for k, _, s in rs:
            v = dict_get(s[("F", "to")], "k")
            fx = [x for x in s.get("fx", ()) if x[0] == "MergeDicts"]
            if old in ("str", "list"):
                result(k == "raise", f"a dictionary merged onto a {old} is an error", k)
            else:
                ok = k == "return" and v is not None and v[0] == "new" and len(fx) == 1 and fx[0][1] == (v, VAL["dict"]) + FILES and \
                    (v == OLD["dict"] if old else e.fields(v, s) == dc([]))
                result(ok, f"a dictionary is merged into the {'existing' if old else 'new'} one", f"{k} {v}", key="dict")
                result(v != VAL["dict"], "a merged dictionary is a copy", "the dictionary is shared", "M3")
        result(bool(rs), "dictionaries are decided", "")
    # lists
    for ext in ("", "=", "+", "?"):
        for old in (None, "str", "dict", "list"):
            for path in (False, True):
                e, rs = go([("k", OLD[old])] if old else [], [("k" + ext, VAL["list"])], path)
                for k, _, s in rs:
                    v = dict_get(s[("F", "to")], "k")
                    fx = [x for x in s.get("fx", ()) if x[0] == "MergeLists"]
                    ask = [x[1][0] for x in s.get("fx", ()) if x[0] == "IsPathSection"]
                    what = f"the policy {ext or 'append'} on {old or 'nothing'}"
                    if ext == "?" and old:
                        result(k == "return" and not fx and v == OLD[old], what + " leaves it alone", f"{k} {show(v)[:40] if v else v}", key=what)
                        continue
                    if old in ("str", "dict") and ext != "=":
                        result(k == "raise", what + " is an error", k, key=what)
                        continue
                    if old in ("str", "dict"):
                        result(k == "raise" or v is not None and v[0] == "new" and v[1] not in ("oldd", "vall"), what + " replaces it or is an error", k, key=what)
                        continue
                    ok = k == "return" and len(fx) == 1 and v is not None and v[0] == "new" and v != VAL["list"] and \
                        fx[0][1][:4] == (v, VAL["list"]) + FILES and \
                        fx[0][1][4:] == (("c", path), ("c", ext != "+")) and s.get("snap") == (lst(sym("o", "str")) if old and ext != "=" else lst())
                    if old and ext == "=":
                        # the replaced list may still be used elsewhere
                        ok = ok and s[("F", "oldl")] == lst(sym("o", "str"))
                    result(ok, what + " merges the list", f"{k}: merges into {show(s.get('snap', NONE))[:40]} as {[show(x)[:20] for x in fx[0][1][4:]] if fx else 'nothing'}", key=what)
                    result(v != VAL["list"], "a merged list is a copy", "the list is shared", "M3")
                    c.ob("M4", f.loc, ("c", "k") in ask or ("c", "k" + ext) in ask, "a list is a path list by the name of its section", key="ask")
                result(bool(rs), "lists are decided", "")
    # several policies
    for a, b in itertools.permutations(("", "=", "+", "?"), 2):
        e, rs = go([], [("k" + a, VAL["list"]), ("k" + b, ("new", "vall2"))])
        okpair = {a, b} == {"", "+"}
        for k, _, s in rs:
            if okpair:
                fx = [x for x in s.get("fx", ()) if x[0] == "MergeLists"]
                result(k == "return" and len(fx) == 2 or k == "raise" and False, f"appending and prepending together is allowed", k, key="pair ok")
            else:
                result(k == "raise", f"the policies {a or 'append'} and {b or 'append'} together are an error", k, key=f"pair {a} {b}")
        result(bool(rs), "policy pairs are decided", "")
    e, rs = go([], [("k", VAL["float"])])
    result(bool(rs) and all(k == "raise" for k, _, _ in rs), "a value of an unsupported type is an error", "")
    # all keys are merged
    e, rs = go([("z", sym("z", "str"))], [("k1", sym("a", "str")), ("k2", VAL["list"]), ("k3", VAL["dict"]), ("k4", sym("b", "int"))])
    for k, _, s in rs:
        keys = {x[1] for x, _ in s[("F", "to")][1]}
        result(k == "return" and keys == {"z", "k1", "k2", "k3", "k4"}, "all keys are merged and none lost", f"{keys}")
        result(s[("F", "fro")] == dc([("k1", sym("a", "str")), ("k2", VAL["list"]), ("k3", VAL["dict"]), ("k4", sym("b", "int"))]), "the merged dictionary is unchanged", "", "M3")
    c.ob("M1", f.loc, bad == 0, f"dictionaries merge as specified in all {n} cases", key="all")


def spec_lists(to, fro, append, rb):
    to = list(to)
    pre = 0
    for kind, x in fro:
        y = rb(x) if kind in ("str", "int", "flag") else ("copy", x)
        single = kind in ("str", "int")
        if append:
            if not single or y not in to:
                to.append(y)
        else:
            while single and y in to:
                if to.index(y) < pre:
                    pre -= 1
                to.remove(y)
            to.insert(pre, y)
            pre += 1
    return to


def lists(c):
    f = func(c, "gyp.input", "MergeLists")
    if f is None:
        return c.ob("M2", I, False, "merging of lists exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    A, B, N, FL = sym("a", "str"), sym("b", "str"), sym("n", "int"), sym("-f", "str")
    D, L = ("new", "d"), ("new", "l")
    items = {"a": ("str", A), "b": ("str", B), "n": ("int", N), "f": ("flag", FL), "d": ("dict", D), "l": ("list", L)}
    tos = [(), ("a",), ("b",), ("a", "b"), ("b", "a"), ("f",), ("n", "b")]
    FILES = (("param", pn[2]), ("param", pn[3]))
    n = bad = 0
    for append in (True, False):
        for path in (True, False):
            def rb(x):
                return ("sym", "R" + x[1], x[2]) if path and x[0] == "sym" else x
            for k in range(0, 4):
                for combo in itertools.product(items, repeat=k):
                    if k == 3 and (len(set(combo)) == 3 and "d" in combo and "l" in combo or combo.count("f") > 1):
                        continue
                    for to in tos:
                        if k == 3 and (len(to) > 1 and not append or append and to not in ((), ("a",))):
                            if to not in (("b", "a"),):
                                continue
                        T = [rb(items[x][1]) for x in to]

                        def model(op, t):
                            if op == "value" and t[0] == "param":
                                return {pn[0]: ("new", "to"), pn[1]: ("new", "fro"), pn[4]: ("c", path), pn[5]: ("c", append)}.get(t[1])
                            if op == "call" and t[1][0] == "a" and t[1][2] == "startswith" and t[1][1][0] == "sym" and t[2] == (("c", "-"),):
                                return ("c", t[1][1][1] in ("-f", "R-f"))
                            if op == "value" and t[0] == "i" and t[1][0] == "sym" and len(t[1]) > 2 and t[1][2] == "str" and t[2] in (
                                    ("c", 0), ("op", "slice", NONE, ("c", 1), NONE), ("op", "slice", ("c", 0), ("c", 1), NONE)):
                                return ("c", "-") if t[1][1] in ("-f", "R-f") else ("c", "x")
                            if op == "exec":
                                cal, args, s, e, nn = t
                                if cal[0] == "fn" and cal[1].name == "MakePathRelative":
                                    return ("sym", "R" + args[2][1], args[2][2]) if args[:2] == FILES and args[2][0] == "sym" and not args[2][1].startswith("R") else TOP
                                if cal[0] == "fn" and cal[1].name in ("MergeDicts", "MergeLists"):
                                    o, src = args[0], args[1]
                                    want = {"MergeDicts": D, "MergeLists": L}[cal[1].name]
                                    empty = {"MergeDicts": ("dict", ()), "MergeLists": ("list", ())}[cal[1].name]
                                    if o[0] == "new" and s.get(("F", o[1])) == empty and src == want and args[2:4] == FILES and len(args) == 4:
                                        s[("F", o[1])] = ("unk", "copy", src)
                                        return NONE
                                    return TOP
                        init = {("F", "to"): lst(*T), ("F", "fro"): lst(*[items[x][1] for x in combo]), ("F", "d"): dc([]), ("F", "l"): lst()}
                        e, rs = run(c, g, model, init, "M2", f.loc)
                        want = spec_lists(T, [items[x] for x in combo], append, rb)
                        n += 1
                        ok = bool(rs)
                        got = None
                        for kind, _, s in rs:
                            q = s.get(("F", "to"), TOP)
                            got = [("copy", s[("F", x[1])][2]) if x[0] == "new" and s.get(("F", x[1]), TOP)[:2] == ("unk", "copy") else x for x in q[1]] \
                                if q[0] == "list" else None
                            ok = ok and kind == "return" and got == want and s[("F", "fro")] == init[("F", "fro")]
                            if q[0] == "list":
                                objs = [x for x in q[1] if x[0] == "new"]
                                if any(x in (D, L) for x in objs) or len(set(objs)) < len(objs):
                                    c.ob("M3", f.loc, False, "dictionaries and lists inside lists are copied", key="item copy")
                        if not ok:
                            bad += 1
                            if bad <= 3:
                                c.ob("M2", f.loc, False, "lists are merged item by item",
                                     f"{'appending' if append else 'prepending'} {list(combo)} to {list(to)}{' as paths' if path else ''} gives "
                                     f"{[show(x)[:20] if x[0] != 'copy' else 'copy' for x in got] if got is not None else 'nothing decided'}", key="items")
    c.ob("M2", f.loc, bad == 0, f"lists are merged item by item in all {n} cases", key="items")
    c.ob("M3", f.loc, True, "dictionaries and lists inside lists are copied", key="item copy")


def paths(c):
    f = func(c, "gyp.input", "MakePathRelative")
    if f is None:
        return c.ob("M4", I, False, "rebasing of paths exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    T, F, P = sym("tofile", "str"), sym("frofile", "str"), sym("item", "str")
    rx = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[2] in ("match", "search", "fullmatch")]

    def tail(x):
        """The path operations behind a rebased value, with the trailing slash."""
        slash = False
        if x[0] == "cat" and x[1][-1] == ("c", "/") and len(x[1]) == 2:
            slash, x = True, x[1][0]
        return x, slash

    def good(x):
        x, _ = tail(x)
        if x[0] == "call" and x[1][0] == "a" and x[1][2] == "replace" and x[2] == (("c", "\\"), ("c", "/")):
            x = x[1][1]
        elif x[0] == "sym" and x[1] == "slashed":
            x = x[2]
        else:
            return False
        if not is_os(x, "normpath") or len(x[2]) != 1:
            return False
        x = x[2][0]
        if not is_os(x, "join") or len(x[2]) != 2:
            return False
        r, it = x[2]
        d = lambda y: ("call", ("a", ("a", ("mod", "os"), "path"), "dirname"), (y,), ())
        return it == P and r[0] == "call" and r[1][0] == "fn" and r[1][1].name == "RelativePath" and r[2][:2] == (d(F), d(T))

    def is_os(x, nm):
        return x[0] == "call" and x[1] == ("a", ("a", ("mod", "os"), "path"), nm)
    for same in (True, False):
        for exc in (True, False):
            for slash in (True, False):
                def model(op, t):
                    if op == "value" and t[0] == "param":
                        return {pn[0]: T, pn[1]: F, pn[2]: P}.get(t[1])
                    if op == "eq" and set(t) == {T, F}:
                        return same
                    if op == "call" and t[1][0] == "a" and t[1][2] in ("match", "search", "fullmatch"):
                        return ("c", True) if exc else NONE
                    if op == "call" and t[1] == ("a", P, "endswith"):
                        return ("c", slash and t[2] == (("c", "/"),))
                    if op == "call" and t[1] == ("a", P, "startswith"):
                        return ("c", exc)
                    if op == "call" and t[1][0] == "fn" and t[1][1].name == "RelativePath":
                        return t
                e, rs = run(c, g, model, {}, "M4", f.loc)
                for k, _, s in rs:
                    v = s.get(("v", "r", "$ret"), NONE)
                    if same or exc:
                        c.ob("M4", f.loc, k == "return" and v == P, "absolute paths, flags, references and paths of the same file stay as they are", f"{k} {show(v)[:100]}", key=f"as is {same} {exc}")
                    else:
                        c.ob("M4", f.loc, k == "return" and good(v) and tail(v)[1] == slash,
                             "a relative path is rebased between the directories of the two files, keeping a trailing slash", f"{k} {show(v)[:140]}", key=f"rebase {slash}")
                c.ob("M4", f.loc, bool(rs), "rebasing is decided")
    # the pattern of exceptions
    pats = set()
    for n in rx:
        o = n.callee[1]
        for v in g.values(n, o, 6):
            v = g.expand(v, 6)
            if v[0] == "v":
                vs = c.py.module_value("gyp.input", v[2])
                v = next(iter(vs)) if len(vs) == 1 else v
            if v[0] == "glob" and ":" in v[1]:
                vs = c.py.module_value("gyp.input", v[1].split(":")[-1])
                v = next(iter(vs)) if len(vs) == 1 else v
            if v == ("mod", "re"):
                a = g.one(n.args[0], n)
                v = ("call", ("a", v, "compile"), (a,), ())
            pats.add(v[2][0][1] if v[0] == "call" and v[2] and v[2][0][0] == "c" else None)
    if rx:
        for pat in pats:
            for text, exc in (("/abs", 1), ("$(X)/a", 1), ("-lfoo", 1), ("<(x)", 1), (">(x)", 1), ("^(x)", 1), ('"/abs"', 1), ("'$(X)'", 1), ('"-l"', 1),
                              ("a", 0), ("a/b", 0), ("../a", 0), ("./a", 0), ("a-b", 0), ("a$b", 0), ('"a"', 0), ("", 0), ("1", 0), ("@a", 0), ("=a", 0), ("a/-b", 0)):
                ok = pat is not None and bool(re.match(pat, text)) == bool(exc)
                c.ob("M4", f.loc, ok, f"{text} is {'not ' if exc else ''}a relative path", key=f"exception {text}")


PATHS = ("destination", "files", "include_dirs", "inputs", "libraries", "outputs", "sources")


def sections(c):
    f = func(c, "gyp.input", "IsPathSection")
    if f is None:
        return c.ob("M4", I, False, "the test for path sections exists")
    g = graph(c, f)
    p = f.params[0][0].id
    have = table(c, "base_path_sections")
    c.ob("M4", f.loc, set(PATHS) <= have, "the built-in path sections are known", f"missing {sorted(set(PATHS) - have)}")
    words = [(x, True) for x in PATHS] + [(x, False) for x in ("defines", "cflags", "type", "target_name", "ldflags", "dependencies", "rules", "conditions", "a", "")]
    words += [(f"x_{k}{s}", True) for k in ("dir", "file", "path") for s in ("", "s")]
    words += [(x, False) for x in ("dir", "files_x", "xdir", "x_dirx", "x_dirss", "_", "x_", "paths", "mydirs", "x_filed")]
    for w, isp in words:
        for suffix in ("", "=", "+", "?", "!", "/", "+!"):
            want = isp and suffix != "/"
            def model(op, t):
                if op == "value" and t == ("param", p):
                    return ("c", w + suffix)
                if op == "value" and t[0] in ("v", "glob") and str(t[-1]).split(":")[-1] == "path_sections":
                    return ("set", tuple(("c", x) for x in sorted(have)))
            e, rs = run(c, g, model, {}, "M4", f.loc)
            got = {e.truth(s.get(("v", "r", "$ret"), NONE), s) if k == "return" else "error" for k, _, s in rs}
            if w == "files" and False:
                continue
            c.ob("M4", f.loc, got == {want}, f"{w + suffix} is {'' if want else 'not '}a path section", f"{got}", key=f"section {w}{suffix}")


NONCONF = ("actions", "configurations", "copies", "default_configuration", "dependencies", "dependencies_original", "libraries", "postbuilds",
           "product_dir", "product_extension", "product_name", "product_prefix", "rules", "run_as", "sources", "standalone_static_library",
           "suppress_wildcard", "target_name", "toolset", "toolsets", "type", "variables")
INVALID = ("actions", "all_dependent_settings", "configurations", "dependencies", "direct_dependent_settings", "libraries", "link_settings", "sources",
           "standalone_static_library", "target_name", "type")


def table(c, name):
    return module_names(c, "gyp.input", name)


def configs(c):
    f = func(c, "gyp.input", "SetUpConfigurations")
    if f is None:
        return c.ob("M5", I, False, "the set-up of configurations exists")
    nc, ic = table(c, "base_non_configuration_keys"), table(c, "invalid_configuration_keys")
    c.ob("M5", f.loc, set(NONCONF) <= nc, "target settings are known", f"missing {sorted(set(NONCONF) - nc)}", key="tables")
    c.ob("M5", f.loc, set(INVALID) <= ic, "settings not allowed in configurations are known", f"missing {sorted(set(INVALID) - ic)}", key="tables2")
    # MergeConfigWithInheritance is recursive: decide one level at a time
    m = func(c, "gyp.input", "MergeConfigWithInheritance")
    if m is not None:
        g = graph(c, m, ("MergeDicts", "MergeConfigWithInheritance"))
        pn = [p[0].id for p in m.params]
        for visited in (True, False):
            for parents in (None, (), ("p1", "p2")):
                conf = [("a", sym("a", "str"))] + ([("inherit_from", lst(*[("c", x) for x in parents]))] if parents is not None else [])
                init = {("F", "new"): dc([("abstract", ("c", 1)), ("z", sym("z", "str"))]), ("F", "target"): dc([("configurations", ("new", "confs"))]),
                        ("F", "confs"): dc([("C", ("new", "conf"))]), ("F", "conf"): dc(conf), ("F", "vis"): lst(*([("c", "C")] if visited else [("c", "Q")]))}

                def model(op, t):
                    if op == "value" and t[0] == "param":
                        return {pn[0]: ("new", "new"), pn[2]: ("new", "target"), pn[3]: ("c", "C"), pn[4]: ("new", "vis")}.get(t[1])
                    if op == "exec":
                        cal, args, s, e, n = t
                        if cal[0] == "fn" and cal[1].name in ("MergeDicts", "MergeConfigWithInheritance"):
                            s["fx"] = s.get("fx", ()) + ((cal[1].name, tuple(e.deep(a, s) if i == 4 else a for i, a in enumerate(args))),)
                            return NONE
                e, rs = run(c, g, model, init, "M5", m.loc)
                B = ("param", pn[1])
                want = [] if visited else [("MergeConfigWithInheritance", (("new", "new"), B, ("new", "target"), ("c", x))) for x in parents or ()] + \
                    [("MergeDicts", (("new", "new"), ("new", "conf"), B, B))]
                for k, _, s in rs:
                    fx = [(nm, a[:4]) for nm, a in s.get("fx", ())]
                    c.ob("M5", m.loc, k == "return" and fx == want, "parents are merged in order, then the configuration itself, each once on a path",
                         f"{k} {[(nm, show(a[3] if nm.startswith('MergeC') else a[1])[:20]) for nm, a in fx]}", key=f"inherit {visited} {parents}")
                    for nm, a in s.get("fx", ()):
                        if nm == "MergeConfigWithInheritance":
                            v = a[4] if len(a) > 4 else NONE
                            c.ob("M5", m.loc, v[0] == "list" and ("c", "C") in v[1] and ("c", "Q") in v[1], "a cycle of configurations ends", key="visited")
                    if not visited and k == "return":
                        c.ob("M5", m.loc, dict_get(s[("F", "new")], "abstract") is None, "a merged configuration is not abstract")
                    c.ob("M5", m.loc, s.get(("F", "vis")) == init[("F", "vis")], "configurations inherited on other paths are not affected", key="visited list")
                c.ob("M5", m.loc, bool(rs), "inheritance is decided")
    g = graph(c, f, ("MergeDicts", "MergeConfigWithInheritance", "deepcopy"))
    pn = [p[0].id for p in f.params]
    INC = lst(sym("inc", "str"))
    for has_conf in (True, False):
        for has_def in (True, False):
            for bad in (None, "sources"):
                items = [("target_name", sym("tn", "str")), ("type", sym("ty", "str")), ("include_dirs", ("new", "inc")), ("sources", ("new", "src")),
                         ("sources!", ("new", "src")), ("defines+", ("new", "inc")), ("dependencies", ("new", "src"))]
                if has_conf:
                    items.append(("configurations", ("new", "confs")))
                if has_def:
                    items.append(("default_configuration", sym("def", "str")))
                confs = [("Release", ("new", "rel")), ("Base", ("new", "base")), ("Debug", ("new", "dbg"))]
                init = {("F", "t"): dc(items), ("F", "inc"): INC, ("F", "src"): lst(sym("s", "str")), ("F", "confs"): dc(confs),
                        ("F", "rel"): dc([("r", sym("r", "str"))]), ("F", "dbg"): dc([("d", sym("d", "str"))]), ("F", "base"): dc([("abstract", ("c", 1))])}

                def model(op, t):
                    if op == "value" and t[0] == "param":
                        return {pn[0]: sym("target", "str"), pn[1]: ("new", "t")}.get(t[1])
                    if op == "value" and t[0] in ("v", "glob") and str(t[-1]).split(":")[-1] == "non_configuration_keys":
                        return ("list", tuple(("c", x) for x in sorted(nc)))
                    if op == "exec":
                        cal, args, s, e, n = t
                        if cal[0] == "fn" and cal[1].name == "deepcopy" or cal[0] == "a" and cal[2] == "deepcopy":
                            return ("sym", "copy", "list", args[0])
                        if cal[0] == "fn" and cal[1].name == "MergeConfigWithInheritance":
                            s["fx"] = s.get("fx", ()) + ((e.deep(args[0], s), args[0], args[2], args[3]),)
                            o = args[0]
                            if o[0] == "new" and bad:
                                s[("F", o[1])] = e.put(s[("F", o[1])], ("c", bad), sym("bad", "str"), s)
                            return NONE
                e, rs = run(c, g, model, init, "M5", f.loc)
                for k, _, s in rs:
                    if bad:
                        c.ob("M5", f.loc, k == "raise", "a setting that is not allowed in a configuration is an error", k, key="invalid")
                        continue
                    want_names = ["Release", "Debug"] if has_conf else ["Default"]
                    fx = s.get("fx", ())
                    start = dc([("include_dirs", ("sym", "copy", "list", ("new", "inc"))), ("defines+", ("sym", "copy", "list", ("new", "inc")))])
                    okb = [x[0] for x in fx] == [start] * len(want_names) and [x[3] for x in fx] == [("c", x) for x in want_names] and all(x[2] == ("new", "t") for x in fx)
                    c.ob("M5", f.loc, k == "return" and okb, "each configuration starts as a copy of the target's settings",
                         f"{k} {[show(x[0])[:90] for x in fx]}", key="start")
                    if k != "return":
                        continue
                    t = s[("F", "t")]
                    keys = {x[1] for x, _ in t[1]}
                    c.ob("M5", f.loc, keys == {"target_name", "type", "sources", "sources!", "dependencies", "configurations", "default_configuration"},
                         "settings that moved into the configurations leave the target, the others stay", f"{sorted(keys)}", key="left")
                    if dict_get(t, "configurations") is None:
                        continue
                    cf = e.deep(dict_get(t, "configurations"), s)
                    c.ob("M5", f.loc, cf[0] == "dict" and sorted(x[1] for x, _ in cf[1]) == sorted(want_names), "abstract configurations are dropped, the others kept",
                         f"{show(cf)[:100]}", key="abstract")
                    raw = e.fields(dict_get(t, "configurations"), s)
                    objs = [v for _, v in raw[1]] if raw else []
                    c.ob("M5", f.loc, {x[1] for x in fx} == set(objs), "the merged configurations are the target's configurations", key="merged")
                    d = dict_get(t, "default_configuration")
                    c.ob("M5", f.loc, d == (sym("def", "str") if has_def else ("c", "Debug") if has_conf else ("c", "Default")), "the default configuration is the given or the first concrete one",
                         f"{show(d)[:60] if d else d}", key="default")
                c.ob("M5", f.loc, bool(rs), "configurations are decided")


def deep(c):
    """deepcopy shares nothing mutable."""
    m = c.py.mods.get("gyp.simple_copy")
    if m is None:
        return
    f = next((x for x in m.functions if x.name == "deepcopy" and x.cls is None), None)
    if not c.need("M3", [f] if f else [], "the copy function"):
        return
    model = lambda op, t: None  # noqa: E731
    base = Inter.load(c, "gyp.simple_copy", model)
    c.ob("M3", f.loc, base is not None, "the copying module has a definite state")
    shapes = [
        ("list", lst(sym("a", "str"), sym("b", "int"), ("c", None), ("new", "l"), ("new", "d"))),
        ("dictionary", dc([("k", sym("a", "str")), ("k2", ("new", "l")), ("k3", ("new", "d")), ("k4", sym("n", "int"))])),
    ]
    inner = {("F", "l"): lst(sym("c", "str"), ("new", "e")), ("F", "d"): dc([("q", ("new", "e2")), ("r", ("c", 1))]), ("F", "e"): lst(("c", 2)), ("F", "e2"): dc([])}

    def same(e, a, b, s, orig):
        """a is a copy of b that shares no mutable part"""
        fa, fb = e.fields(a, s), e.fields(b, s)
        if fa is None or fb is None:
            return a == b and fa is None and fb is None
        if a in orig or fa[0] != fb[0]:
            return False
        if fa[0] == "dict":
            return len(fa[1]) == len(fb[1]) and all(x[0] == y[0] and same(e, x[1], y[1], s, orig) for x, y in zip(fa[1], fb[1]))
        return len(fa[1]) == len(fb[1]) and all(same(e, x, y, s, orig) for x, y in zip(fa[1], fb[1]))

    for kind, src in shapes:
        e = Inter.of(c, f, model)
        init = {**(base or {}), **inner, ("F", "x"): src, ("param", f.params[0][0].id): ("new", "x")}
        orig = {("new", k) for k in ("x", "l", "d", "e", "e2")}
        try:
            rs = e.run(init)
        except Blowup:
            rs = []
        c.states += e.count
        c.ob("M3", f.loc, bool(rs), "copying is decided")
        for k, _, s in rs:
            got = s.get(("v", "r", "$ret"), NONE)
            kept = all(s[("F", x)] == v for x, v in {**inner, ("F", "x"): src}.items() for x in [x[1]])
            c.ob("M3", f.loc, k == "return" and same(e, got, ("new", "x"), s, orig) and kept, f"copying a {kind} copies all it contains",
                 f"{show(e.fields(got, s) or got)[:100]}")
