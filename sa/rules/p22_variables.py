"""Variables in build files: scopes, phases and expansion."""
import itertools

from ..ccp import Blowup
from ..cfg import show
from ..match import *
from ..pyccp import PyCCP, RAISE, TOP, dc, lst, sym
from .pycommon import *

ID = "P22"
EXPLANATION = (
    "Conditional constant propagation of variable processing over its supergraph with symbolic values on an abstract heap: "
    "every expansion, condition and recursion is recorded together with the contents of the scope it sees and compared to "
    "the scoping rules; expansion itself is decided for every reference form, value kind and phase.")
NONE = ("c", None)
REC = ("ProcessVariablesAndConditionsInDict", "ProcessVariablesAndConditionsInList", "ExpandVariables", "ProcessConditionsInDict")
HEAVY = REC + ("EvalCondition", "MergeDicts", "ProcessListFiltersInDict", "FindEnclosingBracketGroup")


def graph(c, f, keep=HEAVY):
    return c.graph(f, lambda fn, d: fn.module is f.module and fn is not f and fn.name not in keep and d < 5)


class Model:
    """Records calls of the mutually recursive functions with snapshots of their scope."""

    def __init__(self, params, expand=None, conditions=None):
        self.params, self.expand, self.conditions = params, expand or {}, conditions

    def __call__(self, op, t):
        if op == "value" and t[0] == "param":
            return self.params.get(t[1])
        if op == "exec":
            c, args, s, e, n = t
            if c[0] == "fn" and c[1].name in REC:
                s["fx"] = s.get("fx", ()) + ((n.id, c, tuple(e.deep(a, s) if a[0] == "new" else a for a in args), args[:1]),)
                if c[1].name == "ExpandVariables":
                    return self.expand.get(args[0], TOP)
                if c[1].name == "ProcessConditionsInDict" and self.conditions:
                    self.conditions(args, s, e)
                return NONE


def run(c, g, model, init, rule, loc, stop=()):
    e = PyCCP(g, model)
    try:
        rs = e.run(init, stop)
    except Blowup:
        c.ob(rule, loc, False, "the function is decided", "too many abstract states")
        rs = []
    c.states += e.count
    return e, rs


def as_map(t):
    """A scope; raw names of defaults cannot be referred to."""
    if t[0] != "dict":
        return None
    m = {k[1] if k[0] == "c" else k: v for k, v in t[1]}
    return {k: v for k, v in m.items() if not (isinstance(k, str) and k.endswith("%"))}


def check(c):
    c.rule("V1", "every string is expanded and every nested dictionary and list processed, with the variables of its scope")
    c.rule("V2", "a scope does not influence the scopes around it")
    c.rule("V3", "a variable marked as default is set only where it is not set otherwise")
    c.rule("V4", "lists are expanded element by element, in place")
    c.rule("V5", "a reference is replaced by the value of its variable; an unknown variable is an error")
    c.rule("V6", "each phase expands exactly its own references")
    c.rule("V7", "text is turned into an integer exactly if it is the canonical form of one")
    dicts(c)
    defaults(c)
    lists(c)
    expansion(c)
    phases(c)
    canonical(c)


def dicts(c):
    f = func(c, "gyp.input", "ProcessVariablesAndConditionsInDict")
    if f is None:
        return c.ob("V1", ("gyp/pylib/gyp/input.py", 1), False, "variable processing exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    S = {x: sym(x, "str") for x in ("s1", "s2", "x1", "x2", "t1", "g", "v1", "w1", "q")}
    PH = ("c", 0)
    for withvars in (True, False):
        for cond in (True, False):
            items = [("s1", S["s1"]), ("n", ("c", 5)), ("l", ("new", "l")), ("d", ("new", "d")), ("s2", S["s2"])]
            if withvars:
                items.insert(2, ("variables", ("new", "vars")))
            init = {("F", "this"): dc(items), ("F", "l"): lst(S["q"]), ("F", "d"): dc([("y", S["q"])]),
                    ("F", "in"): dc([("g", S["g"])])}
            if withvars:
                init[("F", "vars")] = dc([("v1", S["v1"]), ("dv%", S["q"]), ("g%", S["q"])])

            def conditions(args, s, e, cond=cond, withvars=withvars):
                if not cond:
                    return
                d = s[("F", "this")]
                s[("F", "this")] = e.put(d, ("c", "s1"), S["t1"], s)
                if withvars:
                    s[("F", "vars")] = e.put(s[("F", "vars")], ("c", "v1"), S["w1"], s)
            m = Model({pn[0]: ("new", "this"), pn[1]: PH, pn[2]: ("new", "in")}, {S["s1"]: S["x1"], S["s2"]: S["x2"]}, conditions)
            m.params[pn[4]] = NONE
            e, rs = run(c, g, m, init, "V1", f.loc)
            c.ob("V1", f.loc, bool(rs) and all(k == "return" for k, _, _ in rs), "dictionaries are processed without an error")

            def scope(*pairs):
                d = {"g": S["g"], "_n": ("c", 5), "_l": lst(S["q"])}
                d.update(pairs)
                return d
            for kind, _, s in rs:
                if kind != "return":
                    continue
                fx = s.get("fx", ())
                seen = {}
                names = []
                for nid, cal, args, first in fx:
                    loc = g.nodes[nid].loc
                    vs = as_map(args[2]) if len(args) > 2 else None
                    nm = cal[1].name
                    what = first[0]
                    names.append((nm, what))
                    c.ob("V1", loc, len(args) > 3 and args[1] == PH and args[3] == ("param", pn[3]), "the phase and the file are passed on", key=f"pass {nm}")
                    if nm == "ExpandVariables":
                        want = scope(("_s2", S["s2"]), ("_s1", S["s1"]))
                        alt = scope(("_s2", S["s2"]), ("_s1", S["x1"]))
                        if withvars:
                            for w in (want, alt):
                                w.update(v1=S["v1"], dv=S["q"])
                        c.ob("V1", loc, vs in (want, alt), "strings are expanded with the automatic and local variables",
                             differ(vs, want), key="expand scope")
                    elif nm == "ProcessConditionsInDict":
                        want = scope(("_s1", S["x1"]), ("_s2", S["x2"]))
                        if withvars:
                            want.update(v1=S["v1"], dv=S["q"])
                        c.ob("V1", loc, vs == want and what == ("new", "this"), "conditions see the expanded values", differ(vs, want), key="condition scope")
                    elif what == ("new", "vars"):
                        want = scope(("_s1", S["s1"]), ("_s2", S["s2"]), ("v1", S["v1"]))
                        got = dict(vs or {})
                        c.ob("V1", loc, got == want, "local variables can refer to each other", differ(got, want), key="variables scope")
                        c.ob("V3", loc, len(args) > 4 and args[4] == ("c", "variables"), "a variables section knows that it is one", key="variables key")
                    else:
                        want = scope(("_s1", S["t1"] if cond else S["x1"]), ("_s2", S["x2"]))
                        if withvars:
                            want.update(v1=S["w1"] if cond else S["v1"], dv=S["q"])
                        c.ob("V1", loc, vs == want, "nested sections see the values after the conditions", differ(vs, want), key="nested scope")
                want = [("ExpandVariables", S["s1"]), ("ExpandVariables", S["s2"]), ("ProcessConditionsInDict", ("new", "this")),
                        ("ProcessVariablesAndConditionsInList", ("new", "l")), ("ProcessVariablesAndConditionsInDict", ("new", "d"))]
                if withvars:
                    want.insert(0, ("ProcessVariablesAndConditionsInDict", ("new", "vars")))
                c.ob("V1", f.loc, names == want, "variables, strings, conditions and nested sections are processed in this order, each once",
                     f"the order is {[a + ' ' + show(b)[:20] for a, b in names]}", key="order")
                d = as_map(s[("F", "this")])
                c.ob("V1", f.loc, d.get("s1") == (S["t1"] if cond else S["x1"]) and d.get("s2") == S["x2"], "expanded strings replace the original ones", key="stored")
                c.ob("V2", f.loc, s[("F", "in")] == dc([("g", S["g"])]), "the surrounding scope is unchanged", f"it became {show(s[('F', 'in')])[:120]}", key="outer")
    # what an expansion may yield
    for k, ok in (("int", True), ("list", False), ("str", True)):
        init = {("F", "this"): dc([("s1", S["s1"])]), ("F", "in"): dc([])}
        m = Model({pn[0]: ("new", "this"), pn[1]: PH, pn[2]: ("new", "in"), pn[4]: NONE}, {S["s1"]: sym("r", k)})
        e, rs = run(c, g, m, init, "V1", f.loc)
        c.ob("V1", f.loc, bool(rs) and all((x == "return") == ok for x, _, _ in rs), f"an expansion to a {k} is {'used' if ok else 'an error'} as value of a key", key=f"type {k}")
    for v in (("c", ""), ("c", 0), ("c", "0x")):
        init = {("F", "this"): dc([("s1", S["s1"])]), ("F", "in"): dc([])}
        m = Model({pn[0]: ("new", "this"), pn[1]: PH, pn[2]: ("new", "in"), pn[4]: NONE}, {S["s1"]: v})
        e, rs = run(c, g, m, init, "V1", f.loc)
        c.ob("V1", f.loc, bool(rs) and all(x == "return" and as_map(s[("F", "this")]).get("s1") == v for x, _, s in rs),
             f"a string that expands to {v[1]!r} becomes that", key="expands to empty")
    for k in ("bytes", "float"):
        init = {("F", "this"): dc([("s1", sym("v", k))]), ("F", "in"): dc([])}
        m = Model({pn[0]: ("new", "this"), pn[1]: PH, pn[2]: ("new", "in"), pn[4]: NONE})
        e, rs = run(c, g, m, init, "V1", f.loc)
        c.ob("V1", f.loc, bool(rs) and all(x == "raise" for x, _, _ in rs), f"a value that is a {k} is an error", key=f"kind {k}")


def differ(a, b):
    if a is None:
        return "the scope is unknown"
    out = [f"{k} is {show(a[k])[:30] if k in a else 'missing'} instead of {show(b[k])[:30] if k in b else 'absent'}" for k in sorted(set(a) | set(b), key=str)
           if a.get(k) != b.get(k)]
    return "; ".join(out)[:200]


def defaults(c):
    f = func(c, "gyp.input", "ProcessVariablesAndConditionsInDict")
    g = graph(c, f) if f is not None else None
    if g is None:
        return
    pn = [p[0].id for p in f.params]
    for outer in (True, False):           # set in an enclosing scope
        for sibling in (True, False):     # set without % in the dictionary itself
            for key in ("variables", "other", None):
                # this = { variables: { x%: D }, [x: B], d: {} }
                D, B, O = sym("D", "str"), sym("B", "str"), sym("O", "str")
                items = [("variables", ("new", "vars")), ("d", ("new", "d"))] + ([("x", B)] if sibling else [])
                init = {("F", "this"): dc(items), ("F", "vars"): dc([("x%", D)]), ("F", "d"): dc([]),
                        ("F", "in"): dc([("x", O)] if outer else [])}
                m = Model({pn[0]: ("new", "this"), pn[1]: ("c", 0), pn[2]: ("new", "in"), pn[4]: ("c", key)}, {B: B})
                e, rs = run(c, g, m, init, "V3", f.loc)
                want = O if outer else B if sibling and key == "variables" else D
                for kind, _, s in rs:
                    for nid, cal, args, first in s.get("fx", ()):
                        if first[0] == ("new", "d"):
                            vs = as_map(args[2])
                            c.ob("V3", f.loc, vs is not None and vs.get("x") == want,
                                 f"a default is used only where the variable is not set (outer {outer}, own {sibling}, section {key})",
                                 f"the variable is {show(vs['x']) if vs and 'x' in vs else 'missing'} instead of {show(want)}", key="default")
                c.ob("V3", f.loc, bool(rs), "defaults are decided", key="decided")


def lists(c):
    f = func(c, "gyp.input", "ProcessVariablesAndConditionsInList")
    if f is None:
        return c.ob("V4", ("gyp/pylib/gyp/input.py", 1), False, "the processing of lists exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    forms = {"str": (sym("a", "str"), [sym("xa", "str")]), "num": (sym("b", "str"), [sym("xb", "int")]),
             "many": (sym("m", "str"), [sym("m1", "str"), sym("m2", "str")]), "none": (sym("z", "str"), []),
             "int": (sym("i", "int"), [sym("i", "int")]), "dict": (("new", "d"), [("new", "d")]), "list": (("new", "l"), [("new", "l")])}
    res = {"str": sym("xa", "str"), "num": sym("xb", "int")}
    n = bad = 0
    for k in range(0, 4):
        for combo in itertools.product(forms, repeat=k):
            if len(set(combo)) < len(combo) and k > 2:
                continue
            init = {("F", "L"): lst(*[forms[x][0] for x in combo]), ("F", "d"): dc([]), ("F", "l"): lst(), ("F", "many"): lst(*forms["many"][1]),
                    ("F", "none"): lst()}
            ex = {forms["str"][0]: res["str"], forms["num"][0]: res["num"], forms["many"][0]: ("new", "many"), forms["none"][0]: ("new", "none")}
            m = Model({pn[0]: ("new", "L")}, ex)
            e, rs = run(c, g, m, init, "V4", f.loc)
            want = lst(*[y for x in combo for y in forms[x][1]])
            calls = [("ExpandVariables", forms[x][0]) if x in ("str", "num", "many", "none") else
                     ("ProcessVariablesAndConditionsIn" + ("Dict" if x == "dict" else "List"), forms[x][0]) for x in combo if x != "int"]
            n += 1
            ok = bool(rs)
            got = None
            for kind, _, s in rs:
                got = s.get(("F", "L"))
                fx = [(cal[1].name, first[0]) for _, cal, args, first in s.get("fx", ())]
                pas = all(tuple(args[1:4]) == tuple(("param", x) for x in pn[1:4]) for _, cal, args, _ in s.get("fx", ()))
                ok = ok and kind == "return" and got == want and fx == calls and pas
            if not ok:
                bad += 1
                if bad <= 3:
                    c.ob("V4", f.loc, False, "a list is expanded element by element", f"a list of {list(combo)} becomes {show(got)[:100] if got else None}", key="list")
    c.ob("V4", f.loc, bad == 0, f"lists are expanded element by element in all {n} cases", key="list")
    for k in ("dict", "bytes"):
        init = {("F", "L"): lst(sym("a", "str"))}
        e, rs = run(c, g, Model({pn[0]: ("new", "L")}, {sym("a", "str"): sym("r", k)}), init, "V4", f.loc)
        c.ob("V4", f.loc, bool(rs) and all(x == "raise" for x, _, _ in rs), f"an expansion to a {k} is an error")


REF = [("sym", "match0"), ("sym", "match1")]


class Refs:
    """Expansion of a text with references at known positions."""

    def __init__(self, c, f, text, refs, types, values, names, phase, stable=True):
        self.f = f
        self.pn = [p[0].id for p in f.params]
        self.text, self.refs, self.types, self.values, self.names, self.phase = text, refs, types, values, names, phase
        self.rx = []

    def __call__(self, op, t):
        pn = self.pn
        if op == "value" and t[0] == "param":
            return {pn[0]: ("c", self.text), pn[1]: self.phase, pn[2]: ("new", "vars")}.get(t[1])
        if op == "notnull" and t[0] == "sym":
            return True
        if op == "eq" and {t[0][0], t[1][0]} == {"c", "cat"}:
            return False  # values are not the text of their own reference
        if op == "truth" and t[0] == "sym" and t[1].startswith("match"):
            return True
        if op == "call":
            c, a = t[1], t[2]
            if c[0] == "a" and c[2] == "finditer":
                self.rx.append(c[1])
                return ("list", tuple(REF[:len(self.refs)])) if a and a[0] == ("c", self.text) else ("list", ())
            if c[0] == "a" and c[1] in REF:
                i = REF.index(c[1])
                b, e2 = self.refs[i]
                if c[2] == "groupdict":
                    return dc([("replace", ("c", self.text[b:e2])), ("type", ("c", self.types[i])), ("command_string", NONE),
                               ("is_array", ("c", "")), ("content", ("c", self.names[i]))])
                if c[2] == "group" and len(a) == 1 and a[0][0] == "c":
                    return dict((k[1], v) for k, v in self("call", ("call", ("a", c[1], "groupdict"), (), ()))[1]).get(a[0][1])
                if c[2] in ("start", "end") and a == (("c", "replace"),):
                    return ("c", b if c[2] == "start" else e2)
                if c[2] == "span" and a == (("c", "replace"),):
                    return ("tuple", (("c", b), ("c", e2)))
            if c[0] == "a" and c[2] == "strip" and a == () and c[1][0] == "c":
                return ("c", c[1][1].strip())
            if c[0] == "a" and c[2] in ("strip",):
                return c[1]
            if c[0] == "fn" and c[1].name == "IsStrCanonicalInt":
                try:
                    return ("c", a[0][0] == "c" and isinstance(a[0][1], str) and str(int(a[0][1])) == a[0][1])
                except ValueError:
                    return ("c", False)
            if c == ("glob", "str") and a and a[0][0] == "sym" and len(a[0]) > 2 and a[0][2] == "int":
                return ("sym", "str:" + a[0][1], "str")
            if c[0] == "fn" and c[1].name == "EncodePOSIXShellList":
                return ("sym", "shell", "str", a[0])
            if c == ("a", ("mod", "shlex"), "split"):
                return lst(("sym", "split", "str", a[0]))
        if op == "exec":
            c, args, s, e, n = t
            if c[0] == "fn" and c[1].name == "FindEnclosingBracketGroup":
                a = args[0]
                if a[0] == "c":
                    b = a[1].index("(")
                    return ("tuple", (("c", b), ("c", a[1].index(")") + 1)))
                if a[0] == "cat" and a[1][0][0] == "c" and ")" in a[1][0][1]:
                    return ("tuple", (("c", a[1][0][1].index("(")), ("c", a[1][0][1].index(")") + 1)))
                return TOP
            if c[0] == "fn" and c[1].name == "EncodePOSIXShellList":
                return ("sym", "shell", "str", e.deep(args[0], s))
            if c[0] == "fn" and c[1].name in REC:
                s["fx"] = s.get("fx", ()) + ((n.id, c, tuple(e.deep(a, s) if a[0] == "new" else a for a in args), args[:3]),)
                if c[1].name == "ExpandVariables":
                    return ("sym", "again", "str", args[0]) if args[0][0] != "c" or args[0][1] not in self.names else args[0]
                return NONE


def expansion(c):
    f = func(c, "gyp.input", "ExpandVariables")
    if f is None:
        return c.ob("V5", ("gyp/pylib/gyp/input.py", 1), False, "the expansion of variables exists")
    g = graph(c, f, HEAVY + ("EncodePOSIXShellList", "IsStrCanonicalInt"))
    X, Y = sym("X", "str"), sym("Y", "str")
    ITEMS = lst(sym("i0", "str"), sym("i1", "int"))

    def go(text, refs, types, names, values, phase=("c", 0)):
        m = Refs(c, f, text, refs, types, values, names, phase)
        init = {("F", "vars"): dc(list(values.items()))}
        for k, v in values.items():
            if v == ("new", "vlist"):
                init[("F", "vlist")] = ITEMS
        return run(c, g, m, init, "V5", f.loc) + (m,)

    def again(t):
        return ("sym", "again", "str", t)
    # two references in one text
    e, rs, m = go("p<(x)q<(y)r", ((1, 5), (6, 10)), ("<", "<"), ("x", "y"), {"x": X, "y": Y})
    want = ("cat", (("c", "p"), X, ("c", "q"), Y, ("c", "r")))
    got = [s.get(("v", "r", "$ret"), NONE) if k == "return" else None for k, _, s in rs]
    c.ob("V5", f.loc, bool(got) and all(x == again(want) for x in got), "each reference is replaced by the value of its variable",
         f"p<(x)q<(y)r becomes {[show(x)[:100] if x else 'an error' for x in got]}", key="two")
    # kinds of values
    for nm, v, w in (("str", X, X), ("int", sym("N", "int"), ("sym", "str:N", "str")), ("list", ("new", "vlist"), ("sym", "shell", "str", ITEMS))):
        e, rs, m = go("p<(x)", ((1, 5),), ("<",), ("x",), {"x": v})
        got = [s.get(("v", "r", "$ret"), NONE) if k == "return" else None for k, _, s in rs]
        c.ob("V5", f.loc, bool(got) and all(x == again(("cat", (("c", "p"), w))) for x in got), f"a {nm} value is inserted as text",
             f"{[show(x)[:100] if x else 'an error' for x in got]}", key=f"text {nm}")
        # whole text, list context
        e, rs, m = go("<@(x)", ((0, 5),), ("<@",), ("x",), {"x": v})
        for k, _, s in rs:
            r = s.get(("v", "r", "$ret"), NONE)
            d = e.deep(r, s)
            split = lst(again(("sym", "split", "str", w)))
            ex = lst(*[again(i) for i in ITEMS[1]]) if nm == "list" else split
            c.ob("V5", f.loc, k == "return" and d == ex, f"a {nm} value is inserted as list in list context", f"{show(d)[:140]}", key=f"list {nm}")
            if nm == "list":
                c.ob("V2", f.loc, r != ("new", "vlist") and s[("F", "vlist")] == ITEMS, "a list that is expanded is a copy of the variable's", key="alias")
        e, rs, m = go("p<@(x)", ((1, 6),), ("<@",), ("x",), {"x": v})
        got = [s.get(("v", "r", "$ret"), NONE) if k == "return" else None for k, _, s in rs]
        c.ob("V5", f.loc, bool(got) and all(x == again(("cat", (("c", "p"), w))) for x in got),
             f"a {nm} value next to other text stays text", f"{[show(x)[:100] if x else 'an error' for x in got]}", key=f"mixed {nm}")
    # lists are themselves expanded with the same scope before use
    e, rs, m = go("p<(x)", ((1, 5),), ("<",), ("x",), {"x": ("new", "vlist")})
    for k, _, s in rs:
        fx = [(x[1][1].name, x[3][:1]) for x in s.get("fx", ())]
        c.ob("V5", f.loc, ("ProcessVariablesAndConditionsInList", (("new", "vlist"),)) in fx, "references inside list values are expanded")
    # bad values
    for nm, v in (("dict", sym("D", "dict")), ("float", sym("D", "float"))):
        e, rs, m = go("p<(x)", ((1, 5),), ("<",), ("x",), {"x": v})
        c.ob("V5", f.loc, bool(rs) and all(k == "raise" for k, _, _ in rs), f"a variable that is a {nm} is an error")
    for name in ("zz", "zz+", "zz=", "zz%", "zz?", "_zz", "zz!", "zz/"):
        e, rs, m = go(f"p<({name})", ((1, 4 + len(name)),), ("<",), (name,), {"x": X})
        kinds = {k for k, _, _ in rs}
        if name[-1] not in "!/":
            c.ob("V5", f.loc, kinds == {"raise"} and all(gyperr(s) for _, _, s in rs), "an unknown variable is an error", key="unknown")
        else:
            got = [s.get(("v", "r", "$ret"), NONE) for k, _, s in rs if k == "return"]
            c.ob("V5", f.loc, kinds == {"return"} and all(x == again(("cat", (("c", "p"), ("sym", "shell", "str", lst())))) for x in got),
                 f"an undefined list modifier is an empty list", f"{kinds} {[show(x)[:80] for x in got]}", key="modifier")
    for k, _, s in rs:
        pass
    # the scope is not changed
    e, rs, m = go("p<(x)q<(y)r", ((1, 5), (6, 10)), ("<", "<"), ("x", "y"), {"x": X, "y": Y})
    for k, _, s in rs:
        c.ob("V2", f.loc, s[("F", "vars")] == dc([("x", X), ("y", Y)]), "expansion does not change variables", key="pure")
        for nid, cal, args, raw in s.get("fx", ()):
            if cal[1].name == "ExpandVariables":
                pn = m.pn
                c.ob("V5", g.nodes[nid].loc, len(args) > 3 and raw[2] == ("new", "vars") and args[1] == ("c", 0) and args[3] == ("param", pn[3]),
                     "nested references are expanded in the same scope and phase", key="nested")


def gyperr(s):
    from ..pyccp import exc_name
    return exc_name(s.get("exc", NONE)) == "GypError"


PHASES = (("PHASE_EARLY", "<"), ("PHASE_LATE", ">"), ("PHASE_LATELATE", "^"))


def phases(c):
    f = func(c, "gyp.input", "ExpandVariables")
    if f is None:
        return
    g = graph(c, f, HEAVY + ("EncodePOSIXShellList", "IsStrCanonicalInt"))
    for p, ch in PHASES:
        vs = c.py.module_value("gyp.input", p)
        ph = next(iter(vs)) if len(vs) == 1 else NONE
        X = sym("X", "str")
        for other in "<>^":
            text = f"p{other}(x)"
            m = Refs(c, f, text, ((1, 5),), (other,), {}, ("x",), ph)
            e, rs = run(c, g, m, {("F", "vars"): dc([("x", X)])}, "V6", f.loc)
            for k, _, s in rs:
                r = s.get(("v", "r", "$ret"), NONE)
                if other != ch:
                    c.ob("V6", f.loc, k == "return" and (r == ("c", text) or pat_chars(c, m) == {ch}), f"{p} leaves {other} references alone",
                         f"{k} {show(r)[:60]}", key=f"{p} {other}")
                else:
                    c.ob("V6", f.loc, k == "return" and r == ("sym", "again", "str", ("cat", (("c", "p"), X))) and pat_chars(c, m) == {ch},
                         f"{p} expands {other} references", f"{k} {show(r)[:60]} with a pattern for {pat_chars(c, m)}", key=f"{p} {other}")
            c.ob("V6", f.loc, bool(rs), "the phase is decided")
        # plain text is untouched
        m = Refs(c, f, "plain", (), (), {}, (), ph)
        e, rs = run(c, g, m, {("F", "vars"): dc([])}, "V6", f.loc)
        c.ob("V6", f.loc, bool(rs) and all(k == "return" and s.get(("v", "r", "$ret")) == ("c", "plain") for k, _, s in rs), "plain text stays as it is", key="plain")
        for text, val in (("17", 17), ("-3", -3), ("0", 0), ("017", "017")):
            m = Refs(c, f, text, (), (), {}, (), ph)
            e, rs = run(c, g, m, {("F", "vars"): dc([])}, "V6", f.loc)
            c.ob("V7", f.loc, bool(rs) and all(k == "return" and s.get(("v", "r", "$ret")) == ("c", val) for k, _, s in rs), f"{text} becomes {val!r}", key="int")


def pat_chars(c, m):
    """The leading characters the phase's patterns match."""
    import re
    out = set()
    for t in m.rx:
        p = None
        if t[0] == "v" or t[0] == "glob":
            vs = c.py.module_value("gyp.input", t[2] if t[0] == "v" else t[1].split(":")[-1])
            t = next(iter(vs)) if len(vs) == 1 else t
        if t[0] == "call" and t[2] and t[2][0][0] == "c":
            p = t[2][0][1]
        elif t[0] == "regex":
            p = t[1]
        if p is None:
            return {"?"}
        try:
            r = re.compile(p)
        except re.error:
            return {"?"}
        for ch in "<>^":
            if r.search(f"{ch}(x)"):
                out.add(ch)
        if not all(r.search(f"{x}{y}(x)") for x in out for y in ("", "@", "!", "!@", "|")):
            return {"?"}
        for x in out:
            mm = r.search(f"{x}!@(x)")
            if mm.group("type") != x + "!@" or mm.group("content") != "x":
                return {"?"}
    return out


def canonical(c):
    f = func(c, "gyp.input", "IsStrCanonicalInt")
    if f is None:
        return c.ob("V7", ("gyp/pylib/gyp/input.py", 1), False, "the test for canonical integers exists")
    g = graph(c, f)
    p = f.params[0][0].id
    for v in ("", "0", "-", "-0", "5", "05", "-5", "+5", "5a", " 5", "5 ", "1_0", "10", "-10", "--1", "1.0", "0x1", "\u00b2", "1\u00b2", "1\u0663", "\u0661", "-1\u00b2", 5, None):
        def ok_int(x):
            if not isinstance(x, str):
                return False
            try:
                return str(int(x)) == x
            except ValueError:
                return False
        e, rs = run(c, g, lambda op, t: ("c", v) if op == "value" and t == ("param", p) else None, {}, "V7", f.loc)
        got = [e.truth(s.get(("v", "r", "$ret"), NONE), s) if k == "return" else "error" for k, _, s in rs]
        c.ob("V7", f.loc, bool(got) and all(x == ok_int(v) for x in got), f"{v!r} is {'' if ok_int(v) else 'not '}a canonical integer", f"{got}", key=f"canonical {v!r}")
