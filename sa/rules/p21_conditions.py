"""Conditions in build files."""
import itertools

from ..ccp import Blowup
from ..cfg import show
from ..match import *
from ..pyccp import PyCCP, RAISE, TOP, dc, lst, sym
from .pycommon import *

ID = "P21"
EXPLANATION = (
    "Conditional constant propagation of the condition evaluator over its supergraph for every shape of a condition list "
    "up to length six and every outcome of its expressions, with symbolic expressions, dictionaries and variables; the "
    "evaluation sites of build file text are enumerated and the names they expose are decided from their arguments.")
KEEP = ("EvalCondition", "EvalSingleCondition", "ProcessVariablesAndConditionsInDict", "MergeDicts", "ExpandVariables",
        "ProcessVariablesAndConditionsInList", "ProcessConditionsInDict")


def is_fn(c, name):
    return c[0] == "fn" and c[1].name == name


KINDS = {"E": "str", "D": "dict", "L": "list"}


def cond_spec(shape, truths):
    """What a condition list selects: ('raise',) or the selected dictionary (None: nothing)."""
    if len(shape) < 2:
        return "raise"
    i, sel, res = 0, 0, None
    while i < len(shape):
        if i + 1 >= len(shape) or shape[i + 1] != "D":
            return "raise"
        t = truths[i]
        if i + 2 < len(shape) and shape[i + 2] == "D":
            if i + 3 != len(shape):
                return "raise"
            r = i + 1 if t else i + 2
            n = i + 3
        else:
            r = i + 1 if t else None
            n = i + 2
        if res is None:
            res = r
        i = n
    return res


def exprs(shape):
    """Positions where an expression is expected, None when a dictionary stands there."""
    i, out = 0, []
    while i < len(shape):
        out.append(i)
        i += 3 if i + 2 < len(shape) and shape[i + 2] == "D" and shape[i + 1] == "D" else 2
    return out


def check(c):
    c.rule("C1", "text from build files is evaluated without access to Python's built-in functions")
    c.rule("C2", "a condition list selects the dictionary of its first expression that holds")
    c.rule("C3", "the true dictionary is chosen exactly if the expression holds for the current variables")
    c.rule("C4", "conditions are processed in their phase, once, in order, expanded before they are merged")
    c.rule("C5", "an expression that cannot be evaluated is an error")
    evals(c)
    lists(c)
    single(c)
    process(c)


def evals(c):
    sites = 0
    todo = [(f, 0) for f in {f: 1 for f, g, n, cal in c.flat_calls(c.py, lambda t, n, g: t in EVALS) if not f.module.path.endswith("_test.py")}]
    seen = set()
    for f, d in todo:
        if f in seen:
            continue
        seen.add(f)
        g = c.near(f)
        bad = None
        for n in g.calls():
            if g.callee(n) not in EVALS:
                continue
            sites += 1
            ok, vals = closed_eval(g, n)
            if ok:
                c.ob("C1", n.loc, True, "no built-in functions are available to evaluated text")
            else:
                bad = bad or (n, vals)
        if bad:
            up = [x for x in c.callers(f) if x is not f]
            if up and d < 4 and c.small(f):
                todo += [(x, d + 1) for x in up]  # a short function is judged where it is called
            else:
                c.ob("C1", bad[0].loc, False, "no built-in functions are available to evaluated text",
                     f"text is evaluated with the names of {[show(v)[:60] for v in bad[1]] or 'the module'}")
    c.need("C1", range(sites), "evaluation of build file text", ("gyp/pylib/gyp/input.py", 1))


EVALS = (("glob", "eval"), ("glob", "exec"))


def closed_eval(g, n):
    env = n.args[1] if len(n.args) > 1 else kwarg(n, "globals")
    vals = [g.expand(v, 8) for v in g.values(n, env, 8)] if env is not None else []

    def closed(v):
        if v[0] == "obj":
            v = g.content(v)
        b = dict_get(v, "__builtins__") if v[0] == "dict" else None
        if b is None:
            return False
        if b[0] == "obj":
            b = g.content(b)
        if b not in (("dict", ()), ("c", None)):
            return b[0] == "dict" and all(k is not None and k[0] == "c" and k[1] in ("True", "False", "None") for k, _ in b[1])
        return all(k is not None and k[0] == "c" and x[0] != "mod" for k, x in v[1])
    if vals and all(closed(v) for v in vals):
        return True, vals

    # only inside a command expansion, which may run anything anyway
    def flag(t, truth):
        return truth and t[0] == "op" and t[1] == "in" and t[2] == ("c", "!")
    em = memo(g, flag)

    def good(m, l):
        if em(m, l):
            return True
        if m.op != "branch" or l != "T":
            return False
        rs = g.resolve(m.term, m)
        return bool(rs) and all(implied(g.expand(r, 6), True, flag) for r in rs if r[0] != "undef")
    return not reachable(g, g.entry, n, good), vals


def run(c, g, model, init, rule, loc, stop=()):
    e = PyCCP(g, model)
    try:
        rs = e.run(init, stop)
    except Blowup:
        c.ob(rule, loc, False, "the function is decided", "too many abstract states")
        rs = []
    c.states += e.count
    return e, rs


def graph(c, f, keep=KEEP):
    return c.graph(f, lambda fn, d: fn.module is f.module and fn is not f and fn.name not in keep and d < 5)


def lists(c):
    f = func(c, "gyp.input", "EvalCondition")
    if f is None:
        return c.ob("C2", ("gyp/pylib/gyp/input.py", 1), False, "the evaluation of condition lists exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    n = bad = 0
    for k in range(0, 7):
        for shape in itertools.product("EDL" if k < 5 else "ED", repeat=k):
            if len(shape) and any(shape[i] != "E" for i in exprs(shape) if i < len(shape)):
                continue
            es = [i for i in exprs(shape) if i < len(shape)]
            for tv in itertools.product((True, False), repeat=len(es)):
                truths = dict(zip(es, tv))
                items = [sym(f"{x.lower()}{i}", KINDS[x]) for i, x in enumerate(shape)]
                want = cond_spec(shape, truths)
                args_ok = []

                def model(op, t):
                    if op == "value" and t == ("param", pn[0]):
                        return ("new", "cond")
                    if op == "value" and t == ("param", pn[1]):
                        return ("c", "conditions")
                    if op == "call" and is_fn(t[1], "EvalSingleCondition"):
                        a = t[2]
                        if a[0][0] != "sym" or a[0][2] != "str":
                            return TOP
                        args_ok.append(tuple(a[3:]) == tuple(("param", x) for x in pn[2:5]))
                        return a[1] if truths[int(a[0][1][1:])] else a[2]
                e, rs = run(c, g, model, {("F", "cond"): lst(*items)}, "C2", f.loc)
                n += 1
                ok = bool(rs) and all(args_ok)
                got = []
                for kind, _, s in rs:
                    if kind == "raise":
                        got.append("raise")
                    else:
                        v = s.get(("v", "r", "$ret"), ("c", None))
                        got.append(None if v == ("c", None) else int(v[1][1:]) if v[0] == "sym" else "?")
                ok = ok and all(x == want for x in got)
                if not ok:
                    bad += 1
                    if bad <= 3:
                        c.ob("C2", f.loc, False, "a condition list selects the right dictionary",
                             f"for a list of the form {''.join(shape)} with {[truths[i] for i in es]} the result is {got}, expected {want}", key="select")
    c.ob("C2", f.loc, bad == 0, f"condition lists select the right dictionary in all {n} cases", key="select")
    for kind in ("str", "dict"):
        def model(op, t):
            if op == "value" and t == ("param", pn[0]):
                return sym("cond", kind)
        _, rs = run(c, g, model, {}, "C2", f.loc)
        c.ob("C2", f.loc, bool(rs) and all(k == "raise" for k, _, _ in rs), f"a condition that is a {kind} is an error")


def single(c):
    f = func(c, "gyp.input", "EvalSingleCondition")
    if f is None:
        return c.ob("C3", ("gyp/pylib/gyp/input.py", 1), False, "the evaluation of single conditions exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    EXP = sym("expanded", "str")
    for exp in (EXP, sym("expandedint", "int")):
        STR = ("call", ("glob", "str"), (exp,), ())
        for outcome in (True, False, "NameError", "SyntaxError", "TypeError", "compile"):
            seen = []

            def model(op, t):
                if op == "call" and is_fn(t[1], "ExpandVariables"):
                    seen.append(("expand", t[2]))
                    return exp
                if op in ("call", "throws") and t[1] == ("glob", "compile"):
                    if op == "throws":
                        return "SyntaxError" if outcome == "compile" else None
                    return ("sym", "code") + t[2]
                if op in ("call", "throws") and t[1] == ("glob", "eval"):
                    if op == "throws":
                        return outcome if isinstance(outcome, str) and outcome != "compile" else None
                    return ("sym", "value")
                if op == "effect":
                    return t[1] == ("glob", "eval")
                if op == "truth" and t == ("sym", "value"):
                    return outcome if isinstance(outcome, bool) else None
            e, rs = run(c, g, model, {}, "C3", f.loc)
            for kind, _, s in rs:
                ev = [x for x in s.get("fx", ()) if x[1] == ("glob", "eval")]
                if isinstance(outcome, bool):
                    want = ("param", pn[1 if outcome else 2])
                    c.ob("C3", f.loc, kind == "return" and s.get(("v", "r", "$ret"), ("c", None)) == want and len(ev) >= 1,
                         f"the {'true' if outcome else 'false'} dictionary is chosen if the expression is {outcome}",
                         f"{kind} {show(s.get(('v', 'r', '$ret'), ('c', None)))[:60]} with {len(ev)} evaluations", key=f"choice {outcome}")
                elif outcome != "compile" or not ev:
                    c.ob("C5", f.loc, kind == "raise", f"an expression that cannot be evaluated ({outcome}) is an error")
                for x in ev:
                    a = x[2]
                    code = a[0]
                    txt = [y for y in subterms(code) if y in (exp, STR) or y[0] == "param"]
                    c.ob("C3", g.nodes[x[0]].loc, bool(txt) and all(y in (exp, STR) for y in txt),
                         "what is evaluated is the expanded expression", f"evaluated is {show(code)[:100]}", key="code")
                    vs = a[2] if len(a) > 2 else None
                    envs = [v for k, v in (e.fields(a[1], s) or ("dict", ()))[1]] if len(a) > 1 else []
                    c.ob("C3", g.nodes[x[0]].loc, vs == ("param", pn[4]) or vs is None and any(y == ("param", pn[4]) for v in envs for y in subterms(v)),
                         "the expression is evaluated with the current variables", key="vars")
                    if exp != EXP:
                        direct = [y for y in subterms(code) if y[0] == "sym" and y[1] == "code"]
                        c.ob("C5", g.nodes[x[0]].loc, all(y[2] != exp for y in direct), "an integer condition is compiled from its text",
                             "a condition that expands to an integer is handed to compile(), which accepts only text", key="int")
                for k, v in s.items():
                    if isinstance(k, tuple) and k[0] == "W" and v[0] == "sym" and v[1] == "code":
                        ks = [y for y in subterms(k[2]) if y in (exp, STR)]
                        c.ob("C3", f.loc, bool(ks) and v[2] in (exp, STR), "compiled conditions are remembered under their text",
                             f"compiled {show(v[2])[:50]} is remembered as {show(k[2])[:50]}", key="cache")
                    elif isinstance(k, tuple) and k[0] == "W" and str(k[1][1]).startswith("M:") and v[0] not in ("sym",):
                        c.ob("C3", f.loc, False, "results of conditions are not remembered", f"{show(v)[:60]} is remembered", key="cache")
                    elif isinstance(k, tuple) and k[0] == "W" and v == ("sym", "value"):
                        c.ob("C3", f.loc, False, "results of conditions are not remembered", key="cache")
            for what, a in seen:
                c.ob("C3", f.loc, a[0] == ("param", pn[0]) and tuple(a[1:]) == tuple(("param", x) for x in pn[3:6]),
                     "the expression is expanded with the current phase, variables and file", key="expand")
            c.ob("C3", f.loc, bool(rs) and bool(seen), "the evaluation is decided", key="decided")


def process(c):
    f = func(c, "gyp.input", "ProcessConditionsInDict")
    if f is None:
        return c.ob("C4", ("gyp/pylib/gyp/input.py", 1), False, "the processing of conditions exists")
    g = graph(c, f)
    pn = [p[0].id for p in f.params]
    m = f.module
    phases = {}
    for p in ("PHASE_EARLY", "PHASE_LATE", "PHASE_LATELATE"):
        vs = c.py.module_value(m.name, p)
        phases[p] = next(iter(vs)) if len(vs) == 1 else None
        c.ob("C4", f.loc, phases[p] is not None and phases[p][0] == "c", "the phases are constants", f"{p} is {vs}")
    if not all(v is not None and v[0] == "c" for v in phases.values()):
        return
    c.ob("C4", f.loc, len(set(phases.values())) == 3, "the phases differ")
    KEY = {"PHASE_EARLY": "conditions", "PHASE_LATE": "target_conditions", "PHASE_LATELATE": None}
    for p, ph in phases.items():
        for present in itertools.chain.from_iterable(itertools.combinations(("conditions", "target_conditions"), k) for k in range(3)):
            for outs in itertools.product((True, False), repeat=2):
                conds = {k: lst(sym(k + "0", "list"), sym(k + "1", "list")) for k in present}
                init = {("F", "d"): dc([("x", sym("x", "str"))] + [(k, ("new", "L" + k)) for k in present])}
                for k in present:
                    init[("F", "L" + k)] = conds[k]

                def model(op, t):
                    if op == "value" and t[0] == "param":
                        return {pn[0]: ("new", "d"), pn[1]: ph}.get(t[1])
                    if op == "effect":
                        return t[1][0] == "fn" and t[1][1].name in KEEP
                    if op == "call" and is_fn(t[1], "EvalCondition"):
                        q = t[2][0]
                        if q[0] != "sym":
                            return TOP
                        return sym("m" + q[1], "dict") if outs[int(q[1][-1])] else ("c", None)
                    if op == "notnull":
                        return t[0] == "sym"
                    if op == "truth" and t[0] == "sym" and t[1].startswith("m"):
                        return None
                e, rs = run(c, g, model, init, "C4", f.loc)
                key = KEY[p]
                want = []
                if key in present:
                    for i in (0, 1):
                        if outs[i]:
                            md = sym(f"m{key}{i}", "dict")
                            want.append(("ProcessVariablesAndConditionsInDict", (md, ph, ("param", pn[2]), ("param", pn[3]))))
                            want.append(("MergeDicts", (("new", "d"), md, ("param", pn[3]), ("param", pn[3]))))
                wev = [(sym(f"{key}{i}", "list"), ("c", key), ph, ("param", pn[2]), ("param", pn[3])) for i in (0, 1)] if key in present else []
                ok = bool(rs)
                why = ""
                for kind, _, s in rs:
                    fx = [(x[1][1].name, x[2]) for x in s.get("fx", ())]
                    ev = [a for nm, a in fx if nm == "EvalCondition"]
                    got = [x for x in fx if x[0] != "EvalCondition"]
                    names = [nm for nm, _ in fx]
                    left = {k[1] for k, _ in e.fields(("new", "d"), s)[1] if k[0] == "c"}
                    if kind != "return":
                        ok, why = False, "an error"
                    elif [a[0] for a in ev] != [a[0] for a in wev] or any(tuple(a[2:5]) != tuple(w[2:5]) for a, w in zip(ev, wev)):
                        ok, why = False, f"the evaluated conditions are {[show(a[0]) for a in ev]}"
                    elif got != want:
                        ok, why = False, f"the steps are {[nm for nm, _ in got]} on {[show(a[0])[:30] for _, a in got]}"
                    elif left != {"x"} | (set(present) - {key}):
                        ok, why = False, f"the keys left are {sorted(left)}"
                c.ob("C4", f.loc, ok, f"{p}: the right conditions are evaluated, expanded and merged with {list(present)} present and outcomes {outs}", why, key=f"process {p}")
