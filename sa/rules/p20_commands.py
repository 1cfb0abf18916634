"""Commands that build files run while gyp reads them (<!...)."""
from ..match import *
from ..cfg import show
from .pycommon import *

ID = "P20"
EXPLANATION = (
    "Dominance analysis over the supergraph of variable expansion: the output of a command is read only on paths where its "
    "exit status was compared to zero, every exception edge of a command ends in an error, the cache is filled only "
    "behind that test and its key contains every value the command depends on (backward data dependences of the command's "
    "arguments and of the branches that select its kind). Changes of the working directory and of the module path are "
    "undone on every path, including exceptional ones.")


def is_dirname(t):
    return t[0] == "call" and t[1] == ("a", ("a", ("mod", "os"), "path"), "dirname") or \
        t[0] == "call" and t[1][0] == "a" and t[1][2] == "dirname"


def bang(g, n):
    """Terms that decide, at a branch, which kind of expansion happens."""
    return n.op == "branch"


def check(c):
    c.rule("E1", "a command's output is used only if its exit status is zero")
    c.rule("E2", "a command that cannot be started, or a module that fails, is an error")
    c.rule("E3", "results are cached only for successful commands, under everything they depend on")
    c.rule("E4", "commands run in the directory of the build file that contains them")
    c.rule("E5", "the working directory and the module path are restored whatever happens")
    c.rule("E6", "the result of a command is its standard output without trailing white space")
    c.rule("E7", "commands run only for the ! forms")
    c.rule("E8", "commands given as text are run by the shell, commands given as a list are not")
    f = func(c, "gyp.input", "ExpandVariables")
    if f is None:
        return c.ob("E1", ("gyp/pylib/gyp/input.py", 1), False, "variable expansion exists")
    g = c.graph(f, lambda fn, d: fn.module is f.module and fn is not f and fn.name not in (
        "ProcessVariablesAndConditionsInList", "ProcessListFiltersInDict", "FindEnclosingBracketGroup", "IsStrCanonicalInt"))
    runs = [n for n in g.calls() if is_run(g.callee(n))]
    mains = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[2] == "DoMain"]
    c.need("E1", runs, "the call that runs a command", f.loc)
    c.need("E2", mains, "the call of an imported module's DoMain", f.loc)
    for n in runs:
        cal = g.callee(n)
        chk = kwarg(n, "check")
        safe = cal[2] in ("check_output", "check_call") or chk is not None and set(g.resolve(chk, n)) == {("c", True)}
        t = ("t", n.id)
        users = [m for m in g.nodes if m.live and m is not n and uses(g, m, t)]
        users = [m for m in users if not (m.op == "branch" or raising(g, m))]
        out = ("stdout", "communicate")
        users = [m for m in users if any(has(r, lambda y: y[0] == "a" and y[2] in out and y[1] == t or cal[2] in (
            "check_output", "getoutput") and y == t) for x in terms(m) for r in g.resolve(x, m))]
        c.need("E1", users, "a use of the command's output", n.loc)
        if not safe:
            em = memo(g, zero_status(n.id))
            c.must_pass("E1", g, users, em, "the output is read only after the exit status was found to be zero",
                        "the output of a command is used although its exit status may be non-zero", key="status")
        for m in users:
            ok = stripped(g, m, t)
            c.ob("E6", m.loc, ok, "the output is decoded and stripped of trailing white space only")
        cwd = kwarg(n, "cwd")
        vals = g.values(n, cwd, 8) if cwd is not None else set()
        good = [v for v in vals if is_dirname(v) and v[2] and v[2][0] == ("param", f.params[3][0].id)]
        rest = [v for v in vals if v not in good and v != ("c", None) and v[0] != "undef"]
        c.ob("E4", n.loc, bool(good) and not rest, "the command runs in the build file's directory",
             f"cwd is {[show(v)[:60] for v in vals]}")
        nullcwd(c, g, n, cwd)
        shell(c, g, n, runs)
    for n in runs + mains + [m for m in g.calls() if g.callee(m) == ("glob", "__import__")]:
        for l, s in n.succ:
            if l == "exc":
                c.ob("E2", n.loc, is_raise_only(g, s), "a failing command or module ends in an error",
                     "after a failure of the command expansion continues")
    cache(c, g, f, runs, mains)
    restore(c, g, f)
    # E7
    for n in runs + mains:
        def flag(t, truth):
            return truth and t[0] == "op" and t[1] == "in" and t[2] == ("c", "!")
        em = memo(g, flag)
        c.must_pass("E7", g, [n], lambda m, l, em=em: em(m, l) or via_flag(g, m, l), "a command runs only for an expansion with !", key="bang")


def via_flag(g, m, l):
    if m.op != "branch" or l != "T":
        return False
    rs = g.resolve(m.term, m)
    return bool(rs) and all(implied(g.expand(r, 6), True, lambda t, tr: tr and t[0] == "op" and t[1] == "in" and t[2] == ("c", "!"))
                            for r in rs if r[0] != "undef")


def dirdefs(g, n, t, depth=6):
    """(definition node, use node, other definitions) of the directory value behind variable t."""
    if t[0] != "v" or depth == 0:
        return []
    ds = [d for d in g.reaching(n, t) if not isinstance(d, (tuple, str))]
    out = []
    for d in ds:
        if d.term[0] == "v":
            out += [(x, n, tuple(o) + tuple(y for y in ds if y is not d)) for x, _, o in dirdefs(g, d, d.term, depth - 1)]
        elif all(is_dirname(g.expand(r, 6)) for r in g.resolve(d.term, d)):
            out.append((d, n, tuple(y for y in ds if y is not d)))
    return out


def leaves(g, n, t, depth=6):
    """[(node, guarded leaf)] of the values of t at n; definitions that a loop may skip are followed one by one."""
    ls = guarded(g, n, t)
    if not any(lf[0][0] == "undef" for lf in ls) or t[0] != "v" or not depth:
        return [(n, lf) for lf in ls]
    out = []
    ds = [d for d in g.reaching(n, t) if not isinstance(d, (tuple, str))]
    for d in ds:
        others = tuple(x for x in ds if x is not d)
        for _, (leaf, conds, chain) in leaves(g, d, d.term, depth - 1):
            if leaf[0] != "undef":
                out.append((n, (leaf, conds, ((d, (n, t, others)),) + chain)))
    return out


def nullcwd(c, g, n, cwd):
    """An empty directory is turned into None before it is used as working directory."""
    if cwd is None:
        return

    def nonempty(a, tr):
        if a[0] == "op" and a[1] == "==" and ("c", "") in a[2:]:
            return not tr
        return is_dirname(a) and tr

    def either(a, tr):
        return nonempty(a, tr) or (tr and a[0] == "op" and a[1] == "in" and a[2] == ("c", "|"))
    def empty(a, tr):
        return is_dirname(a) and not tr or tr and a[0] == "op" and a[1] == "==" and ("c", "") in a[2:] and any(is_dirname(x) for x in a[2:])
    for d, lf in leaves(g, n, cwd):
        if lf[0] == ("c", None):
            c.ob("E4", n.loc, leaf_ok(g, d, lf, empty), "the command runs in the build file's directory",
                 "a command can be run in the current directory although its build file is in another one", key="cwd none")
    em, both = memo(g, nonempty), memo(g, either)
    if cwd[0] != "v":
        bad = any(is_dirname(v) for v in g.values(n, cwd, 8) if v[0] != "op") and not any(
            conds for _, conds, _ in guarded(g, n, cwd))
        c.ob("E4", n.loc, not bad, "an empty directory name means the current directory")
        return
    for d, use, others in dirdefs(g, n, cwd):
        bad = reachable(g, d, use, lambda m, l: em(m, l) or both(m, l) or any(m is o for o in others) or listform(g, m, l))
        c.ob("E4", d.loc, not bad, "an empty directory name means the current directory",
             "the command is started with an empty directory name when the build file is in the current directory")


def listform(g, m, l):
    """Edge into the file list form, which runs no command."""
    if m.op != "branch" or l not in ("T", "F"):
        return False
    rs = g.resolve(m.term, m)
    return bool(rs) and all(implied(g.expand(r, 6), l == "T", lambda t, tr: tr and t[0] == "op" and t[1] == "in" and t[2] == ("c", "|")) for r in rs)


def shell(c, g, n, runs):
    """A command written as text is run by the shell, one written as a list is not."""
    t = kwarg(n, "shell")
    arr = lambda a, tr: tr and a[0] == "i" and a[2] == ("c", "is_array")
    txt = lambda a, tr: not tr and a[0] == "i" and a[2] == ("c", "is_array")
    bad = []
    for d, lf in leaves(g, n, t) if t is not None else [(n, (("c", False), (), ()))]:
        v = g.expand(lf[0], 6)
        if v[0] == "c":
            if not leaf_ok(g, d, lf, txt if v[1] else arr):
                bad.append(v)
        else:
            neg = v[0] == "op" and v[1] == "not"
            v = v[2] if neg else v
            if v[0] == "op" and v[1] in ("==", "is") and ("c", None) in v[2:] and not neg:
                v = next(x for x in v[2:] if x != ("c", None))
                neg = True
            if not (neg and v[0] == "i" and v[2] == ("c", "is_array")):
                bad.append(v)
    c.ob("E8", n.loc, not bad, "the shell runs exactly the commands that are written as text",
         f"the choice of the shell is {[show(x)[:60] for x in bad]} not only decided by the form of the command")


def terms(m):
    for k in ("term", "callee", "value", "obj", "key"):
        v = getattr(m, k, None)
        if isinstance(v, tuple):
            yield v
    for a in getattr(m, "args", None) or ():
        yield a
    for _, a in getattr(m, "kw", None) or ():
        yield a


def uses(g, m, t):
    for x in terms(m):
        for r in g.resolve(x, m) if x[0] == "v" else [x]:
            if has(r, lambda y: y == t):
                return True
        if any(y[0] == "v" and t in g.resolve(y, m) for y in subterms(x)):
            return True
    return False


def raising(g, m):
    """The value only goes into an exception: no normal path from m to the exit."""
    return is_raise_only(g, m)


def stripped(g, m, t):
    """Every later use of the output goes through decode/rstrip/strip."""
    fin = []
    st, seen = [m], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "call":
            cal = g.callee(x)
            if cal[0] == "a" and cal[2] == "rstrip" and not x.args:
                fin.append(x)
                continue
            if cal[0] == "a" and cal[2] in ("decode", "communicate", "replace") or cal == ("glob", "str"):
                nx = [y for y in g.nodes if y.live and y is not x and uses(g, y, ("t", x.id)) and y.op in ("call", "assign")]
                st += nx
                continue
            if x is not m:
                continue
            return False
        if x.op == "assign":
            nx = [y for y in g.nodes if y.live and y.op == "call" and y is not x and any(
                z == x.var and x in list(g.reaching(y, x.var)) for tt in terms(y) for z in subterms(tt))]
            st += nx
    return bool(fin)


def cache(c, g, f, runs, mains):
    stores = [n for n in g.nodes if n.live and n.op == "store" and n.name is None and n.key is not None
              and n.obj[0] == "v" and str(n.obj[1]).startswith("M:") or n.live and n.op == "store" and n.name is None and n.obj[0] in ("glob",)]
    stores = [n for n in stores if any(derives(g, n.value, n, lambda x, r=r: x == ("t", r.id)) for r in runs + mains)]
    gets = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[2] == "get" and stores and
            n.callee[0] == "a" and n.callee[1] == stores[0].obj]
    if not stores:
        return  # no caching at all is fine
    for s in stores:
        lossy = [x for x in closure(g, s.key, s) if x[0] == "a" and x[2] in ("join", "lower", "upper", "strip", "split", "basename")
                 and not (x[2] == "join" and x[1] == ("a", ("mod", "os"), "path"))]
        ok = not [x for x in lossy if any(x in subterms(g.callee(m)) and derives(g, s.key, s, lambda y, m=m: y == ("t", m.id)) and
                                         m.args and x[2] == "join" for m in g.calls())]
        c.ob("E3", s.loc, ok, "different commands have different keys", "the cache key joins the words of a command: different commands share a result",
             key="lossy key")
        for r in runs:
            em = memo(g, zero_status(r.id))
            chk = kwarg(r, "check")
            ok = g.callee(r)[2].startswith("check_") or chk is not None and set(g.resolve(chk, r)) == {("c", True)} or \
                not reach_from(g, r, s, em)
            c.ob("E3", s.loc, ok, "only the output of a successful command is cached")
        for r in runs:
            need = []
            for a in list(r.args[:1]) + [kwarg(r, "shell"), kwarg(r, "cwd")]:
                if a is None:
                    continue
                vs = {v for v in g.resolve(a, r)}
                if all(v[0] == "c" for v in vs) and len(vs) < 2:
                    continue
                need.append(a)
            for a in need:
                c.ob("E3", s.loc, covered(g, a, r, s.key, s), "the cache key contains the command, its kind and its directory",
                     f"the cache key does not contain {show(a)[:60]} on which the command depends", key=f"key {show(a)[:40]}")
        for d in mains:
            # the branch that selects the module form
            sel = [m for m in g.nodes if m.live and m.op == "branch" and m.succ and selects(g, m, d, runs)]
            c.ob("E3", s.loc, bool(sel) and all(covered(g, m.term, m, s.key, s) for m in sel), "the cache key tells modules from commands",
                 "the cache key does not contain the command form")
        for n in gets:
            same = g.values(n, n.args[0], 8) == g.values(s, s.key, 8) and n.args[0] == s.key
            c.ob("E3", n.loc, same or g.values(n, n.args[0], 8) <= g.values(s, s.key, 8), "results are looked up under the key they are stored under")


def reach_from(g, a, b, blocked):
    return any(reachable(g, s, b, blocked) for l, s in a.succ if l != "exc")


PASS = {"str", "repr", "tuple", "list", "dirname", "normpath", "abspath", "join", "strip", "rstrip", "bool", "format", "eval", "split", "sub"}


def roots(g, t, n, seen=None, strict=False):
    """What a value is made of, up to conversions: calls, match entries, parameters.  strict: conversions that keep
    different values apart."""
    seen = set() if seen is None else seen
    out = set()
    for r in g.resolve(t, n):
        st = [r]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "t" and g.nodes[x[1]].op == "call":
                m = g.nodes[x[1]]
                cal = g.callee(m)
                nm = cal[2] if cal[0] == "a" else cal[1] if cal[0] == "glob" else cal[1].name if cal[0] == "fn" else None
                if strict and nm == "join" and not (cal[1][0] == "a" and cal[1][2] == "path") or strict and nm in ("split", "sub"):
                    out.add(x)
                elif nm in PASS or cal[0] == "fn":
                    base = [m.callee[1]] if m.callee[0] == "a" and cal[0] == "a" and cal[1][0] != "mod" and cal[1][0] != "a" else []
                    for y in list(m.args) + base:
                        out |= roots(g, y, m, seen, strict)
                else:
                    out.add(x)
            elif x[0] == "i" and x[2][0] == "c" and isinstance(x[2][1], str):
                out.add(("entry", x[2][1]))
            elif x[0] in ("param", "cbarg", "free"):
                out.add(x)
            elif x[0] in ("c", "fn", "glob", "mod", "undef", "regex"):
                pass
            elif x[0] == "obj":
                d = g.nodes[x[1]]
                out |= roots(g, ("tuple", tuple(y for y in d.term[1]) if d.term[0] in ("list", "set") else ()), d, seen, strict)
            else:
                for y in x[1:]:
                    st += parts(y)
    return out


def parts(y):
    if isinstance(y, tuple):
        if y and isinstance(y[0], str):
            return [y]
        return [p for z in y for p in parts(z)]
    return []


def covered(g, a, na, key, nk):
    """Every value a depends on (by data, or by the branch that chose it) is represented in the key."""
    kroots = roots(g, key, nk, strict=True)
    ra = roots(g, a, na)
    if ra:
        return ra <= kroots
    if any(x == a for x in subterms(key)) or any(
            x == a for d in g.reaching(nk, key) if not isinstance(d, (tuple, str)) for x in subterms(d.term)) if key[0] == "v" else a in subterms(key):
        return True
    # constants: the branch that selects between them
    ds = [d for d in g.reaching(na, a) if not isinstance(d, (tuple, str))] if a[0] == "v" else []
    while len(ds) == 1 and ds[0].term[0] == "v":
        if covered(g, ds[0].term, ds[0], key, nk):
            return True
        ds = [d for d in g.reaching(ds[0], ds[0].term) if not isinstance(d, (tuple, str))]
    for d in ds:
        for b in g.nodes:
            if b.op == "branch" and b.live:
                for l in ("T", "F"):
                    if not reachable(g, g.entry, d, lambda m, ll: m is b and ll == l) and \
                            reachable(g, b, na, lambda m, ll: m is b and ll == l):
                        rb = roots(g, b.term, b)
                        if rb and rb <= kroots:
                            return True
    return False


def selects(g, m, d, runs):
    """m decides between the module form d and the command forms."""
    def side(l):
        return {x for x in (d, *runs) if any(reachable(g, s, x, lambda *_: False) for ll, s in m.succ if ll == l)}
    if not any(y[0] == "i" and y[2] == ("c", "command_string") for y in subterms(next(iter(g.resolve(m.term, m)), ("c", 0)))):
        return False
    return d in side("T") and d not in noloop(g, m, "F", d)


def noloop(g, m, l, d):
    return {d} if any(reachable(g, s, d, lambda n, ll: n.op == "iter") for ll, s in m.succ if ll == l) else set()


def restore(c, g, f):
    ch = [n for n in g.calls() if g.callee(n) == ("a", ("mod", "os"), "chdir")]
    def saved(n):
        v = g.one(n.args[0], n)
        return v[0] == "call" and v[1] == ("a", ("mod", "os"), "getcwd") or \
            any(x[0] == "t" and g.callee(g.nodes[x[1]]) == ("a", ("mod", "os"), "getcwd") for x in g.resolve(n.args[0], n))
    back = [n for n in ch if saved(n)]
    away = [n for n in ch if n not in back]
    for n in away:
        starts = [s for l, s in n.succ if l != "exc"]
        okb = []
        for b in back:
            # saved before the change
            src = [g.nodes[x[1]] for x in g.resolve(b.args[0], b) if x[0] == "t"]
            if src and all(reachable(g, x, n, lambda *_: False) and not reachable(g, n, x, lambda m, l: m.op == "iter") for x in src):
                okb.append(b)
        def done(m, l, okb=okb):
            return any(m is b for b in okb)
        leak = [e for e in (g.exit, g.exc_exit) if e is not None and any(
            reachable(g, s, e, lambda m, l: done(m, l) or tiny(g, m, l)) for s in starts)]
        nxt = any(reachable(g, s, n, done) for s in starts)
        c.ob("E5", n.loc, bool(okb) and not leak and not nxt, "the working directory is restored on every path",
             "a path leaves with the changed working directory", key="cwd")
    adds = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[1] == ("a", ("mod", "sys"), "path")
            and g.callee(n)[2] in ("append", "insert")]
    pops = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[1] == ("a", ("mod", "sys"), "path")
            and g.callee(n)[2] in ("pop", "remove")]
    for n in adds:
        starts = [s for l, s in n.succ if l != "exc"]
        leak = [e for e in (g.exit, g.exc_exit) if e is not None and any(
            reachable(g, s, e, lambda m, l: m in pops) for s in starts)]
        end = g.callee(n)[2] == "append"
        okp = [p for p in pops if g.callee(p)[2] == "remove" or (not p.args and end) or (p.args and not end and g.one(p.args[0], p) == ("c", 0))]
        c.ob("E5", n.loc, bool(okp) and len(okp) == len(pops) and not leak, "the module path is restored on every path",
             "a path leaves with the changed module path", key="path")


def tiny(g, m, l):
    """Asking for the current directory directly after changing to it does not fail."""
    return l == "exc" and m.op == "call" and (g.callee(m) == ("a", ("mod", "os"), "getcwd") or
                                              g.callee(m) == ("a", ("a", ("mod", "sys"), "path"), "pop"))
