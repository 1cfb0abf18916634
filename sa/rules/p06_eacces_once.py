"""The EACCES fallback: at most once, same version, into the temporary devdir."""
from ..match import *
from ..cfg import show
from .jscommon import *
from .installcommon import retried
from .p02_install_rollback import origin_is_catch

ID = "P06"
EXPLANATION = (
    "Every nested install request in the install supergraph is located. Its argument sequence must contain a constant "
    "flag that the request is dominated by the absence of (so the recursion depth is at most one), keep the caller's "
    "arguments in front, be dominated by an EACCES test of a caught error and by an assignment of devDir to a path "
    "under os.tmpdir(), and be awaited; the refusing branch re-throws the caught error.")


def seq(g, t):
    """[('e', elem) | ('s', spread)] of a list-valued term, None if unknown."""
    if t[0] == "obj":
        r = seq(g, g.content(t))
        return None if r is None else pushed(g, t, r)
    if t[0] in ("list", "tuple"):
        out = []
        for x in t[1]:
            if x[0] == "star":
                s = seq(g, x[1])
                out.extend(s if s is not None else [("s", x[1])])
            else:
                out.append(("e", x))
        return out
    if t[0] == "t":
        n = g.nodes[t[1]]
        if n.op != "call":
            return None
        c = g.callee(n)
        if c[0] == "a" and c[2] == "concat":
            out = seq(g, c[1])
            if out is None:
                out = [("s", c[1])]
            for a in n.args:
                for v in [g.one(a, n, 6)]:
                    s = seq(g, v)
                    out = out + (s if s is not None else [("e", v)] if v[0] == "c" else [("s", v)])
            return pushed(g, t, out)
        if c[0] == "a" and c[2] == "slice" and (not n.args or n.args[0] == ("c", 0)):
            return pushed(g, t, seq(g, c[1]) or [("s", c[1])])
        if c in (("a", ("glob", "Array"), "from"),) and n.args:
            v = g.one(n.args[0], n, 6)
            return pushed(g, t, seq(g, v) or [("s", v)])
        if c == ("a", ("glob", "Array"), "of"):
            return pushed(g, t, [("e", g.one(a, n, 6)) for a in n.args])
    return None


def pushed(g, t, out):
    """Elements added to the very list t by push/unshift afterwards."""
    for n in g.calls():
        if n.callee[0] == "a" and n.callee[2] in ("push", "unshift"):
            rs = g.resolve(n.callee[1], n)
            if rs == {t} or list(rs) == [t]:
                el = [("e", g.one(a, n, 6)) for a in n.args]
                out = out + el if n.callee[2] == "push" else el + out
    return out


def check(c):
    c.rule("F1", "a nested install is reached only when its own marker flag is absent from argv (at most one retry)")
    c.rule("F2", "the retry keeps the requested version: the caller's arguments come first")
    c.rule("F3", "the retry happens only for EACCES, after devDir was redirected below os.tmpdir(), and is awaited")
    c.rule("F4", "with the marker flag present the caught error is thrown")
    c.rule("F5", "after an EACCES the install succeeds only through the retry")
    c.rule("F6", "every refused access to the devdir leads to the retry")
    fn = exported(c.js, "lib/install.js")
    if fn is None:
        c.ob("F1", ("lib/install.js", 1), False, "install command is exported")
        return
    g = c.graph(fn, INSTALL)
    nested = c.need("F1", [n for n in g.calls() if is_command(g.callee(n), "install")], "retry through gyp.commands.install", fn.loc)
    argv = ("param", fn.params[1][0].id) if len(fn.params) > 1 and hasattr(fn.params[1][0], "id") else ("param", "argv")
    stores = []
    for n in g.nodes:
        if n.op == "store" and n.live and n.name == "devDir":
            stores.append(n)
    tmp = set()
    for s in stores:
        ok = all(derives(g, v, s, lambda x: x == ("a", ("mod", "os"), "tmpdir")) for v in g.resolve(s.value, s))
        c.ob("F3", s.loc, ok, "devDir is redirected below os.tmpdir()", "devDir is redirected to a place outside os.tmpdir()")
        tmp.add(s.id)
    flags = set()
    for n in nested:
        c.ob("F3", n.loc, n.awaited, "the retry is awaited")
        vals = g.resolve(n.args[0], n) if n.args else set()
        mine = set()
        okshape = bool(vals)
        for v in vals:
            s = seq(g, v)
            if s is None:
                okshape = False
                continue
            mine |= {x[1] for k, x in [(k, ("", x)) for k, x in s] if k == "e" and x[1][0] == "c"}
            first = s[0] if s else None
            rest_ok = any(k == "s" and mentions(x, argv) for k, x in s)
            c.ob("F2", n.loc, bool(first) and first[0] == "s" and mentions(first[1], argv) and rest_ok,
                 "the retry passes the caller's arguments first",
                 "the retry does not pass the requested version as its first argument: another version is installed")
        c.ob("F1", n.loc, okshape and bool(mine), "the retry passes a constant marker flag",
             "the retry carries no marker flag: it can recurse without bound")
        flags |= mine
        for k in mine:
            def absent(t, truth, k=k):
                m = member(t, truth)
                return bool(m) and m[1] == k and not m[2] and mentions(m[0], argv)
            c.must_pass("F1", g, [n], memo(g, absent, 6), "the retry is dominated by the absence of its flag",
                        "the retry can be reached with its marker flag already present: it can recurse without bound")

        def eacces(t, truth):
            return truth and t[0] == "op" and t[1] == "==" and t[2][0] == "a" and t[2][2] == "code" and t[3] == ("c", "EACCES")
        c.must_pass("F3", g, [n], memo(g, eacces, 0), "the retry is dominated by an EACCES test",
                    "the retry is not limited to EACCES")
        c.must_pass("F3", g, [n], lambda m, l: m.id in tmp, "devDir is redirected before the retry",
                    "the retry runs against the inaccessible devdir")
    def denied(t, truth):
        return truth and t[0] == "op" and t[1] == "==" and t[2][0] == "a" and t[2][2] == "code" and t[3] == ("c", "EACCES")
    em, ids = memo(g, denied, 0), {n.id for n in nested}
    for n in g.nodes:
        if n.op == "branch" and n.live and any(r[0] != "c" for r in g.resolve(n.term, n)):
            for l, m in n.succ:
                if l in ("T", "F") and em(n, l):
                    c.must_pass("F5", g, [g.exit], lambda x, l2: x.id in ids and l2 != "exc", "an EACCES ends in the awaited retry or in an error",
                                "an inaccessible devdir can end in success although nothing was installed", start=m)
    c.need("F6", range(retried(c, g, ids, "F6")), "accesses to the devdir")
    # F4
    bad = []
    seen = []

    def present(t, truth):
        m = member(t, truth)
        return bool(m) and m[1] in flags and m[2]
    here = memo(g, present, 6)

    def step(q, n, label):
        if n.op == "branch" and here(n, label):
            q = 1
            seen.append(n)
        if n.op == "raise" and q == 1 and not origin_is_catch(g, n.term, n):
            bad.append(n)
        if q == 1 and n.id in tmp:
            bad.append(n)
        return (q,)
    c.explore(g, 0, step)
    c.ob("F4", bad[0].loc if bad else fn.loc, not bad, "the refusing branch re-throws the caught error",
         "with the marker flag present something else than the caught error is thrown")
    c.ob("F4", fn.loc, bool(seen) or not nested, "the flag is looked for in argv")
