"""A failed install is rolled back and reported with its own error."""
from ..match import *
from ..cfg import show, alternatives
from .jscommon import *
from .installcommon import cleaned

ID = "P02"
EXPLANATION = (
    "Path-sensitive exploration of the install supergraph including every exception edge of every call: once a file or "
    "network effect has been started, a path that leaves install by an exception must first pass the awaited "
    "gyp.commands.remove([versionDir]); the exception leaving is the one caught; a path on which an effect failed never "
    "leaves normally (exempt: failed temp-dir cleanup, EBUSY of an already present file, the temp-dir EACCES retry).")


def is_effect(g, n):
    c = g.callee(n)
    op = fs_op(c)
    return (op in FS_WRITE and op != "open") or is_net(c) or is_extract(c) or is_pipeline(c)


def origin_is_catch(g, term, node, seen=None):
    """term denotes (only) an exception that was caught, not one built here."""
    seen = seen or set()
    if term[0] == "v":
        if term[1] == "E":
            return True
        ds = g.reaching(node, term)
        out = bool(ds)
        for d in ds:
            if isinstance(d, (tuple, str)):
                out = out and isinstance(d, tuple) and d[0] == "excof"
            elif d.id not in seen:
                seen.add(d.id)
                out = out and origin_is_catch(g, d.term, d, seen)
        return out
    return term[0] == "excof"


def check(c):
    c.rule("R1", "an exception leaving install after its first effect passes the awaited removal of the version dir")
    c.rule("R2", "the exception re-thrown after the rollback is the caught one")
    c.rule("R3", "no failed effect of the install ends in a normal return")
    c.rule("R4", "the rollback removes exactly [release.versionDir]; the removal is awaited")
    c.rule("R5", "the temporary extraction directory is removed however the install ends")
    fn = exported(c.js, "lib/install.js")
    if fn is None:
        c.ob("R1", ("lib/install.js", 1), False, "install command is exported")
        return
    g = c.graph(fn, INSTALL)
    effects = {n.id for n in g.calls() if is_effect(g, n)}
    removes = [n for n in g.calls() if is_command(g.callee(n), "remove")]
    reinst = {n.id for n in g.calls() if is_command(g.callee(n), "install")}
    c.need("R1", removes, "rollback through gyp.commands.remove", fn.loc)
    for n in removes:
        vals = g.values(n, n.args[0], 6) if n.args else set()
        ok = bool(vals)
        for v in vals:
            v = g.content(v)
            ok = ok and v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "a" and v[1][0][2] == "versionDir"
        c.ob("R4", n.loc, ok, "rollback argument is [release.versionDir]")
        c.ob("R4", n.loc, n.awaited, "rollback is awaited")
    cleaned(c, g, "R5")
    rem = {n.id for n in removes}
    cleanup = set()
    tmp_made = {n.id for n in g.calls() if fs_op(g.callee(n)) == "mkdtemp"}
    for n in g.calls():
        if fs_op(g.callee(n)) in FS_DELETE and n.args and derives(g, n.args[0], n, lambda x: x[0] == "t" and x[1] in tmp_made):
            cleanup.add(n.id)
    cache = {}

    def forgiven(n, label):
        k = (n.id, label)
        if k not in cache:
            cache[k] = edge_implies(g, n, label, lambda t, truth: truth and t[0] == "op" and t[1] == "=="
                                    and t[2][0] == "a" and t[2][2] == "code" and t[3] == ("c", "EBUSY"), 0)
        return cache[k]

    bad = []

    # q = (dirty, rolled, failed)
    def step(q, n, label):
        dirty, rolled, failed = q
        if n.id in effects and n.id not in cleanup:
            dirty = True
            if label == "exc":
                failed = True
        if n.id in rem:
            rolled = True
        elif n.id in reinst and label != "exc":
            failed, dirty = False, False
        if n.op == "branch" and forgiven(n, label):
            failed = False
        if n.op == "raise" and rolled and n.id not in rem:
            if not origin_is_catch(g, n.term, n):
                bad.append((n, q))
        return ((dirty, rolled, failed),)

    ex = c.explore(g, (False, False, False), step)
    qs = ex.states_at(g.exc_exit)
    q = next((q for q in qs if q[0] and not q[1]), None)
    c.ob("R1", fn.loc, q is None and any(q[1] for q in qs), "failing install is rolled back",
         "install can reject after starting its effects without removing the version directory",
         ex.trace(g.exc_exit, q) if q else None)
    qs = ex.states_at(g.exit)
    q = next((q for q in qs if q[2]), None)
    c.ob("R3", fn.loc, q is None, "a failed effect never ends in success",
         "install can resolve although one of its effects failed", ex.trace(g.exit, q) if q else None)
    q = next((q for q in qs if q[1]), None)
    c.ob("R3", fn.loc, q is None, "a rolled back install never ends in success",
         "install can resolve after rolling back", ex.trace(g.exit, q) if q else None)
    c.ob("R2", bad[0][0].loc if bad else fn.loc, not bad, "the caught error is re-thrown",
         "after the rollback a different error is thrown", ex.trace(*bad[0]) if bad else None)
