"""No effect before the target version is validated."""
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P04"
EXPLANATION = (
    "Dominance on the path-sensitive install supergraph: every file-system write, removal, network request, extraction "
    "or nested command must be preceded on every path by the tests semver-valid, >= 0.8.0 and not a '-pre' version, all "
    "on the release computed by processRelease; configure's install request is likewise preceded by the semver test.")


def is_len(t):
    return t[0] == "a" and t[2] == "length" and t[1][0] == "a" and t[1][2] == "prerelease"


def version_facts(g):
    def valid(t, truth):
        return truth and t[0] == "a" and t[2] == "semver"

    def minimum(t, truth):
        if t[0] == "call" and t[1][0] == "a" and t[1][1] == ("mod", "semver") and len(t[2]) == 2:
            if not (has(t[2][0], lambda x: x[0] == "a" and x[2] in ("version", "semver")) and t[2][1] == ("c", "0.8.0")):
                return False
            return (t[1][2] == "lt" and not truth) or (t[1][2] == "gte" and truth)
        return False

    def notpre(t, truth):
        if t[0] == "op" and t[1] == "==" and not truth:
            return ("c", "pre") in t[2:] and any(
                x[0] == "i" and x[2] == ("c", 0) and x[1][0] == "a" and x[1][2] == "prerelease" for x in t[2:])
        if not truth and (is_len(t) or t[0] == "op" and t[1] == "<" and t[2] == ("c", 0) and is_len(t[3])):
            return True
        m = member(t, truth)
        return bool(m) and not m[2] and m[1] == ("c", "pre") and has(m[0], lambda x: x[0] == "a" and x[2] == "prerelease")

    return {"valid semver": valid, "version >= 0.8.0": minimum, "not a -pre version": notpre}


def check(c):
    c.rule("V1", "every effect of install is dominated by each of the three version tests")
    c.rule("V2", "a rejected version raises; only the documented --nodedir case returns")
    c.rule("V3", "configure requests an install only for a valid semver version")
    fn = exported(c.js, "lib/install.js")
    if fn is None:
        c.ob("V1", ("lib/install.js", 1), False, "install command is exported")
        return
    g = c.graph(fn, INSTALL)
    from .p02_install_rollback import is_effect
    sinks = [n for n in g.calls() if is_effect(g, n) or is_command(g.callee(n), "remove") or is_command(g.callee(n), "install")]
    c.need("V1", sinks, "install effects", fn.loc)
    for name, pred in version_facts(g).items():
        cache = {}

        def good(n, l, pred=pred, cache=cache):
            k = (n.id, l)
            if k not in cache:
                cache[k] = edge_implies(g, n, l, pred, 6)
            return cache[k]

        c.must_pass("V1", g, sinks, good, lambda s: f"{show(g.callee(s))[:50]} only after: {name}",
                    lambda s: f"{show(g.callee(s))[:50]} is reachable without the test '{name}'", key=name)
        # V2: a normal return must not skip the test either, except the pre + nodedir case
        okret = {}

        def good2(n, l, pred=pred):
            k = (n.id, l)
            if k not in okret:
                okret[k] = edge_implies(g, n, l, pred, 6) or (
                    edge_implies(g, n, l, lambda t, tr: tr and attr_path(t) == "gyp.opts.nodedir", 0) and name.startswith("not"))
            return okret[k]

        c.must_pass("V2", g, [g.exit], good2, f"install returns only after: {name}",
                    f"install can succeed without the test '{name}'", key="ret " + name)
    cf = exported(c.js, "lib/configure.js")
    if cf is None:
        return
    g = c.graph(cf, opaque("processRelease", "createConfigGypi", "findPython", "findVisualStudio"))
    sinks = c.need("V3", [n for n in g.calls() if is_command(g.callee(n), "install")], "configure requests the install", cf.loc)
    c.must_pass("V3", g, sinks, lambda n, l: edge_implies(g, n, l, lambda t, tr: tr and t[0] == "a" and t[2] == "semver", 6),
                "install requested only for a valid version")
