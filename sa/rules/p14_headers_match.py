"""The headers gyp compiles against belong to the targeted version."""
from ..match import *
from ..cfg import show
from .jscommon import *
from .p13_gyp_args import OPQ, node_dirs

ID = "P14"
EXPLANATION = (
    "On the configure supergraph every path to the start of gyp must pass either an edge that implies --nodedir is set "
    "or the successful end of an awaited install of exactly [release.version]; the ensure flag at that install is the "
    "negation of --tarball on every path. Values taken from the node prefix are used only behind an equality between "
    "the target version and the version read from node_version.h below that prefix. The node directory's alternatives "
    "are enumerated with the conditions that choose them.")

PART = ("NODE_MAJOR_VERSION", "NODE_MINOR_VERSION", "NODE_PATCH_VERSION")


def is_release(g, t, *names):
    """release.<name> of the processRelease call."""
    t = g.expand(t, 5)
    s = subscript(t)
    return s is not None and s[1][0] == "c" and s[1][1] in names and \
        has(s[0], lambda x: x[0] == "fn" and x[1].name == "processRelease" or x[0] == "mod" and "process-release" in str(x[1])
            or x == ("t",) or x[0] == "v" and x[2] == "release")


def is_prefix(t):
    s = subscript(t)
    return s is not None and s[1] == ("c", "node_prefix")


def check(c):
    c.rule("H1", "gyp starts only with --nodedir or after an awaited install of exactly the target version")
    c.rule("H2", "that install reuses existing headers exactly when --tarball is not given")
    c.rule("H3", "headers of the node prefix are used only when their version equals the target, never over --nodedir")
    c.rule("H4", "the node directory is --nodedir with ~ expanded, else the target's directory in the devdir")
    root = exported(c.js, "lib/configure.js")
    if root is None:
        return c.ob("H1", ("lib/configure.js", 1), False, "the configure command is exported")
    g = c.graph(root, opaque(*OPQ))
    sp = [n for n in g.calls() if n.callee[0] == "a" and n.callee[2] == "spawn" and len(n.args) >= 2]
    sp = c.need("H1", sp, "configure starts gyp", root.loc)
    inst = c.need("H1", [n for n in g.calls() if is_command(g.callee(n), "install")], "configure installs the headers", root.loc)
    ids = {n.id for n in inst}

    def nodedir(t, tr):
        return tr and is_opt(t, "nodedir") or not tr and t[0] == "op" and t[1] == "isnull" and is_opt(t[2], "nodedir")

    def nonodedir(t, tr):
        return not tr and is_opt(t, "nodedir") or tr and t[0] == "op" and t[1] == "isnull" and is_opt(t[2], "nodedir")
    nd = memo(g, nodedir)
    c.must_pass("H1", g, sp, lambda n, l: n.id in ids and l != "exc" or nd(n, l),
                "the target's headers are installed before gyp starts",
                "gyp can be started although the headers of the target version were not installed")
    for n in inst:
        c.ob("H1", n.loc, n.awaited, "the install is awaited", "the install is not awaited: gyp can run before the headers are there")
        for v in g.resolve(n.args[0], n) if n.args else [("undef",)]:
            rl = raw_list(g, v)
            el = [(w, rl[1] or n) for x in rl[0] for w in g.resolve(x, rl[1] or n)] if rl else []
            ok = rl is not None and len(rl[0]) == 1 and bool(el) and not touched(g, v) and all(is_release(g, w, "version") for w, _ in el)
            c.ob("H1", n.loc, ok, "exactly the target version is installed", f"another version than the target is installed: {show(g.expand(v, 4))[:100]}")
    # ---- ensure
    def tb(want):
        return lambda t, tr: is_opt(t, "tarball") and tr == want or t[0] == "op" and t[1] in ("isnull",) and is_opt(t[2], "tarball") and tr != want
    st = [(n, v) for n, o, k, v in writes(g) if k == ("c", "ensure") and is_opts(g.expand(o, 4))]
    c.must_pass("H2", g, inst, lambda n, l: any(n is x for x, _ in st), "the reuse of existing headers is decided before the install",
                "the install can run without a decision about existing headers")
    for n, v in st:
        for lf in guarded(g, n, n.value if n.op == "store" else v):
            t = g.expand(lf[0], 6)
            if t[0] == "c":
                ok = leaf_ok(g, n, lf, tb(not t[1]))
            else:
                ok = any(tb(False)(a, b) for a, b in atoms(t, True)) and any(tb(True)(a, b) for a, b in atoms(t, False))
            c.ob("H2", n.loc, ok, "ensure = no --tarball", "existing headers are reused with --tarball, or reinstalled without it")
    # ---- prefix
    def match_of(x, part):
        """Everything x can be is the <part> number read from <prefix>/include/node/node_version.h."""
        x = g.expand(x, 8)
        ok = has(x, lambda t: t[0] in ("regex", "c") and part in str(t)) and has(x, lambda t: is_prefix(t)) and \
            has(x, lambda t: t == ("c", "node_version.h") or t[0] == "c" and str(t[1]).endswith("node_version.h"))
        return ok and not any(has(x, lambda t, p=p: t[0] in ("regex", "c") and p in str(t)) for p in PART if p != part)

    def version_read(n, t):
        """t is undefined or the full version of the headers below the prefix."""
        good = False
        for v in g.resolve(t, n):
            if v[0] in ("undef",) or v == ("c", None):
                continue
            ps = cat_parts(v)
            if len(ps) == 1:
                w = g.expand(v, 3)
                if w[0] == "call" and w[1][0] == "a" and w[1][2] == "join" and w[2] == (("c", "."),):
                    ct = g.content(w[1][1])
                    els = ct[1] if ct[0] == "list" else mapped(g, g.nodes[v[1]].callee[1]) if v[0] == "t" else None
                    if els:
                        ps = [els[0]] + [y for x in els[1:] for y in (("c", "."), x)]
                else:
                    ps = cat_parts(w)
            if len(ps) != 5 or ps[1] != ("c", ".") or ps[3] != ("c", "."):
                return False
            for p, part in zip(ps[::2], PART):
                if not all(match_of(x, part) for x in g.resolve(p, n)):
                    return False
            good = True
        return good
    eqs = {}

    def same(n):
        """Edge labels of branch n that imply prefix version == target version."""
        if n.id not in eqs:
            out = set()
            for l, _ in n.succ:
                for a, tr in atoms(n.term, l == "T") if l in "TF" else ():
                    todo = [(a, tr)]
                    if a[0] in ("v", "t"):
                        for r in g.resolve(a, n):
                            todo += atoms(r, tr)
                    for x, b in todo:
                        if x[0] == "op" and x[1] == "==" and b:
                            for p, q in ((x[2], x[3]), (x[3], x[2])):
                                if all(is_release(g, w, "version") for w in g.resolve(p, n)) and version_read(n, q):
                                    out.add(l)
            eqs[n.id] = out
        return eqs[n.id]

    def guard(n, l):
        return n.op == "branch" and l in same(n)
    pref = [(n, k, v) for n, o, k, v in writes(g) if k == ("c", "nodedir") and is_opts(g.expand(o, 4))]
    uses = []
    for n, k, v in pref:
        for w in g.resolve(v, n):
            ok = is_prefix(g.expand(w, 4)) or is_opt(g.expand(w, 4), "nodedir") or has(g.expand(w, 4), lambda t: is_opt(t, "nodedir"))
            c.ob("H3", n.loc, ok, "only the node prefix can stand in for --nodedir", f"--nodedir is replaced by {show(w)[:80]}")
            if is_prefix(g.expand(w, 4)) and n not in uses:
                uses.append(n)
    for n in g.nodes:
        if n.live and n.op == "assign" and str(n.var[2]) == "nodeDir" and any(is_prefix(g.expand(w, 4)) for w in g.resolve(n.term, n)):
            uses.append(n)
    for n in uses:
        c.must_pass("H3", g, [n], guard, "the prefix headers have the target's version",
                    "headers of the node prefix can be used although their version differs from the target")
        c.must_pass("H3", g, [n], memo(g, nonodedir), "--nodedir was not given", "the node prefix can replace a given --nodedir")
    # ---- node directory
    dirs = node_dirs(g)
    nds = [n for n in g.nodes if n.live and n.op == "assign" and not str(n.var[2]).startswith("$") and g.resolve(n.term, n) and
           all(r in dirs or g.expand(r, 6) in dirs for r in g.resolve(n.term, n))]
    nds = [n for n in nds if n.term[0] != "v"] or nds
    c.need("H4", nds, "the node directory", root.loc)
    seen = set()
    for n in nds:
        for lf in guarded(g, n, n.term):
            x = g.expand(lf[0], 6)
            if has(x, lambda t: t[0] == "a" and t[2] == "versionDir"):
                seen.add("devdir")
                c.ob("H4", n.loc, leaf_ok(g, n, lf, nonodedir), "the devdir is used only without --nodedir",
                     "the devdir's headers can be used although --nodedir was given")
            elif has(x, lambda t: is_opt(t, "nodedir")):
                seen.add("nodedir")
                ok = x[0] == "call" and x[1][2] == "replace" and len(x[2]) == 2 and x[2][0][0] == "regex" and x[2][0][1].startswith("^~") \
                    and has(x[2][1], lambda t: t == ("a", ("mod", "os"), "homedir"))
                c.ob("H4", n.loc, ok, "a leading ~ of --nodedir is expanded", f"--nodedir is not used as given: {show(x)[:100]}")
    c.ob("H4", root.loc, seen == {"devdir", "nodedir"}, "both sources of the headers exist", f"node directory sources: {sorted(seen)}")
