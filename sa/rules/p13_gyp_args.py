"""The gyp invocation of configure."""
from ..match import *
from ..cfg import show
from .jscommon import *
from .installcommon import existing

ID = "P13"
EXPLANATION = (
    "The argument list of the process configure starts is reconstructed as a set of contributions (literals, push, "
    "unshift, spreads) on the supergraph. For every argument gyp needs, each path to the spawn must pass a contribution "
    "of that argument; order constraints (script first, binding.gyp second, user and package configuration before "
    "addon.gypi before common.gypi) are checked by reachability between contributions; values are checked by provenance.")
OPQ = ("processRelease", "findPython", "findVisualStudio", "findNodeDirectory", "createConfigGypi")


def dirname_parts(v):
    return [p for p in path_parts(v)]


def own_file(g, v, *tail):
    """A path inside node-gyp's own package: <dir of the source>/../<tail>"""
    ps = path_parts(g.expand(v, 6))
    flat = []
    for p in ps:
        if p[0] == "c" and isinstance(p[1], str):
            flat += [x for x in p[1].split("/") if x not in ("", ".")]
        else:
            flat.append(p)
    return flat == [("glob", "__dirname"), "..", *tail] or flat == [("v", None, "__dirname"), "..", *tail] \
        or len(flat) == len(tail) + 2 and show(flat[0]) == "__dirname" and flat[1:] == ["..", *tail]


def check(c):
    c.rule("A1", "every argument gyp needs is passed on every path")
    c.rule("A2", "gyp's own script comes first, binding.gyp second")
    c.rule("A3", "configuration files are included in the documented order")
    c.rule("A4", "the arguments have the right values")
    c.rule("A5", "a generator format is forced exactly when the user gave none")
    c.rule("A6", "the user's extra arguments are kept")
    c.rule("A7", "gyp runs in the Python that was found, with the bundled gyp library first in PYTHONPATH")
    c.rule("A8", "a build directory that is there already is no error")
    root = exported(c.js, "lib/configure.js")
    if root is None:
        return c.ob("A1", ("lib/configure.js", 1), False, "the configure command is exported")
    g = c.graph(root, opaque(*OPQ))
    sp = [n for n in g.calls() if n.callee[0] == "a" and n.callee[2] == "spawn" and len(n.args) >= 2]
    sp = c.need("A1", sp, "configure starts gyp", root.loc)
    existing(c, g, "A8")
    items, lists = [], []
    for s in sp:
        l, it = contributions(g, s, s.args[1])
        lists.append(l)
        items += [x for x in it if x not in items]
    prev = {}
    for m, side, i, v in items:
        prev.setdefault((m.id, i), []).append(v)

    def flagged(m, i, *flags):
        return any(v[0] == "c" and v[1] in flags for v in prev.get((m.id, i - 1), []))

    def present(nodes, what, also=None):
        ids = {n.id for n in nodes}
        return c.must_pass("A1", g, sp, lambda n, l: n.id in ids and l != "exc" or also is not None and also(n, l),
                           f"{what} is passed", f"gyp can be started without {what}")

    nodedirs = node_dirs(g)

    def isnd(t):
        return t in nodedirs or g.expand(t, 6) in nodedirs

    # ---- simple arguments
    for want in ("-Dlibrary=shared_library", "-Dvisibility=default", "--depth=.", "-Goutput_dir=."):
        present([m for m, s, i, v in items if v == ("c", want)], want)
    present([m for m, s, i, v in items if v in (("c", "--no-parallel"), ("c", "--no-parallel"))], "--no-parallel")

    def cwd(r):
        x = g.expand(r[0], 4) if len(r) == 1 else None
        return x is not None and (x == ("call", ("a", ("glob", "process"), "cwd"), (), ()) or show(x) in ("process.cwd()", "path.resolve('.')", "path.resolve()"))

    def gypdir(r):
        return len(r) == 1 and own_file(g, r[0])

    def engine(r):
        return True
    for name, ok, why in (("node_root_dir", lambda r: len(r) == 1 and isnd(r[0]), "the node directory"),
                          ("node_gyp_dir", gypdir, "node-gyp's own directory"),
                          ("module_root_dir", cwd, "the working directory"),
                          ("node_engine", engine, "the engine"), ("node_lib_file", None, "the import library")):
        pre = f"-D{name}="
        its = [(m, v) for m, s, i, v in items if starts(v, pre) is not None]
        present([m for m, v in its], f"-D{name}")
        for m, v in its:
            r = starts(v, pre)
            if name == "node_lib_file":
                x = g.expand(v, 8)
                good = has(x, lambda t: t == ("c", ".lib")) and any(has(x, lambda t: t == y) or has(v, lambda t: t == y) for y in nodedirs)
            else:
                good = ok(r)
            c.ob("A4", m.loc, good, f"-D{name} is {why}", f"-D{name} is not {why}: {show(v)[:120]}")

    # ---- generator output
    go = [(m, i, v) for m, s, i, v in items if flagged(m, i, "--generator-output")]
    go += [(m, i, r[0]) for m, s, i, v in items for r in [starts(v, "--generator-output=")] if r and len(r) == 1]
    present([m for m, i, v in go], "--generator-output")
    for m, i, v in go:
        ps = [p for p in path_parts(g.expand(v, 6))]
        c.ob("A4", m.loc, bool(ps) and ps[-1] == ("c", "build") and all(is_cwdish(p) for p in ps[:-1]), "output goes to build/",
             f"gyp's output directory is not build/: {show(v)}")

    # ---- includes
    inc = [(m, i, v) for m, s, i, v in items if flagged(m, i, "-I", "--include")]
    inc += [(m, i, r[0]) for m, s, i, v in items for p in ("-I", "--include=") for r in [starts(v, p)] if r and len(r) == 1]
    addon = [m for m, i, v in inc if own_file(g, v, "addon.gypi")]
    common = [m for m, i, v in inc if last(g, v) == ("c", "common.gypi") and any(has(g.expand(v, 6), lambda t: t == y) or has(v, lambda t: t == y) for y in nodedirs)]
    for m in set(common):
        for i, v in [(i, v) for k, i, v in inc if k is m and last(g, v) == ("c", "common.gypi")]:
            for r in (g.resolve(m.args[i], m) if m.op == "call" and i < len(m.args) else [v]):
                x = g.expand(r, 6)
                c.ob("A4", m.loc, any(has(x, lambda t: t == y) or has(r, lambda t: t == y) for y in nodedirs), "common.gypi is that of the node directory",
                     f"common.gypi is not taken from the node directory: {show(r)[:100]}")
    conf, names = [], []
    for m, i, v in inc:
        if is_conf(g, v):
            conf.append((m, m))
        elif v[0] in ("elem", "i") or has(v, lambda t: t[0] == "elem"):
            e = next(x for x in subterms(v) if x[0] == "elem")
            it = g.nodes[e[2]]
            _, sub = contributions(g, it, it.term)
            for m2, s2, i2, v2 in sub:
                if is_conf(g, v2):
                    conf.append((m2, m, it))
                else:
                    names.append((m2, v2))
    for n in g.calls():
        if n.callee[0] == "a" and n.callee[2] in ("stat", "access", "lstat", "open") and fs_op(g.callee(n)) and n.args:
            if not any(v == n.args[0] or g.resolve(v, m) & g.resolve(n.args[0], n) for m, v in names):
                continue
            enoent = memo(g, lambda t, tr: t[0] == "op" and t[1] == "==" and tr and ("c", "ENOENT") in t[2:])
            for l, h in n.succ:
                if l == "exc":
                    bad = [s for s in sp + [g.exit] if reachable(g, h, s, lambda x, l2: l2 == "exc" or enoent(x, l2))]
                    c.ob("A1", n.loc, not bad, "only a missing configuration file is passed over", "a configuration file that cannot be examined is silently ignored")
    mine = {x for m, v in names for x in closure(g, v, m)}
    for k in ("config.gypi", "common.gypi"):
        c.ob("A1", names[0][0].loc if names else root.loc, ("c", k) in mine, f"the addon's own {k} is included", f"a {k} next to binding.gyp is not passed to gyp")
    present(addon, "-I addon.gypi")
    present(common, "-I common.gypi of the node directory")
    ids = {x[0].id for x in conf}
    c.ob("A1", sp[0].loc if sp else root.loc, bool(conf), "the generated config.gypi is included", "build/config.gypi is not passed to gyp")
    c.must_pass("A1", g, sp, lambda n, l: n.id in ids and l != "exc", "build/config.gypi joins the included files",
                "gyp can be started without build/config.gypi")
    for x in conf:
        if len(x) > 2:
            its = {y[2].id for y in conf if len(y) > 2}
            body = [s for l, s in x[2].succ if l == "body"]
            ok = not body or not reachable(g, body[0], x[1], lambda n, l: n is x[2]) or not reachable(g, body[0], x[2], lambda n, l: n is x[1] or l == "exc")
            c.ob("A1", x[1].loc, ok, "every configuration file is included", "a configuration file can be skipped")
            c.must_pass("A1", g, sp, lambda n, l: n.id in its and l == "done" or n.id in {y[1].id for y in conf}, "the configuration files are passed",
                        "gyp can be started without the configuration files")
    for a in set(addon):
        for x in conf:
            c.ob("A3", a.loc, not reachable(g, a, x[1], lambda n, l: False), "config.gypi comes before addon.gypi",
                 "addon.gypi is included before config.gypi")
    for m in set(common):
        for a in set(addon):
            ok = not reachable(g, m, a, lambda n, l: False) if m is not a else \
                min(i for k, i, v in inc if k is m and own_file(g, v, "addon.gypi")) < min(i for k, i, v in inc if k is m and last(g, v) == ("c", "common.gypi"))
            c.ob("A3", m.loc, ok, "addon.gypi comes before common.gypi", "common.gypi is included before addon.gypi")

    # ---- first two arguments
    script = [(m, s, i) for m, s, i, v in items if own_file(g, v, "gyp", "gyp_main.py")]
    bind = [(m, s, i) for m, s, i, v in items if v == ("c", "binding.gyp")]
    present([m for m, s, i in script], "gyp_main.py")
    present([m for m, s, i in bind], "binding.gyp")
    fronts = {m for m, s, i, v in items if s == "front"}
    for m, s, i in script:
        ok = i == 0 and (s == "front" and not any(f is not m and reachable(g, m, f, lambda n, l: False) for f in fronts) or s == "lit" and not fronts)
        c.ob("A2", m.loc, ok, "gyp_main.py is the first argument", "gyp_main.py is not the first argument")
    for m, s, i in bind:
        sm = {x for x, _, _ in script}
        if s == "front":
            ok = (m in sm and i == 1) or i == 0 and m not in sm and all(f in sm or f is m or not reachable(g, m, f, lambda n, l: False) for f in fronts)
            ok = ok and (m in sm or any(reachable(g, m, x, lambda n, l: False) for x in sm))
        else:
            ok = s == "lit" and (i == 1 and m in sm or i == 0 and m not in sm and bool(fronts & sm))
        c.ob("A2", m.loc, ok, "binding.gyp is the first build file", "binding.gyp is not the first build file")

    # ---- format
    from .p34_configure import formats
    for label, ok, got in formats(c, g, root, sp):
        c.ob("A5", sp[0].loc, ok, f"{label}: as given, else make, or msvs on Windows", f"{label}: the generator formats are {got}", key=f"formats:{label}")

    # ---- user's arguments
    for s, l in zip(sp, lists):
        c.ob("A6", s.loc, any(x[0] == "param" and x[1] == "argv" or x[0] in ("param", "v", "undef") and "argv" in str(x) for x in l),
             "the user's arguments reach gyp", "the user's extra arguments are dropped")
    # ---- python
    for s in sp:
        ok = all(r[0] == "t" and has(g.expand(r, 5), lambda t: t[0] == "a" and t[2] == "findPython" or t[0] == "fn" and t[1].name == "findPython")
                 for r in g.resolve(s.args[0], s))
        c.ob("A7", s.loc, ok, "gyp runs in the Python that was found", "gyp runs in another interpreter than the one found")
    st = [n for n in g.nodes if n.op == "store" and n.live and (n.name == "PYTHONPATH" or n.name is None and ("c", "PYTHONPATH") in g.resolve(n.key, n))]
    ids = {n.id for n in st}
    c.must_pass("A7", g, sp, lambda n, l: n.id in ids, "PYTHONPATH is set", "gyp can be started without its own library in PYTHONPATH")
    for n in st:
        for lf in guarded(g, n, n.value):
            v = lf[0]
            its2, fst, seps = [], None, []
            x = g.expand(v, 2)
            if x[0] == "call" and x[1][0] == "a" and x[1][2] == "join" and x[1][1] != ("mod", "path") and v[0] == "t":
                lists2, its2 = contributions(g, g.nodes[v[1]], g.nodes[v[1]].callee[1])
                for l0 in lists2:
                    ct = g.content(l0)
                    if ct[0] in ("list", "tuple") and ct[1]:
                        fst = ct[1][0]
                        break
                if any(sd == "front" for _, sd, _, _ in its2):
                    fst = None
                k = g.nodes[v[1]]
                seps = guarded(g, k, k.args[0]) if k.args else [(("c", ","), k)]
                where = k
            else:
                where = n
                ps = cat_parts(v)
                if len(ps) == 1:
                    ps = cat_parts(x)
                fst = ps[0] if ps else None
                seps = guarded(g, n, ps[1]) if len(ps) > 1 else []
            for sp2 in seps:
                x = sp2[0]
                win = lambda want: (lambda t, tr: t[0] == "op" and t[1] == "==" and ("c", "win32") in t[2:] and tr == want)
                ok = x == ("a", ("mod", "path"), "delimiter") or x in (("c", ";"), ("c", ":")) and leaf_ok(g, where, sp2, win(x == ("c", ";")))
                c.ob("A7", n.loc, ok, "the entries of PYTHONPATH are separated as the platform wants", f"PYTHONPATH entries are joined with {show(x)} on the wrong platform")
            good = fst is not None and any(own_file(g, y, "gyp", "pylib") for y in g.resolve(fst, n))
            c.ob("A7", n.loc, good, "the bundled gyp library comes first", "another gyp library can shadow the bundled one")


def last(g, v):
    ps = path_parts(g.expand(v, 6))
    if not ps:
        return None
    p = ps[-1]
    return ("c", p[1].split("/")[-1]) if p[0] == "c" and isinstance(p[1], str) else p


def is_conf(g, v):
    x = g.expand(v, 4)
    return has(x, lambda t: t[0] == "fn" and t[1].name == "createConfigGypi" or t[0] == "a" and t[2] == "createConfigGypi")


def is_cwdish(p):
    return p == ("c", ".") or show(p) == "process.cwd()"


def node_dirs(g):
    """Values of the node directory: --nodedir (with ~ expanded) or <devDir>/<versionDir>."""
    out = set()
    for n in g.calls():
        x = g.expand(("t", n.id), 6)
        f = g.callee(n)
        if f[0] == "a" and f[2] == "replace" and is_opt(g.expand(f[1], 4), "nodedir"):
            out |= {("t", n.id), x}
        if f[0] == "a" and f[1] == ("mod", "path") and f[2] in ("resolve", "join"):
            ps = path_parts(x)
            if len(ps) == 2 and ps[0][0] == "a" and ps[0][2] == "devDir" and ps[1][0] == "a" and ps[1][2] == "versionDir":
                out |= {("t", n.id), x}
    return out
