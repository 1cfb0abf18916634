"""build/config.gypi: forwarded options, reset defaults, chosen toolchain."""
import json
from ..match import *
from ..ccp import CCP, RAISE
from ..cfg import show
from .jscommon import *

ID = "P12"
EXPLANATION = (
    "All property writes into the generated configuration are collected on the supergraph of the configure command "
    "(helpers spliced in). Path rules: every path to the write of build/config.gypi resets the inherited compile "
    "settings, stores target_arch (with --arch preferred over process.arch), nodedir, python, and on Windows the Visual "
    "Studio facts; 'Debug' is stored exactly under --debug; the loop over the options skips only argv and options "
    "node-gyp defines, and renames dashes; booleans are stringified; process.config is never written through; the "
    "headers' own config.gypi is used exactly under the documented conditions.")

OPQ = ("processRelease", "findPython", "findVisualStudio", "findNodeDirectory")


def name_of(o):
    s = subscript(o)
    return s[1][1] if s is not None and s[1][0] == "c" else None


def is_write_file(g, n):
    f = g.callee(n)
    return f[0] == "a" and f[2] in ("writeFile", "writeFileSync") and len(n.args) > 1


def check(c):
    c.rule("G1", "inherited cflags, defines, include_dirs and libraries are emptied on every path")
    c.rule("G2", "target_arch is --arch, else the running architecture")
    c.rule("G3", "nodedir and python are the ones configure chose")
    c.rule("G4", "every option node-gyp does not define becomes a variable, dashes as underscores")
    c.rule("G5", "booleans are written as strings, below a comment line, to build/config.gypi, before gyp runs")
    c.rule("G6", "default_configuration is Debug exactly with --debug")
    c.rule("G7", "process.config is copied, never modified")
    c.rule("G8", "the headers' config.gypi is the base exactly with --nodedir/--dist-url and without --force-process-config")
    c.rule("G9", "on Windows the chosen toolset, SDK and MSBuild are recorded; thin archives follow --thin")
    root = exported(c.js, "lib/configure.js")
    if root is None:
        return c.ob("G5", ("lib/configure.js", 1), False, "the configure command is exported")
    g = c.graph(root, opaque(*OPQ))
    sinks = [n for n in g.calls() if is_write_file(g, n)
             and any(path_parts(v) and path_parts(v)[-1] == ("c", "config.gypi") for v in g.values(n, n.args[0], 6))]
    sinks = c.need("G5", sinks, "configure writes build/config.gypi", root.loc)
    if not sinks:
        return
    ws = writes(g)
    dw = [w for w in ws if name_of(w[1]) == "target_defaults"]
    vw = [w for w in ws if name_of(w[1]) == "variables"]

    def stores(lst, key):
        return [w for w in lst if w[2] == ("c", key)]

    def loops_over(lst, key, test):
        """iter nodes whose completion implies the write for this key"""
        ids = set()
        for n, o, k, v in lst:
            it, cl = loop_of_key(g, n, k)
            if it is not None and cl and key in cl and test(v):
                body = [m for l, m in it.succ if l == "body"]
                if body and not reachable(g, body[0], it, lambda x, l: x is n):
                    ids.add(it.id)
        return ids

    # G1
    for key in ("cflags", "defines", "include_dirs", "libraries"):
        def empty(v):
            return g.content(v) in (("list", ()), ("tuple", ())) or g.content(v)[0] == "list" and not g.content(v)[1]
        st = stores(dw, key)
        ids = {w[0].id for w in st if empty(w[3])}
        its = loops_over(dw, key, empty)
        c.must_pass("G1", g, sinks, lambda n, l: n.id in ids or n.id in its and l == "done",
                    f"inherited target_defaults.{key} is emptied", f"config.gypi can inherit {key} from the node binary's build")
        for w in st:
            c.ob("G1", w[0].loc, empty(w[3]), f"{key} starts empty", f"target_defaults.{key} is filled with something else")

    # G2
    ta = stores(vw, "target_arch")
    def is_arch(t):
        return is_opt(t, "arch")

    def is_proc(t):
        return t == ("a", ("glob", "process"), "arch")
    ids = {w[0].id for w in ta}
    c.must_pass("G2", g, sinks, lambda n, l: n.id in ids, "target_arch is recorded", "config.gypi can lack target_arch")
    for n in {w[0].id: w[0] for w in ta}.values():
        if n.op != "store":
            continue
        b = prefers(g, n, n.value, is_arch)
        c.ob("G2", n.loc, not b, "--arch wins", f"target_arch can differ from --arch: {show(b[0]) if b and b[0] != ('missing',) else 'never --arch'}")
        b = prefers(g, n, n.value, is_proc, skip=is_arch)
        c.ob("G2", n.loc, not b, "the running architecture is the default", "target_arch does not default to process.arch")

    # G3
    py = stores(vw, "python")
    ids = {w[0].id for w in py}
    c.must_pass("G3", g, sinks, lambda n, l: n.id in ids, "python is recorded", "config.gypi can lack the python variable")
    for n, o, k, v in py:
        ok = v[0] == "t" and any(r[0] == "fn" and r[1].name == "findPython" for r in g.resolve(g.nodes[v[1]].callee, g.nodes[v[1]]))
        ok = ok or v[0] == "t" and has(g.expand(v, 4), lambda x: x[0] == "a" and x[2] == "findPython")
        c.ob("G3", n.loc, ok, "the interpreter found by node-gyp", f"variables.python is not the interpreter found: {show(v)}")
    nd = stores(vw, "nodedir")
    ids = {w[0].id for w in nd}
    c.must_pass("G3", g, sinks, lambda n, l: n.id in ids, "nodedir is recorded", "config.gypi can lack nodedir")
    roots = set()
    for n in g.calls():
        if n.callee[0] == "a" and n.callee[2] in ("push", "unshift"):
            for a in n.args:
                for v in g.values(n, a, 4):
                    if v[0] == "cat" and v[1] == ("c", "-Dnode_root_dir=") or v[0] == "op" and v[1] == "+" and v[2] == ("c", "-Dnode_root_dir="):
                        roots |= {x for x in v[2:]}
                    elif v[0] == "cat" and isinstance(v[1], tuple) and v[1] and v[1][0] == ("c", "-Dnode_root_dir="):
                        roots.add(v[1][1])
    for n, o, k, v in nd:
        ok = all(x in roots or g.expand(x, 4) in roots for x in (v,)) if roots else True
        c.ob("G3", n.loc, ok, "nodedir is the directory gyp gets as node_root_dir", f"nodedir differs from node_root_dir: {show(v)}")

    forward(c, g, sinks, vw)
    text(c, g, sinks)
    debug(c, g, sinks, dw, stores)
    base(c, g, sinks, ws)

    # G9
    win = memo(g, lambda t, tr: tr != (t[0] == "op" and t[1] == "==" and ("c", "win32") in t[2:] and ("a", ("glob", "process"), "platform") in t[2:])
               and t[0] == "op" and t[1] == "==" and ("c", "win32") in t[2:])

    def notwin(n, l):
        return edge_implies(g, n, l, lambda t, tr: not tr and t[0] == "op" and t[1] == "==" and ("c", "win32") in t[2:])
    for lst, key, attr in ((dw, "msbuild_toolset", "toolset"), (vw, "msbuild_path", "msBuild"), (dw, "msvs_windows_target_platform_version", "sdk")):
        st = stores(lst, key)
        ids = {w[0].id for w in st}

        def nosdk(n, l):
            return attr == "sdk" and edge_implies(g, n, l, lambda t, tr: not tr and name_of(t) == "sdk")
        c.must_pass("G9", g, sinks, lambda n, l: n.id in ids or notwin(n, l) or nosdk(n, l), f"{key} is recorded on Windows",
                    f"config.gypi can lack {key} on Windows")
        for w in st:
            ok = all(name_of(lf[0]) == attr for lf in guarded(g, w[0], w[0].value)) if w[0].op == "store" and w[0].name == key else name_of(w[3]) == attr
            c.ob("G9", w[0].loc, ok, f"{key} is the chosen {attr}", f"{key} is not the {attr} of the chosen Visual Studio")
    th = stores(vw, "standalone_static_library")
    ids = {w[0].id for w in th}
    c.must_pass("G9", g, sinks, lambda n, l: n.id in ids, "standalone_static_library is recorded", "config.gypi can lack standalone_static_library")
    for n, o, k, v in th:
        for lf in guarded(g, n, n.value if n.op == "store" and n.name == "standalone_static_library" else v):
            want = {0: True, 1: False}.get(lf[0][1]) if lf[0][0] == "c" else None
            ok = want is not None and leaf_ok(g, n, lf, lambda t, tr: is_opt(t, "thin") and tr == want)
            c.ob("G9", n.loc, ok, "thin archives only with --thin", "standalone_static_library does not follow --thin")


def over_opts(g, t):
    """Is t an enumeration of gyp.opts? -> 'key' | 'entry'"""
    t = g.expand(t, 6)
    if is_opts(t):
        return "key"
    if t[0] == "call" and t[1][0] == "a" and t[2]:
        if t[1][1] == ("glob", "Object") and is_opts(t[2][0]):
            return {"keys": "key", "getOwnPropertyNames": "key", "entries": "entry"}.get(t[1][2])
        if t[1][1] == ("glob", "Reflect") and t[1][2] == "ownKeys" and is_opts(t[2][0]):
            return "key"
    return None


def forward(c, g, sinks, vw):
    cands = []
    for n, o, k, v in vw:
        v = g.expand(v, 6)
        if v[0] == "i" and is_opts(v[1]) and v[2][0] != "c":
            cands.append((n, k, v[2], v))
        elif v[0] == "i" and v[2] == ("c", 1) and v[1][0] == "elem" and over_opts(g, v[1][1]) == "entry":
            cands.append((n, k, ("i", v[1], ("c", 0)), v))
    cands = c.need("G4", cands, "unknown options are copied into variables", sinks[0].loc)
    its = set()
    for n, k, opt, v in cands:
        # the option name, with every dash replaced
        kt = g.expand(k, 6)
        ok = False
        if kt[0] == "call" and kt[1][0] == "a" and g.expand(kt[1][1], 6) == opt and len(kt[2]) == 2 and kt[2][1] == ("c", "_"):
            a = kt[2][0]
            ok = kt[1][2] == "replaceAll" and (a == ("c", "-") or a[0] == "regex") or kt[1][2] == "replace" and a[0] == "regex" \
                and a[1] in ("-", "[-]", "\\-", "-+") and "g" in a[2]
            ok = ok and not (a[0] == "regex" and a[1] not in ("-", "[-]", "\\-"))
        if kt[0] == "call" and kt[1][0] == "a" and kt[1][2] == "join" and kt[2] == (("c", "_"),):
            s = kt[1][1]
            ok = s[0] == "call" and s[1][0] == "a" and s[1][2] == "split" and s[2] == (("c", "-"),) and g.expand(s[1][1], 6) == opt
        c.ob("G4", n.loc, ok, "every dash of the option name becomes an underscore", f"variable name is {show(kt)}")
        e = next((x for x in subterms(opt) if x[0] in ("elem", "key")), None)
        it = g.nodes[e[2]] if e is not None and len(e) > 2 else None
        c.ob("G4", n.loc, it is not None, "the copy is in a loop over the options")
        if it is None:
            continue
        src, filters = unfilter(g, it.term, it)
        c.ob("G4", it.loc, src is not None and over_opts(g, src) is not None or it.op == "iter" and is_opts(src or ("c", 0)), "the loop covers all options",
             "the loop does not run over all options")

        def skip(t, tr, opt=opt):
            """may this option be skipped?"""
            if t[0] == "op" and t[1] == "==" and tr and ("c", "argv") in t[2:]:
                return True
            m = member(t, tr)
            if m and m[2]:
                if has(m[0], lambda x: x[0] == "a" and x[2] == "configDefs"):
                    return True
                cl = const_list(g, m[0])
                return cl == ["argv"]
            if t[0] == "call" and tr and t[1][0] == "a" and t[1][2] in ("hasOwn", "hasOwnProperty", "call") \
                    and has(t, lambda x: x[0] == "a" and x[2] == "configDefs"):
                return True
            if t[0] == "op" and t[1] == "isnull" and not tr and t[2][0] == "i" and has(t[2][1], lambda x: x[0] == "a" and x[2] == "configDefs"):
                return True
            return False
        em = memo(g, skip)
        body = [m for l, m in it.succ if l == "body"]
        bad = [m for m in [it] if body and reachable_from_body(g, body[0], it, lambda x, l: x is n or em(x, l))]
        c.ob("G4", n.loc, not bad, "only argv and node-gyp's own options are left out",
             "an option that node-gyp does not define can be left out of config.gypi")
        for fn_it, keep in filters:
            # a filter drops elements whose callback result is falsy
            ok = all(implied(g.expand(r, 6), False, skip) for r in keep) and keep
            c.ob("G4", fn_it.loc, bool(ok), "the filter drops only argv and node-gyp's own options",
                 "the filter drops options that node-gyp does not define")
        its.add(it.id)
    c.must_pass("G4", g, sinks, lambda x, l: x.id in its and l == "done", "the options are copied before config.gypi is written",
                "config.gypi can be written without the user's options")


def unfilter(g, t, it):
    """Strip .filter(cb)/.sort() from an enumerated term: (source, [(iter, callback results)])"""
    fl = []
    for _ in range(4):
        r = g.resolve(t, it)
        t = next(iter(r)) if len(r) == 1 else t
        if t[0] == "t":
            n = g.nodes[t[1]]
            f = n.callee
            if f[0] == "a" and f[2] == "filter" and getattr(n, "loop", None) is not None:
                keep = [g.one(m.term, m, 6) for m in g.nodes if m.live and m.op == "assign" and str(m.var[2]).startswith("$ret")
                        and inside(g, g.nodes[n.loop], m)]
                fl.append((n, keep))
                t = f[1]
                continue
            if f[0] == "a" and f[2] in ("sort", "slice", "reverse") and not n.args:
                t = f[1]
                continue
        break
    return t, fl


def inside(g, it, m):
    body = [x for l, x in it.succ if l == "body"]
    return bool(body) and reachable(g, body[0], m, lambda x, l: x is it)


def reachable_from_body(g, start, it, blocked):
    seen, todo = {start.id}, [start]
    while todo:
        m = todo.pop()
        for l, s in m.succ:
            if l == "exc" or blocked(m, l):
                continue
            if s is it:
                return True
            if s.id not in seen:
                seen.add(s.id)
                todo.append(s)
    return False


def text(c, g, sinks):
    for s in sinks:
        c.ob("G5", s.loc, bool(s.awaited) or g.callee(s)[2].endswith("Sync"), "the write is awaited",
             "configure does not wait for config.gypi to be written")
        ps = [path_parts(v) for v in g.values(s, s.args[0], 6)]
        ok = all(len(p) >= 2 and p[-1] == ("c", "config.gypi") and p[-2] == ("c", "build") for p in ps)
        c.ob("G5", s.loc, ok, "the file is build/config.gypi", "config.gypi is written elsewhere")
        js = [n for n in g.calls() if g.callee(n) == ("a", ("glob", "JSON"), "stringify")
              and derives(g, s.args[1], s, lambda t: t == ("t", n.id))]
        js = [n for n in js if not any(g.callee(m) == ("a", ("glob", "JSON"), "parse") and ("t", n.id) in g.values(m, m.args[0], 0) for m in g.calls() if m.args)]
        c.ob("G5", s.loc, bool(js), "the text is the JSON of the configuration")
        for n in js:
            rep = [r for a in n.args[1:2] for r in g.resolve(a, n) if r[0] == "fn"]
            c.ob("G5", n.loc, bool(rep), "a replacer stringifies booleans", "booleans are written unquoted, which gyp cannot read")
            for r in rep:
                fg = c.near(r[1])
                em = memo(fg, lambda t, tr: not tr and t[0] == "op" and t[1] == "==" and ("c", "boolean") in t[2:])
                rets = [m for m in fg.nodes if m.op == "assign" and m.live and m.var[1] == "r" and str(m.var[2]).startswith("$ret")]
                if not rets:
                    rets = [m for m in fg.nodes if m.op == "assign" and m.live and m.var[1] == "r"]
                for m in rets:
                    for lf in guarded(fg, m, m.term):
                        x = fg.expand(lf[0], 4)
                        isstr = x[0] == "call" and (x[1] == ("glob", "String") or x[1][0] == "a" and x[1][2] in ("toString", "stringify")) \
                            or x[0] == "cat" or x[0] == "c" and isinstance(x[1], str) or x[0] == "op" and x[1] == "+"
                        ok = isstr or leaf_ok(fg, m, lf, lambda t, tr: not tr and t[0] == "op" and t[1] == "==" and ("c", "boolean") in t[2:])
                        c.ob("G5", m.loc, ok, "a boolean is turned into a string", "a boolean can reach config.gypi unquoted")
        head = [x for v in g.values(s, s.args[1], 6) for x in first(g, v)]
        ok = bool(head) and all(x[0] == "c" and isinstance(x[1], str) and (x[1].startswith("#") or x[1].startswith("{")) for x in head)
        c.ob("G5", s.loc, ok, "the file starts with a comment line", "the first line of config.gypi is not a comment")
    sp = [n for n in g.calls() if n.callee[0] == "a" and n.callee[2] == "spawn"]
    c.must_pass("G5", g, sp, lambda n, l: n in sinks and l != "exc", "config.gypi is complete before gyp starts",
                "gyp can be started without a config.gypi")


def first(g, v):
    v = g.content(v)
    if v[0] == "call" and v[1][0] == "a" and v[1][2] == "join":
        l = g.content(v[1][1])
        if l[0] in ("list", "tuple") and l[1]:
            return first(g, l[1][0])
    if v[0] == "cat":
        p = v[1] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]
        return first(g, p[0]) if p else [v]
    if v[0] == "op" and v[1] == "+":
        return first(g, v[2])
    return [v]


def debug(c, g, sinks, dw, stores):
    st = stores(dw, "default_configuration")
    nodes = {w[0].id: w[0] for w in st if w[0].op == "store"}

    def dbg(t):
        return is_opt(t, "debug")

    def absent(t, tr):
        m = member(t, tr)
        if m and m[1] == ("c", "debug") and is_opts(m[0]):
            return not m[2]
        if t[0] == "op" and t[1] == "isnull" and dbg(t[2]):
            return tr
        if t[0] == "op" and t[1] == "==" and dbg(t[2]) and t[3] == ("c", None):
            return tr
        if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("hasOwn", "hasOwnProperty") and ("c", "debug") in t[2]:
            return not tr
        return False

    def unset(t, tr):
        return not tr and name_of(t) == "default_configuration"
    follow = set()
    for n in nodes.values():
        good = True
        for lf in guarded(g, n, n.value):
            v = lf[0]
            if v == ("c", "Debug"):
                ok = leaf_ok(g, n, lf, lambda t, tr: dbg(t) and tr)
                c.ob("G6", n.loc, ok, "'Debug' only with --debug", "the Debug configuration is selected without --debug")
            elif v == ("c", "Release"):
                off = leaf_ok(g, n, lf, lambda t, tr: dbg(t) and not tr or absent(t, tr))
                un = leaf_ok(g, n, lf, unset)
                good = good and off
                c.ob("G6", n.loc, off or un, "'Release' only without --debug or as a default",
                     "Release can replace the configuration selected by --debug or by the base configuration")
            elif name_of(v) == "default_configuration":
                good = good and leaf_ok(g, n, lf, absent)
            else:
                c.ob("G6", n.loc, False, f"default_configuration value {show(v)}", "default_configuration is neither Debug nor Release")
        if good:
            follow.add(n.id)
    c.must_pass("G6", g, sinks, lambda n, l: n.id in follow or edge_implies(g, n, l, absent), "--debug and --no-debug select the configuration",
                "default_configuration can ignore --debug/--no-debug")
    c.must_pass("G6", g, sinks, lambda n, l: n.id in nodes or edge_implies(g, n, l, lambda t, tr: tr and name_of(t) == "default_configuration"),
                "default_configuration is always set", "config.gypi can lack default_configuration")


def base(c, g, sinks, ws):
    def procconf(t):
        return has(t, lambda x: x == ("a", ("glob", "process"), "config"))

    def alias(t):
        while True:
            if t == ("a", ("glob", "process"), "config"):
                return True
            s = subscript(t)
            if s is None:
                return False
            t = s[0]
    for n, o, k, v in ws:
        c.ob("G7", n.loc, not alias(o), "the write does not go through process.config", "process.config itself is modified")
    reads = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[2] in ("readFile", "readFileSync") and n.args
             and any("config.gypi" in str(p[1]) for v in g.values(n, n.args[0], 6) for p in path_parts(v)[-1:] if p[0] == "c")]
    reads = c.need("G8", reads, "the headers' config.gypi is read", sinks[0].loc)

    def force(t):
        return is_opt(t, "force-process-config", "force_process_config")
    CUSTOM = ("nodedir", "disturl", "dist-url")
    m1 = lambda t, tr: not tr and force(t)
    c.must_pass("G8", g, reads, memo(g, m1), "not with --force-process-config", "config.gypi of the headers is used despite --force-process-config")
    c.must_pass("G8", g, reads, memo(g, lambda t, tr: tr and is_opt(t, *CUSTOM)), "only with custom headers",
                "config.gypi of the headers is used without --nodedir or --dist-url")
    ids = {n.id for n in reads}
    nds = {g.expand(v, 6) for n, o, k, v in ws if name_of(o) == "variables" and k == ("c", "nodedir")}
    for o in ("nodedir", "dist-url", "disturl"):
        em = memo(g, lambda t, tr: tr and force(t) or not tr and (is_opt(t, o) or t in nds))
        c.must_pass("G8", g, sinks, lambda n, l: n.id in ids or em(n, l) or l == "exc" and n.op == "call" and g.callee(n)[:2] == ("a", ("mod", "path")),
                    f"with --{o} the headers' config.gypi is tried", f"--{o} does not lead to the headers' config.gypi")
    for n in reads:
        owner = next((f for m in c.js.mods.values() for f in m.functions if f.loc[0] == n.loc[0] and any(
            k.op == "call" and k.loc == n.loc and k.callee[0] == "a" and k.callee[2].startswith("readFile") for k in c.flat(f).nodes)), None)
        todo, seen = [owner] if owner is not None else [], set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if any(k.live and k.callee == ("a", ("glob", "JSON"), "parse") for k in c.graph(f, opaque(*OPQ)).calls()):
                parsing(c, f)
            else:
                todo += c.callers(f)
    proc = [n for n in g.calls() if any(procconf(v) for a in n.args for v in g.resolve(a, n)) and n.callee[0] in ("a", "glob")
            and not (n.callee[0] == "a" and n.callee[1] == ("mod", "path"))]
    for r in reads:
        ok = not any(reachable(g, r, p, lambda n, l: l == "exc") for p in proc if p.loc[0] == r.loc[0])
        c.ob("G8", r.loc, ok, "a readable config.gypi is used", "the headers' config.gypi is read but process.config is used")
        # failure falls back
        esc = escapes(g, r, {p.id for p in proc})
        c.ob("G8", r.loc, not esc, "an unreadable config.gypi falls back to process.config", "an unreadable config.gypi of the headers fails the command")


SAMPLES = (("# Do not edit.\n# Second comment\n{ 'target_defaults': { 'cflags': [],\n 'defines': ['a', 'b'] },\n  'variables': {'x': 'y'}}\n",
            {"target_defaults": {"cflags": [], "defines": ["a", "b"]}, "variables": {"x": "y"}}),
           ('{"target_defaults": {}, "variables": {"v": 1, "w": "z"}}', {"target_defaults": {}, "variables": {"v": 1, "w": "z"}}),
           ("{ 'a': 'first '\n       'second '\n   'third', # trailing\n 'b': {'c': 'd'} }\n# end\n", {"a": "first second third", "b": {"c": "d"}}))


def lift(v):
    return ("dict", tuple((("c", k), lift(x)) for k, x in v.items())) if isinstance(v, dict) else ("list", tuple(map(lift, v))) if isinstance(v, list) else ("c", v)


def parsing(c, owner):
    """The text of a config.gypi (Python literal syntax) becomes the configuration it denotes."""
    g = c.graph(owner, opaque(*OPQ))
    for src, want in SAMPLES:
        def model(op, t, src=src):
            if op == "value":
                return ("c", None) if is_opt(t, "force-process-config", "force_process_config") else ("sym", "opt") if is_opt(t, "nodedir", "dist-url", "disturl") else None
            if op == "truth":
                return True if t[0] in ("sym", "i", "call", "param", "a") else None
            if op == "throws":
                return False
            if op == "call":
                f, a = t[1], t[2]
                if f[0] == "a" and f[2] in ("readFile", "readFileSync"):
                    return ("c", src) if len(a) > 1 else ("sym", "bytes")
                if f == ("a", ("sym", "bytes"), "toString") or f == ("glob", "String") and a == (("sym", "bytes"),):
                    return ("c", src)
                if f == ("a", ("glob", "JSON"), "parse") and a and a[0][0] == "c":
                    try:
                        return lift(json.loads(a[0][1]))
                    except (ValueError, TypeError):
                        return RAISE
            return None
        e = CCP(g, model, heaplists=True)
        outs = e.run()
        c.states += e.count
        for kind, n, s in outs:
            got = e.deep(s.get(("v", "r", "$ret"), ("c", None)), s)
            c.ob("G8", owner.loc, kind == "return" and got == lift(want), "a config.gypi is read as what it says",
                 f"a config.gypi in Python syntax is read as {show(got)[:120]}, not as {show(lift(want))}")


def escapes(g, n, fallback):
    """Can a failure of n end the command without passing the fallback?"""
    ss = [s for l, s in n.succ if l == "exc"]
    seen = set()
    while ss:
        m = ss.pop()
        if m is g.exc_exit or m is g.exit:
            return True
        if m.id in seen or m.id in fallback:
            continue
        seen.add(m.id)
        ss += [x for l, x in m.succ]
    return False
