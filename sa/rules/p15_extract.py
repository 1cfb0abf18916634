"""What is unpacked from the headers archive."""
import re
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P15"
EXPLANATION = (
    "The filter handed to every tar extraction is evaluated over the finite domain of file-name extensions {.h, .gypi, "
    "any other}: on every path of its supergraph the returned value must be true for the first two and false for the "
    "rest. The extraction options are checked, and the loop that copies the extracted tree must, for every kind of "
    "directory entry, pass a copy of that entry, the recursion into it, or an exception before it continues.")
KEEP = (".h", ".gypi")


def ev(g, t, ext, files):
    """Truth of term t for a file name with this extension (None: unknown)."""
    k = t[0]
    if k == "c":
        return bool(t[1])
    if k == "op":
        o, a = t[1], t[2:]
        if o == "not":
            r = ev(g, a[0], ext, files)
            return None if r is None else not r
        if o == "!!":
            return ev(g, a[0], ext, files)
        if o in ("&&", "||"):
            rs = [ev(g, x, ext, files) for x in a]
            want = o == "||"
            return want if want in rs else None if None in rs else not want
        if o == "?:":
            r = ev(g, a[0], ext, files)
            return None if r is None else ev(g, a[1] if r else a[2], ext, files)
        if o in ("==", "===", "!=", "!=="):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if is_ext(g, x, files) and y[0] == "c":
                    if ext is None and y[1] not in KEEP:
                        return None
                    return (y[1] == ext) == (o in ("==", "==="))
    at, tr = norm(t)
    m = member(at, tr)
    if m:
        if is_ext(g, m[1], files):
            c = g.content(m[0])
            if c[0] == "call" and len(c[2]) == 1 and has(c[1], lambda x: x == ("glob", "Set")):
                c = g.content(c[2][0])
            if c[0] == "new" and len(c) > 2:
                c = g.content(c[2][0]) if c[2] else c
            if c[0] in ("list", "tuple") and all(x[0] == "c" for x in c[1]):
                if ext is None and any(x[1] not in KEEP for x in c[1]):
                    return None
                return (ext in [x[1] for x in c[1]]) == m[2]
        return None
    if k == "call" and t[1][0] == "a":
        o, f = t[1][1], t[1][2]
        if f == "endsWith" and (o in files or is_ext(g, o, files)) and t[2] and t[2][0][0] == "c":
            s = t[2][0][1]
            if ext is None:
                return False if s in KEEP else None
            return s == ext if s.startswith(".") else None if ext.endswith(s) else False
        if f in ("test", "match"):
            rx, s = (o, t[2][0]) if f == "test" else (t[2][0], o) if t[2] else (None, None)
            rx = rx and g.content(rx)
            if rx and rx[0] == "regex" and (s in files or is_ext(g, s, files)):
                acc = accepted(rx[1], s in files)
                return None if acc is None or ext is None and acc - set(KEEP) else ext in acc
        if f == "some" or f == "includes":
            return None
    return None


def norm(t):
    from ..explore import norm_cond
    return norm_cond(t)


def accepted(src, whole):
    """Extensions a regular expression of the form \\.(a|b)$ accepts."""
    m = re.fullmatch(r"(\^?)(\.\+|\.\*)?\\\.(?:\((?:\?:)?([\w|]+)\)|(\w+))\$", src)
    if not m or (m.group(1) and whole and not m.group(2)):
        return None
    return {"." + x for x in (m.group(3) or m.group(4)).split("|")}


def is_ext(g, t, files):
    return t[0] == "call" and t[1][0] == "a" and t[1][2] == "extname" and t[1][1] == ("mod", "path") and t[2] and t[2][0] in files


def evn(g, n, t, ext, files, env):
    """Truth of t at node n, with the truths of variables assigned on the path in env."""
    if t[0] == "v" and t in env:
        return env[t]
    if t[0] == "op" and t[1] in ("not", "!!", "&&", "||", "?:"):
        rs = [evn(g, n, x, ext, files, env) for x in t[2:]]
        return ev(g, ("op", t[1]) + tuple(("c", r) if r is not None else ("free", "?") for r in rs), ext, files)
    vs = {ev(g, g.expand(r, 8), ext, files) for r in g.resolve(t, n)}
    return next(iter(vs)) if len(vs) == 1 else None


def returns(g, ext, files):
    """[(node, truth)] of the values the root function returns for this extension, path by path."""
    out, seen, todo = [], set(), [(g.entry, ())]
    while todo:
        n, e = todo.pop()
        if (n.id, e) in seen:
            continue
        seen.add((n.id, e))
        env = dict(e)
        if n.op == "assign":
            v = evn(g, n, n.term, ext, files, env)
            env[n.var] = v
            if n.var[1] == "r" and n.var[2] == "$ret":
                out.append((n, v))
        for l, s in n.succ:
            if l == "exc":
                continue
            if n.op == "branch" and l in ("T", "F"):
                v = evn(g, n, n.term, ext, files, env)
                if v is not None and v != (l == "T"):
                    continue
            todo.append((s, tuple(sorted(env.items(), key=repr))))
    return out


def check(c):
    c.rule("X1", "the archive filter accepts exactly .h and .gypi files")
    c.rule("X2", "the archive's top directory is stripped and absolute or parent paths are not preserved")
    c.rule("X3", "every entry of the extracted tree is copied, or the install fails")
    root = exported(c.js, "lib/install.js")
    if root is None:
        return c.ob("X1", ("lib/install.js", 1), False, "the install command is exported")
    g = c.graph(root, INSTALL)
    ext = c.need("X1", [n for n in g.calls() if is_extract(g.callee(n))], "archive extraction", root.loc)
    for n in ext:
        opts = [r for a in n.args for r in g.resolve(a, n)]
        ds = [o for o in opts if g.content(o)[0] == "dict" or o[0] == "obj"]
        c.ob("X2", n.loc, bool(ds), "the extraction has options")
        for o in ds:
            def get(k):
                v = dict_get(o, k) or dict_get(g.content(o), k)
                return v
            fl = get("filter")
            fns = [r[1] for r in g.resolve(fl, n) if r[0] == "fn"] if fl else []
            c.ob("X1", n.loc, bool(fns), "the extraction has a filter", "every file of the archive is unpacked")
            for f in fns:
                fg = c.graph(f, NOLOG)
                files = {("param", p.id) for p, *_ in f.params[:1] if hasattr(p, "id")}
                for e, want in ((".h", True), (".gypi", True), (None, False)):
                    rs = returns(fg, e, files)
                    ok = bool(rs) and all(v is want for _, v in rs)
                    c.ob("X1", f.loc, ok, f"the filter {'accepts' if want else 'rejects'} {e or 'every other file'}",
                         f"the filter can {'reject ' + e if want else 'accept files other than headers and gypi files'}")
            st = get("strip") or get("stripComponents") or get("strip-components")
            c.ob("X2", n.loc, st is not None and all(x == ("c", 1) for x in g.resolve(st, n)), "one directory level is stripped",
                 "the archive's top directory is not stripped")
            for k in ("preservePaths", "P"):
                v = get(k)
                c.ob("X2", n.loc, v is None or all(x[0] == "c" and not x[1] for x in g.resolve(v, n)), "paths leaving the directory are refused",
                     "the extraction preserves absolute and parent paths")
    # ---- copy
    m = c.js.mods["lib/install.js"]
    copiers = [f for f in m.functions if listing_loops(c.near(f), {n.loc for n in c.flat(f).nodes if n.op == "iter"})]
    copies = [f for f in copiers if subtree_copies(c, f)]
    whole = [n for n in g.calls() if fs_op(g.callee(n)) == "cp"]
    c.ob("X3", root.loc, bool(copies) or bool(whole), "the extracted tree is copied")
    for f in copies:
        fg = c.graph(f, helpers(f))
        its = listing_loops(fg)
        c.need("X3", its, "loop over the directory entries", f.loc)
        for it in its:
            body = [s for l, s in it.succ if l == "body"]

            def good(n, l):
                if n.op != "call" or l == "exc":
                    return False
                k = fg.callee(n)
                if not waited(fg, n):
                    return False
                return fs_op(k) in ("copyFile", "cp") or k[0] == "fn" and k[1] is f or k[0] == "free" and k[1] == f.name or \
                    any(v[0] == "fn" and has_copy(c, v[1], f) for a in n.args for v in fg.resolve(a, n))
            bad = bool(body) and reachable(fg, body[0], it, lambda n, l: good(n, l) or l == "exc")
            c.ob("X3", it.loc, not bad, "every entry is copied or refused", "an entry of the extracted tree can be skipped silently")
            for h in [fg]:
                for n in h.calls():
                    k = h.callee(n)
                    if (fs_op(k) in ("copyFile", "cp") or k[0] == "fn" and k[1] is f or k[0] == "free" and k[1] == f.name) and len(n.args) > 1:
                        for i in (0, 1):
                            ok = all(same_place(h, r, f, i) for r in h.resolve(n.args[i], n))
                            c.ob("X3", n.loc, ok, f"{'source' if i == 0 else 'destination'} is the entry below the {'source' if i == 0 else 'destination'}",
                                 "an entry is copied from or to another name")
            exits = [n for n in (fg.exit,) if body and reachable(fg, body[0], n, lambda n, l: n is it or l == "exc")]
            c.ob("X3", it.loc, not exits, "the loop visits every entry", "the copy can end before every entry was visited")
    # ---- a failed copy is only tolerated when the file is there
    for f in m.functions:
        fg = c.near(f)
        own = {n.loc for n in c.flat(f).calls()}
        for n in fg.calls():
            if n.loc not in own or fs_op(fg.callee(n)) != "copyFile":
                continue
            hs = [s for l, s in n.succ if l == "exc"]

            def stat(x, l):
                return x.op == "call" and l != "exc" and fs_op(fg.callee(x)) in ("stat", "access", "lstat")
            ok = all(not reachable(fg, h, fg.exit, lambda x, l: stat(x, l)) for h in hs if h is not fg.exc_exit)
            c.ob("X3", n.loc, ok, "a failed copy fails the install unless the file is there", "a failed copy can go unnoticed")
            busy = memo(fg, lambda t, tr: tr and t[0] == "op" and t[1] == "==" and t[2][0] == "a" and t[2][2] == "code" and t[3] == ("c", "EBUSY"))
            ok = all(not reachable(fg, h, fg.exit, busy) for h in hs if h is not fg.exc_exit)
            c.ob("X3", n.loc, ok, "only EBUSY is tolerated", "a failed copy is tolerated for other errors than EBUSY")


def waited(g, n):
    """Is the completion of this call observed (awaited, returned, synchronous, or collected for a later await)?"""
    if n.awaited or getattr(n, "tail", False) or n.callee[0] == "a" and n.callee[2].endswith("Sync"):
        return True
    return any(m is not n and any(r == ("t", n.id) for a in m.args for r in g.resolve(a, m)) for m in g.calls())


def same_place(h, r, f, i):
    p = f.params[i][0] if i < len(f.params) else None
    ps = path_parts(h.expand(r, 6))
    name = getattr(p, "id", None)
    if len(ps) == 1 and ps[0][0] == "free":
        return True
    return len(ps) == 2 and ps[0] in (("param", name), ("free", name)) and (ps[1][0] == "a" and ps[1][2] == "name" or ps[1][0] == "free")


def listing_loops(g, locs=None):
    """Loops over the entries of a directory."""
    return [n for n in g.nodes if n.live and n.op == "iter" and (locs is None or n.loc in locs) and any(
        has(g.expand(r, 6), lambda t: t[0] == "a" and t[2] == "readdir") for r in g.resolve(n.term, n))]


HELP = {}


def helpers(f):
    """Everything a copying function calls in its module, but not itself (each function has one predicate, so that graphs are shared)."""
    return HELP.setdefault(f, lambda fn, d: fn is not f and fn.module is f.module and NOLOG(fn, d) is not False)


def has_copy(c, fn, owner):
    fg = c.graph(fn, helpers(owner))
    return any(fs_op(fg.callee(n)) in ("copyFile", "cp") for n in fg.calls())


def subtree_copies(c, f):
    return has_copy(c, f, f)
