"""Files are written and deleted only where node-gyp owns the directory."""
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P05"
EXPLANATION = (
    "Every command's supergraph is searched for file-system deletions and content writes. The target of each one is "
    "resolved to its possible values and decomposed into path components; it must be (a) a constant path under build/, "
    "(b) below <devDir>/<release.versionDir>, (c) below a directory made by fs.mkdtemp in this command, or (d) for "
    "`remove`, a path dominated by a test that it lies directly inside devDir. Recursive deletions of anything else are "
    "reported at the call site.")

COMMANDS = ["build", "clean", "configure", "install", "list", "rebuild", "remove"]
DEST = {"symlink": 1, "link": 1, "rename": 1, "copyFile": 1, "cp": 1}
INL = opaque("processRelease", "findPython", "findVisualStudio", "findNodeDirectory")


def is_path_fn(t, *names):
    return t[0] == "call" and t[1][0] == "a" and t[1][1] == ("mod", "path") and t[1][2] in names


def is_devdir(t):
    return attr_path(t) == "gyp.devDir" or (is_path_fn(t, "resolve", "normalize") and len(t[2]) == 1 and is_devdir(t[2][0]))


def confined_test(target):
    """atom predicate: the path `target` lies directly inside devDir"""
    def pred(t, truth):
        if t[0] == "op" and t[1] == "==" and truth:
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if is_path_fn(x, "dirname") and same(x[2][0], target) and is_devdir(y):
                    return is_path_fn(y, "resolve") or not is_path_fn(target, "resolve")
                # path.relative(devDir, p) === path.basename(p)
                if is_path_fn(x, "relative") and is_path_fn(y, "basename") and same(y[2][0], target):
                    return False
        return False
    return pred


def simp(g, t):
    """Attributes of object literals replaced by their values."""
    if t[0] == "obj":
        return g.content(t)
    if t[0] == "alt":
        return ("alt",) + tuple(simp(g, x) for x in t[1:])
    if t[0] == "a":
        o = simp(g, t[1])
        d = dict_get(o, t[2]) if o[0] == "dict" else None
        return d if d is not None else ("a", o, t[2]) if o[0] != "dict" else t
    if t[0] in ("call", "cat", "op", "i"):
        return g._map(t, lambda x: simp(g, x))
    return t


def same(a, b):
    return a == b


def classify(g, n, v):
    """None when the value is an owned location, else the reason."""
    v = simp(g, v)
    if v == ("c", None):
        return None  # rejected by fs with a TypeError
    parts = []
    for p in path_parts(v):
        p = simp(g, p)
        if p[0] == "alt" and not parts:
            rest = path_parts(v)[1:]
            rs = [classify(g, n, ("call", ("a", ("mod", "path"), "resolve"), (a, *rest), ())) for a in p[1:]]
            return next((r for r in rs if r), None)
        parts.extend(path_parts(p) if p[0] != "t" else [p])
    while parts and is_cwd(parts[0]):
        parts = parts[1:]
    if not parts:
        return "the working directory itself"
    if any(p == ("c", "..") or (p[0] == "c" and isinstance(p[1], str) and ".." in p[1].replace("\\", "/").split("/")) for p in parts):
        return "path goes up"
    h = parts[0]
    if h == ("c", "build"):
        if len(parts) == 1 or all(safe_part(p) for p in parts[1:]):
            return None
        return "component below build/ is not constant"
    if is_mkdtemp(g, h):
        return loose(g, n, parts[1:])
    if is_devdir(h):
        if len(parts) > 1 and parts[1][0] == "a" and parts[1][2] == "versionDir":
            return loose(g, n, parts[2:])
        return "devdir"
    return "not build/, not <devDir>/<versionDir>, not a temp directory of this run"


def user_given(p):
    return has(p, lambda x: x[0] == "a" and (x[2] in ("env", "argv") or (attr_path(x) or "").startswith("gyp.opts.")))


def loose(g, n, parts):
    """Components below an owned directory that a user supplies must have been checked against a table of known names
    (an unknown name then throws or takes another branch) before the path is used."""
    for p in parts:
        if not user_given(p):
            continue
        cache = g.__dict__.setdefault("_p05", {})
        if p not in cache:
            def pred(t, truth, p=p):
                if truth and t[0] == "i" and t[2] == p and not user_given(t[1]):
                    return True
                m = member(t, truth)
                return bool(m) and m[2] and m[1] == p and not user_given(m[0])

            def good(m, l, p=p, em=memo(g, pred)):
                # property of table[name]: throws unless the name is in the table
                if l != "exc" and m.op in ("assign", "call", "store"):
                    for s in subterms(getattr(m, "callee" if m.op == "call" else "term", None) or ("c", None)):
                        if s[0] != "a":
                            continue
                        os_ = [s[1]] if s[1][0] != "v" else list(g.resolve(s[1], m))
                        if os_ and all(o[0] == "i" and o[2][0] != "c" and (o[2] == p or leaves(p) == frozenset(g.values(m, o[2]) if o is s[1] else leaves(g.expand(o[2], 6))))
                                       for o in os_):
                            return True
                return em(m, l)
            cache[p] = good
        if not reaches_only_through(g, n, cache[p]):
            return f"component {show(p)[:50]} is chosen by the user and not checked before use"
    return None


def leaves(t):
    if t[0] == "op" and t[1] in ("||", "&&", "?:"):
        return frozenset().union(*(leaves(x) for x in t[2 if t[1] != "?:" else 3:]))
    return frozenset([t])


def reaches_only_through(g, n, good):
    seen, todo = {g.entry.id}, [g.entry]
    while todo:
        m = todo.pop()
        if m is n:
            return False
        for l, s in m.succ:
            if s.id not in seen and not good(m, l):
                seen.add(s.id)
                todo.append(s)
    return True


def safe_part(p):
    # constants, directory entries and names made of them
    if p[0] == "c":
        return True
    return p[0] in ("a", "t", "i", "elem") and not has(p, lambda x: x[0] == "param" or (x[0] == "a" and x[2] in ("env", "argv", "opts")))


def is_cwd(t):
    return t[0] == "call" and t[1] == ("a", ("glob", "process"), "cwd") or t in (("c", "."), ("c", ""))


def is_mkdtemp(g, t):
    if t[0] == "t":
        n = g.nodes[t[1]]
        return n.op == "call" and fs_op(g.callee(n)) == "mkdtemp"
    return t[0] == "call" and fs_op(t[1]) == "mkdtemp"


def check(c):
    c.rule("D1", "deletions: build/, the version dir of this install, a temp dir of this run, or a dominated devDir child")
    c.rule("D2", "content writes and directory creation stay in the same places")
    c.rule("D3", "the symlink/temp directory roots are created from constants")
    total = 0
    seen_fns = set()
    for name in COMMANDS:
        fn = exported(c.js, f"lib/{name}.js")
        if fn is None:
            c.ob("D1", (f"lib/{name}.js", 1), False, f"command {name} is exported")
            continue
        g = c.graph(fn, INL)
        seen_fns |= set(g.inlined) | {fn}
        for n in g.calls():
            cal = g.callee(n)
            op = fs_op(cal)
            tgt = None
            if op in FS_DELETE or op in FS_WRITE:
                i = DEST.get(op, 0)
                tgt = n.args[i] if len(n.args) > i else None
                if op == "open":
                    mode = g.values(n, n.args[1]) if len(n.args) > 1 else {("c", "r")}
                    if all(m in (("c", "r"), ("c", "rs")) for m in mode):
                        continue
                if op == "mkdtemp":
                    ok = bool(tgt) and all(
                        derivable_tmp(v) for v in g.values(n, tgt))
                    c.ob("D3", n.loc, ok, "temporary directory is created under os.tmpdir()")
                    total += 1
                    continue
            elif is_extract(cal):
                for o in g.values(n, n.args[0]) if n.args else ():
                    o = g.content(o)
                    for k in ("preservePaths", "P"):
                        v = dict_get(o, k)
                        c.ob("D2", n.loc, v is None or all(x[0] == "c" and not x[1] for x in g.resolve(v, n)), "entries outside the directory are refused",
                             f"{name}: an archive can write outside the directory it is extracted into")
                    t = dict_get(o, "cwd")
                    if t is None:
                        c.ob("D2", n.loc, False, "tar.extract has an explicit cwd")
                    else:
                        total += 1
                        for v in g.values(n, t):
                            r = classify(g, n, v)
                            c.ob("D2", n.loc, r is None, f"{name}: extraction goes to {show(v)[:60]}",
                                 f"{name} extracts into {show(v)[:60]}: {r}")
                continue
            elif cal[0] == "mod" and cal[1] in ("rimraf", "del", "fs-extra"):
                tgt = n.args[0] if n.args else None
                op = "rm"
            else:
                continue
            total += 1
            dele = op in FS_DELETE
            rule = "D1" if dele else "D2"
            if tgt is None:
                c.ob(rule, n.loc, False, f"{name}: {op} has a target")
                continue
            if op in ("rename",):
                pass
            for v in sorted(g.values(n, tgt), key=repr):
                r = classify(g, n, v)
                if r == "devdir" and dele:
                    pred = confined_test(v)
                    c.must_pass(rule, g, [n], lambda m, l: edge_implies(g, m, l, pred, 6),
                                f"{name}: {op} {show(v)[:60]} is dominated by the test that it lies directly in devDir",
                                f"{name}: {op} can delete {show(v)[:60]} although it is not a version directory of devDir")
                else:
                    c.ob(rule, n.loc, r is None, f"{name}: {op} {show(v)[:60]}",
                         f"{name}: {op} {'deletes' if dele else 'writes'} {show(v)[:70]}: {r}")
    c.need("D1", range(total), "file-system effects of the commands")
    # deletions in functions no command reaches
    for f, g, n, cal in c.flat_calls(c.js, lambda t, n, g: fs_op(t) in FS_DELETE or fs_op(t) in FS_CONTENT):
        if f not in seen_fns and not any(f is x for x in seen_fns):
            op = fs_op(cal)
            i = DEST.get(op, 0)
            for v in g.values(n, n.args[i]) if len(n.args) > i else ():
                r = classify(g, n, v)
                c.ob("D1" if op in FS_DELETE else "D2", n.loc, r is None, f"{f.qual}: {op} {show(v)[:60]}",
                     f"{f.qual} ({f.module.path}): {op} {show(v)[:60]}: {r}")


def derivable_tmp(v):
    ps = path_parts(v)
    return bool(ps) and ps[0][0] == "call" and ps[0][1] == ("a", ("mod", "os"), "tmpdir") and all(p[0] == "c" for p in ps[1:])
