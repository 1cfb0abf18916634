"""The temporary extraction directory, the import library and the permission fallback of the install command."""
from ..match import *
from ..cfg import show
from .jscommon import *

NOT_WIN = ("op", "==", ("a", ("glob", "process"), "platform"), ("c", "win32"))


def temp_dirs(g):
    return {n.id for n in g.calls() if fs_op(g.callee(n)) == "mkdtemp"}


def is_temp(g, t, n, made):
    return derives(g, t, n, lambda x: x[0] == "t" and x[1] in made)


def recursive(g, n, i):
    """Is the option recursive of argument i true, false, or (None) not known?"""
    if len(n.args) <= i:
        return False
    vs = []
    for r in g.resolve(n.args[i], n):
        d = g.content(r)
        v = dict_get(r, "recursive") or dict_get(d, "recursive")
        if v is None:
            vs.append(False if d[0] in ("dict", "c") and not has(d, lambda x: x[0] in ("star", "spread")) else None)
        else:
            e = g.expand(v, 4)
            vs.append(bool(e[1]) if e[0] == "c" else None)
    return False if False in vs else None if None in vs or not vs else True


def not_windows(g):
    return memo(g, lambda t, truth: t == NOT_WIN and not truth, 4)


def same_dir(g, made):
    """Leaving a branch this way says the extraction directory is the version directory, or this is not Windows (made: neither)."""
    def differ(n, t):
        a, b = ({is_temp(g, v, None, made) for v in g.resolve(x, n)} for x in (t[2], t[3]))
        return True in a and b == {False} or True in b and a == {False}

    def known(n, t, truth, depth=0):
        if t == NOT_WIN and not truth:
            return True
        if t[0] == "op" and t[1] == "==" and truth and len(t) == 4:
            return differ(n, t)
        if t[0] == "v" and depth < 6:
            rs = [x for x in g.resolve(t, n) if x[0] not in ("c", "v")]
            return any(implied(x, truth, lambda t2, tr: known(n, t2, tr, depth + 1)) for x in rs)
        return False
    cache = {}

    def f(n, l):
        if n.op != "branch" or l not in ("T", "F"):
            return False
        if (n.id, l) not in cache:
            cache[n.id, l] = implied(n.term, l == "T", lambda t, truth: known(n, t, truth))
        return cache[n.id, l]
    return f


def path_to(g, starts, goals, blocked):
    """Nodes of a path from starts to one of goals with no blocked edge, or None."""
    prev, todo = {n.id: None for n in starts}, list(starts)
    while todo:
        n = todo.pop()
        if n in goals:
            out, k = [], n
            while k is not None:
                out.append(k)
                k = prev[k.id]
            return out[::-1]
        for l, s in n.succ:
            if s.id not in prev and not blocked(n, l):
                prev[s.id] = n
                todo.append(s)
    return None


def after(n):
    return [s for l, s in n.succ if l != "exc"]


def code_is(code):
    """Edges that cannot be taken when the error caught has this code."""
    def pred(t, truth):
        if t[0] == "op" and t[1] == "==" and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "a" and a[2] == "code" and b[0] == "c":
                    return truth != (b[1] == code)
        m = member(t, truth)
        if m and m[1][0] == "a" and m[1][2] == "code" and m[0][0] in ("list", "tuple"):
            return m[2] != (("c", code) in m[0][1])
        return False
    return pred


def fails(g, n, l):
    """An exception edge of something that can fail: not of logging and other calls without effect."""
    return l == "exc" and n.op == "call" and fs_op(g.callee(n)) is None and not (
        is_net(g.callee(n)) or is_extract(g.callee(n)) or is_pipeline(g.callee(n)) or is_command(g.callee(n), "remove"))


def in_place(c, g, writes, rule):
    """Before the marker is written, the unpacked tree was copied to the version directory and the import library fetched."""
    made = temp_dirs(g)
    goals = set(writes)
    same = same_dir(g, made)

    def listed(n, l):
        return n.op == "call" and l != "exc" and n.args and fs_op(g.callee(n)) in ("readdir", "opendir", "cp", "rename", "glob") \
            and is_temp(g, n.args[0], n, made)
    for i in sorted(made):
        p = path_to(g, after(g.nodes[i]), goals, lambda n, l: same(n, l) or listed(n, l))
        c.ob(rule, g.nodes[i].loc, p is None, "the files unpacked to the temporary directory are copied before the marker is written",
             "the marker can be written although the files unpacked to the temporary directory were never copied", trace=trail(p))
    nw = not_windows(g)
    libs = {}
    for n in g.calls():
        if fs_op(g.callee(n)) in ("createWriteStream", "writeFile", "open") and n.args:
            for v in g.values(n, n.args[0], 6):
                ps = path_parts(v)
                last = ps[-1]
                if last[0] == "c" and str(last[1]).endswith(".lib") or last[0] == "cat" and last[1][-1][0] == "c" and str(last[1][-1][1]).endswith(".lib"):
                    libs[n.id] = ps
    c.need(rule, libs, "download of the import library")
    for i, ps in libs.items():
        from .p03_install_ensure import arch_value
        n = g.nodes[i]
        c.ob(rule, n.loc, len(ps) > 1 and any(arch_value(g, n, x) for x in ps[-2:-1]), "the import library is stored in the directory of its architecture",
             f"the import library is stored in {'/'.join(show(p)[:40] for p in ps)}, where nobody looks for it")
    p = path_to(g, [g.entry], goals, lambda n, l: nw(n, l) or n.id in libs and l != "exc")
    c.ob(rule, p[-1].loc if p else ("lib/install.js", 1), p is None, "on Windows the import library is fetched before the marker is written",
         "on Windows the marker can be written without the import library", trace=trail(p))


def cleaned(c, g, rule):
    """The temporary directory is removed however the install ends."""
    made = temp_dirs(g)
    same = same_dir(g, made)

    def removed(n):
        return n.op == "call" and fs_op(g.callee(n)) in ("rm", "rmdir") and n.args and is_temp(g, n.args[0], n, made)
    for n in g.calls():
        if removed(n):
            c.ob(rule, n.loc, recursive(g, n, 1) is not False, "the temporary directory is removed with what it holds",
                 "the temporary directory is not empty: removing it without recursive: true fails and leaves it behind")
    for i in sorted(made):
        p = path_to(g, after(g.nodes[i]), {g.exit, g.exc_exit}, lambda n, l: same(n, l) or removed(n) or fails(g, n, l))
        c.ob(rule, g.nodes[i].loc, p is None, "the temporary directory is removed however the install ends",
             "the install can end without removing the temporary directory", trace=trail(p))


def existing(c, g, rule):
    """Directories that an earlier or a concurrent install made are no error."""
    for n in g.calls():
        if fs_op(g.callee(n)) == "mkdir" and n.args:
            handled = any(l == "exc" and reach_code(g, s, "EEXIST") for l, s in n.succ)
            c.ob(rule, n.loc, recursive(g, n, 1) is not False or handled, "a directory that is there already is no error",
                 "creating a directory that an earlier run left fails: the command cannot be repeated")


def reach_code(g, start, code):
    pred = code_is(code)
    return path_to(g, [start], {g.exc_exit}, memo(g, pred, 0)) is None


def retried(c, g, ids, rule):
    """Every EACCES of the devdir's probes and of its creation leads to the retry."""
    block = memo(g, code_is("EACCES"), 0)
    here = 0
    for n in g.calls():
        if fs_op(g.callee(n)) in ("stat", "access", "mkdir") and n.args and n.id not in ids:
            firsts = [path_parts(v)[0] for v in g.values(n, n.args[0], 6)]
            if not firsts or not all(attr_path(p) == "gyp.devDir" for p in firsts):
                continue
            for l, s in n.succ:
                if l == "exc" and not inner(g, n):
                    here += 1
                    ok = path_to(g, [s], {g.nodes[i] for i in ids}, block) is not None
                    c.ob(rule, n.loc, ok, "an inaccessible devdir leads to the retry in the temporary directory",
                         "an install that may not access the devdir fails here without trying the temporary directory")
    return here


def inner(g, n):
    """Is n part of copying, after something was unpacked?"""
    made = temp_dirs(g)
    start = [s for i in made for s in after(g.nodes[i])]
    return bool(start) and path_to(g, start, {n}, lambda m, l: False) is not None


def trail(p):
    return None if p is None else [f"{n.loc[0]}:{n.loc[1]}" for n in p if n.loc and n.op in ("call", "branch", "raise")][:40]
