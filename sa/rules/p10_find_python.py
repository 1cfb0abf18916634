"""Only a supported, executed Python is used; candidates in order of precedence."""
import ast

from ..match import *
from ..cfg import show, alternatives
from .jscommon import *
from .p06_eacces_once import seq

ID = "P10"
EXPLANATION = (
    "lib/find-python.js is analysed per candidate: every closure of the search that runs a program, and the search "
    "itself, may return normally only through an edge that establishes semver-range membership of a version which "
    "derives from running the very path that is returned. The candidate list is interpreted as an abstract sequence "
    "along every path (per platform); the first program each candidate runs gives its rank, and ranks must increase.")

RANK = ["NODE_GYP_FORCE_PYTHON", "--python", "PYTHON", "py launcher", "python3", "python", "default locations"]
M = "lib/find-python.js"


def execs(g):
    out = []
    for n in g.calls():
        c = g.callee(n)
        if c[0] == "a" and c[2] in ("execFile", "execFileSync", "spawnSync") and (c[1] == ("mod", "child_process")):
            out.append(n)
    return out


def exec_args(g, n):
    """Values of the program run by cp.execFile(program, ...) / cp.execFile(...args)."""
    res = []
    for a in n.args[:1]:
        if a[0] != "star":
            res.extend(g.values(n, a))
            continue
        for r in g.resolve(a[1], n):
            d, lst = n, r
            if r[0] == "obj":
                d = g.nodes[r[1]]
                lst = d.term
            if lst[0] in ("list", "tuple") and lst[1] and lst[1][0][0] != "star":
                res.extend(g.values(d, lst[1][0]))
            elif lst[0] in ("list", "tuple") and lst[1]:
                s = seq(g, r)
                if s and s[0][0] == "e":
                    res.extend(g.values(n, s[0][1]))
    return res


def src_rank(g, n, t):
    r = set()
    for x in closure(g, t, None):
        p = attr_path(x) or ""
        if x[0] == "a" and x[2] == "NODE_GYP_FORCE_PYTHON":
            r.add(0)
        elif x[0] == "a" and x[2] == "configPython":
            r.add(1)
        elif x[0] == "a" and x[2] == "PYTHON" and x[1][0] == "a" and x[1][2] == "env":
            r.add(2)
        elif x[0] == "a" and x[2] == "pyLauncher" or x == ("c", "py.exe"):
            r.add(3)
        elif x == ("c", "python3"):
            r.add(4)
        elif x == ("c", "python"):
            r.add(5)
        elif x[0] == "a" and x[2] == "winDefaultLocations" or p.endswith("winDefaultLocationsArray"):
            r.add(6)
        elif x[0] == "free":
            r.add(6)
    return r


def rank(c, fn, cache):
    """Rank of a candidate closure by the first program it runs (None: runs nothing)."""
    if fn in cache:
        return cache[fn]
    cache[fn] = None
    g = c.graph(fn, NOLOG)
    ex = execs(g)
    ids = {n.id for n in ex}
    first, seen, todo = [], {g.entry.id}, [g.entry]
    while todo:
        n = todo.pop()
        if n.id in ids:
            first.append(n)
            continue
        for l, s in n.succ:
            if s.id not in seen:
                seen.add(s.id)
                todo.append(s)
    rs = set()
    for n in first:
        for v in exec_args(g, n):
            rs |= src_rank(g, n, v)
    if first:
        cache[fn] = (next(iter(rs)) if len(rs) == 1 else -1, g)
    return cache[fn]


def fns_of(t):
    return [x[1] for x in subterms(t) if x[0] == "fn"]


def check(c):
    c.rule("Y1", "a candidate is accepted only after its version passed the supported range")
    c.rule("Y2", "the accepted path is the one that was executed to get the version")
    c.rule("Y3", "the supported range excludes everything below 3.6")
    c.rule("Y4", "candidates are tried in order of precedence, none is left out")
    c.rule("Y5", "a candidate is skipped only when its setting is empty")
    c.rule("Y6", "a candidate that fails is followed by the next one")
    mod = c.js.mods.get(M) or next((m for m in c.js.mods.values() if m.path == M), None)
    if mod is None:
        c.ob("Y1", (M, 1), False, "find-python module exists")
        return
    root = next((f for f in mod.functions if f.name == "findPython" and f.qual.endswith(".findPython") or f.qual == "findPython"), None)
    if root is None:
        c.ob("Y1", (M, 1), False, "findPython exists")
        return
    cache = {}
    cands = []
    for f in mod.functions:
        if f is not root and f.parent is not None and f.parent.qual != "<module>":
            r = rank(c, f, cache)
            if r:
                cands.append((f, r))
    cands = [(f, r) for f, r in cands if not any(h is not f and h.qual.startswith(f.qual + ".") for h, _ in cands)]
    for f in list(cache):
        if cache[f] and all(f is not h for h, _ in cands):
            cache[f] = None
    c.need("Y1", cands, "candidates that run a program", root.loc)
    rootg = c.graph(root, NOLOG)
    for f, (k, g) in cands:
        accept(c, g, f)
        c.ob("Y4", f.loc, k >= 0, f"candidate at line {f.loc[1]} has a known source",
             f"the candidate at line {f.loc[1]} tries a program of unknown or mixed origin")
    # the search itself: a normal exit is a candidate's result
    accept(c, rootg, root, dyn=True)
    order(c, rootg, root, cache)
    skips(c, rootg, root, cache, cands)
    falls(c, rootg, root)
    script(c, mod)
    whole(c, mod)


def falls(c, g, root):
    """The failure of a candidate leads back to the list of candidates."""
    out = []
    for m in returned(g):
        for v in g.resolve(m.term, m):
            if v[0] == "t":
                out.append(g.nodes[v[1]])
    ps = picked(g)
    for n, at in ps.items():
        if n not in out:
            continue
        exits = [s for l, s in n.succ if l == "exc"]
        heads = {m for k, m in ps.items()} | {b.id for b in g.nodes if b.op == "branch" and has(b.term, lambda x: x[0] == "a" and x[2] == "length")}
        seen, todo, bad = set(), list(exits), not n.awaited or getattr(n, "tail", False)
        while todo:
            m = todo.pop()
            if m.id in seen or m.id in heads:
                continue
            seen.add(m.id)
            if not m.succ or m is g.exit or m.op in ("raise", "reraise"):
                bad = True
            todo += [x for l, x in m.succ if l != "exc"]
        c.ob("Y6", n.loc, not bad, "a failed candidate is followed by the next one",
             "the failure of one candidate ends the search, candidates after it are not tried")


def script(c, mod):
    """The version comes from the interpreter: the program it is asked to run reads its own version."""
    for txt in sorted(x for x in field_lists(c, "argsVersion") if len(x) > 2):
        try:
            ok = any(isinstance(n, ast.Attribute) and n.attr in ("version_info", "version", "hexversion", "python_version")
                     or isinstance(n, ast.Name) and n.id in ("version_info", "python_version") for n in ast.walk(ast.parse(txt)))
        except SyntaxError:
            ok = False
        c.ob("Y2", (M, 1), ok, "the version is read from the running interpreter", f"the program {txt!r} does not report the interpreter's version")


def field_lists(c, name):
    mod = next(m for m in c.js.mods.values() if m.path == M)
    for cl in mod.classes.values():
        e = cl.fields.get(name)
        if e is not None and e.k == "List":
            for x in e.es:
                if x.k == "Const" and isinstance(x.v, str):
                    yield x.v


def whole(c, mod):
    """A candidate per default location: an index into them runs from 0 in steps of one."""
    for f in mod.functions:
        g = c.graph(f, NOLOG) if not f.is_module and f.parent is None or f.cls is not None and (f.parent is None or f.parent.is_module) else None
        for n in g.nodes if g else ():
            if n.op != "assign" or not n.live or n.term[0] != "i" or not (attr_path(n.term[1]) or "").endswith("winDefaultLocations"):
                continue
            starts = set()
            for d in g.reaching(n, n.term[2]) if n.term[2][0] == "v" else ():
                if not isinstance(d, (tuple, str)) and d.op == "assign" and d.term[0] == "c":
                    starts.add(d.term[1])
            c.ob("Y4", n.loc, not starts or starts == {0}, "the default locations are tried from the first one",
                 f"the default locations are tried from index {sorted(map(str, starts))} on only")


def accept(c, g, fn, dyn=False):
    ex = execs(g)
    rets = [n for n in g.nodes if n.op == "assign" and n.live and n.var and n.var[2] == "$ret"]

    def version_of(t, n):
        return any(x[0] in ("cbarg", "t") and x[1] in {e.id for e in ex} for x in closure(g, t, n))

    ranges = []

    def rng(t):
        """semver range text of range.test(v) / semver.satisfies(v, r)"""
        if t[0] == "call" and t[1] == ("a", ("mod", "semver"), "satisfies") and len(t[2]) >= 2:
            return t[2][0], t[2][1]
        if t[0] == "call" and t[1] in (("a", ("mod", "semver"), "gte"), ) and len(t[2]) >= 2:
            return t[2][0], ("cat", ("c", ">="), t[2][1])
        if t[0] == "call" and t[1][0] == "a" and t[1][2] == "test" and t[2]:
            return t[2][0], t[1][1]
        return None

    def pred(t, truth):
        if not truth:
            return False
        t0 = t
        if t[0] == "t":
            m = g.nodes[t[1]]
            if m.op != "call":
                return False
            t = ("call", g.callee(m), tuple(g.one(a, m, 6) for a in m.args), ())
            node = m
        else:
            node = None
        r = rng(t)
        if not r:
            return False
        ok = all(any(x[0] in ("cbarg", "t") and x[1] in {e.id for e in ex} for x in closure(g, y, None))
                 for y in alternatives(r[0]))
        if ok:
            ranges.append((r[1], node, t0))
        return ok

    em = memo(g, pred, 6)
    dynids = set()
    if dyn:
        dynids = {n.id for n in picked(g)}
    last = {}

    def good(n, l):
        if em(n, l):
            return True
        return False
    if not dyn:
        c.must_pass("Y1", g, [g.exit], good, f"{fn.qual} (line {fn.loc[1]}): success only for a version in the supported range",
                    f"{fn.qual} (line {fn.loc[1]}): a Python can be accepted whose version was not checked against the supported range")
        # Y2: the returned path
        for m in returned(g):
            t = m.term
            vs = [v for v in g.values(m, t)]
            for v in vs:
                okp = True
                for (rt, node, t0) in ranges:
                    progs = []
                    r = rng(t0 if t0[0] == "call" else ("call", g.callee(node), tuple(g.one(a, node, 6) for a in node.args), ()))
                    for x in closure(g, r[0], None, stop=lambda x: x[1] in {e.id for e in ex}):
                        if x[0] in ("cbarg", "t") and x[1] in {e.id for e in ex}:
                            progs += exec_args(g, g.nodes[x[1]])
                    # the last program run (the version query) must be the returned one
                    okp = okp and v in progs
                c.ob("Y2", m.loc, okp, f"{fn.qual} (line {fn.loc[1]}): the accepted path is the executed one",
                     f"{fn.qual} (line {fn.loc[1]}): the path that is returned is not the one whose version was checked")
        for rt, node, t0 in ranges[:4]:
            txt = set()
            for x in closure(g, rt, None):
                if x[0] == "c" and isinstance(x[1], str):
                    txt.add(x[1])
                if x[0] == "a" and x[2] == "semverRange":
                    txt |= field_consts(c, "semverRange")
            import re
            okr = False
            for s in txt:
                m = re.fullmatch(r"\s*(>=|\^|~)?\s*v?(\d+)(?:\.(\d+|x|\*))?(?:\.(\d+|x|\*))?.*", s)
                if m and m.group(1):
                    mi = m.group(3)
                    okr = okr or (int(m.group(2)), int(mi) if mi and mi.isdigit() else 0) >= (3, 6)
                    if "||" in s:
                        okr = False
            c.ob("Y3", fn.loc, okr, "the range starts at 3.6 or later", f"the supported Python range {sorted(txt)} admits versions below 3.6")
    else:
        def good2(n, l):
            return em(n, l) or (n.id in dynids and l != "exc")
        c.must_pass("Y1", g, [g.exit], good2, f"{fn.qual}: returns only what a candidate's check returned",
                    f"{fn.qual}: can return without any candidate having been accepted")


def picks(g, r):
    """Node that picks a candidate r from the list: a loop or list.shift()."""
    if r[0] == "elem":
        return r[2]
    if r[0] == "t":
        m = g.nodes[r[1]]
        if m.op == "call" and m.callee[0] == "a" and m.callee[2] in ("shift", "pop") and not m.args:
            return m.id
    return None


def picked(g):
    """Calls of a candidate's function."""
    out = {}
    for n in g.calls():
        cal = n.callee
        rs = list(g.resolve(cal, n)) + (list(g.resolve(cal[1], n)) if cal[0] in ("a", "i") else [])
        for r in rs:
            p = picks(g, r)
            if p is not None:
                out[n] = p
    return out


def returned(g):
    """assignments of the root's return value"""
    out = []
    for n in g.nodes:
        if n.op == "assign" and n.live and any(s is g.exit or (s.op == "nop" and any(x is g.exit for _, x in s.succ)) for l, s in n.succ if l == "n"):
            if n.var and n.var[1] == "r":
                out.append(n)
    return out


def field_consts(c, name):
    out = set()
    mod = next(m for m in c.js.mods.values() if m.path == M)
    for cl in mod.classes.values():
        e = cl.fields.get(name)
        if e is not None and e.k == "Const":
            out.add(e.v)
    for f in mod.functions:
        g = c.flat(f)
        for n in g.nodes:
            if n.op == "store" and n.name == name:
                for v in g.values(n, n.value):
                    if v[0] == "c" and isinstance(v[1], str):
                        out.add(v[1])
    return out


def order(c, g, root, cache):
    """Abstract sequence of candidate ranks along every path to the loop over the list."""
    def ranks(t, n):
        out = []
        for f in fns_of(t):
            r = rank(c, f, cache)
            if r:
                out.append(r[0])
        return out
    iters = [n for n in g.nodes if n.op == "iter" and n.live and any(True for _ in (1,))]
    force = []

    def is_force(t, truth):
        return t[0] == "a" and t[2] == "NODE_GYP_FORCE_PYTHON" and truth

    def no_force(t, truth):
        return t[0] == "a" and t[2] == "NODE_GYP_FORCE_PYTHON" and not truth

    def is_win(t, truth):
        return truth and (t[0] == "a" and t[2] == "win" or has(t, lambda x: x == ("a", ("glob", "process"), "platform")))

    def not_win(t, truth):
        return not truth and (t[0] == "a" and t[2] == "win" or has(t, lambda x: x == ("a", ("glob", "process"), "platform")))
    mf, mnf, mw, mnw = memo(g, is_force, 2), memo(g, no_force, 2), memo(g, is_win, 2), memo(g, not_win, 2)
    seqs = {}
    bad = []
    main_iters = set(picked(g).values())
    reorder = [g.nodes[i] for i in main_iters if g.nodes[i].op == "call" and g.nodes[i].callee[2] == "pop"]

    def step(q, n, label):
        f, w, s = q
        if n.op == "branch":
            if mf(n, label):
                f = 1
            elif mnf(n, label):
                f = 0
            if mw(n, label):
                w = 1
            elif mnw(n, label):
                w = 0
        if n.id in main_iters:
            seqs.setdefault((f, w, s), n)
            return ()
        if n.op == "assign" and n.term[0] in ("list",) and n.var:
            rk = ranks(n.term, n)
            if rk:
                # an array built from earlier sequences keeps them in front
                s = (s if any(x[0] == "star" for x in n.term[1]) else ()) + tuple(rk)
        if n.op == "call" and label != "exc" and n.callee[0] == "a":
            rk = [x for a in n.args for x in ranks(a, n)]
            if n.callee[2] in ("push", "unshift", "concat", "splice") and rk:
                add = tuple(x for x in rk if not (x == 6 and s and s[-1] == 6))
                s = s + add if n.callee[2] != "unshift" else add + s
            elif n.callee[2] in ("reverse", "sort") and s and not rk:
                reorder.append(n)
        return ((f, w, s[:12]),)
    c.explore(g, (None, None, ()), step)
    for n in reorder:
        c.ob("Y4", n.loc, False, "the candidate list keeps its order", "the candidate list is reordered")
    known = [(k, n) for k, n in seqs.items() if k[2]]
    c.ob("Y4", root.loc, True, f"{len(known)} abstract candidate sequences")
    for (f, w, s), n in sorted(known, key=lambda x: repr(x[0])):
        name = ", ".join(RANK[i] if i >= 0 else "?" for i in s)
        if f == 1:
            c.ob("Y4", n.loc, s == (0,), f"forced: only NODE_GYP_FORCE_PYTHON is tried", f"with NODE_GYP_FORCE_PYTHON set the candidates are: {name}")
            continue
        if f == 0:
            need = [1, 2, 4, 5]
        else:
            need = [4, 5]
        if w == 1:
            need = sorted(need + [3])
        inc = all(a < b for a, b in zip(s, s[1:]))
        c.ob("Y4", n.loc, inc, f"order: {name}", f"candidates are tried in the order {name}; the documented precedence is {', '.join(RANK)}")
        miss = [RANK[i] for i in need if i not in s]
        c.ob("Y4", n.loc, not miss, f"complete: {name}", f"candidates never tried: {', '.join(miss)}")
        if f == 0:
            c.ob("Y4", n.loc, 0 not in s, "the forced candidate is not mixed with others")


def skips(c, g, root, cache, cands):
    """before() may ask to skip a candidate only when the candidate's own setting is empty."""
    pairs, empty = [], []
    for n in g.nodes:
        ts = [getattr(n, "term", None)] if n.op == "assign" else list(n.args) if n.op == "call" else []
        for t in ts:
            for x in subterms(t) if t else ():
                if x[0] == "dict":
                    fs = [f for f in fns_of(x)]
                    withrank = [cache.get(f) for f in fs if cache.get(f)]
                    empty.append((n, tuple(k for k, _ in x[1]), bool(withrank)))
                    if len(withrank) == 1:
                        pairs += [(f, withrank[0][0]) for f in fs if not cache.get(f)]
    shapes = {k for _, k, r in empty if r}
    for n, k, r in empty:
        if k in shapes:
            c.ob("Y1", n.loc, r, "the candidate runs a program", "a candidate is accepted without being run")
    for f, k in dict.fromkeys(pairs):
        bg = c.graph(f, NOLOG)
        srcs = {0: "NODE_GYP_FORCE_PYTHON", 1: "configPython", 2: "PYTHON"}

        def empty(t, truth, k=k):
            if k not in srcs:
                return False
            if t[0] == "op" and t[1] == "isnull":
                return truth and t[2][0] == "a" and t[2][2] == srcs[k]
            return t[0] == "a" and t[2] == srcs[k] and not truth
        sinks = [m for m in returned(bg) if any(v[0] == "free" or v[0] == "c" and v[1] is not None for v in bg.values(m, m.term))]
        if sinks:
            c.must_pass("Y5", bg, sinks, memo(bg, empty, 3), f"{RANK[k]} is skipped only when empty",
                        f"the candidate from {RANK[k]} can be skipped although it is set")
        else:
            c.ob("Y5", f.loc, True, f"{RANK[k]}: never skipped")
