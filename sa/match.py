"""Term and edge matchers shared by the rules (both languages)."""
from .explore import norm_cond, walk_term

FS_MODS = {"fs", "graceful-fs", "fs/promises", "fs-extra"}


def subterms(t):
    return walk_term(t)


def has(t, pred):
    return any(pred(x) for x in walk_term(t))


def mentions(t, sub):
    return any(x == sub for x in walk_term(t))


def fs_op(c):
    """'rm' for fs.rm, fs.promises.rm, fs.rmSync, require('fs/promises').rm ..."""
    if c[0] != "a":
        return None
    o = c[1]
    if o[0] == "a" and o[2] == "promises":
        o = o[1]
    if o[0] == "mod" and o[1] in FS_MODS:
        n = c[2]
        return n[:-4] if n.endswith("Sync") else n
    return None


def is_mod_fn(c, mod, *names):
    if c[0] == "a" and c[1][0] == "mod" and c[1][1] == mod:
        return not names or c[2] in names
    return False


def is_mod(c, mod):
    return c == ("mod", mod)


def path_parts(t):
    """Flatten path.resolve/join/normalize and string concatenation with separators."""
    if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("resolve", "join", "normalize") and (
            t[1][1][0] == "mod" and t[1][1][1].split("/")[0] in ("path", "os.path")
            or t[1][1] == ("a", ("mod", "path"), "win32") or t[1][1] == ("a", ("mod", "os"), "path")):
        out = []
        for x in t[2]:
            out.extend(path_parts(x))
        return out
    if t[0] == "cat":
        parts = list(t[1])
        out = []
        cur = []
        for p in parts:
            if p[0] == "c" and isinstance(p[1], str) and "/" in p[1]:
                segs = p[1].split("/")
                for i, s in enumerate(segs):
                    if i > 0:
                        out.append(cur)
                        cur = []
                    if s:
                        cur.append(("c", s))
            elif p == ("a", ("mod", "path"), "sep"):
                out.append(cur)
                cur = []
            else:
                cur.append(p)
        out.append(cur)
        if len(out) == 1:
            return [t]
        res = []
        for c in out:
            if len(c) == 1:
                res.extend(path_parts(c[0]))
            elif c:
                res.append(("cat", tuple(c)))
        return res
    if t[0] == "c" and isinstance(t[1], str) and "/" in t[1].strip("/") and not t[1].startswith("/"):
        return [("c", s) for s in t[1].split("/") if s]
    return [t]


def atoms(t, truth=True):
    """Facts implied by term t having the given truth value."""
    t, pol = norm_cond(t)
    if not pol:
        truth = not truth
    out = [(t, truth)]
    if t[0] == "op" and t[1] == "&&" and truth:
        for x in t[2:]:
            out.extend(atoms(x, True))
    elif t[0] == "op" and t[1] == "||" and not truth:
        for x in t[2:]:
            out.extend(atoms(x, False))
    return out


def edge_facts(g, n, label, expand=0):
    """[(atom, truth)] holding after leaving branch n by label."""
    if n.op != "branch" or label not in ("T", "F"):
        return []
    res = None
    for r in g.resolve(n.term, n):
        if expand:
            r = g.expand(r, expand)
        s = []
        for x in (r,) if r[0] != "alt" else r[1:]:
            a = atoms(x, label == "T")
            s = a if not s else [y for y in s if y in a]
        res = s if res is None else [y for y in res if y in s]
    return res or []


NEG1 = (("c", -1), ("op", "u-", ("c", 1)), ("op", "neg", ("c", 1)), ("op", "-", ("c", 1)))


def member(atom, truth):
    """(container, element, bool) for includes/indexOf/in tests."""
    if atom[0] == "call" and atom[1][0] == "a" and atom[1][2] in ("includes", "has") and len(atom[2]) == 1:
        return atom[1][1], atom[2][0], truth
    if atom[0] == "op" and atom[1] == "in":
        return atom[3], atom[2], truth
    if atom[0] == "op" and atom[1] == "not in":
        return atom[3], atom[2], not truth
    if atom[0] == "op" and atom[1] in ("~", "u~") and idx(atom[2]):
        c, e = idx(atom[2])
        return c, e, truth
    if atom[0] == "op" and atom[1] == "==" and idx(atom[2]) and atom[3] in NEG1:
        c, e = idx(atom[2])
        return c, e, not truth
    if atom[0] == "op" and atom[1] == "<":
        if idx(atom[2]) and atom[3] == ("c", 0):
            c, e = idx(atom[2])
            return c, e, not truth
        if idx(atom[3]) and atom[2] in NEG1:
            c, e = idx(atom[3])
            return c, e, truth
    return None


def idx(t):
    if t[0] == "call" and t[1][0] == "a" and t[1][2] == "indexOf" and len(t[2]) == 1:
        return t[1][1], t[2][0]
    return None


GYP = {"opts", "devDir", "todo", "commands", "spawn", "package"}


def attr_path(t):
    """'gyp.opts.ensure' for attribute/constant-index chains over a parameter/global."""
    if t[0] == "a":
        b = attr_path(t[1])
        if t[1][0] == "param" and t[2] in GYP:
            b = "gyp"  # whatever the parameter is called
        return b + "." + t[2] if b else None
    if t[0] == "i" and t[2][0] == "c" and isinstance(t[2][1], str):
        b = attr_path(t[1])
        return b + "." + t[2][1] if b else None
    if t[0] in ("param", "glob", "mod", "free"):
        return t[1]
    if t[0] == "this":
        return "this"
    return None


def dict_get(t, key):
    """Value of a literal key in a dict term (None when absent)."""
    if t[0] != "dict":
        return None
    r = None
    for k, v in t[1]:
        if k is not None and k[0] == "c" and k[1] == key:
            r = v
    return r


def implied(t, truth, pred):
    """Does formula t having this truth value imply an atom accepted by pred(atom, truth)?"""
    t, pol = norm_cond(t)
    if not pol:
        truth = not truth
    if t[0] == "c":
        return bool(t[1]) != truth  # infeasible
    if t[0] == "alt":
        return all(implied(x, truth, pred) for x in t[1:])
    if t[0] == "op" and t[1] in ("&&", "||"):
        q = any if (t[1] == "&&") == truth else all
        if q(implied(x, truth, pred) for x in t[2:]):
            return True
    if t[0] == "op" and t[1] == "?:":
        return implied(t[3], truth, pred) and implied(t[4], truth, pred)
    return bool(pred(t, truth))


def edge_implies(g, n, label, pred, expand=6):
    """Leaving branch n by label establishes an atom accepted by pred."""
    if n.op != "branch" or label not in ("T", "F"):
        return False
    rs = g.resolve(n.term, n)
    if not rs:
        return False
    if all(implied(g.expand(r, expand) if expand else r, label == "T", pred) for r in rs):
        return True
    if n.term[0] == "v" and len(rs) > 1 or n.term[0] == "op" and n.term[1] == "not" and n.term[2][0] == "v" and len(rs) > 1:
        tr = label == "T"
        var = n.term
        if var[0] == "op":
            var, tr = var[2], not tr
        ls = live_values(g, n, var, tr)
        return bool(ls) and all(implied(g.expand(t, expand) if expand else t, tr, pred) for t in ls)
    return False


def live_values(g, n, var, truth):
    """Values var can have at n given that it is truthy/falsy there (correlated with the branches on it)."""
    out = []
    for t, conds, chain in guarded(g, n, var):
        feas = True
        for d, (use, v, others) in chain:
            def contra(m, l, v=v):
                return m.op == "branch" and any(a == v and tr != truth for a, tr in atoms(m.term, l == "T"))
            if others and not reachable(g, d, use, lambda m, l: contra(m, l) or any(m is o for o in others)):
                feas = False
                break
        if feas and conds:
            return []
        if feas:
            out.append(t)
    return out


def memo(g, pred, expand=6):
    """Cached (node, label) -> edge_implies(...)."""
    cache = {}

    def f(n, l):
        if n.op != "branch":
            return False
        k = (n.id, l)
        if k not in cache:
            cache[k] = edge_implies(g, n, l, pred, expand)
        return cache[k]
    return f


def closure(g, term, node=None, into_obj=True, stop=None):
    """All subterms reachable from term through the calls that produced its parts
    (not through those whose ('t', id) / ('cbarg', id, i) satisfies `stop`)."""
    seen = set()
    st = list(g.resolve(term, node)) if node is not None else [term]
    while st:
        t = st.pop()
        for x in walk_term(t):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if stop is not None and x[0] in ("t", "cbarg") and stop(x):
                continue
            if x[0] == "t":
                n = g.nodes[x[1]]
                if n.op == "call":
                    for s in [n.callee] + list(n.args) + [v for _, v in n.kw]:
                        st.extend(g.resolve(s, n))
                elif n.op == "collect":
                    for s in n.elts:
                        st.extend(g.resolve(s, n.elemnode))
                    st.extend(g.resolve(n.iterterm, n.iternode))
            elif x[0] == "obj" and into_obj:
                d = g.nodes[x[1]]
                st.extend(g.resolve(d.term[:1] + d.term[1:], d) if d.term[0] != "v" else [])
            elif x[0] == "cbarg":
                n = g.nodes[x[1]]
                for s in [n.callee] + list(n.args):
                    if s[0] != "fn":
                        st.extend(g.resolve(s, n))


def derives(g, term, node, pred, into_obj=True):
    return any(pred(x) for x in closure(g, term, node, into_obj))


def unfold(g, t, node, stop, depth=12):
    """Substitute single-definition variables, except those named in `stop`."""
    if depth <= 0:
        return t
    if t[0] == "v":
        if t[2] in stop:
            return t
        ds = g.reaching(node, t)
        if len(ds) == 1 and not isinstance(ds[0], (tuple, str)):
            return unfold(g, ds[0].term, ds[0], stop, depth - 1)
        return t
    if t[0] in ("a", "i", "op", "list", "tuple", "set", "cat", "dict", "star", "elem", "key", "call"):
        return g._map(t, lambda x: unfold(g, x, node, stop, depth - 1))
    return t


def floating(g):
    """Entry nodes of local async calls whose promise nobody awaits."""
    return [n for n in g.nodes if n.op == "branch" and n.live and n.term == ("op", "floating")]


def true_implies(g, node, term, pred, start=None, em=None, depth=8):
    """Whenever `term` (evaluated at node) is truthy, an atom accepted by pred holds: by its own structure or because
    every path from start to the definition crosses an edge that establishes it (or makes the value falsy)."""
    em = em or memo(g, pred)
    start = start or g.entry
    if depth <= 0:
        return False
    if term[0] == "c" and not term[1]:
        return True
    if implied(g.expand(term, 6), True, pred):
        return True
    if term[0] == "v":
        ds = list(g.reaching(node, term))
        if ds and all(not isinstance(d, (tuple, str)) for d in ds):
            def dies(n, l):
                return em(n, l) or n.op == "branch" and any(a == term and not tr for a, tr in atoms(n.term, l == "T"))
            if all(true_implies(g, d, d.term, pred, start, em, depth - 1)
                   or not reachable(g, d, node, lambda n, l: dies(n, l) or n in ds and n is not d) for d in ds):
                return True
    rs = list(g.resolve(term, node))
    if rs and all(r[0] == "c" and not r[1] or implied(g.expand(r, 6), True, pred) for r in rs):
        return True
    fal = {g.expand(r, 6) for r in rs} if len(rs) == 1 else set()

    def falsy(t, truth):
        return not truth and t in fal
    ef = memo(g, falsy)
    return not reachable(g, start, node, lambda n, l: em(n, l) or ef(n, l))


def reachable(g, start, node, blocked):
    seen, todo = {start.id}, [start]
    while todo:
        m = todo.pop()
        if m is node:
            return True
        for l, s in m.succ:
            if s.id not in seen and not blocked(m, l):
                seen.add(s.id)
                todo.append(s)
    return False


def guarded(g, node, term, conds=(), chain=(), depth=12):
    """[(leaf term, ((cond, truth)...), (def nodes...))]: the values `term` can have at node, with the operators that
    choose between them and the definitions that carry them."""
    k = term[0]
    if depth <= 0:
        return [(term, conds, chain)]
    if k == "v":
        ds = list(g.reaching(node, term))
        if ds and all(not isinstance(d, (tuple, str)) for d in ds):
            out = []
            for d in ds:
                if any(x is d for x, _ in chain):
                    continue
                others = tuple(x for x in ds if x is not d)
                out += guarded(g, d, d.term, conds, chain + ((d, (node, term, others)),), depth - 1)
            return out
        out = []
        for r in g.resolve(term, node):
            out.append((r, conds, chain))
        return out
    if k == "t":
        rs = g.resolve(term, node)
        if rs != {term}:
            return [(r, conds, chain) for r in rs]
        return [(term, conds, chain)]
    if k == "op" and term[1] in ("||", "or") and len(term) >= 3:
        out = []
        pre = conds
        for i, x in enumerate(term[2:]):
            last = i == len(term) - 3
            xt = one_of(g, node, x)
            out += guarded(g, node, x, pre if last else pre + ((xt, True),), chain, depth - 1)
            pre = pre + ((xt, False),)
        return out
    if k == "op" and term[1] in ("&&", "and") and len(term) >= 3:
        out = []
        pre = conds
        for i, x in enumerate(term[2:]):
            last = i == len(term) - 3
            xt = one_of(g, node, x)
            out += guarded(g, node, x, pre if last else pre + ((xt, False),), chain, depth - 1)
            pre = pre + ((xt, True),)
        return out
    if k == "op" and term[1] == "?:":
        xt = one_of(g, node, term[2])
        return guarded(g, node, term[3], conds + ((xt, True),), chain, depth - 1) + \
            guarded(g, node, term[4], conds + ((xt, False),), chain, depth - 1)
    if k == "alt":
        return [y for x in term[1:] for y in guarded(g, node, x, conds, chain, depth - 1)]
    rs = g.resolve(term, node)
    return [(r, conds, chain) for r in rs]


def one_of(g, node, x):
    rs = list(g.resolve(x, node))
    return rs[0] if len(rs) == 1 else x


def leaf_ok(g, node, leaf, pred, start=None, ex=6):
    """Leaf (from guarded) is only used when pred(atom, truth) holds: by its own operators or on every path."""
    t, conds, chain = leaf
    for cnd, tr in conds:
        if any(pred(a, b) for a, b in atoms(g.expand(cnd, ex), tr)):
            return True
    em = memo(g, pred, ex)
    start = start or g.entry
    pts = [d for d, _ in chain]
    if not pts:
        return not reachable(g, start, node, em)
    # from the entry to the innermost definition, then along the uses back to node
    if not reachable(g, start, pts[-1], em):
        return True
    for d, (use, var, others) in chain:
        def blocked(n, l, d=d, others=others, var=var):
            return em(n, l) or any(n is o for o in others)
        if not reachable(g, d, use, blocked):
            return True
    return False


def prefers(g, node, term, is_pref, skip=None, start=None):
    """Leaves of term that can be chosen although the preferred value is truthy (none: the preference holds)."""
    bad = []
    ls = guarded(g, node, term)
    if not any(is_pref(x[0]) for x in ls):
        return [("missing",)]
    for lf in ls:
        if is_pref(lf[0]) or skip and skip(lf[0]):
            continue

        def fals(a, tr):
            return not tr and is_pref(a) or tr and a[0] == "op" and a[1] == "isnull" and is_pref(a[2]) \
                or tr and a[0] == "op" and a[1] == "==" and a[3] in (("c", None), ("c", "")) and is_pref(a[2])
        if not leaf_ok(g, node, lf, fals, start):
            bad.append(lf[0])
    return bad
