"""Helpers shared by the rules about lib/*.js."""
from ..match import *
from ..cfg import show
from ..ir import walk

SKIP_INLINE = {"processRelease"}


def opaque(*names):
    key = tuple(sorted(names))
    if key not in _op:
        def pred(fn, depth, _n=set(names)):
            if fn.module.name == "lib/log.js":
                return False
            r = root_name(fn)
            return r not in _n
        _op[key] = pred
    return _op[key]


_op = {}


def root_name(fn):
    return fn.name


NOLOG = opaque()
INSTALL = opaque("processRelease")


def exported(prog, mod, name="default"):
    r = prog.export(mod, name)
    return r[0] if r else None


def is_spawn_api(c):
    return c[0] == "a" and c[1] == ("mod", "child_process")


def is_net(c):
    """Raw network primitives."""
    if c == ("mod", "make-fetch-happen") or (c[0] == "a" and c[1] == ("mod", "make-fetch-happen")):
        return True
    if c == ("glob", "fetch"):
        return True
    if c[0] == "a" and c[1][0] == "mod" and c[1][1] in ("http", "https", "http2", "net", "tls", "undici", "dgram"):
        return True
    return False


def is_command(c, name):
    """gyp.commands.<name>"""
    return c[0] == "a" and c[2] == name and c[1][0] == "a" and c[1][2] == "commands"


FS_WRITE = {"writeFile", "appendFile", "mkdir", "mkdtemp", "rm", "rmdir", "unlink", "rename", "copyFile", "cp",
            "symlink", "link", "createWriteStream", "truncate", "chmod", "write", "writev", "open", "utimes"}
FS_CONTENT = {"writeFile", "appendFile", "rename", "copyFile", "cp", "createWriteStream", "symlink", "link", "write"}
FS_DELETE = {"rm", "rmdir", "unlink"}


def is_pipeline(c):
    return c[0] == "a" and c[2] == "pipeline" and has(c, lambda x: x[0] == "mod" and x[1].split("/")[0] == "stream")


def is_extract(c):
    return c[0] == "a" and c[1] == ("mod", "tar") and c[2] in ("extract", "x")


def exc_exit_terms(g):
    """Terms thrown out of the root function: [(node, label, term)]"""
    return [(l, p) for l, p in g.exc_exit.pred]


def subscript(t):
    """(object, key term) of a member access."""
    if t[0] == "a":
        return t[1], ("c", t[2])
    if t[0] == "i":
        return t[1], t[2]
    return None


def is_opt(t, *names):
    """gyp.opts.<name> for one of names."""
    s = subscript(t)
    if s is None or s[1][0] != "c" or s[1][1] not in names:
        return False
    o = subscript(s[0])
    return o is not None and o[1] == ("c", "opts")


def is_opts(t):
    s = subscript(t)
    return s is not None and s[1] == ("c", "opts")


def writes(g):
    """[(node, object term, key term, value term)]: property writes, including Object.assign and object literals."""
    out = []

    def lit(n, o, v):
        ct = g.content(v)
        if ct[0] == "dict":
            for k, x in ct[1]:
                if k is not None:
                    out.append((n, o, k, x))
    for n in g.nodes:
        if not n.live:
            continue
        if n.op == "store":
            for o in g.resolve(n.obj, n):
                ks = [("c", n.name)] if n.name is not None else list(g.resolve(n.key, n))
                for k in ks:
                    for v in g.resolve(n.value, n):
                        out.append((n, o, k, v))
                        if k[0] == "c":
                            lit(n, ("a", o, k[1]), v)
        elif n.op == "call" and g.callee(n) == ("a", ("glob", "Object"), "assign") and n.args:
            for o in g.resolve(n.args[0], n):
                for a in n.args[1:]:
                    for v in g.resolve(a, n):
                        lit(n, o, v)
    return out


def const_list(g, t):
    """Constants of a literal list term, else None."""
    ct = g.content(t)
    if ct[0] in ("list", "tuple") and all(x[0] == "c" for x in ct[1]):
        return [x[1] for x in ct[1]]
    return None


def loop_of_key(g, n, key):
    """Constant values a key takes when it is the element of a loop over literals: (iter node, values)."""
    if key[0] == "elem":
        cl = const_list(g, key[1])
        it = g.nodes[key[2]] if len(key) > 2 else None
        return it, cl
    return None, None


def raw_list(g, t):
    """(element terms, node they are evaluated at) of a literal list, else None."""
    if t[0] == "obj":
        d = g.nodes[t[1]]
        return (d.term[1], d) if d.term[0] in ("list", "tuple") else None
    ct = g.prog.content(t)
    return (ct[1], None) if ct[0] in ("list", "tuple") else None


def touched(g, t):
    return any(k.callee[0] == "a" and k.callee[2] in ("push", "unshift", "splice", "shift", "pop", "reverse", "sort") and t in g.resolve(k.callee[1], k) for k in g.calls())


def unrolled(g, m, out):
    """A push in a loop over a literal list contributes once per element (at the loop head)."""
    side = "back" if m.callee[2] == "push" else "front"
    for a in m.args:
        for v in g.resolve(a, m):
            if v[0] == "elem" and len(v) > 2:
                it = g.nodes[v[2]]
                for lt in g.resolve(v[1], it):
                    rl = raw_list(g, lt)
                    body = [x for l, x in it.succ if l == "body"]
                    if rl and rl[0] and not any(x[0] == "star" for x in rl[0]) and body \
                            and not touched(g, lt) \
                            and not reachable(g, body[0], it, lambda x, l: x is m or l == "exc"):
                        for j, e in enumerate(rl[0]):
                            for i, b in enumerate(m.args):
                                for w in g.resolve(b, m):
                                    if w == v:
                                        out.extend((it, side, j * 10 + i, y) for y in g.resolve(e, rl[1] or it))
                                    else:
                                        out.append((it, side, j * 10 + i, w))
                        return True
    return False


def contributions(g, n, arg):
    """What flows into the list `arg` of node n: (lists, [(node, side, index, value)])."""
    lists, out, todo, done = [], [], [(v, n) for v in g.resolve(arg, n)], set()
    def starred(m, side, i, v):
        if v[0] == "t":
            k = g.nodes[v[1]]
            if k.op == "call" and k.callee[0] == "a" and k.callee[2] in ("flatMap", "map") and getattr(k, "loop", None) is not None:
                it = g.nodes[k.loop]
                body = [x for l, x in it.succ if l == "body"]
                for a in g.nodes:
                    if a.live and a.op == "assign" and str(a.var[2]).startswith("$ret") and body and reachable(g, body[0], a, lambda x, l: x is it or l == "exc"):
                        for r in g.resolve(a.term, a):
                            rl = raw_list(g, r)
                            if rl and k.callee[2] == "flatMap":
                                for j, x in enumerate(rl[0]):
                                    for y in g.resolve(x, rl[1] or a):
                                        out.append((m, side, i + j, y))
                            else:
                                out.append((m, side, i, r))
                return True
        return False
    while todo:
        t, at = todo.pop(0)
        if t in done:
            continue
        done.add(t)
        if t[0] == "alt":
            todo += [(x, at) for x in t[1:]]
            continue
        lists.append(t)
        rl = raw_list(g, t)
        if rl:
            home = rl[1] or at
            for i, x in enumerate(rl[0]):
                if x[0] == "star":
                    todo += [(v, home) for v in g.resolve(x[1], home) if not starred(home, "lit", i, v)]
                else:
                    for v in g.resolve(x, home):
                        out.append((home, "lit", i, v))
        if t[0] == "t":
            m = g.nodes[t[1]]
            if m.op == "call":
                f = g.callee(m)
                if f[0] == "a" and f[2] in ("concat", "slice"):
                    todo += [(v, m) for v in g.resolve(m.callee[1], m)]
                    if f[2] == "concat":
                        for a in m.args:
                            for v in g.resolve(a, m):
                                if v[0] in ("obj", "list", "t", "v", "param"):
                                    todo.append((v, m))
                                out.append((m, "back", 0, v))
                if f == ("a", ("glob", "Array"), "from"):
                    todo += [(v, m) for v in g.resolve(m.args[0], m)]
    for m in g.calls():
        if m.callee[0] == "a" and m.callee[2] in ("push", "unshift"):
            if any(r in lists for r in g.resolve(m.callee[1], m)):
                if unrolled(g, m, out):
                    continue
                for i, a in enumerate(m.args):
                    if a[0] == "star":
                        for v in g.resolve(a[1], m):
                            rl = raw_list(g, v)
                            if rl and not any(x[0] == "star" for x in rl[0]) and not touched(g, v):
                                for j, x in enumerate(rl[0]):
                                    for y in g.resolve(x, rl[1] or m):
                                        out.append((m, "back" if m.callee[2] == "push" else "front", i + j, y))
                            elif not starred(m, "back" if m.callee[2] == "push" else "front", i, v):
                                lists.append(v)
                                out.append((m, "back", i, ("star", v)))
                    else:
                        for v in g.resolve(a, m):
                            out.append((m, "back" if m.callee[2] == "push" else "front", i, v))
    return lists, out


def cat_parts(v):
    """Flattened parts of a string concatenation/template term."""
    if v[0] == "cat":
        ps = v[1] if len(v) == 2 and isinstance(v[1], tuple) and (not v[1] or isinstance(v[1][0], tuple)) else v[1:]
        return [y for x in ps for y in cat_parts(x)]
    if v[0] == "op" and v[1] == "+":
        return [y for x in v[2:] for y in cat_parts(x)]
    return [v]


def starts(v, prefix):
    """The rest of a string term after a constant prefix, else None."""
    ps = cat_parts(v)
    if ps and ps[0][0] == "c" and isinstance(ps[0][1], str) and ps[0][1].startswith(prefix):
        rest = ps[0][1][len(prefix):]
        return ([("c", rest)] if rest else []) + ps[1:]
    return None


def loop_returns(g, k):
    """Values the callback of a .map/.flatMap/.filter call returns."""
    it = g.nodes[k.loop]
    body = [x for l, x in it.succ if l == "body"]
    out = []
    for a in g.nodes:
        if a.live and a.op == "assign" and str(a.var[2]).startswith("$ret") and body and reachable(g, body[0], a, lambda x, l: x is it or l == "exc"):
            out += [(r, a) for r in g.resolve(a.term, a)]
    return out


def mapped(g, t):
    """Element terms of <literal list>.map(f), f's result with the element substituted; else None."""
    if t[0] != "t":
        return None
    k = g.nodes[t[1]]
    if k.op != "call" or k.callee[0] != "a" or k.callee[2] != "map" or getattr(k, "loop", None) is None:
        return None
    it = g.nodes[k.loop]
    rets = loop_returns(g, k)
    if len(rets) != 1:
        return None
    out = None
    for lt in g.resolve(it.term, it):
        rl = raw_list(g, lt)
        if rl is None or out is not None or any(x[0] == "star" for x in rl[0]):
            return None
        out = []
        for x in rl[0]:
            v = g.one(x, rl[1] or it, 4)
            out.append(replace(g.expand(rets[0][0], 6), lambda y: y[0] == "elem" and len(y) > 2 and y[2] == it.id, v))
    return out


def replace(t, pred, v):
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str) and pred(t):
        return v
    return tuple(replace(x, pred, v) for x in t)


# ---- promises nobody waits for ------------------------------------------------------------------------------------------

SETTLE = ("then", "catch", "finally")


def named(f, cal):
    """The local function or method a callee term inside function f names, None when unknown."""
    if cal[0] == "fn":
        return cal[1]
    if cal[0] == "free":
        while f is not None:
            xs = [x for x in f.children if x.name == cal[1].split("#")[0]]
            if xs:
                return xs[0] if len(xs) == 1 else None
            f = f.parent
        return None
    if cal[0] == "a" and cal[1] == ("this",):
        while f is not None and f.cls is None:
            f = f.parent
        xs = [x for x in f.module.functions if x.cls is f.cls and x.name == cal[2]] if f is not None else []
        return xs[0] if len(xs) == 1 else None
    return None


def promising(c, f, cal, depth=0):
    """The call in function f certainly returns a promise."""
    k = named(f, cal)
    if k is not None:
        if k.is_gen or depth > 4:
            return False
        if k.is_async:
            return True
        g = c.flat(k)
        rs = [x for s in k.body for x in walk(s) if x.k == "Return"]
        by = {id(n.expr): n for n in g.calls() if getattr(n, "expr", None) is not None}
        return bool(rs) and all(x.e is not None and id(x.e) in by and promising(c, k, g.callee(by[id(x.e)]), depth + 1) for x in rs)
    if cal[0] == "a" and cal[1][0] == "a" and cal[1][1][0] == "mod" and cal[1][2] == "promises":
        return True
    if fs_op(cal) and not cal[2].endswith(("Sync", "Stream")):
        return has(cal, lambda x: x[0] == "a" and x[2] == "promises" or x == ("mod", "fs/promises"))
    if cal[0] == "a" and cal[1] == ("glob", "Promise"):
        return cal[2] in ("all", "race", "any", "allSettled", "reject")
    return cal in (("mod", "which"), ("glob", "Promise")) or is_mod_fn(cal, "tar") or is_mod_fn(cal, "exponential-backoff") or cal == ("glob", "fetch") or is_mod_fn(cal, "tinyglobby", "glob") or is_mod_fn(cal, "stream/promises") \
        or cal == ("mod", "make-fetch-happen") or cal[0] == "a" and cal[1][0] == "a" and cal[1][2] == "commands" and cal[1][1][0] != "mod"


def parents(fn):
    """{id(node): parent} in the body of a function."""
    from ..ir import N
    up = {}
    todo = [(None, s) for s in fn.body]
    while todo:
        p, x = todo.pop()
        if isinstance(x, N):
            if p is not None:
                up[id(x)] = p
            todo.extend((x, v) for v in x.__dict__.values())
        elif isinstance(x, (list, tuple)):
            todo.extend((p, y) for y in x)
    return up


def logging(call):
    x = call.fn
    while x.k == "Attr":
        x = x.obj
    return x.k == "Name" and x.id.split("#")[0] == "log" or x.k == "This" and call.fn.k == "Attr" and call.fn.name in ("addLog",)


VALUES = ("JSON", "path", "Math", "Number", "semver", "Object", "Array", "String")


def lost(up, e, uses, depth=0):
    """Why nobody waits for the promise that expression e is, None if somebody may: (it is used in place of its result, reason)."""
    while True:
        p = up.get(id(e))
        if p is None:
            return None if depth else (False, "it is discarded")
        k = p.k
        if k == "Expr":
            return False, "it is discarded"
        if k == "Not" or k in ("If", "IfS", "While") and p.test is e:
            return True, "the promise is tested instead of its result"
        if k in ("If", "And", "Or", "Nullish", "Seq"):
            e = p
            continue
        if k == "Attr":
            if p.name not in SETTLE:
                return True, f".{p.name} of the promise is used instead of its result"
            q = up.get(id(p))
            if q is None or q.k != "Call" or q.fn is not p:
                return None
            e = q
            continue
        if k == "Return" and not depth:
            q = up.get(id(p))
            if q is not None and q.k == "Try" and q.handlers and len(q.body) == 1 and q.body[0] is p and not any(
                    x.k == "Await" or x.k == "Call" and x is not e and not logging(x) for x in walk(p)):
                return True, "the handler around it never sees it fail"
            return None
        if k == "Index" and p.obj is e:
            return True, "an element of the promise is used instead of its result"
        if k == "For" and p.iter is e:
            return True, "the promise is iterated instead of its result"
        if k in ("Op", "Cat"):
            return True, "the promise is computed with instead of its result"
        if k == "Call" and logging(p):
            return False, "it is only logged"
        if k == "Call" and p.fn is not e and (p.fn.k == "Name" and p.fn.id in ("parseInt", "String", "Number", "Boolean")
                                              or p.fn.k == "Attr" and p.fn.obj.k == "Name" and p.fn.obj.id.split("#")[0] in VALUES):
            return True, "the promise is computed with instead of its result"
        if k == "Assign" and p.value is e and len(p.targets) == 1:
            t = p.targets[0]
            if t.k in ("Tuple", "List", "Dict"):
                return True, "the promise is taken apart instead of its result"
            if t.k != "Name" or t.owner is None or depth > 3:
                return None
            rs = uses(t)
            if rs is None:
                return None
            why = [lost(u, x, uses, depth + 1) for u, x in rs]
            bad = [w for w in why if w is not None and w[0]]
            if bad:
                return bad[0]
            return None if any(w is None for w in why) else (why + [(False, "it is never used")])[0]
        return None


def lost_promises(c, mods):
    """(location, callee, why) of calls whose promise nobody waits for; also the number of calls judged."""
    out, n = [], 0
    for m in mods:
        ups = {f: parents(f) for f in m.functions}

        def uses(name):
            """Places where the variable is read, None when it can hold something else."""
            rs, defs = [], 0
            for f, up in ups.items():
                for s in f.body:
                    for x in walk(s):
                        if x.k == "Name" and x.id == name.id and x.owner is name.owner:
                            p = up.get(id(x))
                            if p is not None and (p.k == "Aug" or p.k == "AssignE" and p.e is not x or p.k == "For" and p.iter is not x or p.k == "Assign" and p.value is not x):
                                if p.k != "Assign":
                                    return None
                                defs += 1
                            else:
                                rs.append((up, x))
            return rs if defs == 1 else None
        for f in m.functions:
            g = c.flat(f)
            for k in g.calls():
                e = getattr(k, "expr", None)
                if e is None or id(e) not in ups[f] or not promising(c, f, g.callee(k)):
                    continue
                n += 1
                w = lost(ups[f], e, uses)
                if w:
                    out.append((k.loc, show(g.callee(k)), w[1]))
    return out, n
