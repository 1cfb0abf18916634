"""Order taint: which collections have an order that depends on hashing or on the file system, and where that order
can reach something that is written.

Flow-insensitive, field-based, interprocedural over the Python syntax trees.  An abstract value is a tuple of flags per
nesting depth (the value, its elements, their elements).  SET: an unordered collection.  TAINT: an ordered value
(list, dict, string) whose order or content depends on the iteration order of an unordered one.
"""
import ast
import os
import re

SET, TAINT, FRESH = 1, 2, 4
BAD = SET | TAINT
D = 4
ZERO = (0,) * D
GENERIC = {"append", "extend", "add", "update", "get", "join", "write", "items", "keys", "values", "pop", "insert",
           "remove", "sort", "split", "strip", "replace", "format", "startswith", "endswith", "close", "read", "open",
           "copy", "index", "count", "discard", "setdefault", "clear", "lower", "upper", "encode", "decode", "match",
           "search", "sub", "group", "union", "intersection", "difference", "issubset", "popitem", "reverse", "flush",
           "readlines", "rstrip", "lstrip", "appendChild", "setAttribute", "set"}
CLEAN = {"sorted", "len", "any", "all", "min", "max", "sum", "bool", "isinstance", "issubclass", "type",
         "hasattr", "callable", "int", "range"}
FS_ORDER = {("os", "listdir"), ("glob", "glob"), ("os", "walk"), ("os", "scandir"), ("glob", "iglob")}
RANDOM = {("time", "time"), ("os", "getpid"), ("random", "random"), ("random", "choice"), ("random", "randint"),
          ("uuid", "uuid4"), ("uuid", "uuid1"), ("time", "ctime"), ("time", "strftime"), ("time", "asctime")}
IGNORE_CALLS = {"DebugOutput", "print"}


def join(a, b):
    return tuple(x | y for x, y in zip(a, b))


def inner(v):
    return v[1:] + (0,)


def wrap(v, top=0):
    return (top,) + v[:-1]


class Fn:
    def __init__(self, mod, node, qual, cls=None, parent=None):
        self.mod, self.node, self.qual, self.cls, self.parent = mod, node, qual, cls, parent
        self.params = []
        if node is not None and not isinstance(node, ast.Module):
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args]
            self.kwonly = [x.arg for x in a.kwonlyargs]
            self.vararg = a.vararg.arg if a.vararg else None
        self.globals = set()
        self.locals = set()
        self.nested = {}


class Mod:
    pass


class Analysis:
    def __init__(self, repo, files):
        self.mods = {}
        self.fns = []
        self.classes = {}
        self.by_name = {}
        self.loc = {}
        self.effects = {}
        self.sites = {}
        self.siteset = {}
        self.sinks = {}
        self.iters = {}
        self.why, self.cur = {}, None
        self.here, self.env, self.vers = None, {}, {}
        self.alias, self.fvals = {}, {}
        self.writes = set()
        self.tasks, self.parallel = set(), False
        self.changed = False
        self.report = False
        for name, f in files:
            src = open(os.path.join(repo, f), encoding="utf8").read()
            m = Mod()
            m.path, m.name, m.tree = f, name, ast.parse(src)
            m.imports, m.defs, m.classes = {}, {}, {}
            m.fn = Fn(m, m.tree, m.path + ":<module>")
            self.mods[m.name] = m
            self.fns.append(m.fn)
            self.collect(m, m.tree, m.fn, None, "")
        for f in self.fns:
            self.scan_locals(f)

    # ------------------------------------------------------------ declarations
    def collect(self, m, node, owner, cls, pre):
        for s in ast.iter_child_nodes(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, s, pre + s.name, cls, owner)
                self.fns.append(f)
                if cls is not None:
                    self.classes[cls]["methods"][s.name] = f
                    self.by_name.setdefault(s.name, []).append(f)
                else:
                    owner.nested[s.name] = f
                    if owner is m.fn:
                        m.defs[s.name] = f
                self.collect(m, s, f, None, pre + s.name + ".")
            elif isinstance(s, ast.ClassDef):
                key = (m.name, s.name)
                self.classes[key] = {"methods": {}, "bases": [b for b in s.bases], "mod": m, "name": s.name}
                m.classes[s.name] = key
                self.collect(m, s, owner, key, pre + s.name + ".")
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m.imports[a.asname or a.name] = (s.module or "") + "." + a.name
            else:
                self.collect(m, s, owner, cls if isinstance(s, (ast.If, ast.Try, ast.With)) else cls, pre)

    def own(self, node):
        """Nodes of a function body without nested functions (lambdas and comprehensions included)."""
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            x = todo.pop()
            yield x
            for ch in ast.iter_child_nodes(x):
                if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    todo.append(ch)

    def scan_locals(self, f):
        if isinstance(f.node, ast.Module):
            return
        f.locals = set(f.params) | set(f.kwonly) | ({f.vararg} if f.vararg else set())
        for x in self.own(f.node):
            if isinstance(x, ast.Global):
                f.globals |= set(x.names)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                f.locals.add(x.id)
        f.locals -= f.globals

    # ------------------------------------------------------------ locations
    def spread(self, k):
        """The locations a key stands for: the live versions of a variable of the current function, every version of
        another function's variable."""
        if k[0] != "L" or len(k) > 4:
            return [k]
        if k[1:3] == self.here:
            return [k + (n,) if n else k for n in self.env.get(k[3], (0,))]
        return [k] + [k + (n,) for n in self.vers.get(k, ())]

    def get(self, k):
        if k[0] != "L":
            return self.loc.get(k, ZERO)
        v = ZERO
        for x in self.spread(k):
            w = self.loc.get(x)
            if w:
                v = join(v, w)
        return v

    def put(self, k, v):
        if k is None or not any(v):
            return
        for x in self.spread(k):
            self.put0(x, v)

    def put0(self, k, v):
        if not any(v):
            return
        o = self.loc.get(k, ZERO)
        n = join(o, v)
        if n != o:
            self.loc[k] = n
            self.changed = True
            for d in range(D):
                if n[d] & BAD & ~o[d]:
                    self.why.setdefault((k, d), (self.cur, n[d]))

    def name_key(self, f, name):
        g = f
        while g is not None and not isinstance(g.node, ast.Module):
            if name in g.locals:
                return ("L", g.mod.path, g.qual, name)
            if name in g.globals:
                break
            g = g.parent
        imp = f.mod.imports.get(name)
        if imp and "." in imp and name not in self.module_names(f.mod):
            m, n = imp.rsplit(".", 1)
            if m in self.mods:
                return ("G", m, n)
        return ("G", f.mod.name, name)

    def module_names(self, m):
        if not hasattr(m, "gnames"):
            m.gnames = {x.id for x in self.own(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return m.gnames

    def modref(self, f, e):
        """Dotted module name an expression denotes."""
        if isinstance(e, ast.Name):
            if self.name_key(f, e.id)[0] == "L":
                return None
            r = f.mod.imports.get(e.id)
            return r if r and (r in self.mods or r in ("os", "time", "glob", "random", "uuid", "gyp", "json", "pprint", "copy",
                                                       "collections", "itertools", "os.path", "functools", "sys", "re", "gyp.generator")) else None
        if isinstance(e, ast.Attribute):
            b = self.modref(f, e.value)
            if b is not None and (b + "." + e.attr in self.mods or b + "." + e.attr in ("os.path", "gyp.generator")):
                return b + "." + e.attr
        return None

    def key_of(self, f, e):
        """Location of an assignable expression and the nesting depth inside it."""
        if isinstance(e, ast.Name):
            return self.name_key(f, e.id), 0
        if isinstance(e, ast.Attribute):
            m = self.modref(f, e.value)
            if m is not None:
                return ("G", m, e.attr), 0
            return ("A", e.attr), 0
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                return ("K", e.slice.value), 0
            k, d = self.key_of(f, e.value)
            return k, d + 1
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get") and e.args:
            if isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                return ("K", e.args[0].value), 0
            k, d = self.key_of(f, e.func.value)
            return k, d + 1
        return None, 0

    def store(self, f, e, v):
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self.store(f, x.value if isinstance(x, ast.Starred) else x, inner(v))
            return
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name):
            for x in self.key_values(f, e.slice.id):
                self.put(("K", x), v)
        k, d = self.key_of(f, e)
        for _ in range(d):
            v = wrap(v)
        self.put(k, v)

    def key_values(self, f, name):
        """The constants a loop variable runs through."""
        memo = f.__dict__.setdefault("keyvals", {})
        if name not in memo:
            out = set()
            for x in self.own(f.node):
                if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == name:
                    out |= self.const_strs(f, x.iter)
            memo[name] = out
        return memo[name]

    def const_strs(self, f, e, d=0):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return {x.value for x in e.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if d > 3:
            return set()
        if isinstance(e, ast.Name):
            k = self.name_key(f, e.id)
            if k[0] == "L":
                g, n = f, e.id
            else:
                g, n = (self.mods[k[1]].fn, k[2]) if k[1] in self.mods else (None, None)
            out = set()
            for x in self.own(g.node) if g is not None else ():
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets):
                    out |= self.const_strs(g, x.value, d + 1)
            return out
        return set()

    def mark(self, f, e, flag=TAINT):
        """The object e denotes was changed in place: every name it was reached from sees the change."""
        k, d = self.key_of(f, e)
        if k is None:
            return
        v = (flag,) + ZERO[1:]
        for _ in range(d):
            v = wrap(v)
        seen, todo = set(), self.spread(k)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                self.put0(x, v)
                todo += self.alias.get(x, ())

    def link(self, f, new, e):
        """new is another name for the object e denotes."""
        if isinstance(e, (ast.Name, ast.Attribute)) or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            k, d = self.key_of(f, e)
            if k is not None and d == 0:
                for n in new:
                    self.alias.setdefault(n, set()).update(self.spread(k))

    # ------------------------------------------------------------ calls
    def class_methods(self, key, name, seen=()):
        c = self.classes.get(key)
        if c is None or key in seen:
            return []
        if name in c["methods"]:
            return [c["methods"][name]]
        out = []
        for b in c["bases"]:
            bk = self.class_ref(c["mod"].fn, b)
            if bk:
                out += self.class_methods(bk, name, seen + (key,))
        return out

    def subclasses(self, key):
        out = [key]
        for k, c in self.classes.items():
            for b in c["bases"]:
                if self.class_ref(c["mod"].fn, b) == key:
                    out += self.subclasses(k)
        return out

    def class_ref(self, f, e):
        if isinstance(e, ast.Name):
            if e.id in f.mod.classes:
                return f.mod.classes[e.id]
            imp = f.mod.imports.get(e.id)
            if imp and "." in imp:
                m, n = imp.rsplit(".", 1)
                if m in self.mods:
                    return self.mods[m].classes.get(n)
        if isinstance(e, ast.Attribute):
            m = self.modref(f, e.value)
            if m in self.mods:
                return self.mods[m].classes.get(e.attr)
        return None

    def callees(self, f, c):
        """[(fn, skip_self)]"""
        e = c.func
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.nested:
                    return [(g.nested[e.id], 0)]
                if e.id in g.locals and g.node is not None:
                    return [(h, 0) for h in self.fvals.get(("L", g.mod.path, g.qual, e.id), ())]
                g = g.parent
            imp = f.mod.imports.get(e.id)
            if imp and "." in imp:
                m, n = imp.rsplit(".", 1)
                if m in self.mods and n in self.mods[m].defs:
                    return [(self.mods[m].defs[n], 0)]
            k = self.class_ref(f, e)
            if k:
                return [(x, 1) for x in self.class_methods(k, "__init__")]
            return []
        if isinstance(e, ast.Attribute):
            m = self.modref(f, e.value)
            if m is not None:
                if m in self.mods and e.attr in self.mods[m].defs:
                    return [(self.mods[m].defs[e.attr], 0)]
                k = self.class_ref(f, e)
                return [(x, 1) for x in self.class_methods(k, "__init__")] if k else []
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and self.cls_of(f):
                out = []
                for k in self.subclasses(self.cls_of(f)):
                    out += [(x, 1) for x in self.class_methods(k, e.attr)]
                return list(dict.fromkeys(out))
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and self.cls_of(f):
                out = []
                for b in self.classes[self.cls_of(f)]["bases"]:
                    bk = self.class_ref(f, b)
                    if bk:
                        out += [(x, 1) for x in self.class_methods(bk, e.attr)]
                return out
            k = self.class_ref(f, e.value)
            if k:
                return [(x, 0) for x in self.class_methods(k, e.attr)]
            if isinstance(e.value, ast.Name) and e.value.id == "generator":
                return [(x.defs[e.attr], 0) for x in self.mods.values() if ".generator." in x.name and e.attr in x.defs]
            if e.attr in GENERIC:
                return []
            return [(x, 1) for x in self.by_name.get(e.attr, [])]
        return []

    def cls_of(self, f):
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def fref(self, f, e):
        """Functions an expression used as a value may denote, through wrappers such as memoize(f)."""
        if isinstance(e, ast.Call):
            return {h for a in e.args for h in self.fref(f, a)}
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Attribute) and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
                return set()
            return {h for h, _ in self.callees(f, ast.Call(func=e, args=[], keywords=[])) if h.node is not None and h.node.name != "__init__"}
        return set()

    def fbind(self, k, f, e):
        v = self.fref(f, e)
        if v and not v <= self.fvals.get(k, set()):
            self.fvals.setdefault(k, set()).update(v)
            self.changed = True

    def bind(self, f, c, g, skip, argv, kwv):
        for a, p in zip(c.args, g.params[skip:]):
            self.fbind(("L", g.mod.path, g.qual, p), f, a)
        for k in c.keywords:
            if k.arg in g.params or k.arg in g.kwonly:
                self.link(f, [("L", g.mod.path, g.qual, k.arg)], k.value)
        ps = g.params[skip:]
        for i, (a, v) in enumerate(argv):
            if isinstance(a, ast.Starred):
                for p in ps[i:]:
                    self.put0(("L", g.mod.path, g.qual, p), inner(v))
                continue
            if i < len(ps):
                self.put0(("L", g.mod.path, g.qual, ps[i]), v)
                self.link(f, [("L", g.mod.path, g.qual, ps[i])], a)
            elif g.vararg:
                self.put0(("L", g.mod.path, g.qual, g.vararg), wrap(v))
        for k, v in kwv.items():
            if k in g.params or k in g.kwonly:
                self.put0(("L", g.mod.path, g.qual, k), v)

    # ------------------------------------------------------------ expressions
    def ev(self, f, e, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(f, e, ctx)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(f, ch, ctx)
        return ZERO

    def e_Constant(self, f, e, ctx):
        return ZERO

    def e_Name(self, f, e, ctx):
        return self.get(self.name_key(f, e.id))

    def e_Attribute(self, f, e, ctx):
        m = self.modref(f, e.value)
        if m is not None:
            return self.get(("G", m, e.attr))
        self.ev(f, e.value, ctx)
        return self.get(("A", e.attr))

    def e_Subscript(self, f, e, ctx):
        v = self.ev(f, e.value, ctx)
        self.ev(f, e.slice, ctx)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return self.get(("K", e.slice.value))
        if isinstance(e.slice, ast.Slice):
            return v
        r = inner(v)
        if v[0] & TAINT and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            # element number k of an arbitrarily ordered list
            r = (r[0] | TAINT,) + r[1:]
        return r

    def e_Slice(self, f, e, ctx):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(f, x, ctx)
        return ZERO

    def seq(self, f, e, ctx, top=0):
        v = ZERO
        for x in e.elts:
            if isinstance(x, ast.Starred):
                w = self.ev(f, x.value, ctx)
                v = join(v, inner(w))
                top |= TAINT if w[0] & BAD and not top & SET else 0
            else:
                v = join(v, self.ev(f, x, ctx))
        return wrap(v, top)

    def e_List(self, f, e, ctx):
        return self.seq(f, e, ctx)

    e_Tuple = e_List

    def e_Set(self, f, e, ctx):
        return self.seq(f, e, ctx, SET)

    def e_Dict(self, f, e, ctx):
        v, top = ZERO, 0
        for k, x in zip(e.keys, e.values):
            w = self.ev(f, x, ctx)
            if k is None:
                v = join(v, inner(w))
                top |= TAINT if w[0] & BAD else 0
                continue
            self.ev(f, k, ctx)
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                self.put(("K", k.value), w)
            else:
                v = join(v, w)
        return wrap(v, top)

    def e_JoinedStr(self, f, e, ctx):
        t = 0
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                t |= TAINT if any(y & BAD for y in self.ev(f, x.value, ctx)) else 0
        return (t,) + ZERO[1:]

    def e_BinOp(self, f, e, ctx):
        a, b = self.ev(f, e.left, ctx), self.ev(f, e.right, ctx)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
            v = join(a, b)
            return (SET if v[0] & SET else v[0],) + v[1:]
        if isinstance(e.op, ast.Mod) and not isinstance(e.left, ast.Name):
            t = TAINT if any(x & BAD for x in a[:1]) or any(x & BAD for x in b) else 0
            if isinstance(e.right, ast.Dict):
                for k, x in zip(e.right.keys, e.right.values):
                    if k is not None and any(y & BAD for y in self.ev(f, x, ctx)):
                        t = TAINT
            elif isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) and isinstance(e.right, ast.Name):
                for k in re.findall(r"%\((\w+)\)", e.left.value):
                    if any(y & BAD for y in self.get(("K", k))):
                        t = TAINT
            return (t,) + ZERO[1:]
        v = join(a, b)
        return (TAINT if v[0] & BAD else 0,) + v[1:]

    def e_BoolOp(self, f, e, ctx):
        v = ZERO
        for x in e.values:
            v = join(v, self.ev(f, x, ctx))
        return v

    def e_IfExp(self, f, e, ctx):
        self.ev(f, e.test, ctx)
        return join(self.ev(f, e.body, ctx), self.ev(f, e.orelse, ctx))

    def e_Compare(self, f, e, ctx):
        self.ev(f, e.left, ctx)
        for x in e.comparators:
            self.ev(f, x, ctx)
        return ZERO

    def e_UnaryOp(self, f, e, ctx):
        self.ev(f, e.operand, ctx)
        return ZERO

    def e_Starred(self, f, e, ctx):
        return self.ev(f, e.value, ctx)

    def e_Await(self, f, e, ctx):
        return self.ev(f, e.value, ctx)

    def e_NamedExpr(self, f, e, ctx):
        v = self.ev(f, e.value, ctx)
        self.store(f, e.target, v)
        return v

    def e_Lambda(self, f, e, ctx):
        return ZERO

    def e_Yield(self, f, e, ctx):
        v = self.ev(f, e.value, ctx) if e.value else ZERO
        self.put(("R", f.mod.path, f.qual), wrap(v, TAINT if ctx else 0))
        return ZERO

    def e_YieldFrom(self, f, e, ctx):
        v = self.ev(f, e.value, ctx)
        self.put(("R", f.mod.path, f.qual), v)
        return ZERO

    def comp(self, f, e, elts, ctx, kind):
        tainted = 0
        inctx = ctx
        for gen in e.generators:
            v = self.ev(f, gen.iter, ctx)
            tainted |= v[0] & BAD
            self.iterate(f, gen.target, gen.iter, v)
            if v[0] & BAD and kind != "set":
                inctx = ctx + ((e, v),)
            for c in gen.ifs:
                self.ev(f, c, inctx)
        vs = [self.ev(f, x, inctx) for x in elts]
        v = vs[-1]
        if kind == "set":
            return wrap(v, SET)
        return wrap(v, TAINT if tainted else 0)

    def e_ListComp(self, f, e, ctx):
        return self.comp(f, e, [e.elt], ctx, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, f, e, ctx):
        return self.comp(f, e, [e.elt], ctx, "set")

    def e_DictComp(self, f, e, ctx):
        return self.comp(f, e, [e.key, e.value], ctx, "dict")

    def iterate(self, f, target, it, v):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "iteritems") and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.store(f, target.elts[1], inner(self.ev(f, it.func.value, ())))
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(target, ast.Tuple) and it.args:
            self.store(f, target.elts[1], inner(self.ev(f, it.args[0], ())))
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(target, ast.Tuple):
            for t, a in zip(target.elts, it.args):
                self.store(f, t, inner(self.ev(f, a, ())))
            return
        self.store(f, target, inner(v))

    def site(self, f, e, v, what):
        self.sites[(f.mod.path, e.lineno, e.col_offset)] = (f.qual, what)
        self.siteset[(f.mod.path, e.lineno, e.col_offset)] = v[0] & SET

    def sink(self, f, e, what):
        self.sinks.setdefault((f.mod.path, e.lineno), (f.qual, what))

    def e_Call(self, f, e, ctx):
        fn = e.func
        argv = [(a, self.ev(f, a.value if isinstance(a, ast.Starred) else a, ctx)) for a in e.args]
        kwv = {k.arg: self.ev(f, k.value, ctx) for k in e.keywords}
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if self.parallel and name in ("apply_async", "map_async", "imap_unordered", "submit", "add_done_callback"):
            # completion callbacks run in an arbitrary order
            for k in e.keywords:
                if k.arg in ("callback", "error_callback"):
                    self.tasks |= {g for g, _ in self.callees(f, ast.Call(func=k.value, args=[], keywords=[]))}
        if name in IGNORE_CALLS:
            if "file" in kwv:
                self.writes.add((f.mod.path, e.lineno, f.qual))
            if "file" in kwv and any(x & BAD for _, v in argv for x in v):
                self.sink(f, e, "print to a file")
            elif "file" in kwv and ctx:
                self.effect(f, next(k.value for k in e.keywords if k.arg == "file"), ctx, e, "write")
            return ZERO
        a0 = argv[0][1] if argv else ZERO
        if isinstance(fn, ast.Name) and self.name_key(f, name)[0] == "G" and not self.callees(f, e):
            if name in ("set", "frozenset"):
                return (SET,) + a0[1:]
            if name in ("id", "hash"):
                return (TAINT,) + ZERO[1:]
            if name in CLEAN:
                if name == "sorted":
                    w = weak_key(e)
                    return (TAINT if w == "arbitrary" or w and a0[0] & BAD else 0,) + a0[1:]
                return ZERO
            if name in ("list", "tuple", "reversed", "iter", "enumerate", "dict", "OrderedDict", "deque"):
                if name == "enumerate":
                    return wrap(wrap(inner(a0)), TAINT if a0[0] & BAD else 0)
                return (TAINT if a0[0] & BAD else 0,) + a0[1:]
            if name == "map" or name == "filter":
                for a, v in argv[1:]:
                    r = self.apply(f, e.args[0], inner(v)) if name == "map" else inner(v)
                    return wrap(r, TAINT if v[0] & BAD else 0)
            if name == "zip":
                return wrap(ZERO, TAINT if any(v[0] & BAD for _, v in argv) else 0)
            if name == "next":
                return (inner(a0)[0] | (TAINT if a0[0] & BAD else 0),) + inner(a0)[1:]
            if name in ("str", "repr"):
                return (TAINT if any(x & BAD for x in a0) else 0,) + ZERO[1:]
            if name == "defaultdict" and e.args:
                d = e.args[0]
                if isinstance(d, ast.Name) and d.id == "set":
                    return wrap((SET,) + ZERO[1:])
                if isinstance(d, ast.Lambda):
                    return wrap(self.ev(f, d.body, ctx))
            if name == "getattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return self.get(("A", e.args[1].value))
        if isinstance(fn, ast.Attribute):
            m = self.modref(f, fn.value)
            if m is not None and (m, name) in FS_ORDER:
                return (SET, 0 if name != "walk" else 0) + ZERO[2:]
            if m is not None and (m, name) in RANDOM:
                return (TAINT,) + ZERO[1:]
            if m == "collections" and name == "defaultdict" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == "set":
                return wrap((SET,) + ZERO[1:])
            if m in ("collections",) and name in ("OrderedDict", "deque"):
                return (TAINT if a0[0] & BAD else 0,) + a0[1:]
            if m == "copy":
                return a0
            if m in ("json", "pprint") and name in ("dump", "dumps", "pprint", "pformat"):
                srt = any(k.arg == "sort_keys" and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords)
                bad = any(x & BAD for x in a0)
                if m == "pprint":
                    bad = any(x & TAINT for x in a0)
                if name in ("dumps", "pformat"):
                    return (TAINT if bad else 0,) + ZERO[1:]
                if bad:
                    self.sink(f, e, f"{m}.{name} of a value in arbitrary order")
                return ZERO
            if m == "os.path" or m == "os":
                return (TAINT if any(v[0] & TAINT for _, v in argv) else 0,) + ZERO[1:]
            r = self.method(f, e, fn, name, argv, kwv, ctx)
            if r is not None:
                return r
        cs = self.callees(f, e)
        out = ZERO
        for g, skip in cs:
            self.bind(f, e, g, skip, argv, kwv)
            out = join(out, self.get(("R", g.mod.path, g.qual)))
            if ctx:
                self.in_ctx(f, e, g, skip, ctx)
        if not cs and isinstance(fn, ast.Attribute):
            # unknown method: strings derived from tainted strings stay tainted
            b = self.ev(f, fn.value, ctx)
            if name in ("replace", "strip", "rstrip", "lstrip", "lower", "upper", "encode", "decode", "format"):
                t = b[0] & TAINT
                for _, v in argv:
                    t |= TAINT if any(x & BAD for x in v) and name in ("format", "replace") else 0
                return (t,) + ZERO[1:]
        # a callback handed over by name
        return out

    def apply(self, f, fe, v):
        if isinstance(fe, ast.Name) and fe.id in ("set", "frozenset"):
            return (SET,) + ZERO[1:]
        return ZERO if not isinstance(fe, ast.Lambda) else v

    def method(self, f, e, fn, name, argv, kwv, ctx):
        a0 = argv[0][1] if argv else ZERO
        if name in ("append", "appendleft", "insert", "add", "discard", "remove", "extend", "update", "pop", "popitem", "get", "setdefault", "keys",
                    "values", "items", "copy", "union", "intersection", "difference", "symmetric_difference", "join", "write", "writelines", "sort",
                    "intersection_update", "difference_update", "popleft", "clear", "newline", "AppendChild", "fromkeys"):
            own = None
            if name in ("write", "update", "newline", "copy", "add", "get", "AppendChild"):
                own = [c for c in self.callees_named(f, e)]
                if own:
                    return None
        else:
            return None
        recv = self.ev(f, fn.value, ctx)
        val = argv[-1][1] if argv else ZERO
        if name in ("append", "appendleft", "insert", "AppendChild"):
            self.grow(f, fn.value, val, ctx, e)
            return ZERO
        if name == "add":
            k, d = self.key_of(f, fn.value)
            v = wrap(val)
            for _ in range(d):
                v = wrap(v)
            self.put(k, v)
            if not recv[0] & SET and ctx:
                self.grow(f, fn.value, val, ctx, e)
            return ZERO
        if name in ("extend", "update"):
            if recv[0] & SET and name == "update":
                self.grow(f, fn.value, inner(val), (), e)
                return ZERO
            self.grow(f, fn.value, inner(val), ctx, e)
            if val[0] & BAD:
                self.mark(f, fn.value)
                self.effect(f, fn.value, ((e, val),), e, "append")
            return ZERO
        if name in ("discard", "remove", "clear", "intersection_update", "difference_update"):
            return ZERO
        if name in ("pop", "popitem", "popleft"):
            r = inner(recv)
            if recv[0] & SET and not argv:
                return r if not ctx else r
            return r
        if name == "get" or name == "setdefault":
            d = argv[1][1] if len(argv) > 1 else ZERO
            if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                if name == "setdefault":
                    self.put(("K", e.args[0].value), d)
                return join(self.get(("K", e.args[0].value)), d)
            if name == "setdefault":
                k, dep = self.key_of(f, fn.value)
                v = wrap(d)
                for _ in range(dep):
                    v = wrap(v)
                self.put(k, v)
                self.grow(f, fn.value, d, ctx, e)
            return join(inner(recv), d)
        if name == "fromkeys":
            return wrap(inner(a0), TAINT if a0[0] & BAD else 0)
        if name == "keys":
            return (recv[0] & BAD,) + ZERO[1:]
        if name == "values":
            return (recv[0] & BAD,) + recv[1:]
        if name == "items":
            return wrap(wrap(inner(recv)), recv[0] & BAD)
        if name == "copy":
            return recv
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            v = recv
            for _, w in argv:
                v = join(v, w)
            return (SET if recv[0] & SET else v[0],) + v[1:]
        if name == "join":
            if isinstance(fn.value, ast.Attribute) and fn.value.attr == "path":
                return None
            t = TAINT if any(x & BAD for x in a0) else 0
            return (t,) + ZERO[1:]
        if name in ("write", "writelines", "newline"):
            self.writes.add((f.mod.path, e.lineno, f.qual))
            if any(x & BAD for _, v in argv for x in v):
                self.sink(f, e, f".{name}() of text in arbitrary order")
            if ctx:
                self.effect(f, fn.value, ctx, e, "write")
            return ZERO
        if name == "sort":
            if isinstance(fn.value, ast.Name):
                self.define(f, fn.value.id, e)
                w = weak_key(e)
                self.put(self.name_key(f, fn.value.id), (TAINT if w == "arbitrary" or w and recv[0] & BAD else 0,) + recv[1:])
            return ZERO
        return None

    def callees_named(self, f, e):
        """Project methods a generic method name may denote when the receiver is known."""
        fn = e.func
        if isinstance(fn.value, ast.Name) and fn.value.id in ("self",):
            return self.callees(f, e)
        if self.modref(f, fn.value) in self.mods:
            return self.callees(f, e)
        return []

    # ------------------------------------------------------------ order contexts
    def fresh(self, f, e, ctx):
        """The object e denotes was created inside the innermost arbitrary-order loop."""
        r = root(e)
        if r is None or not ctx:
            return False
        k = self.name_key(f, r)
        if k[0] != "L" or k[2] != f.qual:
            return False
        loop = ctx[-1][0]
        if loop == "task":
            return r not in f.params
        if not isinstance(loop, (ast.For, ast.AsyncFor)):
            return False
        for x in ast.walk(loop):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == r:
                        v = x.value
                        if isinstance(v, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.JoinedStr, ast.Constant)):
                            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("get", "setdefault"):
                                return False
                            return True
                        if isinstance(e, ast.Name) and isinstance(v, (ast.BinOp,)):
                            return True
            if isinstance(x, (ast.With,)):
                for it in x.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == r:
                        return True
        # elements of the loop itself are distinct objects
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Name)):
            for x in ast.walk(loop.target):
                if isinstance(x, ast.Name) and x.id == r:
                    return True
        return False

    def keyed(self, e, ctx):
        """e is <x>[<loop variable>]...: each iteration touches its own element."""
        loop = ctx[-1][0]
        if not isinstance(loop, ast.For):
            return False
        names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Subscript) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e.slice)):
                return True
            e = e.value
        return False

    def grow(self, f, target, val, ctx, e):
        """target gets one more element at the end."""
        k, d = self.key_of(f, target)
        v = wrap(val)
        for _ in range(d):
            v = wrap(v)
        self.put(k, v)
        if ctx and not self.fresh(f, target, ctx) and not self.keyed(target, ctx):
            self.mark(f, target)
            self.effect(f, target, ctx, e, "append")
        elif not ctx:
            self.effect(f, target, (), e, "append")

    def effect(self, f, target, ctx, e, kind):
        """An ordered effect on an object: a violation inside an arbitrary-order loop when it is a write."""
        if ctx and not (self.fresh(f, target, ctx) or self.keyed(target, ctx)):
            if kind == "write":
                self.sink(f, e, "writing in arbitrary order")

    def outer(self, g):
        """Ordered effects of a function on objects it did not create: {('param', i, kind) | ('attr', name, kind)}."""
        if g not in self.effects:
            self.effects[g] = set()
            out = set()
            for x in self.own(g.node):
                if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
                    out |= self.outer_of(g, x.target, "append")
                if not isinstance(x, ast.Call):
                    continue
                n = x.func.attr if isinstance(x.func, ast.Attribute) else None
                if n in ("append", "extend", "insert"):
                    out |= self.outer_of(g, x.func.value, "append")
                elif n in ("write", "writelines", "newline") and not self.callees_named(g, x):
                    out |= self.outer_of(g, x.func.value, "write")
                else:
                    for h, skip in self.callees(g, x):
                        for ef in self.outer(h):
                            if ef[0] == "param":
                                i = ef[1] - skip
                                if 0 <= i < len(x.args):
                                    out |= self.outer_of(g, x.args[i], ef[2])
                                elif i < 0 and isinstance(x.func, ast.Attribute):
                                    out |= self.outer_of(g, x.func.value, ef[2], ef[3] if len(ef) > 3 else None)
                            else:
                                out.add(ef)
            self.effects[g] = out
        return self.effects[g]

    def outer_of(self, g, e, kind, attr=None):
        r = root(e)
        if r is None:
            return set()
        a = e.attr if isinstance(e, ast.Attribute) else attr
        if r in g.params and not self.reassigned(g, r):
            return {("param", g.params.index(r), kind, a)}
        k = self.name_key(g, r)
        if k[0] == "G" and self.modref(g, e) is None or k[0] == "L" and k[1:3] != (g.mod.path, g.qual):
            return {("glob", k, kind)}
        return set()

    def reassigned(self, g, name):
        return any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets) and not (
            isinstance(x.value, ast.Name)) for x in self.own(g.node))

    def in_ctx(self, f, e, g, skip, ctx):
        for ef in self.outer(g):
            if ef[0] == "param":
                i = ef[1] - skip
                a = None
                if i < 0:
                    if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Call)):
                        a = e.func.value
                    else:
                        continue  # a constructor: the object is new
                elif i < len(e.args):
                    a = e.args[i]
                else:
                    for k in e.keywords:
                        if k.arg == g.params[ef[1]]:
                            a = k.value
                if a is None or isinstance(a, (ast.Constant, ast.List, ast.Dict, ast.Call)):
                    continue
                if self.fresh(f, a, ctx) or self.keyed(a, ctx):
                    continue
                if ef[2] == "write":
                    self.sink(f, e, f"{g.qual}() writes in arbitrary order")
                elif ef[3]:
                    self.put(("A", ef[3]), (TAINT,) + ZERO[1:])
                else:
                    self.mark(f, a)
            elif ef[2] == "write":
                self.sink(f, e, f"{g.qual}() writes in arbitrary order")
            else:
                self.put(ef[1], (TAINT,) + ZERO[1:])

    # ------------------------------------------------------------ statements
    def run(self):
        n = 0
        while True:
            self.changed = False
            n += 1
            for f in self.fns:
                self.function(f)
            if not self.changed or n > 30:
                break
        self.sinks, self.sites = {}, {}
        for f in self.fns:
            self.function(f)
        self.rounds = n

    def function(self, f):
        self.here, self.env = (f.mod.path, f.qual), {}
        self.block(f, f.node.body, (("task", ZERO),) if f in self.tasks else ())

    def define(self, f, name, s):
        """A new version of a local variable."""
        k = self.name_key(f, name)
        if k[0] == "L" and k[1:3] == self.here:
            self.env[name] = frozenset((s.lineno,))
            self.vers.setdefault(k, set()).add(s.lineno)

    def merge(self, envs):
        out = {}
        for e in envs:
            for n in e:
                if n not in out:
                    out[n] = frozenset().union(*(x.get(n, (0,)) for x in envs))
        self.env = out

    def assigned(self, s):
        """Every version defined inside a statement may be live after an abrupt exit from it."""
        out = {}
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = out.get(t.id, frozenset()) | {x.lineno}
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name):
                out[x.func.value.id] = out.get(x.func.value.id, frozenset()) | {x.lineno}
        return out

    def abrupt(self, before, s):
        e = dict(before)
        for n, v in self.assigned(s).items():
            e[n] = e.get(n, frozenset((0,))) | v
        return e

    def block(self, f, body, ctx):
        for s in body:
            self.stmt(f, s, ctx)

    def stmt(self, f, s, ctx):
        self.cur = (f.mod.path, s.lineno, f.qual)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(f, d, ctx)
            for d, p in zip(reversed(s.args.defaults), reversed(s.args.args)):
                g = f.nested.get(s.name)
                if g:
                    self.put0(("L", g.mod.path, g.qual, p.arg), self.ev(f, d, ctx))
            return
        if isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, ast.Assign):
                    v = self.ev(f, x.value, ctx)
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.put(("A", t.id), v)
            return
        if isinstance(s, ast.Assign):
            v = self.ev(f, s.value, ctx)
            if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts):
                for t, x in zip(s.targets[0].elts, s.value.elts):
                    self.store(f, t, self.ev(f, x, ctx))
                return
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.define(f, t.id, s)
                    self.fbind(self.name_key(f, t.id), f, s.value)
                self.store(f, t, v)
                k, d = self.key_of(f, t)
                if k is not None and d == 0:
                    self.link(f, self.spread(k), s.value)
                if isinstance(t, ast.Subscript) and ctx and not (isinstance(t.slice, ast.Constant)):
                    # a new key may be inserted
                    if not self.fresh(f, t.value, ctx) and not self.keyed(t.value, ctx):
                        self.mark(f, t.value)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(f, s.target, self.ev(f, s.value, ctx))
            return
        if isinstance(s, ast.AugAssign):
            v = self.ev(f, s.value, ctx)
            cur = self.ev(f, s.target, ctx)
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                self.store(f, s.target, v)
                return
            if not isinstance(s.op, ast.Add):
                return
            self.store(f, s.target, (TAINT if v[0] & BAD else 0,) + v[1:])
            if ctx and not self.fresh(f, s.target, ctx) and not self.keyed(s.target, ctx) and not numeric(s.value):
                self.mark(f, s.target)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(f, s.iter, ctx)
            self.iterate(f, s.target, s.iter, v)
            c = ctx
            if v[0] & BAD:
                c = ctx + ((s, v),)
                self.site(f, s, v, "loop over an arbitrarily ordered collection")
            before = self.abrupt(self.env, s)
            self.env = dict(before)
            self.block(f, s.body, c)
            self.env = before
            self.block(f, s.orelse, ctx)
            return
        if isinstance(s, ast.While):
            before = self.abrupt(self.env, s)
            self.env = dict(before)
            self.ev(f, s.test, ctx)
            self.block(f, s.body, ctx + self.pop_ctx(f, s, ctx))
            self.env = before
            self.block(f, s.orelse, ctx)
            return
        if isinstance(s, ast.If):
            self.ev(f, s.test, ctx)
            before = dict(self.env)
            self.block(f, s.body, ctx)
            one, self.env = self.env, before
            self.block(f, s.orelse, ctx)
            gone = [leaves(s.body), leaves(s.orelse)]
            self.merge([e for e, g in zip((one, self.env), gone) if not g] or [one, self.env])
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(f, i.context_expr, ctx)
                if i.optional_vars is not None:
                    self.store(f, i.optional_vars, v)
            self.block(f, s.body, ctx)
            return
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            some = self.abrupt(self.env, s)
            self.block(f, s.body, ctx)
            self.block(f, s.orelse, ctx)
            ends = [self.env]
            for h in s.handlers:
                self.env = dict(some)
                self.block(f, h.body, ctx)
                if not leaves(h.body):
                    ends.append(self.env)
            self.merge(ends)
            if s.finalbody:
                self.env = some
                self.block(f, s.finalbody, ctx)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(f, s.value, ctx)
                if any(isinstance(c[0], ast.For) for c in ctx) and not isinstance(s.value, ast.Constant):
                    if self.uses_loop(s.value, ctx):
                        v = (v[0] | TAINT,) + v[1:]
                self.put(("R", f.mod.path, f.qual), v)
            return
        if isinstance(s, ast.Expr):
            self.ev(f, s.value, ctx)
            return
        if isinstance(s, ast.Raise):
            return
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.ev(f, ch, ctx)

    def pop_ctx(self, f, s, ctx):
        """while S: x = S.pop() iterates an unordered collection."""
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "popitem") and not x.args:
                v = self.ev(f, x.func.value, ())
                if v[0] & SET:
                    return ((s, v),)
        return ()

    def uses_loop(self, e, ctx):
        names = set()
        for c in ctx:
            if isinstance(c[0], ast.For):
                names |= {x.id for x in ast.walk(c[0].target) if isinstance(x, ast.Name)}
                for y in ast.walk(c[0]):
                    if isinstance(y, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(y.value)):
                        names |= {x.id for t in y.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def leaves(body):
    """Control never reaches the end of the block."""
    if not body:
        return False
    x = body[-1]
    if isinstance(x, ast.If):
        return bool(x.orelse) and leaves(x.body) and leaves(x.orelse)
    return isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break))


def weak_key(c):
    """'arbitrary': the sort key differs between runs; 'partial': it does not tell all elements apart."""
    for k in c.keywords:
        if k.arg == "key":
            v = k.value
            if isinstance(v, ast.Lambda):
                v = v.body.func if isinstance(v.body, ast.Call) else v.body
            n = v.id if isinstance(v, ast.Name) else None
            if n in ("id", "hash"):
                return "arbitrary"
            if n == "len" or isinstance(v, ast.Constant) and v.value is not None:
                return "partial"
    return None


def numeric(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "int", "float", "ord", "round"):
        return True
    if isinstance(e, ast.BinOp):
        return numeric(e.left) and numeric(e.right)
    return isinstance(e, ast.Constant) and isinstance(e.value, (int, float))


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get"):
        return root(e.func.value)
    return e.id if isinstance(e, ast.Name) else None
