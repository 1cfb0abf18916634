"""Supergraph construction: Core -> control flow graph with local calls spliced in.

Every path property is decided on this graph, so extracting a helper, renaming
a local, introducing a temporary or inverting a condition gives the same graph
up to renaming.  See DESIGN.md section "Engine".

Terms (values) are tuples:
  ('c', v)                constant
  ('v', fid, name)        variable of frame fid
  ('t', node id)          value produced by CFG node
  ('a', t, name)          attribute          ('i', t, key)   subscript
  ('op', op, args...)     operator           ('cat', parts)  string concatenation
  ('list'|'tuple'|'set', elts) ('dict', ((k, v), ...))
  ('fn', Function)  ('cls', Class)  ('mod', name)  ('glob', name)
  ('param', name)  ('elem', t, node)  ('key', t, node)  ('this',)
  ('call', callee, args, kw)    expanded form of a call node
  ('resolve', site) ('reject', site)   Promise executor parameters
  ('excof', node)  exception thrown by node ('unk',)
"""
from .ir import N, Function, Class, walk

NOTHROW_NAMES = {"isinstance", "len", "str", "bool", "set", "dict", "list", "tuple", "frozenset", "repr",
                 "sorted", "hasattr", "print", "type", "id", "range", "enumerate", "zip"}


class CNode:
    __slots__ = ("id", "op", "loc", "frame", "succ", "pred", "__dict__")

    def __init__(self, i, op, loc, frame, kw):
        self.id = i
        self.op = op
        self.loc = loc
        self.frame = frame
        self.succ = []
        self.pred = []
        self.has_pred = False
        self.__dict__.update(kw)

    def __repr__(self):
        return f"#{self.id}:{self.op}@{self.loc[0]}:{self.loc[1]}"


class Frame:
    def __init__(self, fid, fn, parent, stack, awaited=True):
        self.id = fid
        self.fn = fn
        self.parent = parent
        self.bound = {}
        self.stack = stack
        self.awaited = awaited
        self.this = None

    def of(self, owner):
        f = self
        while f is not None:
            if f.fn is owner:
                return f
            f = f.parent
        return None


class Program:
    def __init__(self, lang, mods, dispatch=None):
        self.lang = lang
        self.mods = mods
        self.dispatch = dispatch
        self.mframes = {}
        for m in mods.values():
            self.mframes[m.name] = Frame("M:" + m.name, m.fn, None, ())
        self._mv = {}
        self._mc = {}

    def functions(self):
        for m in self.mods.values():
            for f in m.functions:
                yield f

    def find(self, mod, qual):
        for f in self.mods[mod].functions:
            if f.qual == qual:
                return f
        return None

    # ---- static resolution of callees -----------------------------------
    def js_mod(self, base, name):
        import posixpath
        if name.startswith("."):
            p = posixpath.normpath(posixpath.join(posixpath.dirname(base), name))
            for c in (p, p + ".js", p + "/index.js", "lib/node-gyp.js" if p in (".", "") else p):
                if c in self.mods:
                    return c
            return p
        return name[5:] if name.startswith("node:") else name

    def require_target(self, e, module):
        if e.k == "Call" and e.fn.k == "Name" and e.fn.id == "require" and e.fn.owner is None and len(e.args) == 1 \
                and e.args[0].k == "Const" and isinstance(e.args[0].v, str):
            return self.js_mod(module.name, e.args[0].v)
        return None

    def mod_of(self, e, module, depth=0):
        """Module name denoted by expression e, or None."""
        if depth > 8:
            return None
        if e.k == "Mod":
            return e.name
        if self.lang == "js":
            r = self.require_target(e, module)
            if r:
                return r
            if e.k == "If":  # cond ? require(x) : {}
                return self.mod_of(e.a, module, depth + 1) or self.mod_of(e.b, module, depth + 1)
        if e.k == "Name" and e.owner is not None:
            bs = [b for b in e.owner.assigns.get(e.id, []) if b is not None]
            ms = {self.mod_of(b, e.owner.module, depth + 1) for b in bs}
            if len(ms) == 1:
                return ms.pop()
            # `import gyp.common; import gyp.generator.make` binds 'gyp' repeatedly
            return None
        if e.k == "Attr":
            b = self.mod_of(e.obj, module, depth + 1)
            if b:
                if self.lang == "py" and (b + "." + e.name) in self.mods:
                    return b + "." + e.name
        return None

    def export(self, mod, name, depth=0):
        """(Function|Class, frame) exported under name by module."""
        m = self.mods.get(mod)
        if m is None:
            return None
        mf = self.mframes[mod]
        if self.lang == "py":
            if name in m.classes and name in m.fn.assigns and not m.fn.assigns[name]:
                return m.classes[name], mf
            bs = m.fn.assigns.get(name)
            if bs and len(bs) == 1 and bs[0] is not None:
                return self.fn_of(bs[0], mf, depth + 1)
            if bs and all(b is not None and b.k == "Fn" for b in bs):
                return bs[-1].fn, mf
            if name in m.classes:
                return m.classes[name], mf
            return None
        e = m.exports.get(name)
        if e is None:
            return None
        return self.fn_of(e, mf, depth + 1)

    def class_of_frame(self, frame):
        f = frame.fn
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def method(self, cls, name, depth=0):
        if name in cls.methods:
            return cls.methods[name]
        if depth > 5:
            return None
        for b in cls.bases:
            r = self.fn_of(b, self.mframes[cls.module.name])
            if r and isinstance(r[0], Class):
                m = self.method(r[0], name, depth + 1)
                if m:
                    return m
        return None

    def subclasses(self, cls):
        for m in self.mods.values():
            for c in m.classes.values():
                if c is not cls:
                    for b in c.bases:
                        r = self.fn_of(b, self.mframes[c.module.name])
                        if r and r[0] is cls:
                            yield c

    def is_self(self, e, frame):
        if e.k == "This":
            return True
        if e.k == "Name" and e.owner is not None and e.owner.cls is not None and self.lang == "py" \
                and not e.owner.is_static and e.owner.params and e.owner.params[0][0].k == "Name" \
                and e.owner.params[0][0].id == e.id:
            return True
        return False

    def fn_of(self, e, frame, depth=0):
        """Resolve a callee expression to (Function|Class, defining frame)."""
        if depth > 10:
            return None
        if e.k == "Fn":
            return e.fn, frame
        if e.k == "Name":
            if e.owner is None:
                return None
            of = frame.of(e.owner)
            if of is None:
                of = self.mframes[e.owner.module.name] if e.owner.is_module else Frame("free", e.owner, None, ())
            if e.id in of.bound:
                return of.bound[e.id]
            bs = e.owner.assigns.get(e.id, [])
            if len(bs) == 1 and bs[0] is not None:
                b = bs[0]
                if b.k == "Fn":
                    return b.fn, of
                if b.k in ("Name", "Attr", "Index"):
                    return self.fn_of(b, of, depth + 1)
                if self.lang == "js":
                    t = self.require_target(b, e.owner.module)
                    if t:
                        return self.export(t, "default", depth + 1)
                return None
            if not bs and e.id in e.owner.module.classes and e.owner.is_module:
                return e.owner.module.classes[e.id], of
            if not bs and e.id in e.owner.module.classes and e.owner.module.classes[e.id].owner is e.owner:
                return e.owner.module.classes[e.id], of
            if bs and all(b is not None and b.k == "Fn" for b in bs):
                return bs[-1].fn, of
            return None
        if e.k == "Attr":
            if self.is_self(e.obj, frame):
                cls = self.class_of_frame(frame)
                if e.obj.k == "Name":
                    cls = e.obj.owner.cls
                if cls:
                    m = self.method(cls, e.name)
                    if m:
                        return m, self.frame_for(m, frame)
                    fl = cls.fields.get(e.name)
                    if fl is not None and self.lang == "js":
                        return self.fn_of(fl, self.mframes[cls.module.name], depth + 1)
                return None
            mod = self.mod_of(e.obj, frame.fn.module)
            if mod:
                return self.export(mod, e.name, depth + 1)
            c = self.instance_class(e.obj, frame, depth + 1)
            if c:
                m = self.method(c, e.name)
                if m:
                    return m, self.frame_for(m, frame)
            if e.obj.k == "Name":
                r = self.fn_of(e.obj, frame, depth + 1)
                if r and isinstance(r[0], Class):
                    m = self.method(r[0], e.name) or None
                    if m:
                        return m, r[1]
            if self.dispatch:
                return self.dispatch(self, e, frame)
        if e.k == "Call" and e.fn.k == "Attr" and e.fn.name == "bind" and not getattr(e, "new", False):
            return self.fn_of(e.fn.obj, frame, depth + 1)
        if e.k == "Index" and self.dispatch:
            return self.dispatch(self, e, frame)
        return None

    def frame_for(self, m, frame):
        """Lexical frame in which method m was defined."""
        if m.parent is None:
            return None
        f = frame.of(m.parent)
        if f is not None:
            return f
        if m.parent.is_module:
            return self.mframes[m.module.name]
        return Frame("free", m.parent, None, ())

    def instance_class(self, e, frame, depth=0):
        if depth > 10:
            return None
        if e.k == "Call":
            r = self.fn_of(e.fn, frame, depth + 1)
            if r and isinstance(r[0], Class):
                return r[0]
        if e.k == "Name" and e.owner is not None:
            bs = e.owner.assigns.get(e.id, [])
            if len(bs) == 1 and bs[0] is not None and bs[0].k == "Call":
                of = frame.of(e.owner) or (self.mframes[e.owner.module.name] if e.owner.is_module else frame)
                return self.instance_class(bs[0], of, depth + 1)
        return None

    def content(self, t):
        """Literal content of a module-level table ('glob', 'mod:name'), else t."""
        if t[0] == "glob" and ":" in t[1]:
            mod, name = t[1].split(":", 1)
            if mod in self.mods:
                self.module_value(mod, name)
                c = self._mc.get((mod, name))
                if c and len(c) == 1:
                    return c[0]
        return t

    # ---- pure terms ------------------------------------------------------
    def module_value(self, modname, name):
        key = (modname, name)
        if key in self._mv:
            return self._mv[key]
        self._mv[key] = frozenset([("glob", modname + ":" + name)])
        m = self.mods[modname]
        bs = m.fn.assigns.get(name, [])
        out = set()
        for b in bs:
            v = ("unk",) if b is None else self.pure(b, self.mframes[modname])
            if v[0] in ("dict", "list", "set"):
                self._mc.setdefault(key, []).append(v)
                v = ("glob", modname + ":" + name)
            out.add(v)
        if not bs:
            if name in m.classes:
                out.add(("cls", m.classes[name]))
            else:
                out.add(("glob", modname + ":" + name))
        r = frozenset(out)
        self._mv[key] = r
        return r

    def pure(self, e, frame, depth=0):
        """Term for an expression outside any CFG (module level values)."""
        if depth > 25:
            return ("unk",)
        P = lambda x: self.pure(x, frame, depth + 1)
        k = e.k
        if k == "Const":
            return ("c", e.v)
        if k == "Mod":
            return ("mod", e.name)
        if k == "Fn":
            return ("fn", e.fn)
        if k == "Name":
            if e.owner is None:
                return ("glob", e.id)
            if e.owner.is_module:
                vs = self.module_value(e.owner.module.name, e.id)
                if len(vs) == 1:
                    return next(iter(vs))
                if all(v[0] == "mod" for v in vs):
                    return sorted(vs)[0]
                return ("glob", e.owner.module.name + ":" + e.id)
            return ("free", e.id)
        if k == "Attr":
            return self.mk_attr(P(e.obj), e.name)
        if k == "Index":
            return ("i", P(e.obj), P(e.key))
        if k == "Call":
            if self.lang == "js":
                r = self.require_target(e, frame.fn.module)
                if r:
                    return ("mod", r)
            return ("call", P(e.fn), tuple(P(a) for a in e.args), tuple((n, P(v)) for n, v in e.kw))
        if k == "Await":
            return P(e.e)
        if k == "Op":
            return ("op", e.op) + tuple(P(a) for a in e.args)
        if k == "Not":
            return ("op", "not", P(e.e))
        if k in ("And", "Or", "Nullish"):
            return ("op", {"And": "&&", "Or": "||", "Nullish": "??"}[k]) + tuple(P(a) for a in e.es)
        if k == "If":
            return ("op", "?:", P(e.test), P(e.a), P(e.b))
        if k in ("List", "Tuple", "Set"):
            return (k.lower(), tuple(P(a) for a in e.es))
        if k == "Dict":
            return ("dict", tuple((P(a) if a is not None else None, P(b)) for a, b in e.items))
        if k == "Cat":
            return ("cat", tuple(P(a) for a in e.parts))
        if k == "Star":
            return ("star", P(e.e))
        if k == "This":
            return ("this",)
        if k == "Regex":
            return ("regex", e.pattern, e.flags)
        if k == "Comp":
            return ("comp", e.kind, tuple(P(x) for x in e.elts), tuple(P(g[1]) for g in e.gens))
        return ("unk",)

    def mk_attr(self, o, name):
        if o[0] == "mod":
            if self.lang == "py":
                if (o[1] + "." + name) in self.mods:
                    return ("mod", o[1] + "." + name)
                if o[1] in self.mods:
                    m = self.mods[o[1]]
                    if name in m.fn.assigns:
                        vs = self.module_value(o[1], name)
                        if len(vs) == 1:
                            v = next(iter(vs))
                            if v[0] in ("fn", "cls", "mod", "c"):
                                return v
            elif o[1] in self.mods:
                r = self.export(o[1], name)
                if r:
                    return ("cls", r[0]) if isinstance(r[0], Class) else ("fn", r[0])
        if o[0] == "dict" and self.lang == "js":
            vs = [v for k, v in o[1] if k == ("c", name)]
            if vs and all(k and k[0] == "c" for k, v in o[1]):
                return vs[-1]
        return ("a", o, name)


SYNC_ITER = {"forEach", "map", "filter", "some", "every", "find", "findIndex", "flatMap", "reduce", "replace",
             "replaceAll", "sort"}
CB_LOOPS = {"forEach", "map", "filter", "some", "every", "find", "findIndex", "flatMap"}
EVENTS = {"on", "once", "addListener", "setTimeout", "setImmediate", "nextTick"}


class TooBig(Exception):
    pass


class CFG:
    def __init__(self, prog):
        self.prog = prog
        self.nodes = []
        self.entry = None
        self.exit = None
        self.exc_exit = None
        self.sink = None
        self.root = None
        self.defs = {}
        self._reach = {}
        self._res = {}

    def by_id(self, i):
        return self.nodes[i]

    def calls(self):
        return [n for n in self.nodes if n.op == "call" and n.live]

    def finish(self):
        for n in self.nodes:
            n.live = False
        st = [self.entry]
        self.entry.live = True
        while st:
            n = st.pop()
            for _, m in n.succ:
                if not m.live:
                    m.live = True
                    st.append(m)
        for n in self.nodes:
            n.pred = []
        for n in self.nodes:
            if not n.live:
                continue
            for l, m in n.succ:
                m.pred.append((l, n))
            if n.op == "assign":
                self.defs.setdefault(n.var, []).append(n)

    # ---- reaching definitions, demand driven -----------------------------
    def reaching(self, node, var):
        """Definition sites of var reaching the point just before node.
        Elements: CNode (assign), ('excof', node) or 'entry'."""
        key = (node.id, var)
        if key in self._reach:
            return self._reach[key]
        out = []
        seen = set()
        st = list(node.pred)
        if node is self.entry:
            out.append("entry")
        while st:
            label, p = st.pop()
            if (label == "exc") and var[1] == "E" and p.op == "call":
                k = ("excof", p.id)
                if k not in out:
                    out.append(k)
                continue
            if p.id in seen:
                continue
            seen.add(p.id)
            if p.op == "assign" and p.var == var:
                out.append(p)
                continue
            if p is self.entry:
                out.append("entry")
                continue
            st.extend(p.pred)
        self._reach[key] = out
        return out

    def resolve(self, term, node, stack=(), cap=24):
        """Set of closed terms that `term`, evaluated just before node, may denote."""
        k = term[0]
        if k in ("c", "fn", "cls", "mod", "glob", "param", "this", "unk", "resolve", "reject", "regex", "free",
                 "phi", "excof", "key0", "undef", "obj", "cbarg"):
            return frozenset([term])
        mk = (term, node.id)
        if not stack and mk in self._res:
            return self._res[mk]
        r = self._resolve(term, node, stack, cap)
        if not stack:
            self._res[mk] = r
        return r

    def _resolve(self, term, node, stack, cap):
        k = term[0]
        if k == "v":
            if len(stack) > 40:
                return frozenset([("unk",)])
            out = set()
            for d in self.reaching(node, term):
                if d == "entry":
                    out |= self.entry_value(term)
                elif isinstance(d, tuple):
                    out.add(d)
                elif d.term[0] in ("dict", "list", "set"):
                    out.add(("obj", d.id, term[2]))
                elif d.id in stack:
                    out.add(("phi", term[2], d.id))
                else:
                    out |= self.resolve(d.term, d, stack + (d.id,), cap)
                if len(out) > cap:
                    return frozenset([("unk",)])
            if len(out) > 1:
                out = {o for o in out if not (o[0] == "phi")} or out
            return frozenset(out)
        if k == "t":
            n = self.nodes[term[1]]
            p = getattr(n, "promise", None)
            if p is not None and len(stack) < 40:
                out = set()
                for m in self.calls():
                    if m.callee[0] == "v" and m.id not in stack and self.resolve(m.callee, m, stack + (m.id,)) == {("resolve", p)}:
                        out |= self.resolve(m.args[0], m, stack + (m.id,), cap) if m.args else {("c", None)}
                if out and len(out) <= cap:
                    return frozenset(out)
            return frozenset([term])
        return self._prod(term, node, stack, cap)

    def _prod(self, term, node, stack, cap):
        """Resolve the sub-terms of a compound term (bounded product)."""
        k = term[0]
        if k in ("a",):
            return frozenset(self.prog.mk_attr(o, term[2]) for o in self.resolve(term[1], node, stack, cap))
        if k in ("elem", "key"):
            return frozenset((k, o) + term[2:] for o in self.resolve(term[1], node, stack, cap))
        parts = []
        # generic: resolve tuples recursively
        if k == "i":
            subs = [term[1], term[2]]
            rebuild = lambda xs: self.mk_index(xs[0], xs[1])
        elif k == "op":
            subs = list(term[2:])
            rebuild = lambda xs: ("op", term[1]) + tuple(xs)
        elif k in ("list", "tuple", "set", "cat"):
            subs = list(term[1])
            rebuild = lambda xs: mk_cat(xs) if k == "cat" else (k, tuple(xs))
        elif k == "dict":
            subs = [b for _, b in term[1]] + [a for a, _ in term[1] if a is not None]
            n = len(term[1])

            def rebuild(xs):
                vals = xs[:n]
                keys = iter(xs[n:])
                return ("dict", tuple((next(keys) if a is not None else None, v)
                                      for (a, _), v in zip(term[1], vals)))
        elif k == "star":
            subs = [term[1]]
            rebuild = lambda xs: ("star", xs[0])
        elif k == "call":
            subs = [term[1]] + list(term[2]) + [v for _, v in term[3]]
            na = len(term[2])
            rebuild = lambda xs: ("call", xs[0], tuple(xs[1:1 + na]),
                                  tuple((n, v) for (n, _), v in zip(term[3], xs[1 + na:])))
        elif k == "comp":
            subs = list(term[2]) + list(term[3])
            n2 = len(term[2])
            rebuild = lambda xs: ("comp", term[1], tuple(xs[:n2]), tuple(xs[n2:]))
        else:
            return frozenset([term])
        sets = [sorted(self.resolve(s, node, stack, cap), key=repr) for s in subs]
        total = 1
        for s in sets:
            total *= max(1, len(s))
        if total > cap:
            # keep structure, blur the ambiguous parts
            sets = [s if len(s) == 1 else [("alt",) + tuple(s)] for s in sets]
        out = [[]]
        for s in sets:
            out = [o + [x] for o in out for x in s]
        return frozenset(rebuild(o) for o in out)

    def mk_index(self, o, key):
        if o[0] in ("list", "tuple") and key[0] == "c" and isinstance(key[1], int) and 0 <= key[1] < len(o[1]) \
                and not any(x[0] == "star" for x in o[1]):
            return o[1][key[1]]
        return ("i", o, key)

    def entry_value(self, var):
        _, fid, name = var
        if isinstance(fid, str) and fid.startswith("M:"):
            return self.prog.module_value(fid[2:], name)
        if fid == "free":
            return frozenset([("free", name)])
        return frozenset([("undef", name)])

    def expand(self, term, depth=6):
        """Replace call-node results by structural call terms."""
        if depth <= 0:
            return term
        k = term[0]
        if k == "t":
            n = self.nodes[term[1]]
            if n.op == "call":
                rs = self.value(n, n.callee)
                callee = rs if rs is not None else ("unk",)
                args = tuple(self.one(a, n, depth - 1) for a in n.args)
                kw = tuple((x, self.one(v, n, depth - 1)) for x, v in n.kw)
                return ("call", self.expand(callee, depth - 1), args, kw)
            if n.op == "collect":
                elts = tuple(self.one(x, n.elemnode, depth - 1) for x in n.elts)
                return ("comp", n.kind, elts, (self.one(n.iterterm, n.iternode, depth - 1),))
            return term
        if k in ("a", "i", "op", "list", "tuple", "set", "cat", "dict", "star", "elem", "key", "call", "comp"):
            return self._map(term, lambda t: self.expand(t, depth - 1))
        return term

    def _map(self, term, f):
        k = term[0]
        if k == "a":
            return self.prog.mk_attr(f(term[1]), term[2])
        if k in ("elem", "key"):
            return (k, f(term[1])) + term[2:]
        if k == "i":
            return self.mk_index(f(term[1]), f(term[2]))
        if k == "op":
            return ("op", term[1]) + tuple(f(x) for x in term[2:])
        if k in ("list", "tuple", "set"):
            return (k, tuple(f(x) for x in term[1]))
        if k == "cat":
            return mk_cat([f(x) for x in term[1]])
        if k == "dict":
            return ("dict", tuple((f(a) if a is not None else None, f(b)) for a, b in term[1]))
        if k == "star":
            return ("star", f(term[1]))
        if k == "call":
            return ("call", f(term[1]), tuple(f(x) for x in term[2]), tuple((n, f(x)) for n, x in term[3]))
        if k == "comp":
            return ("comp", term[1], tuple(f(x) for x in term[2]), tuple(f(x) for x in term[3]))
        return term

    def one(self, term, node, depth=6):
        rs = self.resolve(term, node)
        if len(rs) == 1:
            return self.expand(next(iter(rs)), depth)
        return ("alt",) + tuple(sorted((self.expand(r, depth - 1) for r in rs), key=repr))

    def value(self, node, term):
        rs = self.resolve(term, node)
        if len(rs) == 1:
            return next(iter(rs))
        return ("alt",) + tuple(sorted(rs, key=repr))

    def values(self, node, term, depth=6):
        """All alternatives, expanded."""
        out = set()
        for r in self.resolve(term, node):
            r = self.expand(r, depth)
            out |= set(alternatives(r))
        return out

    def callee(self, n):
        return self.one(n.callee, n, 4)

    def content(self, t, depth=3):
        """The literal a ('obj', site) or module table was created with, resolved."""
        if t[0] == "obj":
            d = self.nodes[t[1]]
            return self.one(d.term, d, depth)
        return self.prog.content(t)


def alternatives(t):
    if t[0] == "alt":
        for x in t[1:]:
            yield from alternatives(x)
    elif t[0] == "op" and t[1] in ("||", "&&", "??"):
        for x in t[2:]:
            yield from alternatives(x)
    elif t[0] == "op" and t[1] == "?:":
        for x in t[3:]:
            yield from alternatives(x)
    else:
        yield t


def mk_cat(xs):
    out = []
    for x in xs:
        if x[0] == "cat":
            ys = x[1]
        else:
            ys = (x,)
        for y in ys:
            if y[0] == "c" and isinstance(y[1], str) and out and out[-1][0] == "c" and isinstance(out[-1][1], str):
                out[-1] = ("c", out[-1][1] + y[1])
            elif y == ("c", ""):
                continue
            else:
                out.append(y)
    if len(out) == 1 and out[0][0] == "c" and isinstance(out[0][1], str):
        return out[0]
    if not out:
        return ("c", "")
    return ("cat", tuple(out))


def has_call(e):
    for x in walk(e):
        if x.k in ("Call", "Await", "AssignE", "Comp", "Yield"):
            return True
    return False


def link(p, label, n):
    p.succ.append((label, n))
    n.has_pred = True


class Ctx:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


FAULTS = {"assign", "store", "aug", "branch", "del", "iter", "elem", "collect"}


class Builder:
    """inline(fn, depth) -> bool decides whether a resolved local callee is spliced."""

    def __init__(self, prog, inline=None, maxdepth=16, maxnodes=60000, throws=None, detach_unknown=False, faults=False):
        self.prog = prog
        self.faults = faults  # operations that are not calls may go to their handlers too
        self.inline_pred = inline or (lambda fn, depth: True)
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes
        self.throws = throws  # optional predicate(call expr) -> may throw
        self.nfid = 0
        self.inlined = set()

    # ---- plumbing --------------------------------------------------------
    def new(self, op, loc, **kw):
        n = CNode(len(self.g.nodes), op, loc, self.frame, kw)
        self.g.nodes.append(n)
        if len(self.g.nodes) > self.maxnodes:
            raise TooBig(f"supergraph of {self.g.root} exceeds {self.maxnodes} nodes")
        return n

    def emit(self, op, loc, **kw):
        n = self.new(op, loc, **kw)
        for p, l in self.ends:
            link(p, l, n)
        self.ends = [(n, "n")]
        if op in FAULTS:
            n.handler = self.handler()  # where it would go, if this class of inputs makes it throw
        if self.faults and op in FAULTS and self.handler() is not self.g.exc_exit:
            link(n, "exc", self.handler())
        return n

    def join(self, loc):
        return self.new("nop", loc)

    def goto(self, j):
        for p, l in self.ends:
            link(p, l, j)
        self.ends = []

    def at(self, j):
        self.ends = [(j, "n")]

    def handler(self):
        i = len(self.ctx) - 1
        while i >= 0:
            c = self.ctx[i]
            if c.kind == "skip":
                i = c.to - 1
                continue
            if c.kind in ("catch", "finally"):
                return c.join
            i -= 1
        return self.g.exc_exit

    def do_raise(self, term, loc, op="raise"):
        j = self.handler()
        self.emit("assign", loc, var=("v", "E", j.id), term=term)
        n = self.emit(op, loc, term=term)
        link(n, "exc", j)
        self.ends = []

    # ---- entry -----------------------------------------------------------
    def build(self, fn, args=None, frame_parent=None, split=False):
        g = self.g = CFG(self.prog)
        g.root = fn
        self.ctx = []
        self.excvars = []
        parent = frame_parent
        if parent is None and fn.parent is not None:
            parent = self.outer(fn.parent)
        self.frame = Frame("r", fn, parent, (fn,))
        g.entry = self.new("entry", fn.loc)
        g.exit = self.new("exit", fn.loc)
        g.exc_exit = self.new("exc_exit", fn.loc)
        g.sink = self.new("sink", fn.loc)
        self.ends = [(g.entry, "n")]
        for pat, d, kind in fn.params:
            nm = pat.id if pat.k == "Name" else "{}"
            t = ("param", nm)
            if args and nm in args:
                t = args[nm]
            if self.prog.lang == "py" and fn.cls is not None and pat is fn.params[0][0] and not fn.is_static:
                t = ("this",)
            self.assign(pat, t, fn.loc)
        ret = self.join(fn.loc)
        cond = None
        if split:  # separate exits for truthy and falsy results
            g.ret_true, g.ret_false = self.join(fn.loc), self.join(fn.loc)
            cond = (g.ret_true, g.ret_false)
        self.ctx.append(Ctx("func", join=ret, frame=self.frame, cond=cond))
        self.fn_body(fn)
        self.ctx.pop()
        if split:
            for x in cond:
                self.at(x)
                self.goto(g.exit)
        else:
            self.at(ret)
            self.goto(g.exit)
        g.finish()
        return g

    def outer(self, fn):
        if fn.is_module:
            return self.prog.mframes[fn.module.name]
        return Frame("free", fn, self.outer(fn.parent) if fn.parent else None, ())

    def fn_body(self, fn):
        self.stmts(fn.body)
        if self.ends:
            self.emit("assign", fn.loc, var=("v", self.frame.id, "$ret"), term=("c", None), implicit=True)
            self.goto(self.ctx[-1].join if self.ctx[-1].cond is None else self.ctx[-1].cond[1])

    # ---- inlining --------------------------------------------------------
    def may_inline(self, fn):
        if fn in self.frame.stack or len(self.frame.stack) > self.maxdepth:
            return False
        return self.inline_pred(fn, len(self.frame.stack))

    def splice(self, fn, dframe, args, argexprs, kw, loc, awaited, this=None, cond=None, callerframe=None):
        """Splice fn's body; returns the result term."""
        self.nfid += 1
        fr = Frame(self.nfid, fn, dframe, self.frame.stack + (fn,), awaited)
        fr.this = this
        caller = callerframe or self.frame
        save = self.frame
        self.inlined.add(fn)
        en = self.emit("enter", loc, fn=fn)
        params = list(fn.params)
        args = list(args)
        argexprs = list(argexprs) + [None] * (len(args) - len(argexprs))
        if fn.cls is not None and self.prog.lang == "py" and not fn.is_static and params:
            self.frame = fr
            self.assign(params[0][0], this or ("this",), loc)
            params = params[1:]
        self.frame = fr
        kwd = dict((n, v) for n, v, _ in kw if n)
        kwe = dict((n, e) for n, _, e in kw if n)
        i = 0
        starred = any(a[0] == "star" for a in args)
        for pat, d, kind in params:
            ex = None
            if kind == "rest":
                t = ("list", tuple(args[i:]))
            elif kind == "kw":
                t = ("unk",)
            elif kind == "pos" and i < len(args) and not starred:
                t = args[i]
                ex = argexprs[i]
                i += 1
            elif pat.k == "Name" and pat.id in kwd:
                t = kwd[pat.id]
                ex = kwe[pat.id]
            elif starred:
                t = ("unk",)
            elif d is not None:
                if has_call(d):
                    t = self.expr(d)
                else:
                    t = self.term(d)
                ex = d
            else:
                t = ("c", None)
            if pat.k == "Name" and ex is not None:
                r = self.prog.fn_of(ex, caller if ex is not d else fr) if ex.k in ("Fn", "Name", "Attr", "Call") else None
                if r and isinstance(r[0], Function):
                    fr.bound[pat.id] = r
            self.assign(pat, t, loc)
        ret = self.join(loc)
        self.ctx.append(Ctx("func", join=ret, frame=fr, cond=cond))
        self.fn_body(fn)
        self.ctx.pop()
        self.at(ret)
        self.frame = save
        if cond is None:
            self.emit("leave", loc, fn=fn)
        return ("v", fr.id, "$ret")

    # ---- statements ------------------------------------------------------
    def stmts(self, ss):
        for s in ss:
            if not self.ends and s.k != "FuncDef":
                # unreachable code is not lowered
                continue
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + s.k, None)
        if m is None:
            raise NotImplementedError(s.k)
        m(s)

    def s_Expr(self, s):
        e = s.e
        if e.k in ("And", "Or", "If", "Nullish") and has_call(e):
            # used as control flow
            if e.k == "If":
                T, F, J = self.join(s.loc), self.join(s.loc), self.join(s.loc)
                self.cond(e.test, T, F)
                self.at(T)
                self.s_Expr(N("Expr", s.loc, e=e.a))
                self.goto(J)
                self.at(F)
                self.s_Expr(N("Expr", s.loc, e=e.b))
                self.goto(J)
                self.at(J)
                return
        self.expr(e)

    def s_Assign(self, s):
        aw = False
        if len(s.targets) == 1 and s.targets[0].k == "Name" and s.value.k in ("Call", "List") \
                and self.prog.lang == "js":
            aw = self.awaited_later(s.targets[0])
        v = self.expr(s.value, aw)
        ts = list(s.targets)
        if len(ts) > 1 and v[0] in ("list", "dict", "set"):
            nm = next((t for t in ts if t.k == "Name"), None)
            if nm is not None:  # one object, several names
                self.assign(nm, v, s.loc, s.value)
                ts.remove(nm)
                v = self.expr(nm)
        for t in ts:
            self.assign(t, v, s.loc, s.value)

    def awaited_later(self, name):
        fn = name.owner
        cache = fn.__dict__.setdefault("_awaited", None)
        if cache is None:
            cache = set()
            from .ir import walk_fn
            for x in walk_fn(fn, True):
                if x.k == "Await":
                    for y in walk(x.e):
                        if y.k == "Name":
                            cache.add((y.id, y.owner))
                elif x.k == "Return" and x.e is not None and x.e.k == "Name":
                    cache.add((x.e.id, x.e.owner))
            fn._awaited = cache
        return (name.id, name.owner) in cache

    def assign(self, t, v, loc, src=None):
        k = t.k
        if k == "Name":
            if t.owner is None:
                if getattr(t, "cls", False):
                    return
                self.emit("store", loc, obj=("glob", "<global>"), name=t.id, value=v)
                return
            self.emit("assign", loc, var=self.var(t), term=v)
            # function-valued local: remember for callee resolution
        elif k == "Attr":
            self.emit("store", loc, obj=self.expr(t.obj), name=t.name, value=v)
        elif k == "Index":
            self.emit("store", loc, obj=self.expr(t.obj), key=self.expr(t.key), name=None, value=v)
        elif k in ("Tuple", "List"):
            first = len(self.g.nodes)
            self.unpack(t, v, loc)
            if len(self.g.nodes) > first and not any(q.k in ("Star", "Hole") for q in t.es) and self.g.nodes[first].op == "assign":
                self.g.nodes[first].unpack = (v, len(t.es))
        elif k == "DictPat":
            for key, q in t.items:
                if key is None:
                    self.assign(q, ("op", "rest", v), loc)
                elif key.k == "Const":
                    self.assign(q, self.prog.mk_attr(v, key.v) if v[0] == "mod" else ("a", v, key.v), loc)
                else:
                    self.assign(q, ("i", v, self.expr(key)), loc)
        elif k == "DefPat":
            self.assign(t.target, ("op", "default", v, self.term(t.default)), loc)
        elif k == "Star":
            self.assign(t.e, ("op", "rest", v), loc)
        else:
            raise NotImplementedError("assign to " + k)

    def unpack(self, t, v, loc):
        for i, q in enumerate(t.es):
            if q.k == "Hole":
                continue
            if q.k == "Star":
                after = len(t.es) - 1 - i
                self.assign(q.e, ("op", "rest", v, ("c", i)) + ((("c", after),) if after else ()), loc)
            elif v[0] in ("tuple", "list") and i < len(v[1]) and not any(x[0] == "star" for x in v[1]):
                self.assign(q, v[1][i], loc)
            elif any(x.k == "Star" for x in t.es[:i]):
                self.assign(q, ("i", v, ("c", i - len(t.es))), loc)
            else:
                self.assign(q, ("i", v, ("c", i)), loc)

    def var(self, name):
        f = self.frame.of(name.owner)
        if f is None:
            f = self.prog.mframes[name.owner.module.name] if name.owner.is_module else None
        return ("v", f.id if f else "free", name.id)

    def s_Aug(self, s):
        v = self.expr(s.e)
        cur = self.expr(s.target)
        if s.op == "+" and (s.e.k == "Cat" or (s.e.k == "Const" and isinstance(s.e.v, str))):
            val = ("cat", (cur, v))
        else:
            val = ("op", s.op, cur, v)
        if s.target.k == "Name":
            n = self.emit("assign", s.loc, var=self.var(s.target), term=val) if s.target.owner is not None else None
            if n is not None:
                n.aug = (s.op, cur, v)
        else:
            self.emit("aug", s.loc, target=cur, aop=s.op, value=v)
            if s.target.k == "Attr":
                self.emit("store", s.loc, obj=self.expr(s.target.obj), name=s.target.name, value=val)
            elif s.target.k == "Index":
                self.emit("store", s.loc, obj=self.expr(s.target.obj), key=self.expr(s.target.key), name=None, value=val)

    def s_IfS(self, s):
        T, F, J = self.join(s.loc), self.join(s.loc), self.join(s.loc)
        self.cond(s.test, T, F)
        self.at(T)
        self.stmts(s.body)
        self.goto(J)
        self.at(F)
        self.stmts(s.orelse)
        self.goto(J)
        self.at(J)
        self.prune(J)

    def prune(self, j):
        """If nothing reaches j, what follows is unreachable."""
        if not j.has_pred:
            self.ends = []

    def s_While(self, s):
        H, B, X, C = (self.join(s.loc) for _ in range(4))
        H.loop = True
        if s.post:
            self.goto(B)
        else:
            self.goto(H)
        self.at(H)
        E = self.join(s.loc) if s.orelse else X
        self.cond(s.test, B, E)
        self.ctx.append(Ctx("loop", brk=X, cont=C, label=self.pending_label()))
        self.at(B)
        self.stmts(s.body)
        self.goto(C)
        self.ctx.pop()
        self.at(C)
        if s.update:
            self.stmts(s.update)
        self.goto(H)
        if s.orelse:
            self.at(E)
            self.stmts(s.orelse)
            self.goto(X)
        self.at(X)
        self.prune(X)

    def pending_label(self):
        l = getattr(self, "_label", None)
        self._label = None
        return l

    def s_For(self, s):
        it = self.expr(s.iter)
        X, C = self.join(s.loc), self.join(s.loc)
        h = self.emit("iter", s.loc, term=it, how=s.how)
        self.ends = [(h, "body")]
        self.assign(s.target, ("key" if s.how == "in" else "elem", it, h.id), s.loc)
        self.ctx.append(Ctx("loop", brk=X, cont=C, label=self.pending_label()))
        self.stmts(s.body)
        self.goto(C)
        self.ctx.pop()
        self.at(C)
        self.goto(h)
        self.ends = [(h, "done")]
        self.stmts(s.orelse)
        self.goto(X)
        self.at(X)

    def s_Breakable(self, s):
        X = self.join(s.loc)
        self.ctx.append(Ctx("breakable", brk=X))
        self.stmts(s.body)
        self.ctx.pop()
        self.goto(X)
        self.at(X)
        self.prune(X)

    def s_Block(self, s):
        if s.label and s.label != "$switch":
            self._label = s.label
            if len(s.body) == 1 and s.body[0].k in ("While", "For", "Block"):
                self.stmts(s.body)
                return
            self._label = None
            X = self.join(s.loc)
            self.ctx.append(Ctx("labeled", brk=X, label=s.label))
            self.stmts(s.body)
            self.ctx.pop()
            self.goto(X)
            self.at(X)
            return
        self.stmts(s.body)

    def unwind_to(self, pred):
        """Run cleanups while leaving contexts; returns the target ctx."""
        full = self.ctx
        i = len(full) - 1
        while i >= 0:
            c = full[i]
            if c.kind == "finally":
                self.ctx = full[:i]
                c.lower()
                if not self.ends:
                    self.ctx = full
                    return None
            elif pred(c):
                self.ctx = full
                return c
            elif c.kind == "func":
                break
            i -= 1
        self.ctx = full
        return None

    def s_Break(self, s):
        c = self.unwind_to(lambda c: (c.kind in ("loop", "breakable") and not s.label)
                           or (s.label and c.kind in ("loop", "labeled") and getattr(c, "label", None) == s.label))
        if c is not None:
            self.goto(c.brk)
        self.ends = []

    def s_Continue(self, s):
        c = self.unwind_to(lambda c: c.kind == "loop" and (not s.label or c.label == s.label))
        if c is not None:
            self.goto(c.cont)
        self.ends = []

    def func_ctx(self):
        for c in reversed(self.ctx):
            if c.kind == "func":
                return c
        return None

    def s_Return(self, s):
        fc = self.func_ctx()
        if fc.cond is not None and s.e is not None and not any(
                c.kind == "finally" for c in self.ctx[self.ctx.index(fc):]):
            T, F = fc.cond
            self.cond(s.e, T, F)
            self.ends = []
            return
        if s.e is not None:
            t = self.ret_expr(s.e, fc)
        else:
            t = ("c", None)
        if not self.ends:
            return
        rv = ("v", fc.frame.id, "$ret")
        self.emit("assign", s.loc, var=rv, term=t, is_return=True)
        c = self.unwind_to(lambda c: c is fc)
        if c is None:
            self.ends = []
            return
        if fc.cond is not None:
            T, F = fc.cond
            b = self.emit("branch", s.loc, term=rv)
            link(b, "T", T)
            link(b, "F", F)
            self.ends = []
        else:
            self.goto(fc.join)

    def ret_expr(self, e, fc):
        if self.prog.lang == "js" and e.k == "Call" and fc.frame.fn.is_async:
            r = self.prog.fn_of(e.fn, self.frame)
            if r and isinstance(r[0], Function) and r[0].is_async:
                # `return f()`: rejections bypass this function's try blocks
                i = self.ctx.index(fc)
                self.ctx.append(Ctx("skip", to=i))
                t = self.expr(e, fc.frame.awaited)
                self.ctx.pop()
                return t
            t = self.expr(e, fc.frame.awaited)
            if t[0] == "t":
                self.g.nodes[t[1]].tail = True
            return t
        return self.expr(e, fc.frame.awaited)

    def s_Raise(self, s):
        if s.e is None:
            t = self.excvars[-1] if self.excvars else ("unk",)
        else:
            t = self.expr(s.e)
        if self.ends:
            self.do_raise(t, s.loc)

    def s_FuncDef(self, s):
        for d in s.fn.decorators:
            self.expr(d)
        if s.name.owner is not None:
            self.emit("assign", s.loc, var=self.var(s.name), term=("fn", s.fn))

    def s_ClassDef(self, s):
        pass

    def s_ImportS(self, s):
        for nm, v in s.names:
            if nm.owner is not None and not nm.owner.is_module:
                self.emit("assign", s.loc, var=self.var(nm), term=self.term(v))

    def s_Pass(self, s):
        pass

    def s_Del(self, s):
        for t in s.targets:
            if t.k == "Name":
                continue
            self.emit("del", s.loc, obj=self.expr(t.obj), key=self.expr(t.key) if t.k == "Index" else ("c", t.name))

    def s_Assert(self, s):
        T, F = self.join(s.loc), self.join(s.loc)
        self.cond(s.test, T, F)
        self.at(F)
        self.do_raise(("call", ("glob", "AssertionError"), (), ()), s.loc)
        self.at(T)

    def s_With(self, s):
        self._with(s.items, s.body, s.loc)

    def _with(self, items, body, loc):
        if not items:
            self.stmts(body)
            return
        c, v = items[0]
        t = self.expr(c)
        en = self.emit("withenter", loc, term=t)
        if v is not None:
            self.assign(v, t, loc)

        def cleanup():
            self.emit("withexit", loc, term=t)

        self.protected(lambda: self._with(items[1:], body, loc), cleanup, loc)

    def protected(self, run, cleanup, loc):
        J = self.join(loc)
        c = Ctx("finally", join=J, lower=cleanup)
        self.ctx.append(c)
        run()
        self.ctx.pop()
        if self.ends:
            cleanup()
        after = self.ends
        self.at(J)
        self.prune(J)
        if self.ends:
            cleanup()
            if self.ends:
                self.do_raise(("v", "E", J.id), loc, "reraise")
        self.ends = after

    def s_Try(self, s):
        if s.final is not None:
            inner = N("Try", s.loc, body=s.body, handlers=s.handlers, orelse=s.orelse, final=None)
            self.protected(lambda: self._try(inner) if s.handlers else self.stmts(s.body + s.orelse),
                           lambda: self.stmts(s.final), s.loc)
            return
        self._try(s)

    def _try(self, s):
        J = self.join(s.loc)
        self.ctx.append(Ctx("catch", join=J))
        self.stmts(s.body)
        self.ctx.pop()
        self.stmts(s.orelse)
        after = self.join(s.loc)
        self.goto(after)
        self.at(J)
        self.prune(J)
        ev = ("v", "E", J.id)
        for types, name, body in s.handlers:
            if not self.ends:
                break
            if types is None:
                nxt = None
            else:
                H, nxt = self.join(s.loc), self.join(s.loc)
                b = self.emit("branch", s.loc, term=("op", "excmatch", ev, self.term(types)))
                link(b, "T", H)
                link(b, "F", nxt)
                self.at(H)
            self.emit("catch", body[0].loc if body else s.loc, exc=ev, types=types, empty=not body)
            if name is not None:
                self.assign(name, ev, s.loc)
            self.excvars.append(ev)
            self.stmts(body)
            self.excvars.pop()
            self.goto(after)
            if nxt is None:
                self.ends = []
            else:
                self.at(nxt)
        if self.ends:
            self.do_raise(ev, s.loc, "reraise")
        self.at(after)
        self.prune(after)

    # ---- conditions ------------------------------------------------------
    def cond(self, e, T, F):
        if not self.ends:
            return
        k = e.k
        if k == "Not":
            return self.cond(e.e, F, T)
        if k in ("And", "Or"):
            for i, x in enumerate(e.es):
                if i == len(e.es) - 1:
                    return self.cond(x, T, F)
                M = self.join(e.loc)
                if k == "And":
                    self.cond(x, M, F)
                else:
                    self.cond(x, T, M)
                self.at(M)
                self.prune(M)
            return
        if k == "If":
            A, B = self.join(e.loc), self.join(e.loc)
            self.cond(e.test, A, B)
            self.at(A)
            self.cond(e.a, T, F)
            self.at(B)
            self.cond(e.b, T, F)
            return
        if k == "Const":
            self.goto(T if e.v else F)
            return
        if k == "Call" and e.fn.k == "Name" and e.fn.owner is None and e.fn.id in ("bool", "Boolean") and len(e.args) == 1:
            return self.cond(e.args[0], T, F)
        c = e
        if k == "Await":
            c = e.e
        if c.k == "Call" and not getattr(c, "new", False):
            r = self.prog.fn_of(c.fn, self.frame)
            if r and isinstance(r[0], Function) and self.may_inline(r[0]) and not r[0].is_gen \
                    and (not r[0].is_async or k == "Await"):
                fn, df = r
                args, kw = self.args(c)
                if not self.ends:
                    return
                self.splice(fn, df, args, c.args, kw, c.loc, k == "Await", self.this_of(c), cond=(T, F))
                self.ends = []
                return
        t = self.expr(e)
        if not self.ends:
            return
        b = self.emit("branch", e.loc, term=t)
        link(b, "T", T)
        link(b, "F", F)
        self.ends = []

    def this_of(self, c):
        if c.fn.k == "Attr":
            if self.prog.is_self(c.fn.obj, self.frame):
                return ("this",)
            if c.fn.obj.k in ("Name", "Attr") and not has_call(c.fn.obj):
                return self.term(c.fn.obj)
        return None

    # ---- expressions -----------------------------------------------------
    def term(self, e):
        """Pure lowering (no calls inside)."""
        return self.expr(e)

    def expr(self, e, aw=False):
        """Lower an expression, hoisting calls into nodes; returns its term."""
        k = e.k
        if k == "Const":
            return ("c", e.v)
        if k == "Name":
            if e.owner is None:
                return ("glob", e.id)
            if not e.owner.assigns.get(e.id) and e.id in e.owner.module.classes \
                    and e.owner.module.classes[e.id].owner is e.owner:
                return ("cls", e.owner.module.classes[e.id])
            return self.var(e)
        if k == "Mod":
            return ("mod", e.name)
        if k == "Attr":
            return self.prog.mk_attr(self.expr(e.obj), e.name)
        if k == "Index":
            o = self.expr(e.obj)
            return ("i", o, self.expr(e.key))
        if k == "This":
            return ("this",)
        if k == "Fn":
            return ("fn", e.fn)
        if k == "Regex":
            return ("regex", e.pattern, e.flags)
        if k == "Op":
            return ("op", e.op) + tuple(self.expr(a) for a in e.args)
        if k == "Not":
            return ("op", "not", self.expr(e.e))
        if k in ("And", "Or", "Nullish"):
            if not has_call(e):
                return ("op", {"And": "&&", "Or": "||", "Nullish": "??"}[k]) + tuple(self.expr(a) for a in e.es)
            return self.shortcircuit(e, aw)
        if k == "If":
            if not has_call(e):
                return ("op", "?:", self.expr(e.test), self.expr(e.a), self.expr(e.b))
            tv = self.tmp()
            T, F, J = self.join(e.loc), self.join(e.loc), self.join(e.loc)
            self.cond(e.test, T, F)
            for j, x in ((T, e.a), (F, e.b)):
                self.at(j)
                v = self.expr(x, aw)
                if self.ends:
                    self.emit("assign", e.loc, var=tv, term=v)
                    self.goto(J)
            self.at(J)
            return tv
        if k in ("List", "Tuple", "Set"):
            return (k.lower(), tuple(self.expr(a, aw) for a in e.es))
        if k == "Dict":
            return ("dict", tuple((self.expr(a) if a is not None else None, self.expr(b)) for a, b in e.items))
        if k == "Cat":
            return ("cat", tuple(self.expr(a) for a in e.parts))
        if k == "Star":
            return ("star", self.expr(e.e, aw))
        if k == "Seq":
            t = ("c", None)
            for x in e.es:
                t = self.expr(x)
            return t
        if k == "AssignE":
            v = self.expr(e.e)
            if v[0] in ("list", "dict") and e.target.k != "Name":
                tv = self.tmp()
                self.emit("assign", e.loc, var=tv, term=v)
                v = tv
            self.assign(e.target, v, e.loc, e.e)
            if e.target.k == "Name" and e.target.owner is not None:
                return self.var(e.target)
            return v
        if k == "Await":
            t = self.expr(e.e, True)
            if e.e.k not in ("Call",):
                n = self.emit("await", e.loc, term=t)
                link(n, "exc", self.handler())
            return t
        if k == "Yield":
            v = self.expr(e.e)
            n = self.emit("yield", e.loc, term=v, star=bool(getattr(e, "star", False)))
            return ("t", n.id)
        if k == "Comp":
            return self.comp(e, aw)
        if k == "Call":
            return self.call(e, aw)
        raise NotImplementedError("expr " + k)

    def tmp(self):
        self.nfid += 1
        return ("v", "T", "$%d" % self.nfid)

    def shortcircuit(self, e, aw):
        tv = self.tmp()
        J = self.join(e.loc)
        for i, x in enumerate(e.es):
            v = self.expr(x, aw)
            if not self.ends:
                break
            self.emit("assign", e.loc, var=tv, term=v)
            if i == len(e.es) - 1:
                self.goto(J)
            else:
                C = self.join(e.loc)
                b = self.emit("branch", e.loc, term=tv if e.k != "Nullish" else ("op", "not", ("op", "isnull", tv)))
                if e.k == "And":
                    link(b, "T", C)
                    link(b, "F", J)
                else:
                    link(b, "T", J)
                    link(b, "F", C)
                self.at(C)
        self.at(J)
        return tv

    def comp(self, e, aw):
        col = None
        hs = []
        outs = []
        first = None
        X = self.join(e.loc)
        heads = []
        for t, it, ifs in e.gens:
            itv = self.expr(it)
            h = self.emit("iter", e.loc, term=itv, how="comp", compkind=e.kind)
            if first is None:
                first = (h, itv)
            if heads:
                link(h, "done", heads[-1])
            else:
                link(h, "done", X)
            heads.append(h)
            self.ends = [(h, "body")]
            self.assign(t, ("elem", itv, h.id), e.loc)
            for c in ifs:
                T = self.join(e.loc)
                self.cond(c, T, h)
                self.at(T)
        elts = [self.expr(x, aw) for x in e.elts]
        el = self.emit("elem", e.loc, elts=elts)
        self.goto(heads[-1])
        self.at(X)
        col = self.emit("collect", e.loc, kind=e.kind, elts=elts, elemnode=el, iternode=first[0], iterterm=first[1],
                        heads=heads)
        return ("t", col.id)

    def args(self, e):
        aw = self.prog.lang == "js" and e.fn.k == "Attr" and e.fn.name in ("push", "unshift", "add") \
            and e.fn.obj.k == "Name" and e.fn.obj.owner is not None and self.awaited_later(e.fn.obj)
        args = [self.expr(a, aw) for a in e.args]
        kw = [(n, self.expr(v), v) for n, v in e.kw]
        return args, kw

    def call(self, e, aw):
        prog = self.prog
        if prog.lang == "js":
            r = prog.require_target(e, self.frame.fn.module)
            if r:
                return ("mod", r)
            x = self.js_special(e, aw)
            if x is not None:
                return x
        r = prog.fn_of(e.fn, self.frame)
        if r is not None and isinstance(r[0], Class) and prog.lang == "py":
            init = prog.method(r[0], "__init__")
            if init is not None and self.may_inline(init):
                args, kw = self.args(e)
                if self.ends:
                    n = self.emit("new", e.loc, cls=r[0])
                    self.splice(init, prog.frame_for(init, self.frame), args, e.args, kw, e.loc, True, ("t", n.id))
                    return ("t", n.id)
        if r is not None and isinstance(r[0], Function) and not getattr(e, "new", False) and self.may_inline(r[0]) \
                and not r[0].is_gen:
            fn, df = r
            args, kw = self.args(e)
            if not self.ends:
                return ("unk",)
            if fn.is_async and not aw:
                # floating promise: may or may not have run by any later point
                J = self.join(e.loc)
                S = self.emit("branch", e.loc, term=("op", "floating"))
                link(S, "F", J)
                self.ends = [(S, "T")]
                self.ctx.append(Ctx("catch", join=self.g.sink))
                t = self.splice(fn, df, args, e.args, kw, e.loc, False, self.this_of(e))
                self.ctx.pop()
                self.goto(J)
                self.at(J)
                return ("unk",)
            return self.splice(fn, df, args, e.args, kw, e.loc, aw, self.this_of(e))
        callee = self.expr(e.fn)
        args, kw = self.args(e)
        if not self.ends:
            return ("unk",)
        n = self.emit("call", e.loc, callee=callee, args=args, kw=[(a, b) for a, b, _ in kw], expr=e, awaited=aw,
                      new=getattr(e, "new", False), target=r)
        n.handler = self.handler()  # where it would go, if this class of inputs makes it throw after all
        if self.faults or not self.nothrow(e, r):
            link(n, "exc", self.handler())
        self.callbacks(e, n, aw)
        return ("t", n.id)

    def nothrow(self, e, r):
        if self.throws is not None:
            return not self.throws(e, r)
        f = e.fn
        if self.prog.lang == "py":
            if f.k == "Name" and f.owner is None and f.id in NOTHROW_NAMES:
                return True
            return f.k == "Attr" and f.name in ("append", "extend", "startswith", "endswith", "join", "keys",
                                                "values", "items", "get", "strip", "lower", "upper", "split",
                                                "replace", "setdefault", "add", "rstrip", "lstrip", "insert")
        if f.k == "Attr" and f.obj.k == "Name" and f.obj.id in ("log", "console"):
            return True
        if f.k == "Attr" and f.obj.k == "Attr" and f.obj.name == "log":
            return True
        return f.k == "Attr" and f.name in ("addLog", "push", "unshift", "shift", "slice", "concat", "indexOf",
                                            "trim", "join", "toLowerCase", "startsWith", "on", "once")

    def js_special(self, e, aw):
        f = e.fn
        if f.k == "Attr" and f.obj.k == "Name" and f.obj.id == "Promise" and f.obj.owner is None \
                and f.name in ("all", "allSettled", "race", "any") and len(e.args) == 1:
            return self.promise_all(e, aw)
        if getattr(e, "new", False) and f.k == "Name" and f.id == "Promise" and f.owner is None and e.args:
            r = self.prog.fn_of(e.args[0], self.frame)
            if r and isinstance(r[0], Function):
                n0 = self.emit("promise", e.loc)
                J = self.join(e.loc)
                self.splice(r[0], r[1], [("resolve", n0.id), ("reject", n0.id)], [None, None], [], e.loc, False)
                n = self.emit("call", e.loc, callee=("glob", "Promise"), args=[], kw=[], expr=e, awaited=aw, new=True,
                              target=None, promise=n0.id)
                if aw:
                    link(n, "exc", self.handler())
                return ("t", n.id)
        if f.k == "Attr" and f.name in CB_LOOPS and len(e.args) in (1, 2) and not self.prog.mod_of(f.obj, self.frame.fn.module):
            r = self.prog.fn_of(e.args[0], self.frame) if e.args[0].k in ("Fn", "Name", "Attr") else None
            if r and isinstance(r[0], Function) and self.may_inline(r[0]) and not self.prog.fn_of(f, self.frame):
                x = eq_predicate(r[0], f.name)
                if x is not None and e.args[0].k == "Fn":
                    inc = N("Call", e.loc, fn=N("Attr", e.loc, obj=f.obj, name="includes"), args=[x], kw=[])
                    return self.expr(inc if f.name == "some" else N("Not", e.loc, e=inc), aw)
                return self.cb_loop(e, aw, f, r)
        if f.k == "Attr" and f.name in ("then", "catch", "finally") and e.args and f.obj.k == "Call":
            fns = [self.prog.fn_of(a, self.frame) if a.k in ("Fn", "Name", "Attr") else None for a in e.args]
            if fns[0] or (len(fns) > 1 and fns[1]):
                return self.promise_chain(e, aw, fns)
        return None

    def cb_loop(self, e, aw, f, r):
        """xs.forEach(cb) and friends as a loop over xs."""
        fn, df = r
        ot = self.expr(f.obj)
        cb = self.expr(e.args[0])
        if not self.ends:
            return ("unk",)
        h = self.emit("iter", e.loc, term=ot, how="cb", cbname=f.name)
        self.ends = [(h, "body")]
        args = [("elem", ot, h.id), ("key", ot, h.id), ot][:len(fn.params)]
        if fn.is_async and not (aw and f.name in ("map", "flatMap")):
            J = self.join(e.loc)
            S = self.emit("branch", e.loc, term=("op", "floating"))
            link(S, "F", J)
            self.ends = [(S, "T")]
            self.ctx.append(Ctx("catch", join=self.g.sink))
            self.splice(fn, df, args, [None] * len(args), [], e.loc, False)
            self.ctx.pop()
            self.goto(J)
            self.at(J)
            self.goto(h)
            self.ends = [(h, "done")]
        elif f.name in ("some", "every"):
            X, T, F = self.join(e.loc), self.join(e.loc), self.join(e.loc)
            tv = self.tmp()
            stop, val = (T, True) if f.name == "some" else (F, False)
            self.splice(fn, df, args, [None] * len(args), [], e.loc, aw,
                        cond=(T, h) if f.name == "some" else (h, F))
            self.at(stop)
            self.prune(stop)
            if self.ends:
                self.emit("assign", e.loc, var=tv, term=("c", val))
                self.goto(X)
            self.ends = [(h, "done")]
            self.emit("assign", e.loc, var=tv, term=("c", not val))
            self.goto(X)
            self.at(X)
            return tv
        else:
            h.retvar = self.splice(fn, df, args, [None] * len(args), [], e.loc, aw)
            self.goto(h)
            self.ends = [(h, "done")]
        n = self.emit("call", e.loc, callee=self.prog.mk_attr(ot, f.name), args=[cb], kw=[], expr=e, awaited=aw,
                      new=False, target=None, loop=h.id)
        return ("t", n.id)

    def promise_all(self, e, aw):
        arr = e.args[0]
        if arr.k != "List" or f_name(e) in ("race", "any"):
            t = self.expr(arr, aw)
        else:
            start = self.ends
            J = self.join(e.loc)
            orders = [arr.es] if len(arr.es) < 2 else [arr.es, list(reversed(arr.es))]
            if len(orders) == 1:
                for x in arr.es:
                    self.expr(x, aw)
                self.goto(J)
            else:
                b = self.emit("branch", e.loc, term=("op", "order"))
                for lab, o in zip("TF", orders):
                    self.ends = [(b, lab)]
                    for x in o:
                        if self.ends:
                            self.expr(x, aw)
                    self.goto(J)
            self.at(J)
        n = self.emit("call", e.loc, callee=self.expr(e.fn), args=[("unk",)], kw=[], expr=e, awaited=aw, new=False,
                      target=None)
        return ("t", n.id)

    def promise_chain(self, e, aw, fns):
        f = e.fn
        if f.name == "finally":
            out = []
            self.protected(lambda: out.append(self.expr(f.obj, aw)),
                           lambda: self.splice(fns[0][0], fns[0][1], [], [], [], e.loc, True), e.loc)
            return out[0] if out else ("unk",)
        onok = fns[0] if f.name == "then" else None
        onerr = (fns[1] if len(fns) > 1 else None) if f.name == "then" else fns[0]
        tv = self.tmp()
        after = self.join(e.loc)
        C = None
        if onerr:
            C = self.join(e.loc)
            self.ctx.append(Ctx("catch", join=C))
        v = self.expr(f.obj, True if aw else aw)
        if onerr:
            self.ctx.pop()
        if self.ends:
            if onok:
                v = self.splice(onok[0], onok[1], [v], [None], [], e.loc, aw)
            if self.ends:
                self.emit("assign", e.loc, var=tv, term=v)
                self.goto(after)
        if onerr:
            self.at(C)
            self.prune(C)
            if self.ends:
                ev = ("v", "E", C.id)
                self.emit("catch", e.loc, exc=ev, types=None, empty=not onerr[0].body)
                v = self.splice(onerr[0], onerr[1], [ev], [None], [], e.loc, aw)
                if self.ends:
                    self.emit("assign", e.loc, var=tv, term=v)
                    self.goto(after)
        self.at(after)
        return tv

    def callbacks(self, e, n, aw):
        cbs = []

        def add(x, depth=0):
            if x.k == "Fn":
                cbs.append((x.fn, self.frame))
            elif x.k == "Name" and x.owner is not None:
                r = self.prog.fn_of(x, self.frame)
                if r and isinstance(r[0], Function):
                    cbs.append(r)
            elif x.k == "Attr":
                r = self.prog.fn_of(x, self.frame)
                if r and isinstance(r[0], Function):
                    cbs.append(r)
            elif x.k == "Dict" and depth < 2:
                for _, v in x.items:
                    add(v, depth + 1)
            elif x.k == "Star":
                add(x.e, depth)

        for a in e.args:
            add(a)
        for _, v in e.kw:
            add(v)
        name = f_name(e)
        for fn, df in cbs:
            if not self.may_inline(fn) or not self.ends:
                continue
            L, D = self.join(e.loc), self.join(e.loc)
            self.goto(L)
            b = None
            self.at(L)
            b = self.emit("branch", e.loc, term=("op", "callback"), call=n.id)
            link(b, "F", D)
            self.ends = [(b, "T")]
            event = name in EVENTS
            if event:
                self.ctx.append(Ctx("catch", join=self.g.sink))
            if name in SYNC_ITER and e.fn.k == "Attr":
                args = [("elem", n.callee[1] if n.callee[0] == "a" else ("unk",), b.id)]
                if name == "reduce":
                    args = [("unk",)] + args
            elif name in ("map", "filter", "sorted") and len(n.args) > 1:
                args = [("elem", n.args[1], b.id)]
            else:
                args = [("cbarg", n.id, i) for i in range(len(fn.params))]
            self.splice(fn, df, args, [None] * len(args), [], e.loc, aw and not event)
            if event:
                self.ctx.pop()
            self.goto(L)
            self.at(D)


def eq_predicate(fn, how):
    """X for the callbacks `p => p === X` (some) and `p => p !== X` (every), X not using p."""
    want = {"some": "===", "every": "!=="}.get(how)
    if want is None or len(fn.params) != 1 or len(fn.body) != 1 or fn.body[0].k != "Return":
        return None
    e = fn.body[0].e
    if e is None or e.k != "Op" or e.op != want or len(e.args) != 2:
        return None
    p = fn.params[0][0]

    def is_p(x):
        return x.k == "Name" and x.id == getattr(p, "id", None) and x.owner is fn
    for a, b in (e.args, e.args[::-1]):
        if is_p(a) and b.k in ("Const", "Name") and not is_p(b) and getattr(b, "owner", None) is not fn:
            return b
    return None


def f_name(e):
    f = e.fn
    if f.k == "Attr":
        return f.name
    if f.k == "Name":
        return f.id
    return None


def show(t, depth=8):
    """Readable rendering of a term."""
    if depth <= 0:
        return "…"
    S = lambda x: show(x, depth - 1)
    k = t[0]
    if k == "c":
        return repr(t[1])
    if k == "v":
        return t[2]
    if k == "t":
        return f"t{t[1]}"
    if k == "a":
        return f"{S(t[1])}.{t[2]}"
    if k == "i":
        return f"{S(t[1])}[{S(t[2])}]"
    if k == "op":
        if len(t) == 4:
            return f"({S(t[2])} {t[1]} {S(t[3])})"
        return f"{t[1]}({', '.join(S(x) for x in t[2:])})"
    if k == "cat":
        return "cat(" + ", ".join(S(x) for x in t[1]) + ")"
    if k in ("list", "tuple", "set"):
        return k[0] + "[" + ", ".join(S(x) for x in t[1]) + "]"
    if k == "dict":
        return "{" + ", ".join(f"{S(a) if a is not None else '**'}: {S(b)}" for a, b in t[1]) + "}"
    if k == "fn":
        return f"fn:{t[1].qual}"
    if k == "cls":
        return f"cls:{t[1].name}"
    if k in ("mod", "glob", "param", "free", "undef"):
        return t[1]
    if k in ("elem", "key"):
        return f"{k}({S(t[1])})"
    if k == "obj":
        return t[2]
    if k == "call":
        return f"{S(t[1])}({', '.join([S(x) for x in t[2]] + [f'{n}={S(v)}' for n, v in t[3]])})"
    if k == "star":
        return "*" + S(t[1])
    if k == "alt":
        return "<" + " | ".join(S(x) for x in t[1:]) + ">"
    if k == "comp":
        return f"{t[1]}comp({', '.join(S(x) for x in t[2])} for {', '.join(S(x) for x in t[3])})"
    return "<" + k + (":" + str(t[1]) if len(t) > 1 and not isinstance(t[1], tuple) else "") + ">"
