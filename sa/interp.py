"""Interprocedural constant propagation for Python code.

A call of a known function, constructor or method is analysed in the context
of its call site: the callee's own graph is propagated with the caller's
abstract heap, and its outcomes continue in the caller.  Callees are never
spliced into one graph, so recursion over a finite abstract heap terminates.
"""
import functools
import operator
import posixpath
import re

from .ccp import Blowup, mk_cat
from .cfg import Builder
from .fold import Fold
from .ir import Class, Function
from .pyccp import PyCCP, RAISE, TOP, exc_name, mutated

KEEP = ("F", "W", "K", "G", "M", "D")


PATH = ("a", ("mod", "os"), "path")
UNBOUND = ("unbound",)
PURE = ("normpath", "join", "dirname", "basename", "isabs", "split", "splitext", "relpath")


def alone(f, d):
    """No function is spliced into the graph of another: calls are propagated when they happen."""
    return False


class Inter(PyCCP):
    """`model("descend", fn)` decides which functions are entered (default: all)."""

    def __init__(self, g, model, maxstates=400000, bases=None, parent=None, c=None):
        super().__init__(g, model, maxstates, bases)
        self.shared = parent.shared if parent is not None else {"graphs": {}, "count": 0, "c": c, "depth": 0}
        self.outer = ()  # the frames that were active when this one was entered
        self.env = {}  # variables of a function that has returned

    @classmethod
    def of(cls, c, f, model, maxstates=400000, bases=None):
        g = c.graph(f, inline=alone, faults=True)
        return cls(g, model, maxstates, bases, c=c)

    @staticmethod
    def load(c, mod, model):
        """The abstract heap after the body of module `mod` ran, with its objects under ("M", module, name)."""
        m = c.py.mods[mod]
        e = Inter.of(c, m.fn, model)
        init = {}
        for name in m.fn.assigns:
            v = e.ev(("v", "M:" + mod, name), {})
            if v[0] in ("mod", "fn", "cls", "a"):
                init[("v", "r", name)] = v
        rs = e.run(init)
        if len(rs) != 1 or rs[0][0] != "return":
            return None

        def own(v):
            """Objects of different modules have different names."""
            if not isinstance(v, tuple):
                return v
            if len(v) == 2 and v[0] in ("new", "F", "W", "K"):
                return (v[0], ("m", mod, v[1])) if not (v[0] == "W") else v
            return tuple(own(x) for x in v)
        out = {}
        for k, v in rs[0][2].items():
            if isinstance(k, tuple) and k[0] == "v" and k[1] == "r":
                out[("M", mod, k[2])] = own(v)
            elif e.global_key(k):
                out[own(k)] = own(v)
        return out

    # ---- values
    def _ev(self, t, s, d):
        if t[0] == "this":
            return s.get(("this",), t)
        if t[0] == "param" and t in s:
            return s[t]
        if t[0] in ("list", "tuple", "set", "dict") and any(x[0] is None if t[0] == "dict" else x[0] == "star" for x in t[1]):
            return self.spread(super()._ev(t, s, d), s)
        if t[0] == "v" and t[1] == "free" and t not in s:
            return self.free(t)
        if t[0] == "v" and t not in s and str(t[1]).startswith("M:"):
            r = self.module_object(t[1][2:], t[2], s)
            if r is not None:
                return r
        return super()._ev(t, s, d)

    def spread(self, v, s):
        """A display with * or ** parts."""
        if v[0] == "dict":
            d = ("dict", ())
            for k, x in v[1]:
                f = self.fields(x, s) if k is None else None
                if k is None and (f is None or f[0] != "dict" or any(a is None for a, _ in f[1])):
                    return v
                for a, b in f[1] if k is None else ((k, x),):
                    d = self.put(d, a, b, s)
            return d
        xs = []
        for x in v[1]:
            q = self.iterable(x[1], s) if x[0] == "star" else (x,)
            if q is None:
                return v
            xs += q
        return (v[0], tuple(xs))

    def iterable(self, v, s):
        return tuple(("c", x) for x in v[1]) if v[0] == "c" and isinstance(v[1], (str, bytes)) else self.seq(v, s)

    def owner(self, f, name):
        """The function around f that binds `name`."""
        f = f.parent
        while f is not None and not f.is_module:
            if name in f.assigns:
                return f
            f = f.parent
        return None

    def free(self, t):
        """A variable of an enclosing function, read in its innermost activation."""
        if t[2] in self.env:
            return self.env[t[2]]
        o = self.owner(self.g.root, t[2])
        for e, s in reversed(self.outer):
            if e.g.root is o:
                return s.get(("v", "r", t[2]), TOP)
            if t in s and self.owner(e.g.root, t[2]) is o:
                return s[t]
        return TOP

    def module_object(self, mod, name, s):
        """An object made by the body of a module (only when the analysis asked for that module)."""
        v = s.get(("M", mod, name))
        if v is None and self.outer and self.outer[0][0].g.root.is_module and self.outer[0][0].g.root.module.name == mod:
            v = self.outer[0][1].get(("v", "r", name))   # read while the body of the module itself is running
        return v

    def truth(self, v, s):
        if v == ("op", "callback"):
            return False  # functions handed on are applied where they are used
        if v[0] in ("match", "rx", "bound", "partial", "clo", "ntcls", "py"):
            return True
        if v[0] == "new" and ("K", v[1]) in s and not any(self.method_of(s[("K", v[1])], m) for m in ("__len__", "__bool__")):
            return True
        return super().truth(v, s)

    def attr(self, o, name, s):
        if o[0] == "py" and isinstance(o[1], re.Match) and name in ("string", "pos", "endpos", "lastindex", "lastgroup"):
            return ("c", getattr(o[1], name))
        if o[0] == "new" and ("K", o[1]) in s:
            k = ("W", o, ("c", name))
            if k in s:
                return s[k]
            m = self.method_of(s[("K", o[1])], name)
            if m is not None:
                if m.is_static:
                    return ("fn", m)
                if self.decorated(m, "classmethod"):
                    return ("bound", m, ("cls", s[("K", o[1])]))
                if self.decorated(m, "property") or self.decorated(m, "cached_property"):
                    rs = self.call_fn(m, o, (), (), s)
                    return rs[0][1] if len(rs) == 1 and rs[0][0] == "return" else TOP
                return ("bound", m, o)
            if name == "__class__":
                return ("cls", s[("K", o[1])])
            f = self.field_of(s[("K", o[1])], name)
            if f is not None:
                return self.const(f)
            return self.bad("AttributeError")
        if o[0] == "call" and o[1][0] == "cls" and isinstance(o[1][1], Class) and self.is_exc(o[1][1]):
            m = self.method_of(o[1][1], name)
            if m is not None:
                return ("bound", m, o)
            f = self.method_of(o[1][1], "__init__")
            if f is not None:
                rs = self.call_fn(f, o, o[2], o[3], s)
                if len(rs) == 1 and ("W", o, ("c", name)) in rs[0][2]:
                    return rs[0][2][("W", o, ("c", name))]
        if o[0] == "mod" and o[1] in self.g.prog.mods and any(k[:2] == ("M", o[1]) for k in s if isinstance(k, tuple)):
            v = s.get(("M", o[1], name)) or self.member(self.g.prog.mods[o[1]], name)
            return self.bad("AttributeError") if v is None else v
        if o[0] == "nt":
            return o[2][o[1].index(name)] if name in o[1] else ("a", o, name)
        if o[0] == "type" and name == "__name__":
            return ("c", o[1])
        if o[0] == "cls" and isinstance(o[1], Class):
            if name == "__name__":
                return ("c", o[1].name)
            if ("W", o, ("c", name)) not in s:
                f = self.field_of(o[1], name)
                if f is not None and ((v := self.const(f))[0] in ("c", "tuple") or v[0] in ("list", "dict", "set") and name not in mutated(self.g.prog)):
                    return v
        return super().attr(o, name, s)

    def eq(self, a, b, s):
        """Instances of classes without an own equality are compared by identity."""
        if a[0] == "new" and b[0] == "new" and a != b and ("K", a[1]) in s and ("K", b[1]) in s and self.heaplists:
            ks = s[("K", a[1])], s[("K", b[1])]
            if all(isinstance(k, Class) and not self.decorated(k, "dataclass") and self.method_of(k, "__eq__") is None and
                   self.own_bases(k) for k in ks):
                return False
        return super().eq(a, b, s)

    def own_bases(self, k, d=0):
        """Whether every base of class k is a class of the program."""
        rs = [self.g.prog.fn_of(b, self.g.prog.mframes[k.module.name]) for b in k.bases]
        return d < 8 and all(r and isinstance(r[0], Class) and self.own_bases(r[0], d + 1) for r in rs)

    def member(self, m, name):
        """A function, class or submodule of a module of the program."""
        f = next((f for f in m.functions if f.qual == name and getattr(f, "cls", None) is None), None)
        if f is not None:
            return ("fn", f)
        if name in m.classes:
            return ("cls", m.classes[name])
        return ("mod", m.name + "." + name) if m.name + "." + name in self.g.prog.mods else None

    def field_of(self, cls, name, d=0):
        if name in cls.fields:
            return cls.fields[name]
        for b in cls.bases if d < 6 else ():
            r = self.g.prog.fn_of(b, self.g.prog.mframes[cls.module.name])
            if r and isinstance(r[0], Class):
                f = self.field_of(r[0], name, d + 1)
                if f is not None:
                    return f
        return None

    def fields(self, v, s):
        return ("tuple", v[2]) if v[0] == "nt" else super().fields(v, s)

    def kind(self, v, s):
        return "tuple" if v[0] == "nt" else super().kind(v, s)

    def index(self, o, key, s):
        if o[0] == "new" and s.get(("D", o[1])) == ("counter",):
            r = self.get(s[("F", o[1])], key, s)
            return ("c", 0) if r == RAISE else r
        r = super().index(o, key, s)
        if r[0] == "i" and o[0] in ("c", "py"):
            v = Fold(self, s).item(o, key)
            if v is not None:
                return self.bad(v[1]) if v[0] == "throw" else v
        return r

    def method_of(self, cls, name):
        return self.g.prog.method(cls, name)

    def const(self, e):
        if e is None:
            return ("c", None)
        if e.k == "Const":
            return ("c", e.v)
        if e.k in ("List", "Tuple", "Set"):
            xs = tuple(self.const(x) for x in e.es)
            return (e.k.lower(), xs)
        if e.k == "Dict":
            return ("dict", tuple((self.const(a), self.const(b)) for a, b in e.items if a is not None))
        vs = self.g.prog.pure(e, None)
        return vs

    # ---- calls
    def graph_of(self, fn):
        gs = self.shared["graphs"]
        if fn not in gs:
            c = self.shared["c"]
            gs[fn] = c.graph(fn, inline=alone, faults=True) if c is not None else Builder(self.g.prog, inline=alone, faults=True).build(fn)
        return gs[fn]

    def target(self, c, s):
        """(function, receiver) called, (class, None) for a constructor."""
        if c[0] == "fn" and isinstance(c[1], Function):
            return c[1], None
        if c[0] == "bound":
            return c[1], c[2]
        if c[0] == "cls" and isinstance(c[1], Class):
            return c[1], None
        if c[0] == "clo":
            return c[1][1], None
        if c[0] == "a" and c[1][0] in ("cls", "super"):
            k, o = (c[1][1], None) if c[1][0] == "cls" else (c[1][2], c[1][1])
            m = self.method_of(k, c[2]) if c[1][0] == "cls" else self.inherited(k, c[2])
            if m is not None:
                return m, c[1] if self.decorated(m, "classmethod") else o if o is not None else UNBOUND
        return None, None

    def inherited(self, cls, name):
        for b in cls.bases:
            r = self.g.prog.fn_of(b, self.g.prog.mframes[cls.module.name])
            if r and isinstance(r[0], Class):
                m = self.method_of(r[0], name)
                if m is not None:
                    return m
        return None

    @staticmethod
    def decorated(f, name):
        return any(getattr(d, "id", None) == name or getattr(d, "name", None) == name or
                   d.k == "Call" and (getattr(d.fn, "id", None) or getattr(d.fn, "name", None)) == name for d in getattr(f, "decorators", ()))

    def step(self, n, s):
        self.why = None
        if "#D" in s:
            s = self.missing(n, s)
        if n.op == "yield":
            s = dict(s)
            v = self.lit(n.term, s, n, ("y",))
            q = self.seq(v, s) if n.star else (v,)
            if v == RAISE:
                return self.fail(n, s)
            s[("Y",)] = s.get(("Y",), ()) + q if q is not None and s.get(("Y",), ()) is not None else None
            s[("t", n.id)] = ("c", None)
            return [(m, s) for l, m in n.succ if l != "exc"]
        if n.op == "call":
            c = self.ev(n.callee, s)
            u = c
            while u[0] == "partial":
                u = u[1]
            f, this = self.target(u, s)
            if n.callee[0] == "fn" and f is not None and getattr(f, "cls", None) is not None and this is None:
                # a method called on self, resolved when the graph was built
                e = getattr(n, "expr", None)
                this = s.get(("this",))
            if f is not None and self.model("descend", f) is not False:
                r = self.descend(n, s, f, this, c)
                if r is not None:
                    return r
        if n.op == "new":
            s = dict(s)
            i = self.alloc(s, (n.id, "inst"))
            s[("K", i)] = n.cls
            s[("t", n.id)] = ("new", i)
            return [(m, s) for l, m in n.succ if l != "exc"]
        if n.op == "store" and n.name is not None:
            o = self.ev(n.obj, s)
            if o[0] == "new" and ("K", o[1]) in s:
                s = dict(s)
                v = self.lit(n.value, s, n, ("s",))
                if v == RAISE:
                    return self.fail(n, s)
                s[("W", o, ("c", n.name))] = v
                return [(m, s) for l, m in n.succ if l != "exc"]
        return super().step(n, s)

    def descend(self, n, s, f, this, c):
        s = dict(s)
        args = tuple(self.lit(a, s, n, ("a", i)) for i, a in enumerate(n.args))
        kw = tuple((k, self.heap(v, s, n, ("k", k))) for k, v in self.kwargs(n, s))
        if RAISE in args or any(v == RAISE for _, v in kw):
            return self.fail(n, s)
        while c[0] == "partial":
            args, kw, c = c[2] + args, c[3] + tuple(kw), c[1]
        r = self.model("exec", (c, args, s, self, n))
        if r is None:
            r = self.model("call", ("call", c, args, kw))
        if r is not None:
            if r == RAISE:
                return self.fail(n, s)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "throw":
                return [(x, {**s, ("v", "E", x.id): r[1], "exc": r[1]}) for l, x in n.succ if l == "exc"]
            s[("t", n.id)] = self.heap(r, s, n, ("r",))
            return [(m, s) for l, m in n.succ if l != "exc"]
        if any(a[0] == "star" for a in args):
            xs = []
            for a in args:
                if a[0] == "star":
                    q = self.seq(a[1], s)
                    if q is None:
                        return None
                    xs += q
                else:
                    xs.append(a)
            args = tuple(xs)
        inst = None
        if isinstance(f, Class):
            if exc_name(("cls", f)) and self.is_exc(f):
                return None
            r = self.record(f, args, kw, s, n)
            if r is not None:
                if r == RAISE:
                    return self.fail(n, s)
                s[("t", n.id)] = r
                return [(m, s) for l, m in n.succ if l != "exc"]
            i = self.alloc(s, (n.id, "inst"))
            s[("K", i)] = f
            inst = this = ("new", i)
            f = self.method_of(f, "__init__")
            if f is None:
                s[("t", n.id)] = inst
                return [(m, s) for l, m in n.succ if l != "exc"]
        out = []
        for kind, v, s2 in self.call_fn(f, this, args, kw, s, self.env_of(c)):
            s3 = {k: x for k, x in s.items() if not self.global_key(k)}
            s3.update((k, x) for k, x in s2.items() if self.global_key(k))
            s3.update((k[:3], x) for k, x in s2.items() if len(k) == 4 and k[0] == "v")
            if kind == "return":
                s3[("t", n.id)] = inst if inst is not None else self.heap(v, s3, n, ("g",)) if f.is_gen else v
                out += [(m, s3) for l, m in n.succ if l != "exc"]
            else:
                x = s2.get("exc", ("exc", "UnknownError"))
                s3["exc"] = x
                e = [m for l, m in n.succ if l == "exc"]
                out += [(m, {**s3, ("v", "E", m.id): x}) for m in e] if e else [(self.g.exc_exit, s3)]
        return out

    @staticmethod
    def env_of(c):
        return dict(c[2]) if c[0] == "clo" else None

    def record(self, cls, args, kw, s, n):
        """An instance of a named tuple or data class; None when cls is neither."""
        nt = any((getattr(b, "id", None) or getattr(b, "name", None)) == "NamedTuple" for b in cls.bases)
        if not nt and not self.decorated(cls, "dataclass") or "__init__" in cls.methods:
            return None
        names = list(cls.annotated)
        k = dict(kw)
        if len(args) > len(names) or set(k) - set(names[len(args):]) or any(a[0] == "star" for a in args):
            return self.bad("TypeError")
        vs = []
        for j, x in enumerate(names):
            if j < len(args):
                vs.append(args[j])
            elif x in k:
                vs.append(k[x])
            elif x in cls.fields:
                e = cls.fields[x]
                if e.k == "Call":
                    d = [v for a, v in e.kw if a in ("default_factory", "default")]
                    v = self.g.prog.pure(d[0], self.g.prog.mframes[cls.module.name]) if d else TOP
                    v = self.apply(v, (), s) if d and e.kw[0][0] == "default_factory" else v
                    vs.append(TOP if v is None else self.heap(v, s, n, ("df", j)))
                else:
                    vs.append(self.const(e))
            else:
                return self.bad("TypeError")
        if nt:
            return ("nt", tuple(names), tuple(vs))
        i = self.alloc(s, (n.id, "inst"))
        s[("K", i)] = cls
        for x, v in zip(names, vs):
            s[("W", ("new", i), ("c", x))] = v
        return ("new", i)

    def construct(self, cls, args, kw, s, n):
        """The instance made by calling a class inside a library function; None when not decided."""
        r = self.record(cls, args, kw, s, n)
        if r is not None:
            return None if r == RAISE else r
        i = self.alloc(s, (n.id, "inst"))
        s[("K", i)] = cls
        f = self.method_of(cls, "__init__")
        if f is not None:
            rs = self.call_fn(f, ("new", i), args, kw, s)
            if len(rs) != 1 or rs[0][0] != "return":
                return None
            s.update((k, v) for k, v in rs[0][2].items() if self.global_key(k))
        return ("new", i)

    def is_exc(self, cls):
        for b in cls.bases:
            nm = getattr(b, "id", None) or getattr(b, "name", None)
            if nm and (nm.endswith("Error") or nm.endswith("Exception")):
                return True
        return False

    @staticmethod
    def global_key(k):
        return isinstance(k, str) and k != "exc" or isinstance(k, tuple) and (k[0] in KEEP or k[0] == "v" and str(k[1]).startswith("M:"))

    def bind(self, f, this, args, kw):
        ps = list(f.params)
        b = {}
        if f.cls is not None and not f.is_static and this is not None and ps:
            ps = ps[1:]
        kw = dict(kw)
        args = list(args)
        for pat, d, kind in ps:
            if kind == "rest":
                v = ("list", tuple(args))
                args = []
            elif kind == "kw":
                v = ("dict", tuple((("c", k), x) for k, x in kw.items()))
            elif kind == "pos" and args:
                v = args.pop(0)
            elif pat.k == "Name" and pat.id.split("#")[0] in kw:
                v = kw.pop(pat.id.split("#")[0])
            else:
                v = self.const(d) if d is not None else TOP
            if pat.k == "Name":
                b[("param", pat.id)] = v
        return b

    @staticmethod
    def fits(f, this, args, kw):
        """False: the call has an argument too many or lacks one."""
        ps = list(f.params)
        if f.cls is not None and not f.is_static:
            if this is None:
                return True
            ps = ps[1:]
        kw, n = [k for k, _ in kw], len(args)
        if any(p.k != "Name" for p, _, _ in ps) or not all(isinstance(k, str) for k in kw):
            return True
        for p, d, kind in ps:
            name = p.id.split("#")[0]
            if kind == "rest":
                n = 0
            elif kind == "kw":
                kw = []
            elif kind == "pos" and n > 0:
                n -= 1
            elif name in kw:
                kw.remove(name)
            elif d is None:
                return False
        return n == 0 and not kw

    def call_fn(self, f, this, args, kw, s, env=None):
        """[(kind, value, state)] of calling f in state s."""
        if this == UNBOUND:
            this = None
            if not f.is_static and args:
                this, args = args[0], args[1:]
        if not self.fits(f, this, args, kw):
            return [("raise", None, {**s, "exc": ("exc", "TypeError")})]
        if self.shared["depth"] > 60:
            raise Blowup()
        g = self.graph_of(f)
        e = type(self)(g, self.model, self.max, self.bases, parent=self)
        e.max = self.max
        e.outer = self.outer + ((self, s),)
        e.env = env or {}
        init = {k: v for k, v in s.items() if self.global_key(k)}
        init.update(self.bind(f, this, args, kw))
        if this is not None:
            init[("this",)] = this
        self.shared["depth"] += 1
        try:
            rs = e.run(init)
        finally:
            self.shared["depth"] -= 1
        self.count += e.count
        if self.count > self.max:
            raise Blowup()
        out = []
        for k, _, st in rs:
            for x in [x for x in st if x[0] == "v" and x[1] == "free"]:
                st = self.assign_free(f, x, st)
            v = st.get(("v", "r", "$ret"), ("c", None))
            if f.is_gen:
                v = st.get(("Y",), ())
                v = TOP if v is None else ("list", v)
            if f.children:
                st = self.escaped(f, s, st, e)
            out.append((k, self.escaping(v, f, st, e), st))
        return out

    def escaped(self, f, before, st, e):
        """Functions kept in objects when their enclosing activation ends."""
        def deep(v):
            if v[0] == "dict" and isinstance(v[1], tuple):
                return ("dict", tuple((a, self.escaping(x, f, st, e)) for a, x in v[1]))
            if v[0] in ("list", "set") and isinstance(v[1], tuple):
                return (v[0], tuple(self.escaping(x, f, st, e) for x in v[1]))
            return self.escaping(v, f, st, e)
        new = {}
        for k, v in st.items():
            if k[0] in ("F", "W") and v is not before.get(k) and isinstance(v, tuple) and v:
                x = deep(v)
                if x != v:
                    new[k] = x
        return {**st, **new} if new else st

    def escaping(self, v, f, st, e):
        """Functions that leave their enclosing activation keep its variables."""
        if v[0] == "fn" and isinstance(v[1], Function) and v[1].parent is not None and not v[1].parent.is_module:
            p = v[1].parent
            while p is not None and p is not f:
                p = p.parent
            if p is f:
                return ("clo", v, tuple({**e.env, **{k[2]: x for k, x in st.items() if k[0] == "v" and k[1] == "r"}}.items()))
        if v[0] in ("tuple", "partial"):
            return (v[0],) + tuple(tuple(self.escaping(y, f, st, e) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and v[0] == "tuple" else
                                   self.escaping(x, f, st, e) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1:])
        return v

    def assign_free(self, f, x, st):
        """A variable of an enclosing function that f assigned, in the frame of the caller."""
        v = st[x]
        st = {k: y for k, y in st.items() if k != x}
        st[("v", "r" if self.g.root is self.owner(f, x[2]) else "free", x[2], "out")] = v
        return st

    def apply(self, fv, args, s):
        """The single value of a call without effects, None when undecided."""
        f, this = self.target(fv, s)
        if not isinstance(f, Function):
            if fv[0] == "py" and type(fv[1]) is operator.attrgetter and len(args) == 1:
                vs = [functools.reduce(lambda o, x: o if o == RAISE else self.attr(o, x, s), n.split("."), args[0]) for n in fv[1].__reduce__()[1]]
                return vs[0] if len(vs) == 1 else ("tuple", tuple(vs))
            r = self.docall(fv, args, (), s) if fv[0] in ("a", "glob", "partial", "py", "ntcls") else None
            return r if r is not None and r[0] != "call" else None
        rs = [(k, v) for k, v, _ in self.call_fn(f, this, args, (), s, self.env_of(fv))]
        return rs[0][1] if len(rs) == 1 and rs[0][0] == "return" else None

    def op(self, o, args, s, d):
        r = super().op(o, args, s, d)
        if r[0] == "op" and r[1] == "%" and len(r) == 4 and r[2][0] == "c" and isinstance(r[2][1], str):
            v = self.percent(r[2][1], r[3], s)
            return r if v is None else v
        if r[0] == "op" and r[1] == "repr" and r[2][0] == "c":
            return ("c", repr(r[2][1]))
        if r[0] == "op" and r[1] == "format" and r[2][0] == "c" and r[3][0] == "c":
            try:
                return ("c", format(r[2][1], r[3][1]))
            except (TypeError, ValueError) as x:
                return self.bad(type(x).__name__)
        if r[0] == "op" and r[1] == "rest":
            q = self.seq(r[2], s)
            if q is not None:
                return ("list", q[r[3][1]:len(q) - (r[4][1] if len(r) > 4 else 0)])
        if r[0] == "op" and r[1].startswith("fmt%") and r[2][0] == "c":
            try:
                return ("c", r[1][3:] % (r[2][1],))
            except (TypeError, ValueError):
                return RAISE
        if r[0] == "op" and len(r) == 4:
            v = Fold(self, s).op(r[1], r[2], r[3])
            if v is not None:
                return self.bad(v[1]) if v[0] == "throw" else v
        return r

    def percent(self, fmt, v, s):
        """The text of `fmt % v`, None when not decided."""
        f = self.fields(v, s)
        out, pos, i = [], 0, 0
        xs = f[1] if f is not None and f[0] == "tuple" else (v,)
        for m in re.finditer(r"%(?:\(([^()]*)\))?[-#0 +]*(?:\*|\d+)?(?:\.\d+)?([a-zA-Z%])?", fmt):
            out.append(("c", fmt[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                out.append(("c", "%"))
                continue
            if m.group(2) is None or "*" in m.group(0):
                return RAISE if m.group(2) is None else None
            if m.group(1) is not None:
                if f is None or f[0] != "dict":
                    return None
                x = self.get(f, ("c", m.group(1)), s)
            else:
                if i >= len(xs):
                    return RAISE
                x = xs[i]
                i += 1
            if x == RAISE:
                return RAISE
            if x[0] == "c":
                try:
                    out.append(("c", re.sub(r"\([^()]*\)", "", m.group(0), count=1) % (x[1],)))
                except (TypeError, ValueError):
                    return RAISE
            elif m.group(0)[-1] == "s" and len(re.sub(r"\([^()]*\)", "", m.group(0), count=1)) == 2 and self.kind(x, s) in ("str", None) and x[0] != "new":
                out.append(x)
            else:
                return None
        if f is None and i == 0 and "%(" not in fmt and v[0] == "c":
            return RAISE
        if f is not None and f[0] == "tuple" and i < len(xs):
            return RAISE
        out.append(("c", fmt[pos:]))
        return mk_cat([x for x in out if x != ("c", "")] or [("c", "")])

    def rx(self, v):
        if v[0] == "c" and isinstance(v[1], str):
            return v[1]
        if v[0] == "rx":
            return v[1]
        if v[0] == "call" and v[1] == ("a", ("mod", "re"), "compile") and len(v[2]) == 1 and v[2][0][0] == "c":
            return v[2][0][1]
        return None

    def regex(self, callee, args, kw, s):
        """Regular expressions over constants."""
        o, name = callee[1], callee[2]
        if o == ("mod", "re") and args:
            p, args = self.rx(args[0]), args[1:]
            if name == "escape" and p is not None:
                return ("c", re.escape(p))
        else:
            p = self.rx(o) if o[0] in ("rx", "call") else None
        if p is None or name not in ("search", "match", "fullmatch", "sub", "split", "findall", "compile"):
            return None
        try:
            if name == "compile":
                re.compile(p)
                return ("rx", p) if not args and not kw else None
            if name == "sub":
                k = dict(kw)
                if len(args) < 2 or args[1][0] != "c" or len(args) > 2 or k:
                    return None
                if args[0][0] == "c":
                    return ("c", re.sub(p, args[0][1], args[1][1]))
                bad = []

                def repl(m):
                    v = self.apply(args[0], (("py", m),), s)
                    if v is None or v[0] != "c" or not isinstance(v[1], str):
                        bad.append(v)
                        return ""
                    return v[1]
                r = re.sub(p, repl, args[1][1])
                return None if bad else ("c", r)
            if len(args) != 1 or args[0][0] != "c" or kw:
                return None
            r = getattr(re, name)(p, args[0][1])
        except (re.error, TypeError):
            return RAISE
        if isinstance(r, list):
            return ("list", tuple(("c", x) if not isinstance(x, tuple) else ("tuple", tuple(("c", y) for y in x)) for x in r))
        if r is not None and r.re.groupindex:
            return ("py", r)
        return ("c", None) if r is None else ("match", r.group(0)) + r.groups()

    def docall(self, callee, args, kw, s):
        while callee[0] == "partial":
            args, kw, callee = callee[2] + args, callee[3] + tuple(x for x in kw), callee[1]
        r = self.known(callee, args, kw, s)
        if r[0] == "call" and r[1] == callee:
            v = self.library(callee, args, kw, s) or Fold(self, s).call(callee, args, kw)
            if v is not None:
                return self.bad(v[1]) if v[0] == "throw" else v
        return r

    def finish(self, v, c, args, kw, s, n):
        """A library call with effects, evaluated where it happens."""
        while c[0] == "partial":
            args, kw, c = c[2] + args, c[3] + kw, c[1]
        if v[0] == "call" and v[1] == c:
            r = self.maker(c, args, kw, s, n) or Fold(self, s, n).call(c, args, kw)
            if r is not None:
                return self.bad(r[1]) if r[0] == "throw" else r
        return v

    def kwargs(self, n, s):
        out = []
        for k, v in n.kw:
            x = self.ev(v, s)
            f = self.fields(x, s) if k is None else None
            if f is not None and f[0] == "dict" and all(a is not None and a[0] == "c" for a, _ in f[1]):
                out += [(a[1], b) for a, b in f[1]]
            else:
                out.append((k, x))
        return tuple(out)

    def library(self, c, args, kw, s):
        """Values of library functions that are not constants; None when not one."""
        if c == ("a", ("mod", "functools"), "partial") and args:
            return ("partial", args[0], args[1:], kw)
        if c == ("a", ("mod", "collections"), "namedtuple") and len(args) > 1 and not kw:
            q = self.seq(args[1], s)
            if q is None and args[1][0] == "c" and isinstance(args[1][1], str):
                q = tuple(("c", x) for x in args[1][1].replace(",", " ").split())
            return ("ntcls", tuple(x[1] for x in q)) if q is not None and all(x[0] == "c" for x in q) else None
        if c[0] == "ntcls" and len(args) <= len(c[1]) and {k for k, _ in kw} == set(c[1][len(args):]):
            return ("nt", c[1], args + tuple(dict(kw)[k] for k in c[1][len(args):]))
        if c == ("a", ("mod", "copy"), "copy") and len(args) == 1:
            return self.fields(args[0], s) or (args[0] if args[0][0] in ("c", "cat") else None)
        if c == ("a", ("mod", "copy"), "deepcopy") and len(args) == 1:
            return self.detached(args[0], s)
        if c[0] == "a" and c[1] == ("mod", "collections") and c[2] in ("OrderedDict", "deque"):
            if kw or len(args) > 1:
                return None
            if c[2] == "deque":
                q = self.seq(args[0], s) if args else ()
                return None if q is None else ("list", q)
            return self.docall(("glob", "dict"), args, kw, s) if args else ("dict", ())
        if c == ("glob", "super") and not args and ("this",) in s and self.g.root.cls is not None:
            return ("super", s[("this",)], self.g.root.cls)
        if c == ("glob", "getattr") and len(args) in (2, 3) and args[1][0] == "c":
            r = self.attr(args[0], args[1][1], s)
            if r == RAISE and len(args) == 3 and self.why == "AttributeError":
                return args[2]
            return r if args[0][0] in ("mod", "new", "cls", "nt") else None
        return None

    def detached(self, v, s, d=0):
        if d > 30 or v[0] == "new" and (("K", v[1]) in s or ("D", v[1]) in s):
            return None
        f = self.fields(v, s)
        if f is None:
            return v if v[0] in ("c", "cat", "sym", "fn", "cls", "mod") else None
        if f[0] == "dict":
            xs = [(k, self.detached(x, s, d + 1)) for k, x in f[1]]
            return None if any(x is None for _, x in xs) else ("dict", tuple(xs))
        xs = tuple(self.detached(x, s, d + 1) for x in f[1])
        return None if None in xs else (f[0], xs)

    def maker(self, c, args, kw, s, n):
        """Library constructors of objects with their own behaviour."""
        if c == ("a", ("mod", "io"), "StringIO") and not args and not kw:
            i = self.alloc(s, (n.id, "io"))
            s[("F", i)], s[("D", i)] = ("list", ()), ("text",)
            return ("new", i)
        if c == ("glob", "print"):
            k = dict(kw)
            o = k.get("file")
            if o is not None and set(k) <= {"file", "end", "sep"}:
                xs = [self.docall(("glob", "str"), (a,), (), s) for a in args]
                sep, end = k.get("sep", ("c", " ")), k.get("end", ("c", "\n"))
                t = mk_cat([y for j, x in enumerate(xs) for y in ((sep, x) if j else (x,))] + [end])
                return self.mutate(("a", o, "write"), (t,), s, n)
        if c[0] == "a" and c[1] == ("mod", "collections") and c[2] in ("defaultdict", "Counter"):
            i = self.alloc(s, (n.id, "dd"))
            if c[2] == "defaultdict":
                d = self.docall(("glob", "dict"), args[1:], kw, s) if len(args) > 1 else ("dict", tuple((("c", k), v) for k, v in kw))
                d = self.fields(d, s)
                if not args or d is None:
                    return None
                s[("D", i)] = args[0]
            else:
                q = self.seq(args[0], s) if len(args) == 1 else () if not args else None
                if q is None or kw:
                    return None
                d = ("dict", ())
                for x in q:
                    k = self.get(d, x, s)
                    if k != RAISE and k[0] != "c":
                        return None
                    d = self.put(d, x, ("c", 1 if k == RAISE else k[1] + 1), s)
                s[("D", i)] = ("counter",)
            s[("F", i)] = d
            s["#D"] = True
            return ("new", i)
        return None

    def missing(self, n, s):
        """Keys of default dictionaries this node reads for the first time."""
        todo = [x for x in (getattr(n, a, None) for a in ("term", "callee", "args", "kw", "obj", "value", "elts", "target")) if x is not None]
        out, seen = [], 0
        while todo:
            t = todo.pop()
            if not isinstance(t, (tuple, list)):
                continue
            if t and t[0] == "i" and len(t) == 3:
                out.append(t)
            todo.extend(x for x in t if isinstance(x, (tuple, list)))
        for t in reversed(out):
            o = self.ev(t[1], s)
            if o[0] == "new" and s.get(("D", o[1]), ("counter",)) != ("counter",):
                k = self.ev(t[2], s)
                if k[0] in ("c", "tuple", "sym") and self.get(s[("F", o[1])], k, s) == RAISE:
                    s = dict(s)
                    v = self.apply(s[("D", o[1])], (), s)
                    if v is not None:
                        s[("F", o[1])] = self.put(s[("F", o[1])], k, self.heap(v, s, n, ("dd", len(s[("F", o[1])][1]))), s)
        return s

    def known(self, callee, args, kw, s):
        if callee[0] == "a":
            m = self.model("call", ("call", callee, args, kw))
            if m is not None:
                return m
            m = self.regex(callee, args, kw, s)
            if m is not None:
                return m
            if callee[1][0] == "match" and callee[2] in ("group", "groups"):
                g = callee[1][1:]
                if callee[2] == "groups":
                    return ("tuple", tuple(("c", x) for x in g[1:]))
                if all(a[0] == "c" and isinstance(a[1], int) for a in args) and len(args) < 2:
                    i = args[0][1] if args else 0
                    return ("c", g[i]) if 0 <= i < len(g) else RAISE
            if callee[1] == ("glob", "str") and args:
                r = self.method(args[0], callee[2], args[1:], kw, s)
                if r is not None:
                    return r
        if callee[0] == "a" and callee[1] == PATH and callee[2] in PURE and args and not kw and all(a[0] == "c" and isinstance(a[1], str) for a in args):
            m = self.model("call", ("call", callee, args, kw))
            if m is not None:
                return m
            r = getattr(posixpath, callee[2])(*[a[1] for a in args])
            return ("tuple", tuple(("c", x) for x in r)) if isinstance(r, tuple) else ("c", r)
        if callee[0] == "a" and callee[1] == PATH and callee[2] == "commonprefix" and len(args) == 1:
            qs = [self.seq(x, s) or (() if self.fields(x, s) is not None else None) for x in self.seq(args[0], s) or ()]
            if qs and None not in qs:
                k = 0
                while all(len(q) > k for q in qs) and all(self.eq(q[k], qs[0][k], s) for q in qs):
                    k += 1
                return ("list", qs[0][:k])
        if any(a[0] == "star" for a in args):
            xs = []
            for a in args:
                q = self.seq(a[1], s) if a[0] == "star" else (a,)
                if q is None:
                    return super().docall(callee, args, kw, s)
                xs += q
            return self.known(callee, tuple(xs), kw, s)
        if callee == ("a", ("glob", "dict"), "fromkeys") and args:
            q = self.seq(args[0], s)
            if q is not None:
                d = ("dict", ())
                for x in q:
                    d = self.put(d, x, args[1] if len(args) > 1 else ("c", None), s)
                return d
        return super().docall(callee, args, kw, s)

    def mutate(self, c, args, s, n):
        if c[0] == "a" and c[2] == "update" and c[1][0] == "new" and s.get(("F", c[1][1]), TOP)[0] == "dict" and n.op == "call":
            kw = self.kwargs(n, s)
            q = None if not args or (self.fields(args[0], s) or TOP)[0] == "dict" else self.seq(args[0], s)
            if kw or q is not None:
                d = self.docall(("glob", "dict"), args, kw, s)
                d = self.fields(d, s)
                if d is None or d[0] != "dict":
                    return None
                args = (d,)
                r = s[("F", c[1][1])]
                for k, v in d[1]:
                    r = self.put(r, k, self.heap(v, s, n, ("up", k)), s)
                s[("F", c[1][1])] = r
                return ("c", None)
        r = super().mutate(c, args, s, n)
        if r is not None:
            return r
        if c == ("glob", "next") and args and args[0][0] == "new" and s.get(("F", args[0][1]), TOP)[0] == "list":
            xs = s[("F", args[0][1])][1]
            if xs:
                s[("F", args[0][1])] = ("list", xs[1:])
                return xs[0]
            return args[1] if len(args) > 1 else self.bad("StopIteration")
        if c == ("glob", "setattr") and len(args) == 3 and args[0][0] == "new" and ("K", args[0][1]) in s and args[1][0] == "c":
            s[("W", args[0], args[1])] = args[2]
            return ("c", None)
        if c[0] != "a" or c[1][0] != "new" or ("F", c[1][1]) not in s:
            return None
        i, name = c[1][1], c[2]
        f = s[("F", i)]
        if s.get(("D", i)) == ("text",):
            if name == "write" and len(args) == 1:
                s[("F", i)] = ("list", f[1] + args)
                return ("c", None)
            if name == "getvalue" and not args:
                return self.docall(("a", ("c", ""), "join"), (f,), (), s)
            if name == "close":
                return ("c", None)
        if f[0] == "list":
            if name == "appendleft" and len(args) == 1:
                s[("F", i)] = ("list", (args[0],) + f[1])
                return ("c", None)
            if name == "popleft" and not args:
                if not f[1]:
                    return self.bad("IndexError")
                s[("F", i)] = ("list", f[1][1:])
                return f[1][0]
            if name == "sort" and not args:
                kw = self.kwargs(n, s) if n.op == "call" else ()
                v = self.docall(("glob", "sorted"), (("list", f[1]),), kw, s)
                if v[0] == "list":
                    s[("F", i)] = v
                    return ("c", None)
                if v == RAISE:
                    return v
        if f[0] == "dict":
            if name == "popitem" and not args:
                if not f[1]:
                    return self.bad("KeyError")
                s[("F", i)] = ("dict", f[1][:-1])
                return ("tuple", f[1][-1])
            if name == "move_to_end" and args:
                v = self.get(f, args[0], s)
                if v != RAISE:
                    s[("F", i)] = ("dict", tuple(x for x in f[1] if x[0] != args[0]) + ((args[0], v),))
                    return ("c", None)
        if f[0] == "set" and name in ("difference_update", "intersection_update", "symmetric_difference_update", "update"):
            v = ("set", f[1])
            for x in args:
                q = self.seq(x, s)
                if q is None:
                    return None
                x = self.builtin("set", (("list", q),), (), s)
                if x is None:
                    return None
                v = self.op({"d": "-", "i": "&", "s": "^", "u": "|"}[name[0]], (v, x), s, 0)
            if v[0] == "set":
                s[("F", i)] = v
                return ("c", None)
        return None

    def class_of(self, v, s):
        return s.get(("K", v[1])) if v[0] == "new" else v[1][1] if v[0] == "call" and v[1][0] == "cls" else None

    def derives(self, k, names, d=0):
        """Whether class k is or inherits from one of the named classes."""
        if k.name in names or "object" in names:
            return True
        for b in k.bases if d < 8 else ():
            r = self.g.prog.fn_of(b, self.g.prog.mframes[k.module.name])
            if r and isinstance(r[0], Class):
                if self.derives(r[0], names, d + 1):
                    return True
            elif any(self.sub(getattr(b, "id", None) or getattr(b, "name", None) or "", x) for x in names):
                return True
        return False

    def builtin(self, name, a, kw, s):
        if name in ("isinstance", "issubclass") and len(a) == 2:
            k, ns = self.class_of(a[0], s) if name == "isinstance" else a[0][1] if a[0][0] == "cls" else None, self.names(a[1])
            if isinstance(k, Class) and ns is not None:
                return ("c", self.derives(k, ns))
        if name == "hasattr" and len(a) == 2 and a[1][0] == "c" and (a[0][0] == "nt" or a[0][0] == "new" and ("K", a[0][1]) in s):
            return ("c", self.attr(a[0], a[1][1], s) not in (RAISE,))
        if name == "callable" and len(a) == 1:
            return ("c", True) if a[0][0] in ("fn", "bound", "cls", "partial", "clo", "ntcls") else ("c", False) if a[0][0] in ("c", "list", "dict", "tuple", "cat") else None
        if name == "str" and len(a) == 1 and a[0][0] == "call" and a[0][1][0] in ("cls", "glob", "a") and len(a[0][2]) == 1 and not a[0][3] \
                and (exc_name(a[0]) or "").endswith(("Error", "Exception")):
            return self.docall(("glob", "str"), a[0][2], (), s)
        if name == "sorted" and len(a) == 1 and kw:
            q = self.seq(a[0], s)
            k = dict(kw)
            if q is not None and set(k) <= {"key", "reverse"}:
                ks = [self.apply(k["key"], (x,), s) for x in q] if "key" in k and k["key"] != ("c", None) else list(q)
                rev = self.truth(k["reverse"], s) if "reverse" in k else False
                if all(x is not None and x[0] == "c" for x in ks) and rev is not None:
                    try:
                        o = sorted(range(len(q)), key=lambda i: ks[i][1], reverse=rev)
                    except TypeError:
                        return RAISE
                    return ("list", tuple(q[i] for i in o))
        if name == "sorted" and len(a) == 1 and not kw:
            q = self.seq(a[0], s)
            if q is not None and q and all(x[0] == "sym" and len(x) > 2 for x in q):
                return ("list", tuple(sorted(q, key=lambda x: x[1])))
        if name == "iter" and len(a) == 1:
            q = self.seq(a[0], s)
            return None if q is None else ("list", q)
        if name == "next" and a:
            q = self.seq(a[0], s)
            return None if q is None else q[0] if q else (a[1] if len(a) > 1 else RAISE)
        if name in ("map", "filter") and len(a) == 2:
            q = self.seq(a[1], s)
            if q is None:
                return None
            if self.target(a[0], s)[0] is None and a[0] != ("c", None):
                vs = [self.docall(a[0], (x,), (), s) for x in q]
            elif a[0] == ("c", None):
                vs = list(q)
            else:
                vs = [self.model("call", ("call", a[0], (x,), ())) or self.apply(a[0], (x,), s) for x in q]
            if None in vs:
                return None
            if name == "map":
                return ("list", tuple(vs))
            ts = [self.truth(v, s) for v in vs]
            return None if None in ts else ("list", tuple(x for x, t in zip(q, ts) if t))
        return super().builtin(name, a, kw, s)

    # ---- propagation: a straight line needs no memory of its states
    def run(self, init=None, stop=()):
        out, seen = [], set()
        todo = [(self.g.entry, dict(init or {}))]
        last = 0
        while todo:
            n, s = todo.pop()
            if last or todo:
                key = (n.id, frozenset(s.items()))
                if key in seen:
                    continue
                seen.add(key)
            self.count += 1
            if self.count > self.max:
                raise Blowup()
            if n is self.g.exit:
                out.append(("return", n, s))
                continue
            if n is self.g.exc_exit:
                out.append(("raise", n, s))
                continue
            r = self.step(n, s)
            last = 20 if len(r) > 1 else max(0, last - 1)
            todo.extend((m, self.entering(n, m, s2)) for m, s2 in r)
        return out
