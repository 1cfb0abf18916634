"""Constant propagation with trace partitioning for Python code.

Lists, dictionaries and sets are abstract heap objects whose elements are
constants or symbols; symbols carry a kind (the Python type they stand for) and
different symbols of the same kind stand for different values unless the
model's "eq" says otherwise.
"""
import ast
import os
import shlex

from .ccp import CCP, RAISE, TOP, mk_cat

KINDS = {"str", "int", "dict", "list", "bytes", "tuple", "set", "bool", "float"}


def sym(name, kind=None):
    return ("sym", name, kind) if kind else ("sym", name)


def lst(*xs):
    return ("list", tuple(xs))


def dct(**kw):
    return ("dict", tuple((("c", k), v) for k, v in kw.items()))


def dc(items):
    return ("dict", tuple((("c", k) if isinstance(k, str) else k, v) for k, v in items))


def exc_name(v):
    if v[0] == "call":
        v = v[1]
    if v[0] == "cls":
        return v[1].name
    if v[0] == "glob":
        return v[1]
    if v[0] == "a":
        return v[2]
    if v[0] == "exc":
        return v[1]
    return None


BASES = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "OSError": "Exception", "IOError": "OSError",
         "EnvironmentError": "OSError", "FileNotFoundError": "OSError", "PermissionError": "OSError", "FileExistsError": "OSError", "ValueError": "Exception",
         "UnicodeDecodeError": "ValueError", "TypeError": "Exception", "NameError": "Exception", "SyntaxError": "Exception",
         "AssertionError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception", "GypError": "Exception",
         "ImportError": "Exception", "StopIteration": "Exception", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
         "SystemExit": "BaseException", "UnknownError": "Exception", "ZeroDivisionError": "Exception", "CircularException": "GypError"}
SAME = {"IOError": "OSError", "EnvironmentError": "OSError"}


def subclass(a, b):
    b = SAME.get(b, b)
    while a is not None:
        a = SAME.get(a, a)
        if a == b:
            return True
        a = BASES.get(a)
    return False


MUTATORS = {"append", "extend", "insert", "update", "add", "remove", "pop", "popitem", "clear", "setdefault", "sort", "discard", "reverse"}


def mutated(prog):
    """Names of module variables that some function changes in place or rebinds."""
    r = getattr(prog, "_mutated", None)
    if r is not None:
        return r
    r = set()

    def name(x):
        return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
    from .project import REPO
    for m in prog.mods.values():
        try:
            with open(os.path.join(REPO, m.path), encoding="utf-8") as fh:
                t = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for x in ast.walk(t):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r.add(name(x.func.value))
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r.add(name(x.value))
            elif isinstance(x, ast.AugAssign):
                r.add(name(x.target))
            elif isinstance(x, ast.Global):
                r.update(x.names)
    prog._mutated = r
    return r


def library(v):
    """A name imported from a module outside the program."""
    while v[0] == "a":
        v = v[1]
        if v[0] == "mod":
            return True
    return False


class PyCCP(CCP):
    def __init__(self, g, model, maxstates=20000, bases=None):
        super().__init__(g, model, "py", maxstates, True)
        self.bases = bases or {}
        self.why = None  # the exception of the latest failed operation

    def bad(self, why):
        self.why = why
        return RAISE

    # ---- values ----------------------------------------------------------
    def _ev(self, t, s, d):
        if t[0] == "v" and t not in s and str(t[1]).startswith("M:"):
            vs = self.g.entry_value(t)
            if len(vs) == 1:
                v = next(iter(vs))
                if v[0] == "glob" and ":" in v[1] and v[1].split(":")[1] not in mutated(self.g.prog):
                    v = self.g.prog.content(v)
                if v[0] in ("c", "fn", "cls", "mod", "regex", "tuple") or library(v) or v[0] in ("list", "set", "dict") and t[2].split("#")[0] not in mutated(self.g.prog):
                    return self.ev(v, s, d)
            return t
        if t[0] == "glob" and ":" in t[1] and t[1].split(":")[1] not in mutated(self.g.prog):
            v = self.g.prog.content(t)
            if v[0] in ("list", "set", "dict", "tuple"):
                return self.ev(v, s, d)
        if t[0] == "elem" and ("elem", t[2]) not in s:
            return super()._ev(t, s, d)
        return super()._ev(t, s, d)

    def kind(self, v, s):
        if v[0] == "new":
            f = s.get(("F", v[1]))
            return f[0] if f is not None else None
        if v[0] in ("list", "dict", "tuple", "set"):
            return v[0]
        if v[0] == "c":
            return "NoneType" if v[1] is None else type(v[1]).__name__
        if v[0] == "cat":
            return "str"
        if v[0] == "sym" and len(v) > 2:
            return v[2]
        if v[0] == "call" and v[1][0] == "glob" and v[1][1] in ("str", "int", "repr"):
            return "int" if v[1][1] == "int" else "str"
        return None

    def truth(self, v, s):
        if v[0] == "new":
            f = s.get(("F", v[1]))
            return None if f is None or f[0] == "unk" else bool(f[1])
        if v[0] == "a" and v[2] == "__hash__":
            k = self.kind(v[1], s)
            return None if k is None else k not in ("list", "dict", "set")
        r = super().truth(v, s)
        return r

    def names(self, t):
        """Type names of an isinstance/type comparison operand."""
        if t[0] in ("tuple", "list", "set"):
            out = []
            for x in t[1]:
                y = self.names(x)
                if y is None:
                    return None
                out += y
            return out
        if t[0] == "type":
            return [t[1]]
        n = exc_name(t)
        return [n] if n else None

    def fields(self, v, s):
        if v[0] == "new":
            return s.get(("F", v[1]))
        if v[0] in ("list", "dict", "tuple", "set"):
            return v
        return None

    def op(self, o, args, s, d):
        if o == "excmatch":
            v = self.ev(args[0], s, d)
            ns = self.names(self.ev(args[1], s, d))
            n = exc_name(v)
            if ns is not None and n is not None:
                return ("c", any(self.sub(n, x) for x in ns))
            return ("op", o, v, args[1])
        if o == "slice":
            return ("op", "slice") + tuple(self.ev(x, s, d) if x is not None else ("c", None) for x in args)
        r = super().op(o, args, s, d)
        if r[0] == "op" and len(r) == 4 and r[1] in ("==", "!=", "is"):
            for a, b in ((r[2], r[3]), (r[3], r[2])):
                if a[0] == "type" and b[0] == "glob" and b[1] in KINDS:
                    return ("c", (a[1] == b[1]) == (r[1] != "!="))
                if a[0] == "type" and b[0] == "type":
                    return ("c", (a[1] == b[1]) == (r[1] != "!="))
        if r[0] == "op" and r[1] == "in" and len(r) == 4:
            c = self.fields(r[3], s)
            if r[2][0] == "type" and c is not None and c[0] in ("tuple", "list", "set"):
                ns = self.names(c)
                if ns is not None:
                    return ("c", r[2][1] in ns)
            if c is not None and c[0] in ("list", "tuple", "set", "dict"):
                es = [self.eq(x if c[0] != "dict" else x[0], r[2], s) for x in c[1]]
                if any(e is True for e in es):
                    return ("c", True)
                if all(e is False for e in es):
                    return ("c", False)
            if c is None and r[3][0] == "c" and isinstance(r[3][1], str) and r[2][0] == "c" and isinstance(r[2][1], str):
                return ("c", r[2][1] in r[3][1])
        if r[0] == "op" and r[1] in ("-", "|", "&") and len(r) == 4:
            a, b = self.fields(r[2], s), self.fields(r[3], s)
            if a is not None and b is not None and a[0] == b[0] == "set":
                hit = [[self.eq(x, y, s) for y in b[1]] for x in a[1]]
                if not any(None in h for h in hit):
                    if r[1] == "|":
                        return ("set", a[1] + tuple(y for y in b[1] if not any(self.eq(x, y, s) for x in a[1])))
                    return ("set", tuple(x for x, h in zip(a[1], hit) if (True in h) == (r[1] == "&")))
        if r[0] == "op" and r[1] == "*" and len(r) == 4:
            for x, y in ((r[2], r[3]), (r[3], r[2])):
                f = self.fields(x, s)
                if f is not None and f[0] in ("list", "tuple") and y[0] == "c" and isinstance(y[1], int):
                    return (f[0], f[1] * y[1])
        if r[0] == "op" and r[1] == "+" and len(r) == 4:
            a, b = self.fields(r[2], s), self.fields(r[3], s)
            if a is not None and b is not None and a[0] == b[0] and a[0] in ("list", "tuple"):
                return (a[0], a[1] + b[1])
            if self.kind(r[2], s) == "str" and self.kind(r[3], s) == "str":
                return mk_cat([r[2], r[3]])
        return r

    def sub(self, a, b):
        while a is not None:
            if subclass(a, b):
                return True
            a = self.bases.get(a)
        return False

    def eq(self, a, b, s):
        m = self.model("eq", (a, b))
        if m is not None:
            return m
        if a == b and a[0] in ("sym", "c", "new", "cat", "type"):
            return True
        if "type" in (a[0], b[0]) and {a[0], b[0]} <= {"type", "glob"}:
            x, y = (a, b) if a[0] == "type" else (b, a)
            if y[0] == "type" or y[1] in KINDS or y[1] in ("type", "float", "object", "set", "tuple"):
                return x[1] == y[1]
        if {a[0], b[0]} == {"glob"} and a == b:
            return True
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1] and isinstance(a[1], type(b[1])) | isinstance(b[1], type(a[1]))
        ka, kb = self.kind(a, s), self.kind(b, s)
        if ka is not None and kb is not None and ka != kb and not {ka, kb} <= {"int", "bool"}:
            return False
        if a[0] == "sym" and b[0] == "sym" and len(a) > 2 and len(b) > 2:
            return False
        if {a[0], b[0]} == {"sym", "c"} and len(a if a[0] == "sym" else b) > 2:
            return False
        fa, fb = self.fields(a, s), self.fields(b, s)
        if fa is not None and fb is not None and fa[0] == fb[0] and fa[0] in ("list", "tuple"):
            if len(fa[1]) != len(fb[1]):
                return False
            rs = [self.eq(x, y, s) for x, y in zip(fa[1], fb[1])]
            return False if False in rs else None if None in rs else True
        return super().eq(a, b, s)

    def attr(self, o, name, s):
        if o == ("c", None):
            return self.bad("AttributeError")
        if o == RAISE:
            return RAISE
        if ("W", o, ("c", name)) in s:
            return s[("W", o, ("c", name))]
        return self.g.prog.mk_attr(o, name)

    def get(self, d, key, s):
        for k, v in d[1]:
            e = self.eq(k, key, s)
            if e:
                return v
            if e is None:
                return ("i", d, key)
        return self.bad("KeyError")

    def index(self, o, key, s):
        if o == ("c", None):
            return self.bad("TypeError")
        if o == RAISE or key == RAISE:
            return RAISE
        f = self.fields(o, s)
        if f is not None:
            if f[0] == "dict":
                return self.get(f, key, s)
            if f[0] in ("list", "tuple"):
                if key[0] == "op" and key[1] == "slice" and all(x[0] == "c" for x in key[2:]):
                    return (f[0], f[1][slice(*[x[1] for x in key[2:]])])
                if key[0] == "c" and isinstance(key[1], int):
                    return f[1][key[1]] if -len(f[1]) <= key[1] < len(f[1]) else self.bad("IndexError")
        if o[0] == "c" and isinstance(o[1], str):
            try:
                if key[0] == "op" and key[1] == "slice" and all(x[0] == "c" for x in key[2:]):
                    return ("c", o[1][slice(*[x[1] for x in key[2:]])])
                if key[0] == "c" and isinstance(key[1], int):
                    return ("c", o[1][key[1]])
            except IndexError:
                return self.bad("IndexError")
        if o[0] == "cat" and key[0] == "op" and key[1] == "slice" and all(x[0] == "c" for x in key[2:]):
            lo, hi, st = (x[1] for x in key[2:])
            p = o[1]
            if hi is not None and hi < 0 and lo is None and st is None and p[-1][0] == "c" and len(p[-1][1]) >= -hi:
                return mk_cat(list(p[:-1]) + [("c", p[-1][1][:hi])])
            if hi is not None and hi >= 0 and (lo is None or lo >= 0) and st is None and p[0][0] == "c" and len(p[0][1]) >= hi:
                return ("c", p[0][1][lo:hi])
            if lo is not None and lo > 0 and hi is None and st is None and p[0][0] == "c" and len(p[0][1]) >= lo:
                return mk_cat([("c", p[0][1][lo:])] + list(p[1:]))
        if o[0] == "cat" and key[0] == "c" and isinstance(key[1], int):
            p = o[1][0] if key[1] >= 0 else o[1][-1]
            if p[0] == "c" and -len(p[1]) <= key[1] < len(p[1]):
                return ("c", p[1][key[1]])
        if ("W", o, key) in s:
            return s[("W", o, key)]
        return ("i", o, key)

    # ---- calls -----------------------------------------------------------
    def docall(self, callee, args, kw, s):
        if callee == RAISE or RAISE in args:
            return RAISE
        m = self.model("call", ("call", callee, args, kw))
        if m is not None:
            return m
        if callee[0] == "glob":
            r = self.builtin(callee[1], args, kw, s)
            if r is not None:
                return r
        if callee[0] == "a":
            r = self.method(callee[1], callee[2], args, kw, s)
            if r is not None:
                return r
        if callee == ("a", ("mod", "shlex"), "split") and args and args[0][0] == "c":
            return ("list", tuple(("c", x) for x in shlex.split(args[0][1])))
        return ("call", callee, args, kw)

    def seq(self, v, s):
        f = self.fields(v, s)
        if f is None:
            return None
        if f[0] == "dict":
            return tuple(k for k, _ in f[1])
        return f[1] if f[0] in ("list", "tuple", "set") else None

    def chars(self, v, s):
        return tuple(("c", x) for x in v[1]) if v[0] == "c" and isinstance(v[1], (str, bytes)) else self.seq(v, s)

    def builtin(self, name, a, kw, s):
        if name == "isinstance" and len(a) == 2:
            k, ns = self.kind(a[0], s), self.names(a[1])
            if k is None and exc_name(a[0]) and ns:
                return ("c", any(self.sub(exc_name(a[0]), n) for n in ns))
            if k is not None and ns is not None:
                return ("c", k in ns or k == "bool" and "int" in ns or "object" in ns)
            return None
        if name == "type" and len(a) == 1:
            k = self.kind(a[0], s)
            return ("type", k) if k is not None else None
        if name == "len" and len(a) == 1:
            q = self.seq(a[0], s)
            if q is not None:
                return ("c", len(q))
            return ("c", len(a[0][1])) if a[0][0] == "c" and isinstance(a[0][1], str) else None
        if name in ("list", "tuple") and len(a) <= 1:
            q = self.seq(a[0], s) if a else ()
            return (name, q) if q is not None else None
        if name in ("set", "frozenset") and len(a) <= 1:
            q = self.seq(a[0], s) if a else ()
            if q is None:
                return None
            out = []
            for x in q:
                es = [self.eq(x, y, s) for y in out]
                if None in es:
                    return None
                if True not in es:
                    out.append(x)
            return ("set", tuple(out))
        if name == "dict" and not a:
            return ("dict", tuple((("c", k), v) for k, v in kw))
        if name == "dict" and len(a) == 1:
            f = self.fields(a[0], s)
            if f is not None and f[0] == "dict":
                return ("dict", f[1] + tuple((("c", k), v) for k, v in kw))
            return None
        if name == "enumerate" and len(a) == 1 and not kw:
            q = self.seq(a[0], s)
            return None if q is None else ("list", tuple(("tuple", (("c", i), x)) for i, x in enumerate(q)))
        if name == "reversed" and a:
            q = self.seq(a[0], s)
            return None if q is None else ("list", q[::-1])
        if name == "zip":
            qs = [self.seq(x, s) for x in a]
            return None if None in qs else ("list", tuple(("tuple", x) for x in zip(*qs)))
        if name == "range" and a and all(x[0] == "c" for x in a):
            return ("list", tuple(("c", i) for i in range(*[x[1] for x in a])))
        if name == "sorted" and len(a) == 1 and not kw:
            q = self.seq(a[0], s)
            if q is not None and all(x[0] == "c" for x in q) and len({type(x[1]) for x in q}) <= 1:
                return ("list", tuple(sorted(q, key=lambda x: x[1])))
            return None
        if name == "str" and len(a) == 1:
            if a[0][0] == "c":
                return ("c", str(a[0][1]))
            return a[0] if self.kind(a[0], s) == "str" else None
        if name == "int" and len(a) == 1 and a[0][0] == "c":
            try:
                return ("c", int(a[0][1]))
            except (ValueError, TypeError) as x:
                return self.bad(type(x).__name__)
        if name == "bool" and len(a) == 1:
            t = self.truth(a[0], s)
            return ("c", t) if t is not None else None
        if name in ("any", "all") and len(a) == 1:
            q = self.seq(a[0], s)
            if q is None:
                return None
            ts = [self.truth(x, s) for x in q]
            if name == "any":
                return ("c", True) if True in ts else None if None in ts else ("c", False)
            return ("c", False) if False in ts else None if None in ts else ("c", True)
        if name == "hash":
            return ("c", 0) if self.kind(a[0], s) not in ("list", "dict", "set", None) else RAISE if self.kind(a[0], s) else None
        return None

    def method(self, o, name, a, kw, s):
        f = self.fields(o, s)
        if f is not None and f[0] == "dict":
            if name == "items" and not a:
                return ("list", tuple(("tuple", (k, v)) for k, v in f[1]))
            if name == "keys" and not a:
                return ("list", tuple(k for k, _ in f[1]))
            if name == "values" and not a:
                return ("list", tuple(v for _, v in f[1]))
            if name == "copy" and not a:
                return f
            if name == "get" and a:
                r = self.get(f, a[0], s)
                return (a[1] if len(a) > 1 else ("c", None)) if r == RAISE else r
        if f is not None and f[0] in ("list", "tuple"):
            if name in ("index", "count") and len(a) == 1:
                es = [self.eq(x, a[0], s) for x in f[1]]
                if name == "count":
                    return ("c", es.count(True)) if None not in es else None
                for i, e in enumerate(es):
                    if e:
                        return ("c", i)
                    if e is None:
                        return None
                return self.bad("ValueError")
            if name == "copy" and not a:
                return f
        if o[0] == "c" and isinstance(o[1], str):
            if name == "join" and len(a) == 1:
                q = self.seq(a[0], s)
                if q is None:
                    return None
                out = []
                for i, x in enumerate(q):
                    if i:
                        out.append(o)
                    out.append(x)
                return mk_cat(out) if out else ("c", "")
            if all(x[0] == "c" for x in a) and name in STR:
                try:
                    r = getattr(o[1], name)(*[x[1] for x in a])
                except (TypeError, ValueError) as x:
                    return self.bad(type(x).__name__)
                return ("list", tuple(("c", x) for x in r)) if isinstance(r, list) else \
                    ("tuple", tuple(("c", x) for x in r)) if isinstance(r, tuple) else ("c", r)
            if name in ("startswith", "endswith") and a and a[0][0] == "tuple" and all(x[0] == "c" for x in a[0][1]):
                return ("c", getattr(o[1], name)(tuple(x[1] for x in a[0][1])))
        if o[0] == "cat" and name in ("startswith", "endswith") and len(a) == 1 and a[0][0] == "c":
            p = o[1][0] if name == "startswith" else o[1][-1]
            if p[0] == "c" and len(p[1]) >= len(a[0][1]):
                return ("c", getattr(p[1], name)(a[0][1]))
        return None

    def mutate(self, c, args, s, n):
        r = self.model("exec", (c, args, s, self, n))
        if r is not None:
            return r
        if c[0] != "a" or c[1][0] != "new":
            return None
        i, name = c[1][1], c[2]
        f = s.get(("F", i))
        if f is None:
            return None
        none = ("c", None)
        if f[0] == "list":
            xs = f[1]
            if name == "append":
                xs = xs + (args[0],)
            elif name == "extend":
                q = self.seq(args[0], s)
                if q is None:
                    q = (("star", args[0]),)
                xs = xs + q
            elif name == "insert" and args[0][0] == "c":
                k = args[0][1]
                xs = xs[:k] + (args[1],) + xs[k:]
            elif name == "pop" and not any(a[0] != "c" for a in args):
                k = args[0][1] if args else -1
                if not -len(xs) <= k < len(xs):
                    return self.bad("IndexError")
                v = xs[k]
                xs = list(xs)
                del xs[k]
                s[("F", i)] = ("list", tuple(xs))
                return v
            elif name == "remove":
                for k, x in enumerate(xs):
                    e = self.eq(x, args[0], s)
                    if e is None:
                        return None
                    if e:
                        xs = xs[:k] + xs[k + 1:]
                        break
                else:
                    return self.bad("ValueError")
            elif name == "reverse" and not args:
                xs = xs[::-1]
            elif name == "clear":
                xs = ()
            elif name == "sort" and not args and all(x[0] == "c" for x in xs):
                xs = tuple(sorted(xs, key=lambda x: x[1]))
            else:
                return None
            s[("F", i)] = ("list", xs)
            return none
        if f[0] == "set":
            xs = f[1]
            if name == "pop" and not args:
                if not xs:
                    return self.bad("KeyError")
                s[("F", i)] = ("set", xs[1:])  # one of the possible choices
                return xs[0]
            if name in ("add", "update", "discard", "remove"):
                q = (args[0],) if name != "update" else self.seq(args[0], s)
                if q is None:
                    return None
                for x in q:
                    es = [self.eq(x, y, s) for y in xs]
                    if None in es:
                        return None
                    if name in ("add", "update"):
                        if True not in es:
                            xs = xs + (x,)
                    elif True in es:
                        k = es.index(True)
                        xs = xs[:k] + xs[k + 1:]
                    elif name == "remove":
                        return self.bad("KeyError")
                s[("F", i)] = ("set", xs)
                return none
        if f[0] == "dict":
            if name == "update" and args:
                g = self.fields(args[0], s)
                if g is None or g[0] != "dict":
                    return None
                d = f
                for k, v in g[1]:
                    d = self.put(d, k, v, s)
                s[("F", i)] = d
                return none
            if name == "setdefault":
                r = self.get(f, args[0], s)
                if r == RAISE:
                    r = self.heap(args[1] if len(args) > 1 else none, s, n, ("sd",))
                    s[("F", i)] = self.put(f, args[0], r, s)
                return r
            if name == "pop":
                r = self.get(f, args[0], s)
                if r == RAISE:
                    return args[1] if len(args) > 1 else RAISE
                s[("F", i)] = ("dict", tuple((k, v) for k, v in f[1] if self.eq(k, args[0], s) is not True))
                return r
            if name == "clear":
                s[("F", i)] = ("dict", ())
                return none
        return None

    def put(self, d, k, v, s):
        out, done = [], False
        for a, b in d[1]:
            if self.eq(a, k, s):
                out.append((a, v))
                done = True
            else:
                out.append((a, b))
        if not done:
            out.append((k, v))
        return ("dict", tuple(out))

    def heap(self, v, s, n, tag):
        if v[0] in ("dict", "list"):
            return super().heap(v, s, n, tag)
        if v[0] == "set":
            i = self.alloc(s, (n.id,) + tag)
            s[("F", i)] = v
            return ("new", i)
        if v[0] == "tuple":
            return ("tuple", tuple(self.heap(x, s, n, tag + (j,)) for j, x in enumerate(v[1])))
        return v

    # ---- steps -----------------------------------------------------------
    def step(self, n, s):
        op = n.op
        self.why = None
        if op == "store" and n.name is None:
            s = dict(s)
            o = self.ev(n.obj, s)
            k = self.ev(n.key, s)
            v = self.lit(n.value, s, n, ("s",))
            if RAISE in (o, k, v):
                return self.fail(n, s)
            f = s.get(("F", o[1])) if o[0] == "new" else None
            if f is not None and f[0] == "dict":
                s[("F", o[1])] = self.put(f, k, v, s)
            elif f is not None and f[0] == "list":
                if k[0] == "op" and k[1] == "slice" and all(x[0] == "c" for x in k[2:]):
                    q = self.seq(v, s)
                    xs = list(f[1])
                    if q is None:
                        s[("F", o[1])] = TOP
                    else:
                        xs[slice(*[x[1] for x in k[2:]])] = q
                        s[("F", o[1])] = ("list", tuple(xs))
                elif k[0] == "c" and isinstance(k[1], int):
                    if not -len(f[1]) <= k[1] < len(f[1]):
                        return self.fail(n, s)
                    xs = list(f[1])
                    xs[k[1]] = v
                    s[("F", o[1])] = ("list", tuple(xs))
                else:
                    s[("F", o[1])] = TOP
            elif o == ("c", None):
                return self.fail(n, s)
            else:
                s[("W", o, k)] = v
            return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "store":
            s = dict(s)
            o = self.ev(n.obj, s)
            v = self.lit(n.value, s, n, ("s",))
            if RAISE in (o, v):
                return self.fail(n, s)
            s[("W", o, ("c", n.name))] = v
            return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "del":
            s = dict(s)
            o, k = self.ev(n.obj, s), self.ev(n.key, s)
            f = s.get(("F", o[1])) if o[0] == "new" else None
            if f is None:
                s["fx"] = s.get("fx", ()) + ((n.id, ("del", o, k), ()),)
            elif f[0] == "dict":
                if self.get(f, k, s) == RAISE:
                    return self.fail(n, s)
                s[("F", o[1])] = ("dict", tuple((a, b) for a, b in f[1] if self.eq(a, k, s) is not True))
            elif f[0] == "list":
                xs = list(f[1])
                if k[0] == "op" and k[1] == "slice" and all(x[0] == "c" for x in k[2:]):
                    del xs[slice(*[x[1] for x in k[2:]])]
                elif k[0] == "c" and isinstance(k[1], int) and -len(xs) <= k[1] < len(xs):
                    del xs[k[1]]
                elif k[0] == "c":
                    self.why = "IndexError"
                    return self.fail(n, s)
                else:
                    xs = None
                s[("F", o[1])] = TOP if xs is None else ("list", tuple(xs))
            return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "aug":
            o = self.ev(n.target, s)
            f = s.get(("F", o[1])) if o[0] == "new" else None
            if f is not None and f[0] == "list" and n.aop == "+":
                s = dict(s)
                q = self.chars(self.ev(n.value, s), s)
                s[("F", o[1])] = TOP if q is None else ("list", f[1] + q)
                nxt = [m for l, m in n.succ if l != "exc"]
                # the store that follows assigns the same object again
                out = []
                for m in nxt:
                    if m.op == "store":
                        out += [(x, s) for l, x in m.succ if l != "exc"]
                    else:
                        out.append((m, s))
                return out
            return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "assign" and getattr(n, "unpack", None) is not None:
            q = self.ev(n.unpack[0], s)
            q = s.get(("F", q[1]), q) if q[0] == "new" else q
            if q[0] in ("list", "tuple") and len(q[1]) != n.unpack[1] and not any(x[0] == "star" for x in q[1]):
                self.why = "ValueError"
                return self.fail(n, s)
        if op == "assign" and getattr(n, "aug", None) is not None and n.aug[0] == "+":
            o = self.ev(n.aug[1], s)
            f = s.get(("F", o[1])) if o[0] == "new" else None
            if f is not None and f[0] == "list":
                s = dict(s)
                q = self.chars(self.ev(n.aug[2], s), s)
                s[("F", o[1])] = TOP if q is None else ("list", f[1] + q)
                return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "collect":
            s = dict(s)
            acc = s.pop(("acc", n.iternode.id), ())
            shut = not any(("open", h.id) in s for h in n.heads)
            known = shut and n.kind != "dict" and len(n.elts) == 1
            if known:
                v = ("list" if n.kind not in ("set",) else "set", tuple(x for x, _ in acc))
                if v[0] == "set":
                    v = self.builtin("set", (("list", v[1]),), (), s) or TOP
                s[("t", n.id)] = self.heap(v, s, n, ("r",))
            elif n.kind == "dict" and shut and all(x[0] == "tuple" for x, _ in acc):
                d = ("dict", ())
                for x, _ in acc:
                    d = self.put(d, x[1][0], x[1][1], s)
                s[("t", n.id)] = self.heap(d, s, n, ("r",))
            else:
                s[("t", n.id)] = TOP
            return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "elem" and len(getattr(n, "elts", ())) == 2:
            h = self.comps.get(n.id)
            if h is not None:
                s = dict(s)
                i = s.get(("it", h), 0)
                s[("acc", h)] = s.get(("acc", h), ()) + ((("tuple", (self.lit(n.elts[0], s, n, ("e", i)), self.lit(n.elts[1], s, n, ("f", i)))), None),)
                return [(m, s) for l, m in n.succ if l != "exc"]
        if op == "iter":
            # The iterated object is evaluated once: a list that is an object is seen as it changes, anything else as it was.
            at = s.get(("snap", n.id))
            v = self.ev(n.term, s) if at is None else at
            f = self.fields(v, s)
            if v[0] == "c" and isinstance(v[1], (str, bytes)):
                f = ("list", tuple(("c", x) for x in v[1]))
            if f is not None and f[0] in ("dict", "set", "list", "tuple"):
                if at is None:
                    at = v if v[0] == "new" and f[0] == "list" else ("list", tuple(k for k, _ in f[1])) if f[0] == "dict" else ("list", f[1])
                    s = dict(s)
                    s[("snap", n.id)] = at
                out = []
                for m, s2 in self.iterate(n, s, self.fields(at, s) if at[0] == "new" else at):
                    if ("it", n.id) not in s2:
                        s2 = dict(s2)
                        s2.pop(("snap", n.id), None)
                    out.append((m, s2))
                return out
        if op == "reraise" or op == "raise":
            s = dict(s)
            s["exc"] = self.ev(n.term, s)
            return [(m, s) for l, m in n.succ]
        r = super().step(n, s)
        if op == "call":
            m = self.thrown(n, s)
            if m is not None:
                return [(x, {**s2, ("v", "E", x.id): m, "exc": m}) for x, s2 in r if s2.get(("v", "E", x.id)) == ("excof", n.id)]
        return r

    def thrown(self, n, s):
        c = self.ev(n.callee, s)
        if c == RAISE:
            return None
        m = self.model("throws", ("call", c, tuple(self.ev(a, s) for a in n.args), ()))
        return ("exc", m) if isinstance(m, str) else None

    def iterate(self, n, s, v):
        s = dict(s)
        done = [m for l, m in n.succ if l == "done"]
        body = [m for l, m in n.succ if l == "body"]
        i = s.get(("it", n.id), 0)
        if i == 0:
            s[("acc", n.id)] = ()
        if i < len(v[1]):
            s[("it", n.id)] = i + 1
            s[("elem", n.id)] = v[1][i]
            s[("key", n.id)] = ("c", i)
            return [(m, s) for m in body]
        s.pop(("it", n.id), None)
        s.pop(("elem", n.id), None)
        return [(m, s) for m in done]

    def fail(self, n, s):
        e = [m for l, m in n.succ if l == "exc"]
        v = self.why if isinstance(self.why, tuple) else ("exc", self.why or "UnknownError")
        return [(m, {**s, ("v", "E", m.id): v, "exc": v}) for m in e] if e else \
            [(self.handler(n), {**s, "exc": v})] if self.g.exc_exit is not None else []

    def handler(self, n):
        return self.g.exc_exit


STR = {"startswith", "endswith", "strip", "rstrip", "lstrip", "lower", "upper", "split", "rsplit", "splitlines", "replace", "find", "rfind",
       "index", "count", "isdigit", "isalpha", "isalnum", "isspace", "isascii", "partition", "rpartition", "title", "capitalize", "isdecimal", "isnumeric",
       "removeprefix", "removesuffix", "zfill"}
