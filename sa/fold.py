"""Constant folding of Python's own library on abstract values.

Values are turned into Python objects (heap objects keep their identity, unknown
ones are opaque and refuse every question), the library function is evaluated
and the result turned back.  Functions of the analysed program that are handed
to a library function are propagated abstractly when it calls them.
"""
import builtins
import collections
import fnmatch
import functools
import itertools
import json
import math
import ntpath
import operator
import posixpath
import re
import shlex
import string
import textwrap

from .ir import Class, Function

LIMIT = 20000


class Undecided(BaseException):
    pass


class Thrown(BaseException):
    """An exception of the analysed program on its way through a library function."""

    def __init__(self, exc):
        self.exc = exc


def _no(*a, **k):
    raise Undecided()


class Opaque:
    def __init__(self, term, fold=None):
        self.term, self.fold = term, fold
    __hash__ = None
    for _n in ("lt", "le", "gt", "ge", "ne", "len", "bool", "str", "repr", "iter", "add", "radd", "mod", "contains", "getitem", "index", "int", "format", "call", "fspath", "mul", "rmul"):
        locals()[f"__{_n}__"] = _no

    def __eq__(self, o):
        if o is self or isinstance(o, Opaque) and o.term == self.term:
            return True
        if self.fold is not None:
            r = self.fold.e.eq(self.term, self.fold.back(o), self.fold.s)
            if r is not None:
                return r
        raise Undecided()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Undecided()


class RList(list):
    term = None


class RDict(dict):
    term = None


class RSet(set):
    term = None
    order = ()
    __repr__ = __str__ = _no

    def __iter__(self):
        return iter(self.order)


class NT(tuple):
    term = None


class PyCall:
    def __init__(self, term, shared):
        self.term, self.shared = term, shared

    for _n in ("str", "repr", "lt", "gt", "le", "ge", "bool"):
        locals()[f"__{_n}__"] = _no

    def __eq__(self, o):
        return isinstance(o, PyCall) and o.term == self.term

    def __hash__(self):
        return hash(self.term)

    def __call__(self, *a, **k):
        f = self.shared["fold"][-1]
        return f.conv(f.invoke(self.term, tuple(map(f.back, a)), tuple((n, f.back(v)) for n, v in k.items())))


BUILTINS = {"abs", "all", "any", "bin", "bool", "bytes", "chr", "dict", "divmod", "enumerate", "filter", "float", "format", "frozenset", "hex", "int", "len", "list", "map", "max",
            "min", "oct", "ord", "pow", "range", "repr", "reversed", "round", "set", "slice", "sorted", "str", "sum", "tuple", "zip"}
TYPES = {"str": str, "dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "int": int, "bytes": bytes, "float": float}
MODULES = {
    "itertools": {n: getattr(itertools, n) for n in ("chain", "islice", "zip_longest", "product", "accumulate", "takewhile", "dropwhile", "starmap", "compress", "filterfalse",
                                                     "permutations", "combinations", "pairwise")} |
                 {"groupby": lambda xs, key=None: [(k, list(g)) for k, g in itertools.groupby(xs, key)], "repeat": lambda x, times: [x] * times},
    "operator": {n: getattr(operator, n) for n in dir(operator) if not n.startswith("_") and n not in ("setitem", "delitem") and not (n.startswith("i") and n not in ("itemgetter", "is_", "is_not", "index", "invert", "inv", "indexOf"))},
    "functools": {"reduce": functools.reduce},
    "shlex": {n: getattr(shlex, n) for n in ("quote", "split", "join")},
    "posixpath": {}, "ntpath": {},
    "string": {"capwords": string.capwords},
    "textwrap": {n: getattr(textwrap, n) for n in ("dedent", "indent")},
    "math": {n: getattr(math, n) for n in ("ceil", "floor")},
    "fnmatch": {n: getattr(fnmatch, n) for n in ("fnmatch", "fnmatchcase", "filter", "translate")},
    "json": {n: getattr(json, n) for n in ("dumps", "loads")},
    "re": {n: getattr(re, n) for n in ("search", "match", "fullmatch", "sub", "subn", "split", "findall", "finditer", "escape", "compile")},
}
PATHS = ("normpath", "join", "dirname", "basename", "isabs", "split", "splitext", "splitdrive", "relpath", "commonprefix", "commonpath", "normcase")
for _m, _p in (("posixpath", posixpath), ("ntpath", ntpath)):
    MODULES[_m] = {n: getattr(_p, n) for n in PATHS}
PATH = ("a", ("mod", "os"), "path")
CHANGES = {list: {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__"},
           dict: {"update", "setdefault", "pop", "popitem", "clear"},
           set: {"add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update"}}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "/": operator.truediv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift,
       "&": operator.and_, "|": operator.or_, "^": operator.xor, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


class Fold:
    def __init__(self, e, s, n=None):
        self.e, self.s, self.n = e, s, n
        self.opaque = False

    # ---- values
    def conv(self, v):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "tuple":
            return tuple(map(self.conv, v[1]))
        if k == "py":
            return v[1]
        if k == "rx":
            return re.compile(v[1])
        if k in ("list", "set", "dict"):
            return self.container(v, None)
        if k == "new":
            f = self.s.get(("F", v[1]))
            if f is not None and f[0] in ("list", "set", "dict") and ("K", v[1]) not in self.s:
                return self.container(f, v)
        if k == "nt":
            r = NT(map(self.conv, v[2]))
            r.term = v
            return r
        if k in ("fn", "bound", "cls", "partial", "clo", "ntcls", "glob", "a"):
            self.opaque = True
            return PyCall(v, self.e.shared)
        self.opaque = True
        return Opaque(v, self)

    def container(self, f, term):
        if f[0] == "list":
            if any(x[0] == "star" for x in f[1]):
                raise Undecided()
            r = RList(map(self.conv, f[1]))
        elif f[0] == "set":
            r = RSet()
            r.order = tuple(map(self.conv, f[1]))
            try:
                r.update(r.order)
            except TypeError:
                raise Undecided()
        else:
            if any(k is None for k, _ in f[1]):
                raise Undecided()
            try:
                r = RDict((self.conv(a), self.conv(b)) for a, b in f[1])
            except TypeError:
                raise Undecided()
        r.term = term
        return r

    def back(self, x, d=0):
        if d > 40:
            raise Undecided()
        if isinstance(x, (Opaque, PyCall)):
            return x.term
        if isinstance(x, (RList, RDict, RSet, NT)) and x.term is not None:
            return x.term
        if x is None or isinstance(x, (bool, int, float, str, bytes)):
            return ("c", x)
        if isinstance(x, (list, collections.deque)):
            return ("list", tuple(self.back(y, d + 1) for y in x))
        if isinstance(x, tuple):
            return ("tuple", tuple(self.back(y, d + 1) for y in x))
        if isinstance(x, dict):
            return ("dict", tuple((self.back(a, d + 1), self.back(b, d + 1)) for a, b in x.items()))
        if isinstance(x, RSet):
            return ("set", tuple(self.back(y, d + 1) for y in x.order))
        if isinstance(x, slice):
            return ("op", "slice") + tuple(self.back(y) for y in (x.start, x.stop, x.step))
        if isinstance(x, (set, frozenset)):
            return ("set", tuple(self.back(y, d + 1) for y in sorted(x, key=lambda y: (str(type(y)), y if not isinstance(y, tuple) else repr(y)))))
        if isinstance(x, (re.Pattern, re.Match, operator.itemgetter, operator.attrgetter, operator.methodcaller)):
            return ("py", x)
        if hasattr(x, "__next__") or isinstance(x, (range, type({}.keys()), type({}.values()), type({}.items()))):
            xs = list(itertools.islice(iter(x), LIMIT + 1))
            if len(xs) > LIMIT:
                raise Undecided()
            return ("list", tuple(self.back(y, d + 1) for y in xs))
        raise Undecided()

    # ---- functions of the program
    def invoke(self, f, args, kw):
        e, s = self.e, self.s
        while f[0] == "partial":
            args, kw, f = f[2] + args, f[3] + kw, f[1]
        m = e.model("call", ("call", f, args, kw))
        if m is not None:
            return m
        t, this = e.target(f, s)
        if isinstance(t, Function):
            n = self.n
            if n is not None:
                r = e.model("exec", (f, args, s, e, n))
                if r is not None:
                    return r
                args = tuple(e.heap(a, s, n, ("fa", i)) for i, a in enumerate(args))
            rs = e.call_fn(t, this, args, kw, s, e.env_of(f))
            if len(rs) != 1:
                raise Undecided()
            k, v, s2 = rs[0]
            old = {x: y for x, y in s.items() if e.global_key(x)}
            new = {x: y for x, y in s2.items() if e.global_key(x)}
            if n is None and (any(new.get(x) != y for x, y in old.items() if x != "#") or new.get("fx") != old.get("fx")):
                raise Undecided()
            if k != "return":
                raise Thrown(s2.get("exc", ("exc", "UnknownError")))
            if n is not None:
                for x in old:
                    if x not in new:
                        del s[x]
            s.update(new)
            return v
        if isinstance(t, Class):
            if self.n is None:
                raise Undecided()
            v = e.construct(t, args, kw, s, self.n)
            if v is None:
                raise Undecided()
            return v
        if self.n is not None:
            r = e.mutate(f, args, s, self.n)
            if r is not None:
                return r
        r = e.docall(f, args, kw, s)
        if r[0] == "call" or r == ("raise",):
            raise Undecided()
        return r

    # ---- library functions
    def function(self, c):
        if c[0] == "glob" and c[1] in BUILTINS:
            return getattr(builtins, c[1])
        if c[0] == "py" and callable(c[1]):
            return c[1]
        if c[0] != "a":
            return None
        o, n = c[1], c[2]
        if o[0] == "mod":
            return MODULES.get(o[1], {}).get(n)
        if o == PATH:
            return MODULES["posixpath"].get(n)
        if o == ("a", ("mod", "itertools"), "chain") and n == "from_iterable":
            return itertools.chain.from_iterable
        if n.startswith("__"):
            return None
        if o[0] == "glob":
            t = TYPES.get(o[1])
            return getattr(t, n, None) if t is not None and n not in CHANGES.get(t, ()) else None
        if o[0] in ("c", "new", "list", "dict", "set", "tuple", "py", "rx"):
            x = self.conv(o)
            if o[0] == "py" and not isinstance(x, (re.Pattern, re.Match)):
                return None
            if isinstance(x, Opaque) or any(isinstance(x, t) and n in v for t, v in CHANGES.items()):
                return None
            return getattr(x, n, None)
        return None

    def call(self, c, args, kw):
        """The value of a library call; None when not decided, ("throw", exception) when it raises."""
        try:
            self.opaque = False
            f = self.function(c)
            if f is None:
                return None
            self.opaque = False
            a = [self.conv(x) for x in args]
            k = {n: self.conv(v) for n, v in kw if n is not None}
            if len(k) != len(kw):
                return None
        except Undecided:
            return None
        st = self.e.shared.setdefault("fold", [])
        st.append(self)
        try:
            r = f(*a, **k)
            if f in (map, filter) and self.n is None and self.opaque:
                return None
            return self.back(r)
        except (Undecided, RecursionError, MemoryError):
            return None
        except Thrown as x:
            return ("throw", x.exc)
        except Exception as x:
            if self.opaque and isinstance(x, (TypeError, AttributeError)):
                return None
            return ("throw", ("exc", type(x).__name__))
        finally:
            st.pop()

    def item(self, o, k):
        try:
            x, y = self.conv(o), slice(*(self.conv(z) for z in k[2:])) if k[0] == "op" and k[1] == "slice" else self.conv(k)
            return None if self.opaque else self.back(x[y])
        except Undecided:
            return None
        except Exception as x:
            return ("throw", ("exc", type(x).__name__))

    def op(self, o, a, b):
        if o not in OPS:
            return None
        try:
            x, y = self.conv(a), self.conv(b)
            if self.opaque:
                return None
            if isinstance(x, str) and o == "%" or not isinstance(x, (int, float, str, bytes, RList, tuple, RSet, RDict)):
                return None
            if isinstance(x, (int, float)) and isinstance(y, int) and o in ("**", "<<", "*") and abs(y) > 1000:
                return None
            return self.back(OPS[o](x, y))
        except Undecided:
            return None
        except Exception as x:
            return ("throw", ("exc", type(x).__name__))
