import collections
import contextlib
import copy
import functools
import itertools
import operator
import os
import re
import shlex
from collections import OrderedDict, defaultdict, namedtuple
from dataclasses import dataclass
from functools import partial, reduce
from itertools import chain
from os import path as osp
from typing import NamedTuple

import gyp.common

XS = ["a.c", "b.cc", "c.h", "sub/d.c"]


def t_chain():
    return list(itertools.chain([1, 2], (3,), XS))


def t_chain2():
    return list(chain.from_iterable([x, x] for x in XS))


def t_partial():
    f = functools.partial(os.path.join, "d")
    return [f(x) for x in XS] + list(map(partial(os.path.relpath, start="sub"), ["sub/x"]))


def t_fold():
    return reduce(lambda a, b: a + "," + b, XS, "")


def t_operator():
    return sorted([("b", 1), ("a", 2)], key=operator.itemgetter(0)) + [operator.add(1, 2)]


def t_defaultdict():
    d = defaultdict(list)
    for x in XS:
        d[os.path.splitext(x)[1]].append(x)
    return [(k, v) for k, v in d.items()]


def t_counter():
    c = collections.Counter(os.path.splitext(x)[1] for x in XS)
    return c[".c"], c[".zz"]


def t_ordered():
    d = OrderedDict()
    d["a"] = 1
    d["b"] = 2
    d.move_to_end("a")
    return list(d)


P = namedtuple("P", ["x", "y"])


def t_namedtuple():
    p = P(1, y=2)
    a, b = p
    return p.x, p.y, a, b


class Q(NamedTuple):
    name: str
    n: int = 3


def t_namedtuple2():
    q = Q("u")
    return q.name, q.n


@dataclass
class R:
    a: str
    b: list
    c: int = 0


def t_dataclass():
    r = R("x", [1])
    r.c += 4
    return r.a, r.b, r.c


def gen(xs):
    for x in xs:
        if x.endswith(".c"):
            yield x
            yield "o" + x
    yield "end"


def t_generator():
    return list(gen(XS)), ",".join(gen(XS)), [y for y in gen(["q.c"])]


def gen2(xs):
    yield from gen(xs)
    yield from ("p", "q")


def t_generator2():
    out = []
    for x in gen2(XS):
        out.append(x)
    return out


def t_next():
    return next((x for x in XS if x.startswith("c")), None), next(iter(XS)), next((x for x in XS if "zz" in x), "none")


def t_walrus():
    if (n := len(XS)) > 3:
        return n
    return [y for x in XS if (y := x.upper()) != "A.C"]


def t_walrus2():
    return [y for x in XS if (y := x.upper()) != "A.C"]


def t_star():
    a, *b = XS
    *c, d = XS
    return a, b, c, d, [*XS, *b], {**{"a": 1}, "b": 2}


def t_unpack():
    (a, b), c = ("x", "y"), 3
    return a, b, c


def t_trymap():
    out = []
    for k in ("a", "z"):
        try:
            v = {"a": 1}[k]
        except KeyError:
            v = "none"
        else:
            out.append("else")
        finally:
            out.append("fin")
        out.append(v)
    return out


def t_suppress():
    d = {"a": 1}
    with contextlib.suppress(KeyError):
        del d["b"]
    return d


def t_loopelse():
    for x in XS:
        if x == "nope":
            break
    else:
        return "else"
    return "break"


def t_whilepop():
    todo, out = list(XS), []
    while todo:
        x = todo.pop(0)
        out.insert(0, x)
        if len(out) > 2:
            break
    return out


def t_enum():
    return [(i, x) for i, x in enumerate(XS, start=1)], list(zip(XS, range(9))), dict(zip("ab", [1, 2]))


def t_format():
    return "{0}-{name:>5}|{x!r}".format("q", name="n", x="s"), f"{'a':<4}|{3:02d}|{'q'!r}|{1 + 1}", "%-5s|%05d|%r|%(a)s" % {"a": 1} if False else "%-5s|%05d|%r" % ("a", 3, "b")


def t_strings():
    s = "  a,b;c  "
    return s.strip().partition(","), "x/y/z".rpartition("/"), "x.y.z".rsplit(".", 1), "libfoo".removeprefix("lib"), "foo.o".removesuffix(".o"), "a-b".translate(str.maketrans("-", "_")), "abc".title(), "A".casefold(), "a\nb".splitlines(), "x".zfill(3), "ab".center(6), "a".ljust(3), "a b  c".split(), "a".isalnum(), "aXb".swapcase(), "tab\t".expandtabs(2), "abc"[::-1], "abc".find("c"), "abc".index("b"), "abcb".count("b"), "x=1".split("=", maxsplit=1)


def t_sets():
    a = {1, 2, 3}
    b = frozenset([2, 3, 4])
    return sorted(a & b), sorted(a | b), sorted(a - b), sorted(a ^ b), a >= {1}, a.isdisjoint(b), sorted(a.union([9])), sorted(a.intersection([1])), sorted(a.difference([1])), 2 in b


def t_setops():
    a = set()
    a.add(1)
    a.update([2, 3])
    a |= {5}
    a -= {2}
    a.discard(9)
    a.remove(3)
    return sorted(a), len(a)


def t_dicts():
    d = {"a": 1, "b": 2}
    d.update(c=3)
    d.update({"d": 4})
    d |= {"e": 5}
    x = d.pop("a")
    y = d.pop("zz", None)
    d.setdefault("f", []).append(1)
    e = d | {"g": 1}
    return d, x, y, list(d.keys()), list(d.values()), sorted(d.items(), key=lambda kv: kv[0]), dict.fromkeys("ab", 0), e, {v: k for k, v in {"q": 1}.items()}, dict([("a", 1)]), list(reversed(["x", "y"])), d.get("nope"), "b" in d, d.copy() == d


def t_lists():
    a = [3, 1, 2]
    a.sort()
    b = a[:]
    b.extend([9])
    b += [8]
    b.remove(1)
    b.reverse()
    a[1:2] = [7, 7]
    del a[0]
    c = a * 2
    return a, b, c, sorted(b, reverse=True), a.index(7), a.count(7), sum([1, 2]), sum([[1], [2]], []), min(a), max(a), any(x > 5 for x in a), all(a), a == b, a < b, list(filter(None, ["", "a"])), b.copy(), bool([]), not a


def t_nested():
    return [[x + y for y in "ab"] for x in "cd"], [x + y for x in "ab" for y in "cd" if x != y], {x: [x] for x in "ab"}, {len(x) for x in XS}, tuple(x for x in "ab")


def t_closure():
    out = []

    def add(x, *, twice=False):
        out.append(x)
        if twice:
            out.append(x)

    for x in XS:
        add(x, twice=x.endswith("h"))
    return out


def t_nonlocal():
    n = 0

    def inc(by=1):
        nonlocal n
        n += by
        return n

    inc()
    inc(by=4)
    return n


def t_kwargs():
    def f(a, *args, b=2, **kw):
        return a, args, b, kw
    return f(1, 2, 3, b=4, c=5), f(*[1, 2], **{"c": 1}), f(1)


def t_match():
    out = []
    for x in ("a", "b", 3, None, ["p", "q"], {"k": 1}):
        match x:
            case "a" | "c":
                out.append("A")
            case str():
                out.append("S")
            case int(n) if n > 2:
                out.append(n)
            case [p, q]:
                out.append(p + q)
            case {"k": v}:
                out.append(v)
            case _:
                out.append("other")
    return out


def t_match2():
    def k(t):
        match t:
            case "executable":
                return 1
            case "shared_library" | "loadable_module":
                return 2
        return 3
    return [k(x) for x in ("executable", "loadable_module", "none")]


class A:
    kinds = ("x", "y")
    table = {"a": "A"}

    def __init__(self, n):
        self.n = n
        self._m = None

    @property
    def double(self):
        return self.n * 2

    @staticmethod
    def st(x):
        return x + 1

    @classmethod
    def make(cls, n):
        return cls(n + 1)

    def lazy(self):
        if self._m is None:
            self._m = [self.n]
        return self._m

    def over(self):
        return "A"

    def call(self):
        return self.over()


class B(A):
    def __init__(self, n, k=0):
        super().__init__(n)
        self.k = k

    def over(self):
        return "B" + super().over()


def t_classes():
    a = A(3)
    b = B.make(1)
    return a.double, a.st(1), A.st(2), b.n, b.k, b.call(), a.call(), isinstance(b, A), a.kinds, A.table["a"], a.lazy() is a.lazy(), b.double, getattr(a, "n"), getattr(a, "zz", 5), hasattr(a, "n")


def t_cache():
    @functools.lru_cache(maxsize=None)
    def f(x):
        return x + "!"
    return f("a") + f("a")


def deco(f):
    @functools.wraps(f)
    def w(*a, **k):
        return "<" + f(*a, **k) + ">"
    return w


@deco
def decorated(x, y="q"):
    return x + y


def t_decorator():
    return decorated("a"), decorated("a", y="b")


def t_re():
    m = re.match(r"(\w+)=(?P<v>.*)", "k=v w")
    return m.group(1), m["v"], m.groups(), re.sub(r"[abc]", lambda m: m.group(0).upper(), "xaxb"), re.split(r"[,;]", "a,b;c"), re.findall(r"\w", "a b"), re.compile("a+").search("baa").group(), re.escape("a.b"), bool(re.fullmatch("a*", "aa")), re.search("z", "a") is None, re.sub("a", r"\g<0>b", "a")


def t_ospath():
    p = "d/sub/../x.tar.gz"
    return os.path.normpath(p), osp.basename(p), os.path.split(p), os.path.splitext(p), os.path.join("a", "/b", "c"), os.path.isabs("/a"), os.path.relpath("a/b", "c"), os.path.commonprefix(["abc", "abd"]), os.path.dirname(p), os.sep.join(["a", "b"])


def t_shlex():
    return shlex.quote("a b"), shlex.split("a 'b c' d")


def t_conv():
    return str(3), int("4"), int("0x10", 16), bool(""), list("ab"), tuple([1]), ord("a"), chr(98), repr("a"), float("1.5"), abs(-3), divmod(7, 2), round(2.6), hex(255), len({"a": 1}), isinstance("a", str), isinstance([], (list, tuple)), type("a") is str, callable(len), 7 // 2, 7 % 3, 2 ** 3, -3, ~1, 1 << 2, 6 & 3, 6 | 1


def t_copy():
    a = {"x": [1]}
    b = copy.deepcopy(a)
    c = copy.copy(a)
    b["x"].append(2)
    c["x"].append(3)
    return a, b, c


def t_ternary():
    x = None
    y = x or "d"
    z = x and "e"
    return y, z, "p" if x is None else "q", (x is not None) or (1 < 2 < 3), not x


def t_join():
    return "".join(map(str, [1, 2])), " ".join(sorted(set("ba"))), ", ".join(f"{k}={v}" for k, v in {"a": 1}.items()), "".join(["%s;" % x for x in "ab"])


def t_global_table():
    handlers = {"a": lambda x: x + "1", "b": str.upper, "c": os.path.basename}
    return [handlers[k]("d/e") for k in "abc"], handlers.get("z") is None


def t_methods_as_values():
    out = []
    w = out.append
    for x in XS:
        w(x)
    up = str.upper
    return out, list(map(up, "ab")), list(map(str.strip, [" a "])), list(map(len, XS)), "-".join(map("<{}>".format, "ab"))


def t_zip():
    return list(zip(*[(1, 2), (3, 4)])), list(itertools.zip_longest([1], [2, 3])), list(itertools.product("ab", "cd")), [list(g) for k, g in itertools.groupby("aab")], list(itertools.islice(XS, 2)), list(itertools.accumulate([1, 2, 3])), list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])), list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])), list(itertools.starmap(os.path.join, [("a", "b")])), list(itertools.compress("abc", [1, 0, 1])), list(itertools.repeat("a", 2)), list(itertools.filterfalse(None, ["", "a"]))


def t_sortkeys():
    return sorted(XS, key=len), sorted(XS, key=lambda x: (x.count("/"), x)), sorted({"b": 1, "a": 2}), min(XS, key=len), max("ab", "abc", key=len), sorted(XS, key=os.path.basename, reverse=True)


def t_del():
    d = {"a": 1, "b": 2}
    for k in list(d):
        if k == "a":
            del d[k]
    x = [1, 2, 3]
    del x[1:]
    d.clear()
    return d, x


def t_iterdict():
    out = []
    for i, (k, v) in enumerate(sorted({"b": 1, "a": 2}.items())):
        out.append((i, k, v))
    for k in {"x": 1}:
        out.append(k)
    return out


def t_recursion():
    def flat(x):
        if isinstance(x, list):
            return [z for y in x for z in flat(y)]
        return [x]
    return flat([1, [2, [3]], []])


def t_exceptions():
    class E(Exception):
        def __init__(self, m):
            super().__init__(m)
            self.m = m
    try:
        raise E("x")
    except (KeyError, E) as e:
        return e.m
    return None


def t_assertions():
    try:
        assert XS == [], "not empty"
    except AssertionError:
        return "asserted"


def t_with():
    log = []

    @contextlib.contextmanager
    def ctx(n):
        log.append("in" + n)
        yield n + "!"
        log.append("out")
    with ctx("a") as v:
        log.append(v)
    return log


def t_slices():
    return XS[1:], XS[:-1], XS[::2], XS[-1], "abc"[1], "abc"[-2:], XS[slice(1, 2)], XS[1:][0]


def t_strmul():
    return "-" * 3, [0] * 2, "a" "b", "a" + "b", "a" in "abc", "b" not in "abc", "a" < "b", ("a", 1) < ("a", 2)


def t_boolops():
    a = []
    return a or None, [] or {} or "x", 0 or 1, 1 and 2, not (1 and 0), bool(a), a is None, a == []


def t_isinst():
    return [type(x).__name__ for x in (1, "a", [], {})], isinstance(True, int), isinstance(1, bool), issubclass(B, A)


def t_fileio():
    import io
    s = io.StringIO()
    s.write("a")
    print("b", "c", file=s)
    return s.getvalue()


def t_textlist():
    lines = []
    lines.append("a")
    lines += ["b", "c"]
    lines.extend(f"x{i}" for i in range(2))
    return "\n".join(lines) + "\n"


def t_deque():
    q = collections.deque([1, 2])
    q.append(3)
    q.appendleft(0)
    out = []
    while q:
        out.append(q.popleft())
    return out


def t_chainmap():
    return dict(collections.ChainMap({"a": 1}, {"a": 2, "b": 3}))["a"]


def t_annotated():
    x: list[str] = []
    y: int = 3
    x.append("a")
    return x, y


def t_enumcls():
    import enum

    class K(enum.Enum):
        A = "a"
        B = "b"
    return K.A.value, K("b") is K.B


def t_posix():
    return gyp.common.EncodePOSIXShellList(["a b", "c"]), gyp.common.RelativePath("a/b", "a")


def two_args(a, b, *, c=1):
    return (a, b, c)


def t_arity():
    out = []
    try:
        two_args(1)
    except TypeError:
        out.append("few")
    try:
        two_args(1, 2, 3)
    except TypeError:
        out.append("many")
    try:
        two_args(1, 2, d=3)
    except TypeError:
        out.append("name")
    out.append(two_args(1, b=2, c=3))
    out.append(two_args(*(1, 2)))
    out.append(two_args(**{"a": 1, "b": 2}))
    return out


def t_itercopy():
    x = [1, 2]
    for p in x[:]:
        x.append(p * 10)
    y = [3, 4]
    for p in y:
        y = [p]
    z = [1]
    for p in z:
        if len(z) < 4:
            z.append(p + 1)
    return x, y, z


def t_rekey():
    d = {"a": 1, "b": 2}
    for k in list(d):
        d[k + "x"] = d.pop(k)
    return sorted(d), [k for k in d.copy()]
