"""Conditional constant propagation with trace partitioning.

Values are terms over symbolic inputs.  `model(op, term)` supplies the abstract
inputs and library functions of one input class: op "value" -> replacement term
or None, op "truth" -> True/False/None.  Branches whose condition is decided
are pruned; undecided ones are followed both ways.  Nothing is executed: string
and URL operations stay symbolic except on constants.
"""
import functools
import re

from .cfg import mk_cat
from .explore import norm_cond

TOP = ("unk",)
RAISE = ("raise",)


class Blowup(Exception):
    pass


class CCP:
    def __init__(self, g, model, lang="js", maxstates=6000, heaplists=False):
        self.heaplists = heaplists
        self.g = g
        self.model = model
        self.lang = lang
        self.max = maxstates
        self.count = 0
        self.outside = {}
        self.comps = {n.elemnode.id: n.iternode.id for n in g.nodes if n.op == "collect"}

    # ---- terms -----------------------------------------------------------
    def ev(self, t, s, depth=0):
        if depth > 60:
            return TOP
        r = self._ev(t, s, depth + 1)
        for _ in range(6):
            m = self.model("value", r)
            if m is None or m == r:
                return r
            r = m
        return r

    def _ev(self, t, s, d):
        k = t[0]
        if k == "this" and ("F", "this") in s:
            return ("new", "this")
        if k == "param" and t in s:
            return s[t]
        if k in ("c", "fn", "cls", "mod", "glob", "param", "this", "unk", "regex", "sym", "new", "raise", "excof"):
            return t
        if k == "v":
            if t in s:
                return s[t]
            vs = self.g.entry_value(t)
            if len(vs) == 1:
                v = next(iter(vs))
                return self.ev(v, s, d) if v[0] not in ("undef", "v") else v
            return TOP
        if k == "t":
            return s.get(t, t)
        if k == "op":
            return self.op(t[1], t[2:], s, d)
        if k == "a":
            return self.attr(self.ev(t[1], s, d), t[2], s)
        if k == "i":
            return self.index(self.ev(t[1], s, d), self.ev(t[2], s, d), s)
        if k == "cat":
            xs = [self.ev(x, s, d) for x in t[1]]
            if RAISE in xs:
                return RAISE
            return mk_cat([("c", js_str(x[1])) if x[0] == "c" else x for x in xs])
        if k in ("list", "tuple", "set"):
            xs = tuple(self.ev(x, s, d) for x in t[1])
            return RAISE if RAISE in xs else (k, xs)
        if k == "dict":
            xs = tuple((self.ev(a, s, d) if a is not None else None, self.ev(b, s, d)) for a, b in t[1])
            return RAISE if any(RAISE in x for x in xs) else ("dict", xs)
        if k == "star":
            return ("star", self.ev(t[1], s, d))
        if k == "elem":
            return s.get(("elem", t[2]), ("elem", self.ev(t[1], s, d), t[2]))
        if k == "key":
            return s.get(("key", t[2]), ("key", self.ev(t[1], s, d), t[2]))
        if k == "call":
            return self.docall(self.ev(t[1], s, d), tuple(self.ev(x, s, d) for x in t[2]),
                               tuple((n, self.ev(x, s, d)) for n, x in t[3]), s)
        if k in ("obj",):
            return self.ev(self.g.content(t), s, d)
        return t

    def attr(self, o, name, s):
        if o == RAISE or o == ("c", None):
            return RAISE
        if ("W", o, ("c", name)) in s:
            return s[("W", o, ("c", name))]
        if o[0] == "new":
            f = s.get(("F", o[1]))
            if f is not None and f[0] == "dict":
                return self.get(f, ("c", name), s)
            if f is not None and name == "length":
                o = f
        if o[0] == "dict":
            return self.get(o, ("c", name), s)
        if name == "length" and o[0] in ("list", "tuple") and not any(x[0] == "star" for x in o[1]):
            return ("c", len(o[1]))
        if name == "length" and o[0] == "c" and isinstance(o[1], str):
            return ("c", len(o[1]))
        return self.g.prog.mk_attr(o, name)

    def get(self, d, key, s):
        r = ("c", None)
        for k, v in d[1]:
            if k is None:
                v2 = s.get(("F", v[1])) if v[0] == "new" else v
                if v2 is not None and v2[0] == "dict":
                    r2 = self.get(v2, key, s)
                    if r2 != ("c", None):
                        r = r2
                else:
                    return ("i", d, key)
            elif k == key:
                r = v
            elif k[0] != "c" or key[0] != "c":
                return ("i", d, key)
        if r == ("c", None) and self.lang == "js" and key[0] == "c" and key[1] in PROTO:
            return ("sym", "Object.prototype." + key[1])
        return r

    def index(self, o, key, s):
        if o == RAISE or key == RAISE or o == ("c", None):
            return RAISE
        if o[0] == "new":
            f = s.get(("F", o[1]))
            if f is not None:
                o = f
        if o[0] in ("list", "tuple") and key[0] == "c" and isinstance(key[1], int) and not any(x[0] == "star" for x in o[1]):
            n = key[1]
            if -len(o[1]) <= n < len(o[1]):
                return o[1][n]
            return ("c", None) if self.lang == "js" else RAISE
        if ("W", o, key) in s:
            return s[("W", o, key)]
        if o[0] == "dict" and key[0] == "c":
            return self.get(o, key, s)
        if self.lang == "js" and key[0] == "c" and isinstance(key[1], str):
            return self.g.prog.mk_attr(o, key[1])
        return ("i", o, key)

    def truth(self, v, s):
        m = self.model("truth", v)
        if m is not None:
            return m
        k = v[0]
        if k == "c":
            return bool(v[1])
        if k in ("fn", "cls", "mod", "regex"):
            return True
        if k == "new":
            f = s.get(("F", v[1]))
            return True if self.lang == "js" else None if f is None else bool(f[1])
        if k in ("dict", "list", "tuple", "set"):
            return True if self.lang == "js" else bool(v[1])
        if k == "cat" and any(x[0] == "c" and x[1] for x in v[1]):
            return True
        if k == "op" and v[1] == "not":
            r = self.truth(v[2], s)
            return None if r is None else not r
        return None

    def op(self, o, args, s, d):
        if o in ("||", "&&", "or", "and", "??"):
            for i, x in enumerate(args):
                v = self.ev(x, s, d)
                if v == RAISE or i == len(args) - 1:
                    return v
                if o == "??":
                    if v[0] == "c":
                        if v[1] is not None:
                            return v
                        continue
                    t = True if v[0] in ("dict", "list", "cat", "new", "fn") else self.model("notnull", v)
                    if t:
                        return v
                    if t is None:
                        return ("op", o, v) + tuple(self.ev(y, s, d) for y in args[i + 1:])
                    continue
                t = self.truth(v, s)
                if t is None:
                    return ("op", o, v) + tuple(self.ev(y, s, d) for y in args[i + 1:])
                if t == (o in ("||", "or")):
                    return v
        if o == "?:":
            v = self.ev(args[0], s, d)
            if v == RAISE:
                return v
            t = self.truth(v, s)
            if t is None:
                return ("op", o, v, self.ev(args[1], s, d), self.ev(args[2], s, d))
            return self.ev(args[1 if t else 2], s, d)
        xs = tuple(self.ev(x, s, d) for x in args)
        if RAISE in xs:
            return RAISE
        if o in ("not", "!!"):
            t = self.truth(xs[0], s)
            if t is not None:
                return ("c", t != (o == "not"))
        if o == "u-" and xs[0][0] == "c" and isinstance(xs[0][1], (int, float)):
            return ("c", -xs[0][1])
        if o == "default":
            return xs[1] if xs[0] == ("c", None) else xs[0]
        if o == "typeof" and xs[0][0] in ("c", "cat", "fn"):
            v = xs[0]
            return ("c", "string" if v[0] == "cat" or isinstance(v[1], str) else "function" if v[0] == "fn" else
                    "boolean" if isinstance(v[1], bool) else "undefined" if v[1] is None else "number")
        if o in ("+",) and any(x[0] == "cat" or x[0] == "c" and isinstance(x[1], str) for x in xs):
            return mk_cat(list(xs))
        if len(xs) == 2 and o in ("==", "===", "!=", "!==", "is", "is not"):
            e = self.eq(xs[0], xs[1], s)
            if e is not None:
                return ("c", e == (o in ("==", "===", "is")))
        if len(xs) == 2 and xs[0][0] == "c" and xs[1][0] == "c" and o in ("<", ">", "<=", ">=", "+", "-"):
            a, b = xs[0][1], xs[1][1]
            try:
                return ("c", {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                              "+": lambda: a + b, "-": lambda: a - b}[o]())
            except TypeError:
                pass
        if o in ("in", "not in") and len(xs) == 2:
            c = xs[1]
            if c[0] == "new":
                c = s.get(("F", c[1]), c)
            if c[0] in ("list", "tuple", "set") and xs[0][0] == "c" and all(x[0] == "c" for x in c[1]):
                return ("c", (xs[0] in c[1]) == (o == "in"))
            if c[0] == "dict" and xs[0][0] == "c" and all(k is not None and k[0] == "c" for k, _ in c[1]):
                r = any(k == xs[0] for k, _ in c[1]) or self.lang == "js" and xs[0][1] in PROTO
                return ("c", r == (o == "in"))
        if o == "isnull" and len(xs) == 1:
            r = self.eq(xs[0], ("c", None), s)
            if r is not None:
                return ("c", r)
        return ("op", o) + xs

    def eq(self, a, b, s):
        m = self.model("eq", (a, b))
        if m is not None:
            return m
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1] and type(a[1]) is type(b[1])
        if a == b and a[0] in ("sym", "param", "a", "fn", "cls", "new", "mod", "cat"):
            return True
        for x, y in ((a, b), (b, a)):
            if x == ("c", None) and y[0] in ("dict", "list", "new", "fn", "cat", "mod", "regex"):
                return False
            if x[0] == "c" and isinstance(x[1], str) and y[0] == "cat":
                p = y[1]
                if p[0][0] == "c" and not x[1].startswith(p[0][1]) or p[-1][0] == "c" and not x[1].endswith(p[-1][1]):
                    return False
        return None

    def docall(self, callee, args, kw, s):
        if callee == RAISE or RAISE in args:
            return RAISE
        t = ("call", callee, args, kw)
        m = self.model("call", t)
        if m is not None:
            return m
        if callee in (("a", ("glob", "Array"), "from"), ("op", "new", ("glob", "Set"))) and len(args) == 1:
            d = s.get(("F", args[0][1])) if args[0][0] == "new" else args[0]
            if d is not None and d[0] in ("list", "set", "tuple") and all(x[0] == "c" for x in d[1]):
                return ("list", d[1]) if callee[0] == "a" else ("set", tuple(dict.fromkeys(d[1])))
        if callee in HASOWN and len(args) == 2:
            d = s.get(("F", args[0][1])) if args[0][0] == "new" else args[0]
            if d is not None and d[0] == "dict" and args[1][0] == "c" and all(k is not None and k[0] == "c" for k, _ in d[1]):
                return ("c", any(k == args[1] for k, _ in d[1]))
        if callee[0] == "a":
            o, name = callee[1], callee[2]
            if o[0] == "new":
                o = s.get(("F", o[1]), o)
            if name == "hasOwnProperty" and len(args) == 1:
                return self.docall(HASOWN[0], (o, args[0]), (), s)
            if self.lang == "js" and o[0] == "c" and isinstance(o[1], str) and name in ("replace", "replaceAll", "match", "split") and args \
                    and args[0][0] == "regex" and all(x[0] == "c" for x in args[1:]):
                try:
                    rx = re.compile(args[0][1], (re.I if "i" in args[0][2] else 0) | (re.M if "m" in args[0][2] else 0))
                except re.error:
                    return t
                if name == "match":
                    return ("c", True if rx.search(o[1]) else None)
                if name == "split":
                    return ("list", tuple(("c", x) for x in rx.split(o[1])))
                if len(args) > 1 and isinstance(args[1][1], str) and "$" not in args[1][1]:
                    return ("c", rx.sub(lambda m: args[1][1], o[1], count=0 if "g" in args[0][2] else 1))
            if self.lang == "js" and o[0] == "regex" and name == "test" and args and args[0][0] == "c":
                try:
                    return ("c", bool(re.search(o[1], js_str(args[0][1]), re.I if "i" in o[2] else 0)))
                except re.error:
                    return t
            if o[0] == "c" and isinstance(o[1], str) and name == "split" and len(args) == 1 and args[0][0] == "c" and args[0][1]:
                return ("list", tuple(("c", x) for x in o[1].split(args[0][1])))
            if o[0] in ("list",) and name in ("slice", "concat", "at") and all(x[0] in ("c", "new", "list") for x in args) \
                    and not any(x[0] == "star" for x in o[1]):
                if name == "slice" and all(x[0] == "c" and isinstance(x[1], int) for x in args):
                    return ("list", o[1][slice(*([x[1] for x in args] or [None]))] if len(args) != 1 else o[1][args[0][1]:])
                if name == "concat":
                    out = list(o[1])
                    for x in args:
                        x = s.get(("F", x[1]), x) if x[0] == "new" else x
                        out += x[1] if x[0] == "list" else [x]
                    return ("list", tuple(out))
                if name == "at" and args[0][0] == "c":
                    return self.index(o, args[0], s)
            if name in ("includes", "has", "indexOf") and o[0] in ("list", "tuple", "set") and len(args) == 1 and args[0][0] == "c" \
                    and all(x[0] == "c" for x in o[1]):
                if name == "indexOf":
                    return ("c", o[1].index(args[0]) if args[0] in o[1] else -1)
                return ("c", args[0] in o[1])
            if o[0] == "c" and isinstance(o[1], str) and all(x[0] == "c" for x in args):
                r = str_method(o[1], name, [x[1] for x in args])
                if r is not None:
                    return ("c", r)
            if name in ("toString", "trim") and o[0] == "cat" and not args and name == "toString":
                return o
            if name == "concat" and (o[0] == "cat" or o[0] == "c" and isinstance(o[1], str)):
                return mk_cat([o] + list(args))
            if name == "join" and o[0] == "list" and len(args) == 1 and args[0][0] == "c" and not any(x[0] == "star" for x in o[1]):
                out = []
                for i, x in enumerate(o[1]):
                    if i:
                        out.append(args[0])
                    out.append(x)
                return mk_cat(out)
        if callee == ("glob", "String") and len(args) == 1:
            return mk_cat([args[0]]) if args[0][0] in ("cat",) else ("c", js_str(args[0][1])) if args[0][0] == "c" else t
        return t

    # ---- propagation -----------------------------------------------------
    def lit(self, t, s, n, tag):
        """Evaluate; object literals become heap objects so later stores are seen."""
        v = self.ev(t, s)
        return self.heap(v, s, n, tag)

    def heap(self, v, s, n, tag):
        if v[0] == "dict":
            items = tuple((k, self.heap(x, s, n, tag + (i,))) for i, (k, x) in enumerate(v[1]))
            i = self.alloc(s, (n.id,) + tag)
            s[("F", i)] = ("dict", items)
            return ("new", i)
        if v[0] == "list" and self.heaplists:
            xs = []
            for j, x in enumerate(v[1]):
                if x[0] == "star":
                    y = s.get(("F", x[1][1]), x[1]) if x[1][0] == "new" else x[1]
                    if y[0] == "list":
                        xs.extend(y[1])
                        continue
                xs.append(self.heap(x, s, n, tag + (j,)))
            i = self.alloc(s, (n.id,) + tag)
            s[("F", i)] = ("list", tuple(xs))
            return ("new", i)
        return v

    def kwargs(self, n, s):
        return tuple((k, self.ev(v, s)) for k, v in n.kw)

    def finish(self, v, c, args, kw, s, n):
        return v

    def alloc(self, s, i):
        if self.heaplists:
            s["#"] = s.get("#", 0) + 1
            return i + (s["#"],)
        return i

    def mutate(self, c, args, s, n):
        """In-place list methods on heap lists; None when not one."""
        if c[0] != "a" or c[1][0] != "new":
            return None
        i = c[1][1]
        f = s.get(("F", i))
        if f is None or f[0] != "list":
            return None
        xs, name = f[1], c[2]
        if name in ("push", "unshift"):
            add = []
            for a in args:
                if a[0] == "star":
                    y = s.get(("F", a[1][1]), a[1]) if a[1][0] == "new" else a[1]
                    if y[0] != "list":
                        return TOP
                    add += y[1]
                else:
                    add.append(a)
            s[("F", i)] = ("list", xs + tuple(add) if name == "push" else tuple(add) + xs)
            return ("c", len(xs) + len(add))
        if name in ("shift", "pop") and not args:
            if not xs:
                return ("c", None)
            s[("F", i)] = ("list", xs[1:] if name == "shift" else xs[:-1])
            return xs[0] if name == "shift" else xs[-1]
        if name == "sort" and len(args) == 1 and args[0][0] == "fn" and hasattr(self, "sub"):
            f = args[0][1]
            names = [p[0].id if p[0].k == "Name" else None for p in f.params]

            def cmp(a, b):
                e = type(self)(self.sub(f), self.model, maxstates=self.max, heaplists=self.heaplists)
                e.sub = self.sub
                init = {k: v for k, v in s.items() if k[0] == "F"}
                init.update({("param", x): y for x, y in zip(names, (a, b))})
                vs = {r.get(("v", "r", "$ret"), ("c", None)) if k == "return" else TOP for k, _, r in e.run(init)}
                v = vs.pop() if len(vs) == 1 else TOP
                if v[0] != "c" or not isinstance(v[1], (int, float)):
                    raise ValueError
                return v[1]
            try:
                s[("F", i)] = ("list", tuple(sorted(xs, key=functools.cmp_to_key(cmp))))
            except ValueError:
                s[("F", i)] = TOP
            return c[1]
        if name == "reverse" and not args:
            s[("F", i)] = ("list", xs[::-1])
            return c[1]
        if name == "splice" and args and all(a[0] == "c" and isinstance(a[1], int) for a in args[:2]):
            b = args[0][1]
            b = max(0, len(xs) + b) if b < 0 else min(b, len(xs))
            k = max(0, min(args[1][1], len(xs) - b)) if len(args) > 1 else len(xs) - b
            s[("F", i)] = ("list", xs[:b] + tuple(args[2:]) + xs[b + k:])
            return self.heap(("list", xs[b:b + k]), s, n, ("sp",))
        if name in ("indexOf", "lastIndexOf") and len(args) == 1 and args[0][0] == "c" and all(x[0] == "c" for x in xs):
            if args[0] not in xs:
                return ("c", -1)
            return ("c", xs.index(args[0]) if name == "indexOf" else len(xs) - 1 - xs[::-1].index(args[0]))
        return None

    def deep(self, v, s, d=0):
        """A term with heap objects replaced by their contents."""
        if d > 20:
            return v
        if v[0] == "new":
            f = s.get(("F", v[1]))
            return self.deep(f, s, d + 1) if f is not None else v
        if v[0] == "dict":
            return ("dict", tuple((k, self.deep(x, s, d + 1)) for k, x in v[1]))
        if v[0] in ("list", "tuple"):
            return (v[0], tuple(self.deep(x, s, d + 1) for x in v[1]))
        return v

    def run(self, init=None, stop=()):
        """[(kind, node, state)]: every abstract outcome: 'return', 'raise'."""
        out = []
        seen = set()
        todo = [(self.g.entry, dict(init or {}))]
        while todo:
            n, s = todo.pop()
            if len(n.pred) > 1:
                key = (n.id, frozenset(s.items()))
                if key in seen:
                    continue
                seen.add(key)
            self.count += 1
            if self.count > self.max:
                raise Blowup()
            if n.id in stop:
                out.append(("stop", n, s))
                continue
            if n is self.g.exit:
                out.append(("return", n, s))
                continue
            if n is self.g.exc_exit:
                out.append(("raise", n, s))
                continue
            for m, s2 in self.step(n, s):
                todo.append((m, self.entering(n, m, s2)))
        return out

    def entering(self, n, m, s):
        """Forget the position of a loop that was left early when it is entered again."""
        if m.op != "iter" or ("it", m.id) not in s:
            return s
        r = self.outside.get(m.id)
        if r is None:
            r, st = set(), [self.g.entry]
            while st:
                x = st.pop()
                if x.id in r or x is m:
                    continue
                r.add(x.id)
                st += [y for _, y in x.succ]
            self.outside[m.id] = r
        if n.id in r:
            s = {k: v for k, v in s.items() if k not in (("it", m.id), ("snap", m.id), ("elem", m.id), ("open", m.id), ("acc", m.id))}
        return s

    def step(self, n, s):
        norm = [(l, m) for l, m in n.succ if l != "exc"]
        exc = [(l, m) for l, m in n.succ if l == "exc"]
        op = n.op
        if op == "assign":
            s = dict(s)
            v = self.lit(n.term, s, n, ())
            if v == RAISE:
                return self.fail(n, s)
            s[n.var] = v
        elif op == "store":
            s = dict(s)
            o = self.ev(n.obj, s)
            v = self.lit(n.value, s, n, ("s",))
            if o[0] == "new" and ("F", o[1]) in s:
                k = ("c", n.name) if n.name is not None else self.ev(n.key, s)
                d = s[("F", o[1])]
                if d[0] == "list":
                    if k[0] == "c" and isinstance(k[1], int) and 0 <= k[1] < len(d[1]):
                        s[("F", o[1])] = ("list", d[1][:k[1]] + (v,) + d[1][k[1] + 1:])
                    elif k == ("c", len(d[1])):
                        s[("F", o[1])] = ("list", d[1] + (v,))
                    elif k == ("c", "length") and v[0] == "c":
                        s[("F", o[1])] = ("list", d[1][:v[1]])
                    else:
                        s[("F", o[1])] = TOP
                else:
                    s[("F", o[1])] = ("dict", tuple((a, b) for a, b in d[1] if a != k) + ((k, v),))
            elif o == ("c", None):
                return self.fail(n, s)
            else:
                s[("W", o, ("c", n.name) if n.name is not None else self.ev(n.key, s))] = v
        elif op == "call":
            s = dict(s)
            c = self.ev(n.callee, s)
            args = tuple(self.lit(a, s, n, ("a", i)) for i, a in enumerate(n.args))
            kw = self.kwargs(n, s)
            if c == RAISE or RAISE in args:
                return self.fail(n, s)
            v = self.assigned(c, args, s)
            if v is None:
                v = self.mutate(c, args, s, n)
            h = getattr(n, "loop", None)
            if h is not None and ("acc", h) in s:
                acc = s.pop(("acc", h))
                nm = self.g.nodes[h].cbname
                if ("open", h) in s:
                    v = TOP
                elif nm == "map":
                    v = ("list", tuple(x for x, _ in acc))
                elif nm == "filter":
                    ts = [self.truth(x, s) for x, _ in acc]
                    v = TOP if None in ts else ("list", tuple(e for (_, e), t in zip(acc, ts) if t))
                elif nm in ("find", "findIndex"):
                    ts = [self.truth(x, s) for x, _ in acc]
                    i = ts.index(True) if True in ts else None
                    if None in (ts if i is None else ts[:i]):
                        v = TOP
                    elif i is None:
                        v = ("c", None if nm == "find" else -1)
                    else:
                        v = acc[i][1] if nm == "find" else ("c", i)
                elif nm == "forEach":
                    v = ("c", None)
            if v is None:
                if c[0] == "a" and c[1][0] == "list" and c[2] in ("push", "append") and n.callee[0] == "a" and n.callee[1][0] == "v":
                    s[n.callee[1]] = ("list", c[1][1] + args)
                    v = ("c", None)
                else:
                    v = self.finish(self.docall(c, args, kw, s), c, args, kw, s, n)
                    if getattr(n, "new", False):
                        v = self.docall(("op", "new", c), args, kw, s)
            if v == RAISE:
                return self.fail(n, s)
            s[("t", n.id)] = self.heap(v, s, n, ("r",))
            if self.model("effect", ("call", c, args, kw)):
                s["fx"] = s.get("fx", ()) + ((n.id, c, args),)
            m = self.model("throws", ("call", c, args, kw))
            if not m:
                exc = []
            return [(x, s) for _, x in norm] + [(x, {**s, ("v", "E", x.id): ("excof", n.id)}) for _, x in exc]
        elif op == "elem":
            h = self.comps.get(n.id)
            if h is not None and len(n.elts) == 1:
                s = dict(s)
                s[("acc", h)] = s.get(("acc", h), ()) + ((self.lit(n.elts[0], s, n, ("e", s.get(("it", h), 0))), None),)
        elif op == "collect":
            s = dict(s)
            acc = s.pop(("acc", n.iternode.id), ())
            known = len(n.heads) == 1 and ("open", n.iternode.id) not in s
            s[("t", n.id)] = ("list", tuple(x for x, _ in acc)) if known and len(n.elts) == 1 and n.kind != "dict" else TOP
        elif op == "branch":
            if n.term == ("op", "callback") and hasattr(self, "sub"):
                k = self.g.nodes[n.call].callee
                if k[0] == "a" and k[2] in ("sort", "push", "unshift"):
                    return [(m, s) for l, m in norm if l == "F"]
            v = self.ev(n.term, s)
            if v == RAISE:
                return self.fail(n, s)
            t = self.truth(v, s)
            out = []
            for l, m in norm:
                if l in ("T", "F") and t is not None and (l == "T") != t:
                    continue
                out.append((m, s))
            return out
        elif op == "iter":
            v = self.ev(n.term, s)
            m = self.model("iterate", v)
            v = m if m is not None else v
            if v[0] == "new":
                v = s.get(("F", v[1]), v)
            if v[0] == "call" and v[1][0] == "a" and v[1][2] in ("entries", "keys", "values") and not v[2] and self.lang == "js":
                o = v[1][1]
                o = s.get(("F", o[1]), o) if o[0] == "new" else o
                if o[0] in ("list", "tuple") and not any(x[0] == "star" for x in o[1]):
                    v = ("list", tuple(("list", (("c", j), x)) if v[1][2] == "entries" else ("c", j) if v[1][2] == "keys" else x for j, x in enumerate(o[1])))
            if v[0] == "dict" and n.how == "in" and all(k is not None for k, _ in v[1]):
                v = ("list", tuple(k for k, _ in v[1]))
            done = [m for l, m in n.succ if l == "done"]
            body = [m for l, m in n.succ if l == "body"]
            s = dict(s)
            xs = None
            if v[0] in ("list", "tuple") and not any(x[0] == "star" for x in v[1]):
                xs = v[1]
            i = s.get(("it", n.id), 0)
            if i == 0:
                s[("acc", n.id)] = ()
            elif getattr(n, "retvar", None) is not None:
                s[("acc", n.id)] = s.get(("acc", n.id), ()) + ((s.get(n.retvar, ("c", None)), s.get(("elem", n.id), TOP)),)
            if xs is not None:
                if i < len(xs):
                    s[("it", n.id)] = i + 1
                    s[("elem", n.id)] = xs[i]
                    s[("key", n.id)] = xs[i] if n.how == "in" else ("c", i)
                    return [(m, s) for m in body]
                s.pop(("it", n.id), None)
                s.pop(("elem", n.id), None)
                return [(m, s) for m in done]
            s[("open", n.id)] = True
            if i >= 2:
                s.pop(("it", n.id), None)
                return [(m, s) for m in done]
            s2 = dict(s)
            s2[("it", n.id)] = i + 1
            s.pop(("it", n.id), None)
            return [(m, s2) for m in body] + [(m, s) for m in done]
        if not norm and op in ("raise", "reraise", "nop", "catch"):
            return [(m, s) for _, m in exc]
        if op == "await":
            return [(m, s) for _, m in norm] + ([(x, {**s, ("v", "E", x.id): ("excof", n.id)}) for _, x in exc]
                                                if self.model("throws", self.ev(n.term, s)) else [])
        return [(m, s) for _, m in norm]

    def assigned(self, c, args, s):
        if c == ("a", ("glob", "Object"), "assign") and args and args[0][0] == "new" and ("F", args[0][1]) in s:
            d = dict(s[("F", args[0][1])][1])
            for a in args[1:]:
                x = s.get(("F", a[1])) if a[0] == "new" else a
                if x is None or x[0] != "dict":
                    return TOP
                d.update(dict(x[1]))
            s[("F", args[0][1])] = ("dict", tuple(d.items()))
            return args[0]
        return None

    def fail(self, n, s):
        e = [m for l, m in n.succ if l == "exc"] or [m for m in [getattr(n, "handler", None)] if m is not None and m.succ]
        return [(m, {**s, ("v", "E", m.id): ("excof", n.id)}) for m in e] if e else [(self.g.exc_exit, s)] if self.g.exc_exit is not None else []


PROTO = {"constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf", "__proto__"}
HASOWN = (("a", ("glob", "Object"), "hasOwn"),
          ("a", ("a", ("a", ("glob", "Object"), "prototype"), "hasOwnProperty"), "call"))


def js_str(v):
    return "null" if v is None else "true" if v is True else "false" if v is False else str(v)


def str_method(s, name, a):
    if name in ("toLowerCase", "lower") and not a:
        return s.lower()
    if name in ("toUpperCase", "upper") and not a:
        return s.upper()
    if name in ("trim", "strip") and not a:
        return s.strip()
    if name in ("startsWith", "startswith") and len(a) == 1 and isinstance(a[0], str):
        return s.startswith(a[0])
    if name in ("endsWith", "endswith") and len(a) == 1 and isinstance(a[0], str):
        return s.endswith(a[0])
    if name == "indexOf" and len(a) == 1 and isinstance(a[0], str):
        return s.find(a[0])
    if name in ("substring", "substr", "slice") and a and all(isinstance(x, int) and x >= 0 for x in a):
        return s[a[0]:] if len(a) == 1 else s[a[0]:a[0] + a[1]] if name == "substr" else s[a[0]:a[1]]
    if name in ("replace", "replaceAll") and len(a) == 2 and all(isinstance(x, str) for x in a) and "$" not in a[1]:
        return s.replace(a[0], a[1], 1 if name == "replace" else -1)
    if name in ("includes",) and len(a) == 1 and isinstance(a[0], str):
        return a[0] in s
    if name == "toString" and not a:
        return s
    if name == "slice" and a and all(isinstance(x, int) for x in a):
        return s[a[0]:a[1]] if len(a) > 1 else s[a[0]:]
    return None
