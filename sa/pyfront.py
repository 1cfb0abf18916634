"""Python ast -> Core."""
import ast
import os
import re

from .ir import N, Function, Class, Module

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^",
       ast.BitAnd: "&", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def iterated(e):
    """Iterating over iter(x) is iterating over x."""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "iter" and len(e.args) == 1 and not e.keywords:
        e = e.args[0]
    return e


class Scope:
    def __init__(self, parent, fn, names, is_class=False, rename=None):
        self.parent = parent
        self.fn = fn
        self.names = names
        self.is_class = is_class
        self.rename = rename or {}
        self.globals = set()


def bound_names(body):
    """Names bound directly in a function/module/class body."""
    names, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d:
                        visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return names - glob - nonl, glob, nonl


class Front:
    def __init__(self, name, rel):
        self.mod = Module(name, rel, "py")
        self.rel = rel
        self.ncomp = 0

    def loc(self, n):
        return (self.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    def lookup(self, name, loc):
        s = self.scope
        first = True
        while s is not None:
            if s.is_class and not first:
                s = s.parent
                continue
            if name in s.globals:
                return N("Name", loc, id=name, owner=self.mod.fn)
            if name in s.rename:
                return N("Name", loc, id=s.rename[name], owner=s.fn)
            if name in s.names:
                if s.is_class:
                    return N("Name", loc, id=name, owner=None, cls=True)
                return N("Name", loc, id=name, owner=s.fn)
            first = False
            s = s.parent
        return N("Name", loc, id=name, owner=None)

    def module(self, tree):
        fn = Function("<module>", (self.rel, 1, 0), self.mod)
        fn.is_module = True
        self.mod.fn = fn
        self.mod.functions.append(fn)
        self.cur = fn
        self.cls = None
        names, _, _ = bound_names(tree.body)
        self.scope = Scope(None, fn, names)
        for nm in names:
            fn.assigns.setdefault(nm, [])
        fn.body = self.stmts(tree.body)
        return self.mod

    # functions -----------------------------------------------------------
    def function(self, n, cls=None):
        name = getattr(n, "name", None)
        fn = Function(name, self.loc(n), self.mod, self.cur, cls)
        fn.is_async = isinstance(n, ast.AsyncFunctionDef)
        self.cur.children.append(fn)
        self.mod.functions.append(fn)
        a = n.args
        allargs = a.posonlyargs + a.args
        defaults = [None] * (len(allargs) - len(a.defaults)) + [self.expr(d) for d in a.defaults]
        kwd = [self.expr(d) if d else None for d in a.kw_defaults]
        if not isinstance(n, ast.Lambda):
            fn.decorators = [self.expr(d) for d in n.decorator_list]
            fn.is_static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
        body = n.body if isinstance(n.body, list) else []
        names, glob, nonl = bound_names(body) if body else (set(), set(), set())
        if isinstance(n, ast.Lambda):
            for x in ast.walk(n.body):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
        pn = [x.arg for x in allargs + a.kwonlyargs]
        if a.vararg:
            pn.append(a.vararg.arg)
        if a.kwarg:
            pn.append(a.kwarg.arg)
        save = (self.cur, self.scope, self.cls)
        self.cur = fn
        self.cls = None
        self.scope = Scope(self.scope, fn, set(names) | set(pn))
        self.scope.globals = set(glob)
        for nm in self.scope.names:
            fn.assigns.setdefault(nm, [])
        mk = lambda x: N("Name", self.loc(x), id=x.arg, owner=fn)
        for x, d in zip(allargs, defaults):
            fn.params.append((mk(x), d, "pos"))
        if a.vararg:
            fn.params.append((mk(a.vararg), None, "rest"))
        for x, d in zip(a.kwonlyargs, kwd):
            fn.params.append((mk(x), d, "kwonly"))
        if a.kwarg:
            fn.params.append((mk(a.kwarg), None, "kw"))
        if isinstance(n, ast.Lambda):
            e = self.expr(n.body)
            fn.body = [N("Return", e.loc, e=e)]
        else:
            fn.body = self.stmts(n.body)
            fn.is_gen = any(x.k == "Yield" for s in fn.body for x in _walk(s))
        self.cur, self.scope, self.cls = save
        return fn

    def classdef(self, n):
        c = Class(n.name, self.loc(n), self.mod, self.cur)
        c.bases = [self.expr(b) for b in n.bases]
        c.decorators = [self.expr(d) for d in n.decorator_list]
        c.annotated = []
        names, _, _ = bound_names(n.body)
        save = (self.scope, self.cls)
        self.scope = Scope(self.scope, self.cur, names, is_class=True)
        self.cls = c
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = self.function(s, c)
            elif isinstance(s, ast.Assign):
                v = self.expr(s.value)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.fields[t.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annotated.append(s.target.id)
                if s.value is not None:
                    c.fields[s.target.id] = self.expr(s.value)
            elif isinstance(s, ast.ClassDef):
                self.classdef(s)
        self.scope, self.cls = save
        self.mod.classes[n.name] = c
        return c

    # statements ----------------------------------------------------------
    def stmts(self, body):
        out = []
        for s in body:
            r = self.stmt(s)
            if r is not None:
                out.append(r)
        return out

    def bind(self, pat, val):
        if pat.k == "Name" and pat.owner is not None:
            pat.owner.assigns.setdefault(pat.id, []).append(val)
        elif pat.k in ("Tuple", "List"):
            for i, q in enumerate(pat.es):
                self.bind(q, None if val is None else N("Index", pat.loc, obj=val, key=N("Const", pat.loc, v=i)))
        elif pat.k == "Star":
            self.bind(pat.e, None)

    def stmt(self, s):
        loc = self.loc(s)
        T = type(s)
        if T is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return None
            return N("Expr", loc, e=self.expr(s.value))
        if T is ast.Assign:
            v = self.expr(s.value)
            ts = [self.expr(t) for t in s.targets]
            for t in ts:
                self.bind(t, v)
            return N("Assign", loc, targets=ts, value=v)
        if T is ast.AnnAssign:
            if s.value is None:
                return None
            v = self.expr(s.value)
            t = self.expr(s.target)
            self.bind(t, v)
            return N("Assign", loc, targets=[t], value=v)
        if T is ast.AugAssign:
            t = self.expr(s.target)
            v = self.expr(s.value)
            self.bind(t, None)
            return N("Aug", loc, target=t, op=OPS[type(s.op)], e=v)
        if T in (ast.FunctionDef, ast.AsyncFunctionDef):
            fn = self.function(s)
            nm = self.lookup(s.name, loc)
            nm.owner.funcdefs[nm.id] = fn
            nm.owner.assigns.setdefault(nm.id, []).append(N("Fn", loc, fn=fn))
            return N("FuncDef", loc, fn=fn, name=nm)
        if T is ast.ClassDef:
            return N("ClassDef", loc, cls=self.classdef(s))
        if T is ast.Return:
            return N("Return", loc, e=self.expr(s.value) if s.value else None)
        if T is ast.Raise:
            return N("Raise", loc, e=self.expr(s.exc) if s.exc else None,
                     cause=self.expr(s.cause) if s.cause else None)
        if T is ast.If:
            return N("IfS", loc, test=self.expr(s.test), body=self.stmts(s.body), orelse=self.stmts(s.orelse))
        if T is ast.While:
            return N("While", loc, test=self.expr(s.test), body=self.stmts(s.body), orelse=self.stmts(s.orelse),
                     post=False, update=None)
        if T in (ast.For, ast.AsyncFor):
            it = self.expr(iterated(s.iter))
            t = self.expr(s.target)
            self.bind(t, None)
            return N("For", loc, target=t, iter=it, body=self.stmts(s.body), orelse=self.stmts(s.orelse), how="py")
        if T is ast.Try:
            hs = []
            for h in s.handlers:
                nm = None
                if h.name:
                    nm = self.lookup(h.name, self.loc(h))
                    self.bind(nm, None)
                hs.append((self.expr(h.type) if h.type else None, nm, self.stmts(h.body)))
            return N("Try", loc, body=self.stmts(s.body), handlers=hs, orelse=self.stmts(s.orelse),
                     final=self.stmts(s.finalbody) if s.finalbody else None)
        if T in (ast.With, ast.AsyncWith):
            items = []
            for i in s.items:
                c = self.expr(i.context_expr)
                v = None
                if i.optional_vars:
                    v = self.expr(i.optional_vars)
                    self.bind(v, c)
                items.append((c, v))
            return N("With", loc, items=items, body=self.stmts(s.body))
        if T is ast.Break:
            return N("Break", loc, label=None)
        if T is ast.Continue:
            return N("Continue", loc, label=None)
        if T is ast.Delete:
            return N("Del", loc, targets=[self.expr(t) for t in s.targets])
        if T is ast.Assert:
            return N("Assert", loc, test=self.expr(s.test), msg=self.expr(s.msg) if s.msg else None)
        if T is ast.Import:
            for a in s.names:
                nm = self.lookup((a.asname or a.name).split(".")[0], loc)
                target = a.name if a.asname else a.name.split(".")[0]
                v = N("Mod", loc, name=target)
                if nm.owner is not None:
                    nm.owner.assigns.setdefault(nm.id, []).append(v)
            return N("ImportS", loc, names=[(self.lookup((a.asname or a.name).split(".")[0], loc),
                                            N("Mod", loc, name=a.name if a.asname else a.name.split(".")[0]))
                                           for a in s.names])
        if T is ast.ImportFrom:
            base = s.module or ""
            if s.level:
                pkg = self.mod.name.split(".")
                if not self.rel.endswith("__init__.py"):
                    pkg = pkg[:-1]
                pkg = pkg[: len(pkg) - (s.level - 1)]
                base = ".".join(pkg + ([s.module] if s.module else []))
            out = []
            for a in s.names:
                nm = self.lookup(a.asname or a.name, loc)
                v = N("Attr", loc, obj=N("Mod", loc, name=base), name=a.name)
                if nm.owner is not None:
                    nm.owner.assigns.setdefault(nm.id, []).append(v)
                out.append((nm, v))
            return N("ImportS", loc, names=out)
        if T in (ast.Pass, ast.Global, ast.Nonlocal):
            return None
        raise NotImplementedError(f"Python statement {T.__name__} at {loc}")

    # expressions ---------------------------------------------------------
    def expr(self, e):
        loc = self.loc(e)
        T = type(e)
        if T is ast.Constant:
            return N("Const", loc, v=e.value if e.value is not Ellipsis else "...")
        if T is ast.Name:
            return self.lookup(e.id, loc)
        if T is ast.Attribute:
            return N("Attr", loc, obj=self.expr(e.value), name=e.attr)
        if T is ast.Subscript:
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                f = lambda x: self.expr(x) if x else N("Const", loc, v=None)
                key = N("Op", loc, op="slice", args=[f(sl.lower), f(sl.upper), f(sl.step)])
            else:
                key = self.expr(e.slice)
            return N("Index", loc, obj=self.expr(e.value), key=key)
        if T is ast.Call:
            args = [self.expr(a) for a in e.args]
            kw = [(k.arg, self.expr(k.value)) for k in e.keywords]
            # str.format / join on literals -> Cat
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) \
                    and isinstance(f.value.value, str) and not kw and all(x.k != "Star" for x in args):
                r = self.fmt(f.value.value, args, loc)
                if r is not None:
                    return r
            return N("Call", loc, fn=self.expr(f), args=args, kw=kw, new=False)
        if T is ast.BinOp:
            a, b = self.expr(e.left), self.expr(e.right)
            if isinstance(e.op, ast.Add) and (_strish(a) or _strish(b)):
                pa = a.parts if a.k == "Cat" else [a]
                pb = b.parts if b.k == "Cat" else [b]
                return N("Cat", loc, parts=pa + pb)
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                r = self.percent(e.left.value, b, loc)
                if r is not None:
                    return r
            return N("Op", loc, op=OPS[type(e.op)], args=[a, b])
        if T is ast.UnaryOp:
            a = self.expr(e.operand)
            if isinstance(e.op, ast.Not):
                return N("Not", loc, e=a)
            if isinstance(e.op, ast.USub) and a.k == "Const" and isinstance(a.v, (int, float)):
                return N("Const", loc, v=-a.v)
            return N("Op", loc, op="u" + {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], args=[a])
        if T is ast.BoolOp:
            es = [self.expr(x) for x in e.values]
            return N("And" if isinstance(e.op, ast.And) else "Or", loc, es=es)
        if T is ast.Compare:
            left = self.expr(e.left)
            out = []
            for op, c in zip(e.ops, e.comparators):
                r = self.expr(c)
                o = CMP[type(op)]
                if o == "not in":
                    out.append(N("Not", loc, e=N("Op", loc, op="in", args=[left, r])))
                elif o == "is not":
                    out.append(N("Not", loc, e=N("Op", loc, op="is", args=[left, r])))
                else:
                    out.append(N("Op", loc, op=o, args=[left, r]))
                left = r
            return out[0] if len(out) == 1 else N("And", loc, es=out)
        if T is ast.IfExp:
            return N("If", loc, test=self.expr(e.test), a=self.expr(e.body), b=self.expr(e.orelse))
        if T is ast.Lambda:
            return N("Fn", loc, fn=self.function(e))
        if T is ast.List:
            return N("List", loc, es=[self.expr(x) for x in e.elts])
        if T is ast.Tuple:
            return N("Tuple", loc, es=[self.expr(x) for x in e.elts])
        if T is ast.Set:
            return N("Set", loc, es=[self.expr(x) for x in e.elts])
        if T is ast.Dict:
            return N("Dict", loc, items=[(self.expr(k) if k else None, self.expr(v))
                                         for k, v in zip(e.keys, e.values)])
        if T is ast.Starred:
            return N("Star", loc, e=self.expr(e.value))
        if T is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(N("Const", loc, v=v.value))
                else:
                    x = self.expr(v.value)
                    if v.conversion == 114:
                        x = N("Op", loc, op="repr", args=[x])
                    if v.format_spec is not None:
                        x = N("Op", loc, op="format", args=[x, self.expr(v.format_spec)])
                    parts.append(x)
            return N("Cat", loc, parts=parts)
        if T in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(e, loc)
        if T is ast.NamedExpr:
            v = self.expr(e.value)
            t = self.expr(e.target)
            self.bind(t, v)
            return N("AssignE", loc, target=t, e=v)
        if T is ast.Await:
            return N("Await", loc, e=self.expr(e.value))
        if T in (ast.Yield, ast.YieldFrom):
            return N("Yield", loc, e=self.expr(e.value) if e.value else N("Const", loc, v=None), star=T is ast.YieldFrom)
        raise NotImplementedError(f"Python expression {T.__name__} at {loc}")

    def comp(self, e, loc):
        save = self.scope
        gens = []
        for g in e.generators:
            it = self.expr(iterated(g.iter))
            self.ncomp += 1
            ren = {}
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    ren[x.id] = f"{x.id}#c{self.ncomp}"
            self.scope = Scope(self.scope, self.cur, set(), rename=ren)
            for u in ren.values():
                self.cur.assigns.setdefault(u, []).append(None)
            t = self.expr(g.target)
            gens.append((t, it, [self.expr(c) for c in g.ifs]))
        if isinstance(e, ast.DictComp):
            elts = [self.expr(e.key), self.expr(e.value)]
            kind = "dict"
        else:
            elts = [self.expr(e.elt)]
            kind = {ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "gen"}[type(e)]
        self.scope = save
        return N("Comp", loc, kind=kind, elts=elts, gens=gens)

    def percent(self, f, b, loc):
        specs = list(re.finditer(r"%(\((\w+)\))?[-#0 +]*(\*|\d+)?(\.\d+)?([a-zA-Z%])", f))
        if any(m.group(1) or m.group(3) == "*" for m in specs):
            return None
        args = b.es if b.k == "Tuple" else [b]
        real = [m for m in specs if m.group(5) != "%"]
        if len(real) != len(args):
            return None
        parts, pos, i = [], 0, 0
        for m in specs:
            if m.start() > pos:
                parts.append(N("Const", loc, v=f[pos:m.start()]))
            if m.group(5) == "%":
                parts.append(N("Const", loc, v="%"))
            else:
                x = args[i]
                i += 1
                if m.group(0) == "%r":
                    x = N("Op", loc, op="repr", args=[x])
                elif m.group(0) != "%s":
                    x = N("Op", loc, op="fmt" + m.group(0), args=[x])
                parts.append(x)
            pos = m.end()
        if pos < len(f):
            parts.append(N("Const", loc, v=f[pos:]))
        return N("Cat", loc, parts=parts)

    def fmt(self, f, args, loc):
        parts, pos, auto = [], 0, 0
        for m in re.finditer(r"\{\{|\}\}|\{(\d*)\}", f):
            if m.start() > pos:
                s = f[pos:m.start()]
                if "{" in s or "}" in s:
                    return None
                parts.append(N("Const", loc, v=s))
            if m.group(0) in ("{{", "}}"):
                parts.append(N("Const", loc, v=m.group(0)[0]))
            else:
                i = int(m.group(1)) if m.group(1) else auto
                auto += 1
                if i >= len(args):
                    return None
                parts.append(args[i])
            pos = m.end()
        if pos < len(f):
            if "{" in f[pos:]:
                return None
            parts.append(N("Const", loc, v=f[pos:]))
        return N("Cat", loc, parts=parts)


def _strish(n):
    return (n.k == "Const" and isinstance(n.v, str)) or n.k == "Cat"


def _walk(s):
    from .ir import walk
    return walk(s)


class Desugar(ast.NodeTransformer):
    """match statements as chains of ifs, suppressed exceptions as handlers."""

    def visit_With(self, n):
        """with contextlib.suppress(E): body is try: body, except E: pass."""
        self.generic_visit(n)
        c = n.items[0].context_expr
        f = c.func if isinstance(c, ast.Call) else None
        if (getattr(f, "id", None) or getattr(f, "attr", None)) != "suppress" or c.keywords:
            return n
        body = n.body if len(n.items) == 1 else [ast.copy_location(ast.With(items=n.items[1:], body=n.body), n)]
        t = ast.Try(body=body, handlers=[ast.ExceptHandler(type=ast.Tuple(c.args, ast.Load()) if len(c.args) != 1 else c.args[0], name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
        ast.copy_location(t, n)
        for y in ast.walk(t):
            if "lineno" in y._attributes and not hasattr(y, "lineno"):
                ast.copy_location(y, n)
        return t

    def visit_Match(self, n):
        self.generic_visit(n)
        out = []
        subj = n.subject
        if not isinstance(subj, ast.Name):
            name = f"_match_{n.lineno}_{n.col_offset}"
            out.append(ast.Assign(targets=[ast.Name(name, ast.Store())], value=subj))
            subj = ast.Name(name, ast.Load())
        top = last = None
        for c in n.cases:
            t = self.pattern(c.pattern, subj)
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            i = ast.If(test=t, body=c.body, orelse=[])
            ast.copy_location(i, c.body[0])
            if last is None:
                top = i
            else:
                last.orelse = [i]
            last = i
        out.append(top)
        for x in out:
            ast.copy_location(x, n)
            for y in ast.walk(x):
                if "lineno" in y._attributes and not hasattr(y, "lineno"):
                    ast.copy_location(y, n)
        return out

    def pattern(self, p, v):
        yes = ast.Constant(True)
        call = lambda f, *a: ast.Call(func=ast.Name(f, ast.Load()), args=list(a), keywords=[])
        every = lambda ts: ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts) if ts else yes
        T = type(p)
        if T is ast.MatchValue:
            return ast.Compare(v, [ast.Eq()], [p.value])
        if T is ast.MatchSingleton:
            return ast.Compare(v, [ast.Is()], [ast.Constant(p.value)])
        if T is ast.MatchOr:
            return ast.BoolOp(ast.Or(), [self.pattern(q, v) for q in p.patterns])
        if T is ast.MatchAs:
            ts = [self.pattern(p.pattern, v)] if p.pattern is not None else []
            if p.name is not None:
                ts.append(ast.Tuple([ast.NamedExpr(ast.Name(p.name, ast.Store()), v)], ast.Load()))
            return every(ts)
        if T is ast.MatchClass:
            ts = [call("isinstance", v, p.cls)]
            ts += [self.pattern(q, v) for q in p.patterns[:1]]
            ts += [self.pattern(q, ast.Attribute(v, a, ast.Load())) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
            return every(ts)
        if T is ast.MatchSequence:
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            n = len(p.patterns) - (star is not None)
            ts = [call("isinstance", v, ast.Tuple([ast.Name("list", ast.Load()), ast.Name("tuple", ast.Load())], ast.Load())),
                  ast.Compare(call("len", v), [ast.Eq() if star is None else ast.GtE()], [ast.Constant(n)])]
            for i, q in enumerate(p.patterns):
                if i == star:
                    if q.name is not None:
                        hi = i - n
                        sl = ast.Slice(ast.Constant(i), ast.Constant(hi) if hi else None, None)
                        x = call("list", ast.Subscript(v, sl, ast.Load()))
                        ts.append(ast.Tuple([ast.NamedExpr(ast.Name(q.name, ast.Store()), x)], ast.Load()))
                else:
                    k = i if star is None or i < star else i - n - 1
                    ts.append(self.pattern(q, ast.Subscript(v, ast.Constant(k), ast.Load())))
            return every(ts)
        if T is ast.MatchMapping:
            ts = [call("isinstance", v, ast.Name("dict", ast.Load()))]
            for k, q in zip(p.keys, p.patterns):
                ts.append(ast.Compare(k, [ast.In()], [v]))
                ts.append(self.pattern(q, ast.Subscript(v, k, ast.Load())))
            return every(ts)
        raise NotImplementedError(f"pattern {T.__name__}")


def load(repo, files):
    """files: [(module name, relative path)]"""
    mods = {}
    for name, rel in files:
        with open(os.path.join(repo, rel), encoding="utf8") as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, rel)
        mods[name] = Front(name, rel).module(Desugar().visit(tree))
    return mods
