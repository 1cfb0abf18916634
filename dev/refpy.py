#!/usr/bin/env python3
"""Behaviour-preserving rewrites of Python sources (development aid).

refpy.py <transform> <in> <out> [qualname regex]"""
import ast
import copy
import re
import sys

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def bound(fn):
    """names bound by statements of fn itself (not nested scopes), and those declared global/nonlocal"""
    out, glob = set(), set()

    def go(n):
        if isinstance(n, FN + (ast.ClassDef,)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
                glob.add((a.asname or a.name).split(".")[0])
        for k in ast.iter_child_nodes(n):
            go(k)

    for s in fn.body:
        go(s)
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    return out - glob - params


def scopes_inside(fn):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, FN + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            yield n


def rename_locals(fn):
    names = {n for n in bound(fn) if not any(isinstance(x, FN + (ast.ClassDef,)) and x.name == n for x in ast.walk(fn))}
    for s in scopes_inside(fn):
        if isinstance(s, FN):
            names -= bound(s) | {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)}
            for n in ast.walk(s):
                if isinstance(n, (ast.Nonlocal, ast.Global)):
                    names -= set(n.names)
        elif isinstance(s, ast.Lambda):
            names -= {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)}
        elif isinstance(s, ast.ClassDef):
            names -= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        else:
            names -= {n.id for g in s.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names:
            n.id += "_v"
        if isinstance(n, ast.ExceptHandler) and n.name in names:
            n.name += "_v"


def blocks(fn):
    """statement lists of fn, nested functions excluded"""
    todo = [fn]
    first = True
    while todo:
        n = todo.pop()
        if isinstance(n, FN + (ast.ClassDef, ast.Lambda)) and not first:
            continue
        first = False
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b
                todo.extend(b)
        for h in getattr(n, "handlers", []):
            todo.append(h)


def mapstmts(fn, g):
    """replace every statement s of fn by the list g(s)"""
    for n, f, b in list(blocks(fn)):
        new = []
        for s in b:
            new.extend(g(s))
        setattr(n, f, new)


COUNT = [0]


def fresh(p):
    COUNT[0] += 1
    return f"{p}{COUNT[0]}_"


def N(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([N(n, True)], v)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in inv:
        return ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def invert_if(fn):
    def g(s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(neg(s.test), s.orelse, s.body)]
        return [s]
    mapstmts(fn, g)


def invert_noelse(fn):
    def g(s):
        if isinstance(s, ast.If) and not s.orelse:
            return [ast.If(neg(s.test), [ast.Pass()], s.body)]
        return [s]
    mapstmts(fn, g)


def ends(b):
    l = b[-1]
    if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(l, ast.If) and bool(l.orelse) and ends(l.body) and ends(l.orelse)


def guard_else(fn):
    """if c: return x; rest  ->  if c: return x else: rest"""
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def else_flat(fn):
    """if c: return x else: rest -> if c: return x; rest"""
    def g(s):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            r = s.orelse
            s.orelse = []
            return [s] + r
        return [s]
    mapstmts(fn, g)


def tail_guard(fn):
    """last `if c: body` of a function or loop -> if not c: return/continue; body"""
    def do(b, exit_):
        s = b[-1]
        if isinstance(s, ast.If) and not s.orelse and len(s.body) > 1:
            b[-1:] = [ast.If(neg(s.test), [exit_()], [])] + s.body
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
        do(fn.body, lambda: ast.Return(None))
    for n, f, b in list(blocks(fn)):
        if isinstance(n, (ast.For, ast.While)) and f == "body":
            do(b, ast.Continue)


def ret_local(fn):
    def g(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = fresh("result")
            return [assign(v, s.value), ast.Return(N(v))]
        return [s]
    mapstmts(fn, g)


def cond_local(fn):
    def g(s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = fresh("cond")
            t = s.test
            s.test = N(v)
            return [assign(v, t), s]
        return [s]
    mapstmts(fn, g)


def pure(e):
    return isinstance(e, (ast.Constant, ast.Name)) or (isinstance(e, (ast.Tuple, ast.List)) and all(pure(x) for x in e.elts) and 0)


def arg_local(fn):
    """f(e1, e2) as a statement or assigned -> a1 = e1; a2 = e2; f(a1, a2)"""
    def g(s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in c.args):
            if not (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name) or isinstance(c.func.value, ast.Attribute)):
                return [s]
            pre = []
            for i, a in enumerate(c.args):
                if not pure(a) and not isinstance(a, (ast.GeneratorExp, ast.Lambda)):
                    v = fresh("arg")
                    pre.append(assign(v, a))
                    c.args[i] = N(v)
            for k in c.keywords:
                if k.arg and not pure(k.value) and not isinstance(k.value, ast.Lambda):
                    v = fresh("arg")
                    pre.append(assign(v, k.value))
                    k.value = N(v)
            return pre + [s]
        return [s]
    mapstmts(fn, g)


def loop_local(fn):
    def g(s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            v = fresh("seq")
            t = s.iter
            s.iter = N(v)
            return [assign(v, t), s]
        return [s]
    mapstmts(fn, g)


def loop_iter(fn):
    """for x in e -> for x in iter(e)"""
    def g(s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(N("iter"), [s.iter], [])
        return [s]
    mapstmts(fn, g)


def and_nest(fn):
    def g(s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            t = s.test.values
            rest = t[1] if len(t) == 2 else ast.BoolOp(ast.And(), t[1:])
            return [ast.If(t[0], [ast.If(rest, s.body, [])], [])]
        return [s]
    mapstmts(fn, g)


def demorgan(fn):
    def g(s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in s.test.values]))
        return [s]
    mapstmts(fn, g)


def comp_loop(fn):
    """x = [e for v in it if c] -> loop with append (targets renamed)"""
    def g(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
            lc = s.value
            names = {n.id for q in lc.generators for n in ast.walk(q.target) if isinstance(n, ast.Name)}
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in ast.walk(lc) if x is not lc):
                return [s]
            m = {n: fresh(n) for n in names}
            for n in ast.walk(lc):
                if isinstance(n, ast.Name) and n.id in m:
                    n.id = m[n.id]
            v = fresh("items")
            body = [ast.Expr(ast.Call(ast.Attribute(N(v), "append", ast.Load()), [lc.elt], []))]
            for q in reversed(lc.generators):
                for t in reversed(q.ifs):
                    body = [ast.If(t, body, [])]
                body = [ast.For(q.target, q.iter, body, [])]
            s.value = N(v)
            return [assign(v, ast.List([], ast.Load()))] + body + [s]
        return [s]
    mapstmts(fn, g)


def loop_comp(fn):
    """x = []; for v in it: [if c:] x.append(e) -> comprehension"""
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a, l = b[i], b[i + 1]
            i += 1
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts):
                continue
            if not (isinstance(l, ast.For) and not l.orelse and len(l.body) == 1):
                continue
            s = l.body[0]
            ifs = []
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                ifs = [s.test]
                s = s.body[0]
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append"
                    and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == a.targets[0].id):
                continue
            x = a.targets[0].id
            e = s.value.args[0]
            tn = {q.id for q in ast.walk(l.target) if isinstance(q, ast.Name)}
            if any(isinstance(q, ast.Name) and q.id == x for w in [e] + ifs + [l.iter] for q in ast.walk(w)):
                continue
            used = sum(isinstance(q, ast.Name) and q.id in tn for q in ast.walk(fn))
            here = sum(isinstance(q, ast.Name) and q.id in tn for q in ast.walk(l))
            if used != here:
                continue
            b[i - 1:i + 1] = [assign(x, ast.ListComp(e, [ast.comprehension(l.target, l.iter, ifs, 0)]))]


def isgen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


def wrap(tree, pick):
    """def f(a): body -> def f(a): return f_impl_(a)"""
    def conv(body, incls, prefix):
        out = []
        for s in body:
            if isinstance(s, FN) and pick(prefix + s.name) and not s.decorator_list and not isgen(s) and not s.name.startswith("__"):
                a = s.args
                if not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs) and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                    impl = copy.deepcopy(s)
                    impl.name = "_" + s.name.lstrip("_") + "_impl"
                    impl.args.defaults = []
                    args = [N(x.arg) for x in a.args]
                    if incls:
                        if not a.args or a.args[0].arg != "self":
                            out.append(s)
                            continue
                        callee = ast.Attribute(N("self"), impl.name, ast.Load())
                        args = args[1:]
                    else:
                        callee = N(impl.name)
                    doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                    s.body = doc + [ast.Return(ast.Call(callee, args, []))]
                    out += [impl, s]
                    continue
            elif isinstance(s, ast.ClassDef):
                s.body = conv(s.body, True, prefix + s.name + ".")
            out.append(s)
        return out
    tree.body = conv(tree.body, False, "")


def extract(tree, pick):
    """if-bodies and loop bodies without assignments or control flow -> module level helper"""
    helpers = []
    modnames = {n.id for s in tree.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} if 0 else set()

    def do(fn):
        loc = bound(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        if isgen(fn):
            return
        for n, f, b in list(blocks(fn)):
            if n is fn or isinstance(n, ast.Try) or isinstance(n, ast.ExceptHandler) or len(b) < 1:
                continue
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Global, ast.Nonlocal, ast.Del, ast.NamedExpr, ast.Import, ast.ImportFrom) + FN + (ast.ClassDef,)) for s in b for x in ast.walk(s)):
                continue
            if any(isinstance(x, ast.Raise) and x.exc is None for s in b for x in ast.walk(s)):
                continue
            stores = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} & loc
            if stores:
                continue
            if any(isinstance(x, ast.ExceptHandler) and x.name for s in b for x in ast.walk(s)):
                continue
            if isinstance(b[0], ast.If) and len(b) == 1 and f == "orelse":
                continue
            if len(b) == 1 and isinstance(b[0], (ast.Raise, ast.Pass)):
                continue
            cb = set()
            free = sorted({x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name)} & loc)
            h = fresh("_helper")
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), copy.deepcopy(b), []))
            b[:] = [ast.Expr(ast.Call(N(h), [N(x) for x in free], []))]

    for name, fn in functions(tree, top=True):
        if pick(name):
            do(fn)
    i = next((k for k, s in enumerate(tree.body) if isinstance(s, FN + (ast.ClassDef,))), len(tree.body))
    tree.body[i:i] = helpers


def free_names(e, loc):
    own = {n.id for x in ast.walk(e) if isinstance(x, ast.comprehension) for n in ast.walk(x.target) if isinstance(n, ast.Name)} | {a.arg for x in ast.walk(e) if isinstance(x, ast.arguments) for a in ast.walk(x) if isinstance(a, ast.arg)}
    return sorted(({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & loc) - own)


def expr_helpers(which):
    def t(tree, pick):
        helpers = []

        def make(e, loc):
            if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)) for x in ast.walk(e)):
                return e
            if any(isinstance(x, ast.Name) and x.id in ("globals", "locals", "super", "vars", "__class__") for x in ast.walk(e)):
                return e
            free = free_names(e, loc)
            h = fresh("_helper")
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(copy.deepcopy(e))], []))
            return ast.Call(N(h), [N(x) for x in free], [])

        for name, fn in functions(tree, top=True):
            if not pick(name):
                continue
            loc = bound(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            for n, f, b in list(blocks(fn)):
                for s in b:
                    if which == "cond" and isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                        s.test = make(s.test, loc)
                    if which == "val" and isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.Call, ast.BinOp, ast.BoolOp, ast.IfExp, ast.ListComp, ast.JoinedStr, ast.Dict, ast.List, ast.Subscript)):
                        s.value = make(s.value, loc)
        i = next((k for k, s in enumerate(tree.body) if isinstance(s, FN + (ast.ClassDef,))), len(tree.body))
        tree.body[i:i] = helpers
    return t


def ifexp(fn):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    def g(s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and isinstance(a.targets[0], ast.Name) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
        return [s]
    mapstmts(fn, g)


def un_ifexp(fn):
    def g(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and (isinstance(s, ast.Return) or isinstance(s.targets[0], ast.Name)):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]
    mapstmts(fn, g)


class PF(ast.NodeTransformer):
    """'..%s..' % x -> f-string"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            parts = re.split(r"(%.)", n.left.value)
            ops = [p for p in parts if p.startswith("%") and len(p) == 2]
            if any(p not in ("%s", "%%", "%d") for p in ops):
                return n
            k = sum(p != "%%" for p in ops)
            if isinstance(n.right, ast.Tuple):
                args = n.right.elts
            elif k == 1 and isinstance(n.right, (ast.Constant, ast.Attribute, ast.JoinedStr)):
                args = [n.right]
            else:
                return n
            if len(args) != k or any(isinstance(a, ast.Starred) for a in args):
                return n
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str) for a in args for x in ast.walk(a)):
                return n
            it = iter(args)
            vals = []
            for p in parts:
                if p == "%%":
                    vals.append(ast.Constant("%"))
                elif p.startswith("%") and len(p) == 2:
                    if p == "%d":
                        return n
                    vals.append(ast.FormattedValue(next(it), -1, None))
                elif p:
                    vals.append(ast.Constant(p))
            return ast.JoinedStr(vals)
        return n


def fstring(fn):
    PF().visit(fn)


def aug(fn):
    """i += <int const> -> i = i + const"""
    def g(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.op, ast.Add):
            return [assign(s.target.id, ast.BinOp(N(s.target.id), ast.Add(), s.value))]
        return [s]
    mapstmts(fn, g)


def alias_attr(fn):
    """no-op statements and a debugging local at the head"""
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body[k:k] = [assign(fresh("unused"), ast.Constant(None))]


def items_loop(fn):
    """for k, v in d.items(): -> for k in d: v = d[k]   (only when body does not store into d)"""
    def g(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and not s.iter.args:
            d = s.iter.func.value
            if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and isinstance(d, ast.Name):
                k, v = s.target.elts
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in (d.id, k.id) for b in s.body for x in ast.walk(b)):
                    return [s]
                return [ast.For(k, d, [ast.Assign([v], ast.Subscript(d, N(k.id), ast.Load()))] + s.body, s.orelse)]
        return [s]
    mapstmts(fn, g)


def in_keys(fn):
    """x in d -> ok only as d.keys() for attribute/name 'dict' looking things: skipped; not x in y -> x not in y"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators))
            return n
    T().visit(fn)


def swap_eq(fn):
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                return ast.Compare(n.comparators[0], n.ops, [n.left])
            return n
    T().visit(fn)


def elif_split(fn):
    """if a: return..  elif b: -> separate ifs when the first ends (else_flat does it); here: x in (..) -> or chain"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and isinstance(n.left, ast.Name) and len(n.comparators[0].elts) > 1:
                return ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return n
    T().visit(fn)


def or_chain_in(fn):
    """a == 'x' or a == 'y' -> a in ('x', 'y')"""
    class T(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Or) and all(isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], ast.Eq) and isinstance(v.comparators[0], ast.Constant) for v in n.values):
                if len({ast.dump(v.left) for v in n.values}) == 1 and isinstance(n.values[0].left, ast.Name):
                    return ast.Compare(n.values[0].left, [ast.In()], [ast.Tuple([v.comparators[0] for v in n.values], ast.Load())])
            return n
    T().visit(fn)


def inline_single(fn):
    """x = e; <next stmt uses x once, x nowhere else> -> inlined"""
    shared = {x for q in ast.walk(fn) if isinstance(q, (ast.Global, ast.Nonlocal)) for x in q.names}
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a, s = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id not in shared and isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                x = a.targets[0].id
                tot = [q for q in ast.walk(fn) if isinstance(q, ast.Name) and q.id == x]
                here = [q for q in ast.walk(s) if isinstance(q, ast.Name) and q.id == x and isinstance(q.ctx, ast.Load)]
                nested = any(q in list(ast.walk(z)) for z in ast.walk(s) if isinstance(z, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for q in here)
                if len(tot) == 2 and len(here) == 1 and not nested and not isinstance(a.value, (ast.Yield, ast.Await)):
                    # only when x is the first thing evaluated: direct value, first argument of a simple call, or receiver
                    v = s.value
                    tgt = here[0]
                    ok = v is tgt or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.args and v.args[0] is tgt) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.value is tgt)
                    if ok:
                        class R(ast.NodeTransformer):
                            def visit_Name(self, q):
                                return a.value if q is tgt else q
                        b[i + 1] = R().visit(s)
                        del b[i]
                        continue
            i += 1


PER = {k: v for k, v in list(globals().items()) if k in (
    "rename_locals invert_if invert_noelse guard_else else_flat tail_guard ret_local cond_local arg_local loop_local loop_iter and_nest demorgan "
    "comp_loop loop_comp ifexp un_ifexp fstring aug alias_attr items_loop in_keys swap_eq elif_split or_chain_in inline_single").split()}
WHOLE = {"wrap": wrap, "extract": extract, "cond_helper": expr_helpers("cond"), "val_helper": expr_helpers("val")}
ALL = list(PER) + list(WHOLE)


def functions(tree, top=False):
    def go(body, prefix):
        for s in body:
            if isinstance(s, FN):
                yield prefix + s.name, s
                if not top:
                    for x in ast.walk(s):
                        if x is not s and isinstance(x, FN):
                            yield prefix + s.name + "." + x.name, x
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, prefix + s.name + ".")
            elif isinstance(s, (ast.If, ast.Try)):
                yield from go(s.body, prefix)
    yield from go(tree.body, "")


def transform(src, name, pick=lambda q: True):
    COUNT[0] = 0
    tree = ast.parse(src)
    if name in WHOLE:
        WHOLE[name](tree, pick)
    else:
        for q, fn in list(functions(tree)):
            if pick(q):
                PER[name](fn)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


if __name__ == "__main__":
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else "")
    open(sys.argv[3], "w").write(transform(open(sys.argv[2]).read(), sys.argv[1], lambda q: rx.search(q)))
