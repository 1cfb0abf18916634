"""Core syntax shared by the Python and the JavaScript front end.

A Core node is an `N` with a kind `k` and attributes.  Both front ends resolve
every name to its owning Function (lexical scoping) and alpha-rename shadowed
block-scoped names, so later stages never look at spellings of locals.

Expressions
  Const(v) Name(id, owner) Attr(obj,name) Index(obj,key) Call(fn,args,kw,new)
  Await(e) Op(op,args) Not(e) And(es) Or(es) Nullish(es) If(test,a,b)
  Fn(fn) List(es) Tuple(es) Set(es) Dict(items[(k,v)|(None,v)]) Cat(parts)
  Star(e) Comp(kind, elts, gens[(target,iter,ifs)]) Yield(e) AssignE(target,e)
  Regex(pattern,flags) This() Seq(es)
Statements
  Expr(e) Assign(targets,e) Aug(target,op,e) IfS(test,body,orelse)
  While(test,body,orelse,post,update) For(target,iter,body,orelse,how)
  Try(body,handlers[(types,name,body)],orelse,final) Return(e) Raise(e)
  Break(label) Continue(label) FuncDef(fn) ClassDef(cls) With(items,body)
  Block(body,label) Del(targets) Assert(test,msg) Pass()
"""


class N:
    __slots__ = ("k", "loc", "__dict__")

    def __init__(self, k, loc, **kw):
        self.k = k
        self.loc = loc
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<{self.k} {self.loc}>"


class Function:
    def __init__(self, name, loc, module, parent=None, cls=None):
        self.name = name
        self.loc = loc
        self.module = module  # Module
        self.parent = parent  # lexically enclosing Function
        self.cls = cls  # enclosing class for methods
        self.params = []  # [(pattern N, default N|None, kind 'pos'|'rest'|'kw'|'kwonly')]
        self.body = []
        self.is_async = False
        self.is_arrow = False
        self.is_gen = False
        self.is_module = False
        self.is_static = False
        self.funcdefs = {}  # unique local name -> Function (declarations)
        self.assigns = {}  # unique local name -> [(kind, value-expr)] all bindings
        self.children = []
        self.decorators = []

    @property
    def qual(self):
        parts = []
        f = self
        while f is not None and not f.is_module:
            parts.append((f.cls.name + "." if f.cls else "") + (f.name or "<fn>"))
            f = f.parent
        return ".".join(reversed(parts)) if parts else "<module>"

    def __repr__(self):
        return f"<Function {self.module.name}:{self.qual}>"


class Class:
    def __init__(self, name, loc, module, owner):
        self.name = name
        self.loc = loc
        self.module = module
        self.owner = owner
        self.bases = []
        self.methods = {}
        self.fields = {}  # name -> expr
        self.static_fields = {}

    def __repr__(self):
        return f"<Class {self.module.name}:{self.name}>"


class Module:
    def __init__(self, name, path, lang):
        self.name = name
        self.path = path
        self.lang = lang
        self.fn = None
        self.functions = []
        self.classes = {}
        self.exports = {}  # JS: exported name -> expr ; 'default' -> expr
        self.imports = {}  # local name -> ('mod', m) | ('from', m, n)


def walk(n):
    """All Core nodes below n (not descending into nested Function bodies)."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, N):
            yield x
            for v in x.__dict__.values():
                stack.append(v)
        elif isinstance(x, (list, tuple)):
            stack.extend(x)


def walk_fn(fn, nested=False):
    """All Core nodes in a function (statements and expressions)."""
    for p, d, _ in fn.params:
        yield from walk(p)
        if d is not None:
            yield from walk(d)
    for s in fn.body:
        for x in walk(s):
            yield x
    if nested:
        for c in fn.children:
            yield from walk_fn(c, True)
