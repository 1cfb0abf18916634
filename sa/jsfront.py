"""ESTree (from acorn) -> Core."""
import json
import os
import subprocess

from .ir import N, Function, Class, Module

HERE = os.path.dirname(os.path.abspath(__file__))


def parse_files(paths):
    out = subprocess.run(
        ["node", os.path.join(HERE, "js2json.js")] + paths,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
    if out.returncode != 0:
        raise SyntaxError(out.stderr.decode("utf8", "replace"))
    return json.loads(out.stdout.decode("utf8"))


class Scope:
    def __init__(self, parent, fn, is_fn):
        self.parent = parent
        self.fn = fn
        self.is_fn = is_fn
        self.names = {}


class Front:
    def __init__(self, name, path, relpath):
        self.mod = Module(name, relpath, "js")
        self.rel = relpath
        self.used = {}  # Function -> set of unique names
        self.cls = None

    # -- scopes -----------------------------------------------------------
    def declare(self, scope, name):
        if name in scope.names:
            return scope.names[name]
        used = self.used.setdefault(scope.fn, set())
        u = name
        i = 1
        while u in used:
            i += 1
            u = f"{name}#{i}"
        used.add(u)
        scope.names[name] = u
        scope.fn.assigns.setdefault(u, [])
        return u

    def lookup(self, name, loc):
        s = self.scope
        while s is not None:
            if name in s.names:
                return N("Name", loc, id=s.names[name], owner=s.fn)
            s = s.parent
        return N("Name", loc, id=name, owner=None)

    def fnscope(self):
        s = self.scope
        while not s.is_fn:
            s = s.parent
        return s

    def loc(self, n):
        return (self.rel, n["loc"]["start"]["line"], n["loc"]["start"]["column"])

    # -- hoisting ---------------------------------------------------------
    def pat_names(self, p):
        t = p["type"]
        if t == "Identifier":
            yield p["name"]
        elif t == "ObjectPattern":
            for q in p["properties"]:
                yield from self.pat_names(q["argument"] if q["type"] == "RestElement" else q["value"])
        elif t == "ArrayPattern":
            for q in p["elements"]:
                if q:
                    yield from self.pat_names(q)
        elif t == "AssignmentPattern":
            yield from self.pat_names(p["left"])
        elif t == "RestElement":
            yield from self.pat_names(p["argument"])

    def hoist_var(self, node, scope):
        """var declarations anywhere in the function body."""
        if isinstance(node, list):
            for x in node:
                self.hoist_var(x, scope)
            return
        if not isinstance(node, dict) or "type" not in node:
            return
        t = node["type"]
        if t in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression", "ClassBody"):
            return
        if t == "VariableDeclaration" and node["kind"] == "var":
            for d in node["declarations"]:
                for nm in self.pat_names(d["id"]):
                    self.declare(scope, nm)
        for k, v in node.items():
            if k != "loc" and isinstance(v, (dict, list)):
                self.hoist_var(v, scope)

    def hoist_block(self, stmts, scope):
        for s in stmts:
            t = s["type"]
            if t == "VariableDeclaration" and s["kind"] != "var":
                for d in s["declarations"]:
                    for nm in self.pat_names(d["id"]):
                        self.declare(scope, nm)
            elif t in ("FunctionDeclaration", "ClassDeclaration"):
                self.declare(scope, s["id"]["name"])

    # -- entry ------------------------------------------------------------
    def module(self, ast):
        fn = Function("<module>", (self.rel, 1, 0), self.mod)
        fn.is_module = True
        self.mod.fn = fn
        self.mod.functions.append(fn)
        self.cur = fn
        self.scope = Scope(None, fn, True)
        self.hoist_var(ast["body"], self.scope)
        self.hoist_block(ast["body"], self.scope)
        fn.body = self.stmts(ast["body"])
        self.collect_exports(fn)
        return self.mod

    def collect_exports(self, fn):
        m = self.mod
        for s in fn.body:
            if s.k != "Expr" or s.e.k != "AssignE":
                continue
            tgt, val = s.e.target, s.e.e
            if tgt.k == "Attr" and tgt.name == "exports" and tgt.obj.k == "Name" and tgt.obj.id == "module":
                if val.k == "Dict":
                    for k, v in val.items:
                        if k is not None and k.k == "Const":
                            m.exports[k.v] = v
                else:
                    m.exports["default"] = val
            elif tgt.k == "Attr":
                o = tgt.obj
                if o.k == "Name" and o.id == "exports" and o.owner is None:
                    m.exports[tgt.name] = val
                elif o.k == "Attr" and o.name == "exports" and o.obj.k == "Name" and o.obj.id == "module":
                    m.exports[tgt.name] = val
        # static members of an exported class
        d = m.exports.get("default")
        if d is not None and d.k == "Name" and d.id in m.classes:
            for k, v in m.classes[d.id].static_fields.items():
                m.exports.setdefault(k, v)

    # -- functions --------------------------------------------------------
    def function(self, n, name=None, cls=None, is_static=False):
        nm = name or (n.get("id") or {}).get("name") if n.get("id") or name else None
        fn = Function(nm, self.loc(n), self.mod, self.cur, cls)
        fn.is_async = bool(n.get("async"))
        fn.is_arrow = n["type"] == "ArrowFunctionExpression"
        fn.is_gen = bool(n.get("generator"))
        fn.is_static = is_static
        self.cur.children.append(fn)
        self.mod.functions.append(fn)
        save = (self.cur, self.scope)
        self.cur = fn
        self.scope = Scope(self.scope, fn, True)
        if n["type"] == "FunctionExpression" and n.get("id"):
            pass
        for p in n["params"]:
            for x in self.pat_names(p):
                self.declare(self.scope, x)
        if n["body"]["type"] == "BlockStatement":
            self.hoist_var(n["body"]["body"], self.scope)
            self.hoist_block(n["body"]["body"], self.scope)
        for p in n["params"]:
            d = None
            kind = "pos"
            if p["type"] == "AssignmentPattern":
                d = self.expr(p["right"])
                p = p["left"]
            if p["type"] == "RestElement":
                kind = "rest"
                p = p["argument"]
            fn.params.append((self.pattern(p), d, kind))
        if n["body"]["type"] == "BlockStatement":
            fn.body = self.stmts(n["body"]["body"])
        else:
            e = self.expr(n["body"])
            fn.body = [N("Return", e.loc, e=e)]
        self.cur, self.scope = save
        return fn

    def cls_(self, n):
        name = n["id"]["name"] if n.get("id") else "<class>"
        c = Class(name, self.loc(n), self.mod, self.cur)
        if n.get("superClass"):
            c.bases.append(self.expr(n["superClass"]))
        for m in n["body"]["body"]:
            if m["type"] == "MethodDefinition":
                k = m["key"].get("name") or m["key"].get("value")
                if m["key"]["type"] == "PrivateIdentifier":
                    k = "#" + m["key"]["name"]
                f = self.function(m["value"], k, c, m["static"])
                if m["kind"] in ("get", "set"):
                    c.methods[m["kind"] + " " + str(k)] = f
                else:
                    c.methods[k] = f
            elif m["type"] == "PropertyDefinition":
                k = m["key"].get("name") or m["key"].get("value")
                if m["key"]["type"] == "PrivateIdentifier":
                    k = "#" + m["key"]["name"]
                v = self.expr(m["value"]) if m.get("value") else N("Const", self.loc(m), v=None)
                (c.static_fields if m["static"] else c.fields)[k] = v
        self.mod.classes[name] = c
        return c

    # -- patterns ---------------------------------------------------------
    def pattern(self, p):
        t = p["type"]
        loc = self.loc(p)
        if t == "Identifier":
            return self.lookup(p["name"], loc)
        if t == "ObjectPattern":
            items = []
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    items.append((None, self.pattern(q["argument"])))
                else:
                    key = self.expr(q["key"]) if q["computed"] else N(
                        "Const", loc, v=q["key"].get("name", q["key"].get("value")))
                    items.append((key, self.pattern(q["value"])))
            return N("DictPat", loc, items=items)
        if t == "ArrayPattern":
            return N("Tuple", loc, es=[self.pattern(q) if q else N("Hole", loc) for q in p["elements"]])
        if t == "AssignmentPattern":
            return N("DefPat", loc, target=self.pattern(p["left"]), default=self.expr(p["right"]))
        if t == "RestElement":
            return N("Star", loc, e=self.pattern(p["argument"]))
        return self.expr(p)

    # -- statements -------------------------------------------------------
    def stmts(self, ss):
        # function declarations are hoisted
        out = []
        for s in ss:
            if s["type"] == "FunctionDeclaration":
                out.append(self.stmt(s))
        for s in ss:
            if s["type"] != "FunctionDeclaration":
                r = self.stmt(s)
                if r is not None:
                    out.append(r)
        return out

    def block(self, s):
        if s["type"] != "BlockStatement":
            r = self.stmt(s)
            return [r] if r is not None else []
        save = self.scope
        self.scope = Scope(self.scope, self.cur, False)
        self.hoist_block(s["body"], self.scope)
        r = self.stmts(s["body"])
        self.scope = save
        return r

    def bind(self, pat, val):
        if pat.k == "Name" and pat.owner is not None:
            pat.owner.assigns.setdefault(pat.id, []).append(val)
        elif pat.k == "DictPat":
            for k, q in pat.items:
                self.bind(q, None if k is None or val is None else N("Attr", pat.loc, obj=val, name=k.v)
                          if k is not None and k.k == "Const" else None)
        elif pat.k == "Tuple":
            for i, q in enumerate(pat.es):
                if q.k != "Hole":
                    self.bind(q, None if val is None else N("Index", pat.loc, obj=val, key=N("Const", pat.loc, v=i)))
        elif pat.k == "DefPat":
            self.bind(pat.target, None)
        elif pat.k == "Star":
            self.bind(pat.e, None)

    def stmt(self, s):
        t = s["type"]
        loc = self.loc(s)
        if t == "ExpressionStatement":
            if "directive" in s and s["directive"]:
                return None
            return N("Expr", loc, e=self.expr(s["expression"]))
        if t == "VariableDeclaration":
            out = []
            for d in s["declarations"]:
                if d["init"] is None:
                    if s["kind"] == "var":
                        continue
                    pat = self.pattern(d["id"])
                    val = N("Const", loc, v=None)
                    val.undef = True
                else:
                    val = self.expr(d["init"], d["id"].get("name"))
                    pat = self.pattern(d["id"])
                self.bind(pat, val)
                out.append(N("Assign", self.loc(d), targets=[pat], value=val))
            if len(out) == 1:
                return out[0]
            return N("Block", loc, body=out, label=None)
        if t == "FunctionDeclaration":
            fn = self.function(s)
            nm = self.lookup(s["id"]["name"], loc)
            nm.owner.funcdefs[nm.id] = fn
            nm.owner.assigns.setdefault(nm.id, []).append(N("Fn", loc, fn=fn))
            return N("FuncDef", loc, fn=fn, name=nm)
        if t == "ClassDeclaration":
            c = self.cls_(s)
            return N("ClassDef", loc, cls=c)
        if t == "ReturnStatement":
            return N("Return", loc, e=self.expr(s["argument"]) if s["argument"] else None)
        if t == "ThrowStatement":
            return N("Raise", loc, e=self.expr(s["argument"]))
        if t == "IfStatement":
            return N("IfS", loc, test=self.expr(s["test"]), body=self.block(s["consequent"]),
                     orelse=self.block(s["alternate"]) if s["alternate"] else [])
        if t == "BlockStatement":
            return N("Block", loc, body=self.block(s), label=None)
        if t == "LabeledStatement":
            return N("Block", loc, body=self.block(s["body"]), label=s["label"]["name"])
        if t in ("WhileStatement", "DoWhileStatement"):
            return N("While", loc, test=self.expr(s["test"]), body=self.block(s["body"]), orelse=[],
                     post=t == "DoWhileStatement", update=None)
        if t == "ForStatement":
            save = self.scope
            self.scope = Scope(self.scope, self.cur, False)
            init = []
            if s["init"]:
                if s["init"]["type"] == "VariableDeclaration":
                    self.hoist_block([s["init"]], self.scope)
                    r = self.stmt(s["init"])
                    init = [r] if r is not None else []
                else:
                    init = [N("Expr", loc, e=self.expr(s["init"]))]
            test = self.expr(s["test"]) if s["test"] else N("Const", loc, v=True)
            upd = [N("Expr", loc, e=self.expr(s["update"]))] if s["update"] else []
            w = N("While", loc, test=test, body=self.block(s["body"]), orelse=[], post=False, update=upd)
            self.scope = save
            return N("Block", loc, body=init + [w], label=None)
        if t in ("ForOfStatement", "ForInStatement"):
            it = self.expr(s["right"])
            save = self.scope
            self.scope = Scope(self.scope, self.cur, False)
            if s["left"]["type"] == "VariableDeclaration":
                self.hoist_block([s["left"]], self.scope)
                tgt = self.pattern(s["left"]["declarations"][0]["id"])
                self.bind(tgt, None)
            else:
                tgt = self.pattern(s["left"])
            r = N("For", loc, target=tgt, iter=it, body=self.block(s["body"]), orelse=[],
                  how="of" if t == "ForOfStatement" else "in", is_await=bool(s.get("await")))
            self.scope = save
            return r
        if t == "TryStatement":
            body = self.block(s["block"])
            hs = []
            if s["handler"]:
                h = s["handler"]
                save = self.scope
                self.scope = Scope(self.scope, self.cur, False)
                nm = None
                if h["param"]:
                    for x in self.pat_names(h["param"]):
                        self.declare(self.scope, x)
                    nm = self.pattern(h["param"])
                    self.bind(nm, None)
                hs.append((None, nm, self.block(h["body"])))
                self.scope = save
            return N("Try", loc, body=body, handlers=hs, orelse=[],
                     final=self.block(s["finalizer"]) if s["finalizer"] else None)
        if t == "BreakStatement":
            return N("Break", loc, label=s["label"]["name"] if s["label"] else None)
        if t == "ContinueStatement":
            return N("Continue", loc, label=s["label"]["name"] if s["label"] else None)
        if t == "EmptyStatement":
            return None
        if t == "SwitchStatement":
            return self.switch(s, loc)
        raise NotImplementedError(f"JS statement {t} at {loc}")

    def switch(self, s, loc):
        # lowered to: tmp = disc; while(true){ matched-chain with fallthrough flags; break }
        save = self.scope
        self.scope = Scope(self.scope, self.cur, False)
        tmp = self.declare(self.scope, "$switch")
        tn = N("Name", loc, id=tmp, owner=self.cur)
        cases = s["cases"]
        for c in cases:
            self.hoist_block(c["consequent"], self.scope)
        body = None
        conv = [(self.expr(c["test"]) if c["test"] else None, self.stmts(c["consequent"])) for c in cases]

        # nested ifs with fallthrough duplication (case bodies are small)
        def tail(i):
            out = []
            for j in range(i, len(conv)):
                out.extend(conv[j][1])
                if conv[j][1] and conv[j][1][-1].k in ("Break", "Return", "Raise", "Continue"):
                    break
            return out

        default = next((i for i, c in enumerate(conv) if c[0] is None), None)
        chain = tail(default) if default is not None else []
        for i in range(len(conv) - 1, -1, -1):
            if conv[i][0] is None:
                continue
            chain = [N("IfS", loc, test=N("Op", loc, op="===", args=[tn, conv[i][0]]),
                       body=tail(i), orelse=chain)]
        self.scope = save
        val = self.expr(s["discriminant"])
        # a switch is a breakable block but `continue` passes through it
        return N("Block", loc, label="$switch", body=[
            N("Assign", loc, targets=[tn], value=val),
            N("Breakable", loc, body=chain)])

    # -- expressions ------------------------------------------------------
    def expr(self, e, hint=None):
        t = e["type"]
        loc = self.loc(e)
        if t == "Identifier":
            if e["name"] == "undefined":
                c = N("Const", loc, v=None)
                c.undef = True
                return c
            return self.lookup(e["name"], loc)
        if t == "Literal":
            if "regex" in e and e["regex"]:
                return N("Regex", loc, pattern=e["regex"]["pattern"], flags=e["regex"]["flags"])
            return N("Const", loc, v=e.get("value"))
        if t == "TemplateLiteral":
            parts = []
            for i, q in enumerate(e["quasis"]):
                c = q["value"]["cooked"]
                if c:
                    parts.append(N("Const", loc, v=c))
                if i < len(e["expressions"]):
                    parts.append(self.expr(e["expressions"][i]))
            return N("Cat", loc, parts=parts)
        if t == "MemberExpression":
            obj = self.expr(e["object"])
            if e["computed"]:
                return N("Index", loc, obj=obj, key=self.expr(e["property"]))
            nm = e["property"]["name"]
            if e["property"]["type"] == "PrivateIdentifier":
                nm = "#" + nm
            return N("Attr", loc, obj=obj, name=nm)
        if t == "ChainExpression":
            r = self.expr(e["expression"])
            r.optional = True
            x, base = e["expression"], None  # object of the first ?. link
            while x["type"] in ("MemberExpression", "CallExpression"):
                y = x["object"] if x["type"] == "MemberExpression" else x["callee"]
                if x.get("optional"):
                    base = y
                x = y
            if base is not None and not _impure(base):
                null = N("Op", loc, op="==", args=[self.expr(base), N("Const", loc, v=None)])
                return N("If", loc, test=N("Not", loc, e=null), a=r, b=N("Const", loc, v=None))
            return r
        if t in ("CallExpression", "NewExpression"):
            fn = self.expr(e["callee"])
            args = [self.expr(a) for a in e["arguments"]]
            return N("Call", loc, fn=fn, args=args, kw=[], new=t == "NewExpression",
                     optional=bool(e.get("optional")))
        if t == "AwaitExpression":
            return N("Await", loc, e=self.expr(e["argument"]))
        if t in ("FunctionExpression", "ArrowFunctionExpression"):
            return N("Fn", loc, fn=self.function(e, hint))
        if t == "ClassExpression":
            self.cls_(e)
            return N("Const", loc, v="<class>")
        if t == "ObjectExpression":
            items = []
            for p in e["properties"]:
                if p["type"] == "SpreadElement":
                    items.append((None, self.expr(p["argument"])))
                    continue
                if p["computed"]:
                    k = self.expr(p["key"])
                else:
                    k = N("Const", loc, v=p["key"].get("name", p["key"].get("value")))
                items.append((k, self.expr(p["value"], k.v if k.k == "Const" else None)))
            return N("Dict", loc, items=items)
        if t == "ArrayExpression":
            return N("List", loc, es=[self.expr(x) if x else N("Const", loc, v=None) for x in e["elements"]])
        if t == "SpreadElement":
            return N("Star", loc, e=self.expr(e["argument"]))
        if t == "UnaryExpression":
            a = self.expr(e["argument"])
            if e["operator"] == "!":
                return N("Not", loc, e=a)
            if e["operator"] == "void":
                return N("Seq", loc, es=[a, N("Const", loc, v=None)])
            if e["operator"] == "-" and a.k == "Const" and isinstance(a.v, (int, float)):
                return N("Const", loc, v=-a.v)
            return N("Op", loc, op="u" + e["operator"], args=[a])
        if t == "BinaryExpression":
            a, b = self.expr(e["left"]), self.expr(e["right"])
            if e["operator"] == "+":
                pa = a.parts if a.k == "Cat" else [a]
                pb = b.parts if b.k == "Cat" else [b]
                if a.k == "Cat" or b.k == "Cat" or _strish(a) or _strish(b):
                    return N("Cat", loc, parts=pa + pb)
            return N("Op", loc, op=e["operator"], args=[a, b])
        if t == "LogicalExpression":
            k = {"&&": "And", "||": "Or", "??": "Nullish"}[e["operator"]]
            return N(k, loc, es=[self.expr(e["left"]), self.expr(e["right"])])
        if t == "ConditionalExpression":
            return N("If", loc, test=self.expr(e["test"]), a=self.expr(e["consequent"]), b=self.expr(e["alternate"]))
        if t == "AssignmentExpression":
            val = self.expr(e["right"])
            tgt = self.pattern(e["left"])
            op = e["operator"]
            if op == "=":
                self.bind(tgt, val)
                return N("AssignE", loc, target=tgt, e=val)
            self.bind(tgt, None)
            if op in ("||=", "&&=", "??="):
                k = {"&&": "And", "||": "Or", "??": "Nullish"}[op[:-1]]
                v = N(k, loc, es=[self.pattern(e["left"]), val])
            elif op == "+=" and _strish(val):
                v = N("Cat", loc, parts=[self.pattern(e["left"])] + (val.parts if val.k == "Cat" else [val]))
            else:
                v = N("Op", loc, op=op[:-1], args=[self.pattern(e["left"]), val])
            return N("AssignE", loc, target=tgt, e=v)
        if t == "UpdateExpression":
            tgt = self.pattern(e["argument"])
            self.bind(tgt, None)
            return N("AssignE", loc, target=tgt, e=N(
                "Op", loc, op=e["operator"][0], args=[self.pattern(e["argument"]), N("Const", loc, v=1)]))
        if t == "SequenceExpression":
            return N("Seq", loc, es=[self.expr(x) for x in e["expressions"]])
        if t == "ThisExpression":
            return N("This", loc)
        if t == "Super":
            return N("Name", loc, id="super", owner=None)
        if t == "TaggedTemplateExpression":
            return N("Call", loc, fn=self.expr(e["tag"]), args=[self.expr(e["quasi"])], kw=[], new=False)
        if t == "YieldExpression":
            return N("Yield", loc, e=self.expr(e["argument"]) if e["argument"] else N("Const", loc, v=None))
        if t == "MetaProperty":
            return N("Name", loc, id="new.target", owner=None)
        raise NotImplementedError(f"JS expression {t} at {loc}")


def _strish(n):
    return (n.k == "Const" and isinstance(n.v, str)) or n.k == "Cat"


def _impure(e):
    if isinstance(e, list):
        return any(_impure(x) for x in e)
    if not isinstance(e, dict):
        return False
    return e.get("type") in ("CallExpression", "NewExpression", "AwaitExpression", "YieldExpression", "AssignmentExpression", "UpdateExpression",
                             "ImportExpression", "FunctionExpression", "ArrowFunctionExpression", "ClassExpression", "TaggedTemplateExpression") \
        or any(_impure(v) for k, v in e.items() if k not in ("loc", "type"))


def load(repo, rels):
    paths = [os.path.join(repo, r) for r in rels]
    asts = parse_files(paths)
    mods = {}
    for r, p in zip(rels, paths):
        f = Front(r, p, r)
        mods[r] = f.module(asts[p])
    return mods
