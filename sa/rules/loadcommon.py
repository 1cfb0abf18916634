"""The loader of build files, propagated as a whole: from file contents and variables to the final targets."""
import ast as pyast
import posixpath

from ..ccp import Blowup
from ..cfg import show
from ..interp import Inter, PATH
from ..match import *
from ..pyccp import RAISE, exc_name
from .gencommon import PATHCONST
from .p24_dependencies import Heap, plain
from .pycommon import *

NONE = ("c", None)


class Unknown(Exception):
    pass


def evaluate(text, names):
    """The value of a condition; Unknown when it is outside the language of comparisons."""
    def ev(t):
        if isinstance(t, pyast.Expression):
            return ev(t.body)
        if isinstance(t, pyast.Constant):
            return t.value
        if isinstance(t, pyast.Name):
            return names[t.id]
        if isinstance(t, pyast.BoolOp):
            r = None
            for x in t.values:
                r = ev(x)
                if bool(r) != isinstance(t.op, pyast.And):
                    break
            return r
        if isinstance(t, pyast.UnaryOp) and isinstance(t.op, pyast.Not):
            return not ev(t.operand)
        if isinstance(t, pyast.Compare):
            left, r = ev(t.left), True
            for o, x in zip(t.ops, t.comparators):
                right = ev(x)
                f = OPS.get(type(o))
                if f is None:
                    raise Unknown
                r = f(left, right)
                if not r:
                    return r
                left = right
            return r
        if isinstance(t, (pyast.List, pyast.Tuple, pyast.Set)):
            return [ev(x) for x in t.elts]
        if isinstance(t, pyast.Call) and isinstance(t.func, pyast.Attribute) and not t.keywords and t.func.attr in METHODS:
            v = ev(t.func.value)
            if isinstance(v, str):
                return getattr(v, t.func.attr)(*[ev(x) for x in t.args])
        if isinstance(t, pyast.BinOp) and isinstance(t.op, pyast.Add):
            return ev(t.left) + ev(t.right)
        raise Unknown
    return ev(pyast.parse(text, mode="eval"))


OPS = {pyast.Eq: lambda a, b: a == b, pyast.NotEq: lambda a, b: a != b, pyast.In: lambda a, b: a in b, pyast.NotIn: lambda a, b: a not in b,
       pyast.Lt: lambda a, b: a < b, pyast.LtE: lambda a, b: a <= b, pyast.Gt: lambda a, b: a > b, pyast.GtE: lambda a, b: a >= b}


METHODS = ("split", "startswith", "endswith", "lower", "upper", "strip", "replace", "find", "count")


class Loading:
    """`gyp.input.Load` with nothing replaced but the file system, the evaluation of text and the commands that are run."""

    def __init__(self, c, modules=("gyp.simple_copy", "gyp.common", "gyp.input")):
        self.c = c
        self.f = func(c, "gyp.input", "Load")
        self.files, self.commands = {}, {}
        self.base = {}
        self.ok = self.f is not None
        for m in modules:
            r = Inter.load(c, m, self.model) if m in c.py.mods else None
            if r is None:
                self.ok = False
                continue
            self.base.update(r)

    def build(self, v, s, e, n, tag):
        if isinstance(v, (dict, list)):
            i = e.alloc(s, (n.id, "file") + tag)
            if isinstance(v, dict):
                s[("F", i)] = ("dict", tuple((("c", k), self.build(x, s, e, n, tag + (k,))) for k, x in v.items()))
            else:
                s[("F", i)] = ("list", tuple(self.build(x, s, e, n, tag + (j,)) for j, x in enumerate(v)))
            return ("new", i)
        return ("c", v)

    def path(self, v):
        return posixpath.normpath(v[1]) if v[0] == "c" and isinstance(v[1], str) else None

    def called(self, cal, a, s=None, e=None, n=None):
        p = self.path(a[0]) if a else None
        if cal[0] == "a" and cal[1] == PATH and cal[2] in ("exists", "isfile", "lexists") and p is not None:
            return ("c", p in self.files)
        if cal[0] == "glob" and cal[1] == "open" or cal[0] == "a" and cal[1] in (("mod", "io"), ("mod", "codecs")) and cal[2] == "open":
            if p is None:
                return None
            return ("handle", p) if p in self.files else RAISE
        if cal[0] == "a" and cal[1][0] == "handle":
            if cal[2] == "read":
                return ("text", cal[1][1])
            if cal[2] == "__enter__":
                return cal[1]
            if cal[2] in ("close", "__exit__"):
                return NONE
        if cal[0] == "a" and cal[1] == PATH and cal[2] in ("realpath", "abspath") and p is not None:
            return ("c", posixpath.normpath(posixpath.join("/w", a[0][1])))
        if cal == ("a", ("mod", "os"), "getcwd"):
            return ("c", "/w")
        if cal == ("a", ("mod", "subprocess"), "run") and a and a[0][0] == "c" and a[0][1] in self.commands:
            return ("proc", self.commands[a[0][1]].encode())
        if cal == ("glob", "compile") and a and a[0][0] == "c" and isinstance(a[0][1], str):
            try:
                pyast.parse(a[0][1].strip(), mode="eval")
            except SyntaxError:
                return RAISE
            return ("code", a[0][1].strip())
        return None

    def model(self, op, t):
        if op == "value":
            if t == ("a", ("mod", "sys"), "platform"):
                return ("c", "linux")
            if t == ("a", ("mod", "os"), "sep") or t == ("a", PATH, "sep"):
                return ("c", "/")
            if t in PATHCONST:
                return ("c", PATHCONST[t])
            if t == ("a", ("mod", "os"), "environ"):
                return ("dict", ())
            if t[0] == "a" and t[1][0] == "proc":
                return ("c", {"returncode": 0, "stdout": t[1][1]}[t[2]]) if t[2] in ("returncode", "stdout") else None
            if t[0] == "a" and t[1] == ("mod", "subprocess"):
                return t
        if op in ("truth", "notnull") and t[0] in ("handle", "code", "proc"):
            return True
        if op == "exec":
            cal, a, s, e, n = t
            if cal == ("glob", "eval") and a:
                x = a[0]
                if x[0] == "text" and x[1] in self.files:
                    return self.build(self.files[x[1]], s, e, n, (x[1], len(s.get("fx", ()))))
                text = x[1] if x[0] == "code" or x[0] == "c" and isinstance(x[1], str) else None
                names = plain(e, a[2], s) if len(a) > 2 else {}
                if text is not None and isinstance(names, dict):
                    try:
                        return ("c", evaluate(text, names))
                    except KeyError:
                        return RAISE
                    except Unknown:
                        return None
            if cal[0] in ("fn", "bound"):
                if cal[1].name == "CheckedEval" and a and a[0][0] == "text":
                    return self.build(self.files[a[0][1]], s, e, n, (a[0][1], len(s.get("fx", ()))))
                if cal[1].name == "DebugOutput":
                    return NONE
                if cal[1].name == "FindCycles":
                    return ("list", ())
                return None
            return self.called(cal, a, s, e, n)
        if op == "call":
            if t[1][0] == "cls" and t[1][1].name == "OrderedSet":
                return ("set", ()) if not t[2] else None
            return self.called(t[1], t[2])
        return None

    def load(self, files, start, variables, includes=(), gii=None, commands=None):
        self.files = {posixpath.normpath(k): v for k, v in files.items()}
        self.commands = commands or {}
        h = Heap()
        gii = {"path_sections": [], "non_configuration_keys": [], "generator_supports_multiple_toolsets": True,
               "generator_filelist_paths": None, "extra_sources_for_rules": [], "generator_wants_static_library_dependencies_adjusted": True,
               "generator_wants_sorted_dependencies": False, **(gii or {})}
        args = {"build_files": list(start), "variables": variables, "includes": list(includes), "depth": ".", "generator_input_info": gii, "check": False,
                "circular_check": True, "parallel": False, "root_targets": []}
        for p, _, _ in self.f.params:
            h.init[("param", p.id)] = h(args.get(p.id))
        h.init.update(self.base)
        e = Inter.of(self.c, self.f, self.model, maxstates=3000000)
        self.e = e
        try:
            rs = e.run(h.init)
        except Blowup:
            return [("undecided", "too many abstract states")]
        self.c.states += e.count
        out = []
        for k, _, s in rs:
            if k == "raise":
                out.append(("raise", exc_name(s["exc"])))
                continue
            r = plain(e, s.get(("v", "r", "$ret"), NONE), s)
            if not isinstance(r, list) or len(r) != 3 or not isinstance(r[1], dict):
                out.append(("undecided", show(r)[:80] if isinstance(r, tuple) else str(r)[:80]))
            else:
                out.append(("return", r[1], r[0]))
        return out
