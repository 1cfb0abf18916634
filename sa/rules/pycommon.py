"""Helpers shared by the rules about the Python gyp library."""
from ..match import *
from ..cfg import show

SUB = ("mod", "subprocess")
RUNS = ("run", "call", "check_call", "check_output", "Popen", "getoutput", "getstatusoutput")


def pmod(c, name):
    return c.py.mods.get(name)


def func(c, mod, name, cls=None):
    """The function or method of that name, None when there is none."""
    m = c.py.mods.get(mod)
    if m is None:
        return None
    for f in m.functions:
        if f.name == name and (cls is None and f.cls is None or cls is not None and f.cls is not None and f.cls.name == cls) \
                and not f.qual.count("<"):
            return f
    return None


def is_run(c):
    return c[0] == "a" and c[1] == SUB and c[2] in RUNS or c in (("a", ("mod", "os"), "system"), ("a", ("mod", "os"), "popen"))


def is_raise_only(g, start):
    """No path from start to the normal exit."""
    seen, todo = {start.id}, [start]
    while todo:
        n = todo.pop()
        if n is g.exit:
            return False
        for l, s in n.succ:
            if s.id not in seen:
                seen.add(s.id)
                todo.append(s)
    return True


def kwarg(n, name):
    for k, v in n.kw:
        if k == name:
            return v
    return None


def zero_status(run_id):
    """Edge fact: the process started by call node run_id exited with status 0."""
    def is_rc(t):
        return t[0] == "a" and t[2] == "returncode" and (t[1] == ("t", run_id) or t[1][0] == "call") or t == ("t", run_id)

    def pred(t, truth):
        if t[0] == "op" and t[1] == "==" and len(t) == 4:
            if is_rc(t[2]) and t[3] == ("c", 0) or is_rc(t[3]) and t[2] == ("c", 0):
                return truth
        return is_rc(t) and not truth
    return pred


def py_in(c, mods):
    for f, g, n, cal in c.flat_calls(c.py):
        if f.module.name in mods:
            yield f, g, n, cal


def module_const(c, mod, name):
    """The literal a module variable is bound to, None when it is not one."""
    m = c.py.mods.get(mod)
    if m is None:
        return None
    vs = c.py.module_value(mod, name)
    if len(vs) != 1:
        return None
    v = next(iter(vs))
    if v[0] in ("glob", "v", "obj"):
        v = c.py.content(v)
    return v


def module_names(c, mod, name):
    """The strings in a module's literal list, tuple or set."""
    v = module_const(c, mod, name)
    return {x[1] for x in v[1] if x[0] == "c"} if v is not None and v[0] in ("list", "tuple", "set") else set()
