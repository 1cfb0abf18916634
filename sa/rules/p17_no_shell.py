"""Commands run as argument vectors, not through a shell."""
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P17"
EXPLANATION = (
    "Every child-process call of lib and bin, in every function from which it is reached (calls inlined), is one that "
    "takes a program and an argument vector; the program is not a command interpreter, and the 'shell' option of the "
    "call is absent, constantly off, or - for the search for Python only - on under the Windows test, under which the "
    "program and every argument are quoted. Calls through gyp.spawn pass no shell option.")

VECTOR = {"spawn", "spawnSync", "execFile", "execFileSync", "fork"}
SHELLS = {"sh", "bash", "zsh", "cmd", "cmd.exe", "/bin/sh", "/bin/bash", "powershell", "pwsh"}


def native_arg(g, n, i):
    """[(term, node)] positional argument i, looking through spread argument lists."""
    out, pos = [], 0
    for a in n.args:
        if a[0] != "star":
            if pos == i:
                return [(a, n)]
            pos += 1
            continue
        for r in g.resolve(a[1], n):
            d, lst = n, r
            if r[0] == "obj":
                d = g.nodes[r[1]]
                lst = d.term
            if lst[0] in ("list", "tuple"):
                if 0 <= i - pos < len(lst[1]) and all(x[0] != "star" for x in lst[1][:i - pos + 1]):
                    out.append((lst[1][i - pos], d))
            else:
                out.append((("unknown",), n))
        return out
    return out


def is_win(t, truth):
    if t[0] == "a" and t[2] in ("win", "isWin", "isWindows") or t[0] == "free" and t[-1] in ("win", "isWin"):
        return truth
    if t[0] == "op" and t[1] == "==" and ("c", "win32") in t[2:]:
        return truth and has(t, lambda x: x[0] == "a" and x[2] == "platform")
    if t[0] == "call" and t[1][0] == "a" and t[1][2] == "startsWith" and t[2] and t[2][0] == ("c", "win"):
        return truth and has(t, lambda x: x[0] == "a" and x[2] == "platform")
    return False


def not_win(t, truth):
    return is_win(t, True) and not truth


def off(t):
    return t[0] == "c" and not t[1] or t == ("undefined",)


def quoted(g, n, t):
    ps = cat_parts(t)
    if len(ps) == 1 and ps[0][0] == "c" and isinstance(ps[0][1], str):
        return len(ps[0][1]) > 2 and ps[0][1][0] == ps[0][1][-1] == '"'
    return len(ps) >= 3 and all(p[0] == "c" and isinstance(p[1], str) and q(p[1]) for p, q in (
        (ps[0], lambda s: s.startswith('"')), (ps[-1], lambda s: s.endswith('"'))))


def shell_values(g, n, opts, at):
    """[(value term, node)] of the shell option of an options argument; None for an option object of unknown origin."""
    out = []
    for t in g.resolve(opts, at):
        d = g.nodes[t[1]] if t[0] == "obj" else at
        ct = d.term if t[0] == "obj" else t
        if ct[0] == "dict":
            v = dict_get(ct, "shell")
            if v is not None:
                out.append((v, d))
            for k, x in ct[1]:
                if k is None:
                    out += shell_values(g, n, x, d)
        for w in g.nodes:
            if w.op == "store" and w.live and (w.name == "shell" or w.name is None and ("c", "shell") in g.resolve(w.key, w)) \
                    and t in g.resolve(w.obj, w):
                out.append((w.value, w))
            elif w.op == "call" and w.live and g.callee(w) == ("a", ("glob", "Object"), "assign") and w.args and (
                    t in g.resolve(w.args[0], w) or t == ("t", w.id)):
                for x in w.args[1:] + (w.args[:1] if t == ("t", w.id) else w.args[:0]):
                    if w.args[0] is not x or t == ("t", w.id):
                        out += shell_values(g, n, x, w)
    return out


def check(c):
    c.rule("N1", "child processes are started from a program and an argument vector")
    c.rule("N2", "the program is not a command interpreter")
    c.rule("N3", "no shell, except for probing a Python command on Windows")
    c.rule("N4", "what goes through that shell is quoted")
    prog = c.js
    gs = {}
    for m in prog.mods.values():
        for f in m.functions:
            g = c.graph(f, NOLOG)
            ns = [n for n in g.calls() if is_spawn_api(g.callee(n))]
            if ns:
                gs[f] = (g, ns)
    seen = set()
    for f, (g, ns) in gs.items():
        inl = any(f in g2.inlined for h, (g2, _) in gs.items() if h is not f)
        for n in ns:
            cal = g.callee(n)
            if n.loc not in seen:
                seen.add(n.loc)
                c.ob("N1", n.loc, cal[2] in VECTOR, f"child_process.{cal[2]}", f"child_process.{cal[2]} hands a command line to a shell")
            if cal[2] not in VECTOR:
                continue
            pos = 2
            for o, at in native_arg(g, n, pos):
                for v, w in shell_values(g, n, o, at):
                    for lf in guarded(g, w, v):
                        t = lf[0]
                        if off(t):
                            c.ob("N3", n.loc, True, f"shell is off in {f.qual}")
                            continue
                        if t[0] in ("free", "param") and inl:
                            continue  # judged in the callers
                        ok = f.module.path == "lib/find-python.js" and t == ("c", True) and leaf_ok(g, w, lf, is_win)
                        if not ok and t != ("c", True) and f.module.path == "lib/find-python.js":
                            ok = is_win(t, True)
                        c.ob("N3", n.loc, ok, f"shell in {f.qual} only on Windows",
                             f"{f.qual}: a command is started through a shell ({show(t)[:60]}) outside the Windows probe for Python")
                        if ok:
                            quote(c, g, n, f)
            for p, at in native_arg(g, n, 0):
                for t in g.values(at, p):
                    if t[0] == "c":
                        c.ob("N2", n.loc, str(t[1]).split("\\")[-1] not in SHELLS, f"program {t[1]!r} is not a shell",
                             f"{f.qual}: starts the command interpreter {t[1]!r}")
    c.need("N1", gs, "child processes started by node-gyp")
    k = 0
    for f, g, n, cal in c.flat_calls(prog, lambda cal, n, g: cal[0] == "a" and cal[2] == "spawn" and not is_spawn_api(cal)):
        k += 1
        for t in g.values(n, n.args[0]) if n.args else ():
            if t[0] == "c":
                c.ob("N2", n.loc, str(t[1]).split("\\")[-1] not in SHELLS, f"program {t[1]!r} is not a shell",
                     f"{f.qual}: starts the command interpreter {t[1]!r}")
        for o in n.args[2:3]:
            sv = shell_values(g, n, o, n)
            for v, w in sv:
                c.ob("N3", n.loc, all(off(x[0]) for x in guarded(g, w, v)), f"gyp.spawn in {f.qual} without a shell",
                     f"{f.qual}: passes a shell option to the spawned command")
        c.ob("N1", n.loc, len(n.args) >= 2, f"gyp.spawn in {f.qual} gets an argument vector",
             f"{f.qual}: spawns a command without an argument vector")
    c.need("N1", range(k), "calls of gyp.spawn")


def quote(c, g, n, f):
    """With the shell on, program and arguments are quoted."""
    for p, at in native_arg(g, n, 0):
        for lf in guarded(g, at, p):
            if not quoted(g, at, lf[0]):
                c.ob("N4", n.loc, leaf_ok(g, at, lf, not_win), f"program quoted for the shell in {f.qual}",
                     f"{f.qual}: on Windows the program {show(lf[0])[:60]} reaches the shell unquoted")
            else:
                c.ob("N4", n.loc, True, f"program quoted for the shell in {f.qual}")
    for p, at in native_arg(g, n, 1):
        for lf in guarded(g, at, p):
            t = lf[0]
            good = False
            k = g.nodes[t[1]] if t[0] == "t" else None
            if k is not None and k.op == "call" and k.callee[0] == "a" and k.callee[2] == "map" and k.args:
                fns = [x for x in g.resolve(k.args[0], k)]
                good = bool(fns) and all(x[0] == "fn" and returns_quoted(c, x[1]) for x in fns)
            c.ob("N4", n.loc, good or leaf_ok(g, at, lf, not_win), f"arguments quoted for the shell in {f.qual}",
                 f"{f.qual}: on Windows arguments {show(t)[:60]} reach the shell unquoted")


def returns_quoted(c, fn):
    g = c.flat(fn)
    vs = [v for r in g.nodes if r.op == "assign" and r.live and r.var and r.var[2] == "$ret" for v in g.values(r, r.term)]
    return bool(vs) and all(quoted(g, None, v) for v in vs)
