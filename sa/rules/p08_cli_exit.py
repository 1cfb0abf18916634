"""The command line's exit status tells the truth."""
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P08"
EXPLANATION = (
    "Typestate exploration of the command-line driver with process.exit as the end of a path: a path on which a command "
    "rejected must reach process.exit(non-zero) before any further command, success message or completion flag; the "
    "completion flag and the final 'ok' are reachable only once the queue is empty; the exit and uncaughtException "
    "listeners turn every incomplete run into a non-zero status; commands run in queue order and are awaited, and they wait for every asynchronous operation they start.")


def is_exit(g, n):
    return n.op == "call" and g.callee(n) == ("a", ("glob", "process"), "exit")


def exit_code(g, n):
    """'zero', 'nonzero' or 'unknown'"""
    if not n.args:
        return "zero"
    out = set()
    for v in g.values(n, n.args[0], 6):
        if v[0] == "c":
            out.add("nonzero" if isinstance(v[1], (int, float)) and v[1] else "zero")
        else:
            out.add("unknown")
    return out.pop() if len(out) == 1 else "unknown"


def is_cmd(g, n):
    """prog.commands[x](...)"""
    if n.op != "call":
        return False
    for c in g.resolve(n.callee, n):
        c = g.expand(c, 4)
        if c[0] == "i" and has(c[1], lambda x: x[0] == "a" and x[2] == "commands"):
            return True
        if c[0] == "a" and c[2] in ("call", "apply") and c[1][0] == "i" and has(c[1][1], lambda x: x[0] == "a" and x[2] == "commands"):
            return True
    return False


def todo_term(x):
    return x[0] == "a" and x[2] == "todo"


def empty_fact(t, truth):
    """the queue is empty"""
    if not truth:
        if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("shift", "pop") and todo_term(t[1][1]):
            return True
        if t[0] == "a" and t[2] == "length" and todo_term(t[1]):
            return True
        if t[0] == "op" and t[1] == "<" and t[2] == ("c", 0) and t[3][0] == "a" and t[3][2] == "length" and todo_term(t[3][1]):
            return True
    if truth:
        if t[0] == "op" and t[1] == "==" and ("c", 0) in t[2:] and any(x[0] == "a" and x[2] == "length" and todo_term(x[1]) for x in t[2:]):
            return True
        if t[0] == "op" and t[1] == "<" and t[3] == ("c", 1) and t[2][0] == "a" and t[2][2] == "length" and todo_term(t[2][1]):
            return True
        if t[0] == "op" and t[1] == "isnull" and has(t[2], lambda x: x[0] == "call" and x[1][0] == "a" and x[1][2] == "shift" and todo_term(x[1][1])):
            return True
    return False


def check(c):
    c.rule("C1", "after a rejected command the process exits with a non-zero code, nothing else runs first")
    c.rule("C2", "the completion flag and the final 'ok' are set only when the queue is empty")
    c.rule("C3", "the exit listener turns an incomplete run with code 0 into a non-zero exit")
    c.rule("C4", "process.exit(0) only when no command was given")
    c.rule("C5", "commands run in queue order, one at a time, with their own arguments")
    c.rule("C6", "an uncaught exception exits with a non-zero code")
    c.rule("C7", "commands wait for every asynchronous operation they start")
    lose, n = lost_promises(c, [x for x in c.js.mods.values() if x.path.startswith("lib/")])
    for loc, cal, why in lose:
        c.ob("C7", loc, False, "asynchronous operations are awaited", f"nobody waits for {cal[:60]}(): {why}")
    c.need("C7", range(n), "asynchronous operations in lib")
    c.ob("C7", ("lib/node-gyp.js", 1), not lose, f"{n} calls that return promises are awaited, returned or handed on")
    m = next((m for m in c.js.mods.values() if m.path == "bin/node-gyp.js"), None)
    if m is None:
        c.ob("C1", ("bin/node-gyp.js", 1), False, "command line driver exists")
        return
    g = c.graph(m.fn, NOLOG)
    cmds = c.need("C1", [n for n in g.nodes if n.live and is_cmd(g, n)], "command dispatch prog.commands[name](args)", m.fn.loc)
    cmd_ids = {n.id for n in cmds}
    cmd_fns = {n.fn for n in cmds if getattr(n, "fn", None)}
    rec = set()
    for n in g.calls():
        cal = g.callee(n)
        if cal[0] == "fn" and n.id not in cmd_ids and contains_cmd(c, cal[1]):
            rec.add(n.id)
    floats = {n.id for n in floating(g)}
    for n in cmds:
        c.ob("C5", n.loc, n.awaited, "the command is awaited", "the command is not awaited: its failure is lost")
        okargs = n.args and all(v[0] == "a" and v[2] == "args" for v in g.values(n, n.args[-1], 4))
        c.ob("C5", n.loc, okargs, "the command gets its own arguments")
        src = set()
        for cal in g.resolve(n.callee, n):
            for x in closure(g, cal):
                if x[0] == "call" or x[0] == "t":
                    cn = g.nodes[x[1]] if x[0] == "t" else None
                    if cn is not None and cn.op == "call" and cn.callee[0] == "a" and any(todo_term(r) for r in g.resolve(cn.callee[1], cn)):
                        src.add(cn.callee[2])
                if x[0] in ("elem",) and has(x, todo_term):
                    src.add("iterate")
                if x[0] == "i" and any(todo_term(r) for r in [x[1]]):
                    src.add("index")
        c.ob("C5", n.loc, bool(src) and src <= {"shift", "iterate", "index"}, f"commands are taken from the front of the queue ({sorted(src)})",
             f"commands are not taken from the front of the queue ({sorted(src)})")
    # the completion flag: module variables tested by the exit listener
    flags = set()
    found = {}
    for n in g.calls():
        cal = g.callee(n)
        if cal[0] == "a" and cal[1] == ("glob", "process") and cal[2] in ("on", "once", "addListener", "prependListener") and len(n.args) >= 2:
            ev = g.value(n, n.args[0])
            f = g.value(n, n.args[1])
            if ev and ev[0] == "c" and f and f[0] == "fn":
                found.setdefault(ev[1], []).append((n, f[1]))
    c.need("C3", found.get("exit", []), "process.on('exit') listener", m.fn.loc)
    for n, f in found.get("exit", []):
        fg = c.graph(f, NOLOG)
        for b in fg.nodes:
            if b.op == "branch" and b.live:
                for x in unfolded(fg, b):
                    if is_modvar(x):
                        flags.add(x)
        code = ("param", f.params[0][0].id) if f.params and hasattr(f.params[0][0], "id") else None

        def fine(m2, l, fg=fg, code=code):
            if is_exit(fg, m2):
                return exit_code(fg, m2) == "nonzero"
            if m2.op == "store" and m2.name == "exitCode":
                return all(v[0] == "c" and v[1] for v in fg.values(m2, m2.value))
            if m2.op != "branch" or l not in ("T", "F"):
                return False
            return implied(raw_cond(fg, m2), l == "T", lambda t, tr: tr and (is_modvar(t) or t == code)
                           or t[0] == "op" and t[1] == "==" and (
                               not tr and set(t[2:]) == {code, ("c", 0)}
                               or tr and any(map(is_modvar, t[2:])) and ("c", True) in t[2:]))
        c.must_pass("C3", fg, [fg.exit], fine, "an incomplete run with code 0 ends with a non-zero code",
                    "a run that never completed can exit with code 0")
    names = {x[2] for x in flags}
    for n, f in found.get("uncaughtException", []) + found.get("unhandledRejection", []):
        fg = c.graph(f, NOLOG)
        c.must_pass("C6", fg, [fg.exit], lambda m2, l, fg=fg: is_exit(fg, m2) and exit_code(fg, m2) == "nonzero"
                    or m2.op == "store" and m2.name == "exitCode" and all(v[0] == "c" and v[1] for v in fg.values(m2, m2.value)),
                    "the listener ends the process with a non-zero code", "an uncaught exception can end with code 0")

    def is_flag(n):
        return n.op == "assign" and n.var[0] == "v" and isinstance(n.var[2], str) and n.var[2].split("#")[0] in {x.split("#")[0] for x in names}

    done = [n for n in g.nodes if n.live and is_flag(n) and n.term == ("c", True)]
    oks = [n for n in g.calls() if any(v == ("c", "ok") for a in n.args[:1] for v in g.values(n, a, 2)) and len(n.args) == 1
           and has(n.callee, lambda x: x[0] == "mod" and x[1].startswith("lib/log"))]
    c.need("C2", done, "completion flag is set", m.fn.loc)
    empty = memo(g, empty_fact, 4)
    c.must_pass("C2", g, done + oks, empty, lambda s: f"{'completion flag' if s in done else 'final ok'} only with an empty queue",
                lambda s: f"{'the run is marked complete' if s in done else 'the final ok is printed'} although commands may remain")
    for n in g.nodes:
        if n.live and is_flag(n) and n not in done:
            c.ob("C2", n.loc, n.term == ("c", False) or n.term == ("c", None), "the flag starts false")
    zeros = [n for n in g.calls() if is_exit(g, n) and exit_code(g, n) != "nonzero"]
    c.must_pass("C4", g, zeros, empty, "exit(0) only without commands", "process.exit with status 0 is reachable with commands queued")
    # C1
    bad = []
    doneids = {n.id for n in done} | {n.id for n in oks}

    def step(q, n, label):
        if is_exit_cached(n):
            if q == 1 and codes[n.id] != "nonzero":
                bad.append((n, q, "a failed command ends in process.exit without a non-zero code"))
            return ()
        if q == 1:
            if n.op == "store" and n.name == "exitCode" and all(v[0] == "c" and v[1] for v in g.values(n, n.value)):
                return (2,)
        if q in (1, 2):
            if n.id in cmd_ids or n.id in rec:
                bad.append((n, q, "after a failed command the next one is run"))
            if n.id in doneids:
                bad.append((n, q, "after a failed command the run is marked as complete"))
        if n.id in cmd_ids:
            return (1,) if label == "exc" else (0,)
        return (q,)

    codes = {n.id: exit_code(g, n) for n in g.calls() if is_exit(g, n)}

    def is_exit_cached(n):
        return n.id in codes

    ex = c.explore(g, 0, step)
    for n, q, why in bad:
        c.ob("C1", n.loc, False, "failed command stops the run", why, ex.trace(n, q))
    c.ob("C1", m.fn.loc, not bad and 1 not in ex.states_at(g.exit), "a failed command leads to a non-zero exit",
         "a command can fail while the process exits normally", ex.trace(g.exit, 1) if 1 in ex.states_at(g.exit) else None)


def is_modvar(x):
    return x[0] == "v" and isinstance(x[1], str) and x[1].startswith("M:")


def raw_cond(g, b):
    """Branch condition with locals substituted but module variables kept symbolic."""
    mods = {x[2] for x in floor_vars(g, b.term, b)}
    return subst(g, b.term, b, mods)


def floor_vars(g, t, node, depth=6):
    for x in walk_term(t):
        if is_modvar(x):
            yield x
        elif x[0] == "v" and depth:
            for d in g.reaching(node, x):
                if not isinstance(d, (tuple, str)):
                    yield from floor_vars(g, d.term, d, depth - 1)


def subst(g, t, node, keep, depth=8):
    if t[0] == "v" and not is_modvar(t):
        ds = g.reaching(node, t)
        if len(ds) == 1 and not isinstance(ds[0], (tuple, str)) and depth:
            return subst(g, ds[0].term, ds[0], keep, depth - 1)
        r = g.resolve(t, node)
        return next(iter(r)) if len(r) == 1 else t
    if t[0] in ("a", "i", "op", "list", "tuple", "set", "cat", "dict", "call"):
        return g._map(t, lambda x: subst(g, x, node, keep, depth))
    return t


def unfolded(g, b):
    return list(floor_vars(g, b.term, b))


def contains_cmd(c, fn):
    g = c.flat(fn)
    return any(is_cmd(g, n) for n in g.nodes if n.live)
