"""A failed or killed child process never looks like success."""
from ..match import *
from ..cfg import show
from .jscommon import *

ID = "P09"
EXPLANATION = (
    "For every child process started by the build and configure commands: its exit event must settle a promise that the "
    "command awaits; resolving it must be dominated, inside the event callback, by the exit code being exactly zero (or "
    "code and signal both falsy); every path of the callback settles it. Path-sensitive dominance on the command's "
    "supergraph with the callback spliced in.")


def spawn_like(t):
    return t[0] == "a" and t[2] in ("spawn", "fork") or is_spawn_api(t) and t[2] in ("spawn", "fork", "execFile", "exec")


def check(c):
    c.rule("K1", "each spawned child has an exit listener")
    c.rule("K2", "success is reported only for exit code zero and no signal")
    c.rule("K3", "every path of the listener reports success or failure")
    c.rule("K4", "the command waits for the result")
    for name in ("build", "configure"):
        fn = exported(c.js, f"lib/{name}.js")
        if fn is None:
            c.ob("K1", (f"lib/{name}.js", 1), False, f"command {name} is exported")
            continue
        g = c.graph(fn, opaque("processRelease", "findPython", "findVisualStudio", "createConfigGypi", "findNodeDirectory"))
        spawns = c.need("K1", [n for n in g.calls() if spawn_like(g.callee(n))], f"{name} starts a child process", fn.loc)
        for s in spawns:
            ls = []
            for n in g.calls():
                cal = n.callee
                if cal[0] != "a" or cal[2] not in ("on", "once", "addListener") or len(n.args) < 2:
                    continue
                if g.value(n, n.args[0]) not in (("c", "exit"), ("c", "close")):
                    continue
                if any(r == ("t", s.id) for r in g.resolve(cal[1], n)):
                    ls.append(n)
            # chained: gyp.spawn(...).on('exit', ...)
            c.ob("K1", s.loc, bool(ls), f"{name}: the child's exit event is observed",
                 f"{name}: nobody observes the exit of this child process")
            ends = set()
            for l in ls:
                ends |= check_listener(c, g, name, l) or set()
            # nothing but the end of the child may report success
            proms = {r[1] for n in g.calls() if n.id in ends for r in g.resolve(n.callee, n) if r[0] == "resolve"}
            for n in g.calls():
                if n.id not in ends and any(r[0] == "resolve" and r[1] in proms for r in g.resolve(n.callee, n)):
                    c.ob("K2", n.loc, False, "success is reported by the child's end only", f"{name}: success can be reported although the child did not end with exit code zero")
            for f in floating(g):
                body = next((m for lab, m in f.succ if lab == "T"), None)
                ok = body is None or not (body is s or reachable(g, body, s, lambda n, lab, f=f: n is f or lab != "exc" and any(m in [x for l2, x in f.succ if l2 == "F"] for l2, m in n.succ if l2 == lab)))
                c.ob("K4", f.loc, ok, f"{name}: the part that starts the child is awaited", f"{name}: the command does not wait for the part that runs its child")


def check_listener(c, g, name, l):
    code, sig = ("cbarg", l.id, 0), ("cbarg", l.id, 1)
    res = [n for n in g.calls() if any(r[0] == "resolve" for r in g.resolve(n.callee, n))]
    rej = [n for n in g.calls() if any(r[0] == "reject" for r in g.resolve(n.callee, n))]
    cbs = [n for n in g.nodes if n.op == "branch" and n.live and n.term == ("op", "callback") and getattr(n, "call", None) == l.id]
    c.ob("K2", l.loc, bool(cbs), f"{name}: the exit listener is a known function")
    if not cbs:
        return None
    start = next(m for lab, m in cbs[0].succ if lab == "T")
    inside = reach_from(g, start, l.id, cbs[0].id)
    res = [n for n in res if n.id in inside]
    rej = [n for n in rej if n.id in inside]

    def is_code(x):
        return x[:3] == code

    def is_sig(x):
        return x[:3] == sig

    def zero(t, tr):
        return t[0] == "op" and t[1] == "==" and tr and ((is_code(t[2]) and t[3] == ("c", 0)) or (is_code(t[3]) and t[2] == ("c", 0)))

    ca = memo(g, lambda t, tr: zero(t, tr) or (is_code(t) and not tr), 2)
    cb = memo(g, lambda t, tr: zero(t, tr) or (is_sig(t) and not tr)
              or t[0] == "op" and t[1] == "isnull" and is_sig(t[2]) and tr
              or t[0] == "op" and t[1] == "==" and is_sig(t[2]) and t[3] == ("c", None) and tr, 2)
    fwd = [n for n in res if n.args and any(mentions(v, code) or has(v, is_code) for v in g.values(n, n.args[0], 4))]
    if fwd:
        for s in fwd:
            forwarded(c, g, name, s, is_code, is_sig)
        res = [n for n in res if n not in fwd]
        settle = {n.id for n in fwd + res + rej}
        if not res:
            return {n.id for n in fwd}
    c.ob("K2", l.loc, bool(res) and bool(rej or fwd), f"{name}: the exit listener settles a promise both ways",
         f"{name}: the exit listener cannot report {'failure' if res else 'success'}")
    for s in res:
        ids = {r[1] for r in g.resolve(s.callee, s) if r[0] == "resolve"}
        c.must_pass("K2", g, [s], ca, f"{name}: success only after the exit code was found zero",
                    f"{name}: a child with a non-zero exit code is reported as success", start=start)
        c.must_pass("K2", g, [s], cb, f"{name}: success only without a signal",
                    f"{name}: a child killed by a signal is reported as success", start=start)
        for i in ids:
            ps = [n for n in g.calls() if getattr(n, "promise", None) == i]
            aw = any(n.awaited for n in ps) or returned(g, ps)
            c.ob("K4", s.loc, bool(ps) and aw, f"{name}: the result is awaited", f"{name}: the command does not wait for its child")
    settle = {n.id for n in res + rej}
    fn = getattr(cbs[0], "fn", None)
    leaves = [n for n in g.nodes if n.id in inside and any(m.id == cbs[0].id or m.id not in inside for lab, m in n.succ if lab == "n")]
    if leaves:
        c.must_pass("K3", g, leaves, lambda n, lab: n.id in settle, f"{name}: every path of the exit listener settles the result",
                    f"{name}: the exit listener can finish without reporting a result", start=start)
    return {n.id for n in res + fwd}


def forwarded(c, g, name, s, is_code, is_sig):
    """The promise resolves with the exit code: the awaiting code has to test it."""
    ids = {r[1] for r in g.resolve(s.callee, s) if r[0] == "resolve"}
    ps = [n for n in g.calls() if getattr(n, "promise", None) in ids]
    c.ob("K4", s.loc, bool(ps) and all(n.awaited for n in ps) or returned(g, ps), f"{name}: the result is awaited",
         f"{name}: the command does not wait for its child")
    v = g.content(g.one(s.args[0], s, 4))
    acc = {}
    if is_code(v):
        acc["code"] = lambda t, p: t == ("t", p)
    elif v[0] == "dict":
        for k, x in v[1]:
            if k and k[0] == "c":
                if is_code(x):
                    acc["code"] = lambda t, p, k=k: t == ("a", ("t", p), k[1])
                elif is_sig(x):
                    acc["sig"] = lambda t, p, k=k: t == ("a", ("t", p), k[1])
    elif v[0] in ("list", "tuple"):
        for i, x in enumerate(v[1]):
            if is_code(x):
                acc["code"] = lambda t, p, i=i: t == ("i", ("t", p), ("c", i))
            elif is_sig(x):
                acc["sig"] = lambda t, p, i=i: t == ("i", ("t", p), ("c", i))
    c.ob("K2", s.loc, "code" in acc, f"{name}: the exit code is forwarded")
    if "code" not in acc:
        return
    for p in ps:
        def isc(t):
            return is_code(t) or acc["code"](t, p.id)

        def zero(t, tr):
            return t[0] == "op" and t[1] == "==" and tr and (isc(t[2]) and t[3] == ("c", 0) or isc(t[3]) and t[2] == ("c", 0))

        def sig(t, tr):
            return "sig" in acc and not tr and (is_sig(t) or acc["sig"](t, p.id))
        for pred, what in ((lambda t, tr: zero(t, tr) or not tr and isc(t), "with a non-zero exit code"),
                           (lambda t, tr: zero(t, tr) or sig(t, tr), "killed by a signal")):
            m = memo(g, pred, 0)
            c.must_pass("K2", g, [g.exit], lambda n, lab: (n.id == p.id and lab == "exc") or m(n, lab),
                        f"{name}: success only if the child did not end {what}",
                        f"{name}: a child {what} is reported as success", start=p)


def returned(g, ps):
    return any(n.op == "assign" and n.var[2] == "$ret" and any(r == ("t", p.id) for p in ps for r in g.resolve(n.term, n))
               for n in g.nodes if n.live)


def reach_from(g, start, *stops):
    seen = {start.id}
    st = [start]
    while st:
        n = st.pop()
        if n.op == "leave" and n.loc == start.loc:
            continue
        for lab, m in n.succ:
            if m.id not in seen and m.id not in stops:
                seen.add(m.id)
                st.append(m)
    return seen
