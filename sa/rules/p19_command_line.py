"""What the command line and the npm environment make node-gyp do."""
import itertools
from ..ccp import CCP, Blowup, TOP
from ..cfg import show
from ..match import *
from .jscommon import *

ID = "P19"
EXPLANATION = (
    "Conditional constant propagation of the argument parser over its graph, with the command and alias tables read from "
    "the source, for every sequence of word classes up to a bounded length and for every class of environment variable "
    "name; option values stay symbolic. The command table, the queue entries pushed by rebuild, the choice of the headers "
    "directory and the values of the list command are decided by the same propagation.")
COMMANDS = ("build", "clean", "configure", "rebuild", "install", "list", "remove")
ALIASES = {"ls": "list", "rm": "remove"}
ENV = ("a", ("glob", "process"), "env")
LOG = "lib/log.js"


def lst(xs):
    return ("list", tuple(xs))


def const_items(c, m, t):
    """[str] of a literal list term."""
    if t[0] == "glob" or t[0] == "v":
        t = c.js.content(t)
    if t[0] in ("list", "set") and all(x[0] == "c" for x in t[1]):
        return [x[1] for x in t[1]]
    return None


class Model:
    def __init__(self, words=(), env=(), cli=(), tables=()):
        self.words, self.env, self.cli = words, env, cli

    def val(self, n):
        return ("c", "") if n.endswith("proxy") else ("sym", "env:" + n)

    def __call__(self, op, t):
        if op == "call":
            c = t[1]
            if c == ("mod", "nopt") or c == ("a", ("mod", "nopt"), "default"):
                return ("dict", tuple((("c", k), v) for k, v in self.cli) +
                        ((("c", "argv"), ("dict", ((("c", "remain"), lst(("c", w) for w in self.words)),))),))
            if c == ("a", ("glob", "Object"), "keys") and t[2][0] == ENV:
                return lst(("c", n) for n in self.env)
            if c == ("a", ("glob", "Object"), "entries") and t[2][0] == ENV:
                return lst(lst((("c", n), self.val(n))) for n in self.env)
        if op == "iterate" and t == ENV:
            return lst(("c", n) for n in self.env)
        if op == "value" and t[0] == "a" and t[1] == ENV:
            return self.val(t[2]) if t[2] in self.env else ("c", None)
        if op == "truth" and t[0] == "sym":
            return True
        if op == "eq" and t[0][0] == "sym" and t[1] == ("c", None) or op == "eq" and t[1][0] == "sym" and t[0] == ("c", None):
            return False
        return None


def spec(words):
    out = []
    for w in words:
        w = ALIASES.get(w, w)
        if w in COMMANDS:
            out.append((w, []))
        elif out:
            out[-1][1].append(w)
    return out


def queue(v):
    if v[0] != "list":
        return None
    out = []
    for x in v[1]:
        n, a = dict_get(x, "name"), dict_get(x, "args")
        if n is None or n[0] != "c" or a is None or a[0] != "list" or any(y[0] != "c" for y in a[1]):
            return None
        out.append((n[1], [y[1] for y in a[1]]))
    return out


def tables(c, m, parse):
    """Command names and aliases from the source, as terms for this.commands / this.aliases."""
    cls = parse.cls
    names = None
    for nm in m.fn.assigns if hasattr(m.fn, "assigns") else []:
        for t in c.js.module_value(m.name, nm):
            xs = const_items(c, m, t)
            if xs and "configure" in xs:
                names = xs
    al = cls.fields.get("aliases")
    alias = None
    if al is not None and al.k == "Dict" and all(k is not None and k.k == "Const" and v.k == "Const" for k, v in al.items):
        alias = [(k.v, v.v) for k, v in al.items]
    elif al is not None and al.k == "Name":
        for t in c.js.module_value(m.name, al.id):
            d = c.js.content(t)
            if d[0] == "dict" and all(k is not None and k[0] == "c" and v[0] == "c" for k, v in d[1]):
                alias = [(k[1], v[1]) for k, v in d[1]]
    return names, alias


def init(names, alias):
    s = {"#": 0}
    s[("F", "commands")] = ("dict", tuple((("c", n), ("sym", "cmd:" + n)) for n in names))
    s[("F", "aliases")] = ("dict", tuple((("c", a), ("c", b)) for a, b in alias))
    s[("F", "this")] = ("dict", ((("c", "commands"), ("new", "commands")), (("c", "aliases"), ("new", "aliases"))))
    return s


def fields(e, s):
    d = e.deep(("new", "this"), s)
    return {k[1]: v for k, v in d[1] if k is not None and k[0] == "c"}


def check(c):
    c.rule("Q1", "the command line becomes the queue of its commands, in order, each with the words that follow it")
    c.rule("Q2", "npm_config_* variables become options, dashes for underscores, without empty names; loglevel sets the log level")
    c.rule("Q3", "every command name loads and calls the command of that name with the program and its arguments")
    c.rule("Q4", "rebuild queues clean, configure with its arguments, and build")
    c.rule("Q5", "the headers directory is --devdir with a leading ~ expanded, else the user's cache directory")
    c.rule("Q6", "-C changes to an existing directory before any command runs")
    c.rule("Q7", "list returns every entry of the headers directory and fails on any error but a missing directory")
    m = c.js.mods.get("lib/node-gyp.js")
    parse = next((f for f in m.functions if f.name == "parseArgv" and f.cls is not None), None) if m else None
    if parse is None:
        return c.ob("Q1", ("lib/node-gyp.js", 1), False, "the argument parser exists")
    names, alias = tables(c, m, parse)
    c.ob("Q1", m.fn.loc, names is not None and set(names) >= set(COMMANDS), f"all documented commands exist ({names})")
    c.ob("Q1", m.fn.loc, alias is not None and dict(alias) == ALIASES, f"the aliases are ls and rm ({alias})")
    if names is None or alias is None:
        return
    g = c.graph(parse, NOLOG)
    pool = ("configure", "install", "ls", "rm", "v1.2.3", "constructor")
    depth = 3 if c.tier == "quick" else 4
    bad = 0
    total = 0
    small = ("configure", "rm", "v1.2.3")
    seqs = [w for n in range(depth + 1) for w in itertools.product(pool, repeat=n)] + \
        [w for n in range(depth + 1, depth + 3) for w in itertools.product(small, repeat=n)]
    for words in seqs:
        total += 1
        e = CCP(g, Model(words), heaplists=True)
        try:
            rs = e.run(init(names, alias))
        except Blowup:
            rs = []
        c.states += e.count
        got = [queue(fields(e, s).get("todo", TOP)) if k == "return" else None for k, _, s in rs]
        ok = bool(got) and all(q == spec(words) for q in got)
        if not ok:
            bad += 1
        if not ok and bad <= 3 or ok and total % 50 == 1:
            c.ob("Q1", parse.loc, ok, f"the queue is right for {list(words)}",
                 f"for the words {list(words)} the queue is {got[0] if got else 'undecided'}, expected {spec(words)}", key="queue")
    c.ob("Q1", parse.loc, bad == 0, f"the queue is right for all {total} sequences of word classes up to length {depth} (three classes: {depth + 2})", key="queue")
    # environment
    pre = "npm_config_"
    cases = [("npm_config_python", "python"), ("npm_config_force_process_config", "force-process-config"),
             ("npm_config_msvs_version", "msvs-version"), ("npm_config_dist_url", "dist-url"), ("npm_config_x", "x"), ("npm_config_proxy", "proxy"), ("npm_config_", None),
             ("npm_config_loglevel", None), ("PATH", None), ("my_npm_config_x", None), ("xnpm_config_python", None)]
    for extra in ((), ("npm_config_", "npm_config_loglevel", "PATH", "npm_config_zz")):
        for var, opt in cases:
            for order in (0, 1):
                env = tuple(x for x in ((var,) + extra if order else extra + (var,)))
                env = tuple(dict.fromkeys(env))
                want = {"zz": ("sym", "env:npm_config_zz")} if extra else {}
                if opt:
                    want[opt] = Model().val(var)
                lvl = "npm_config_loglevel" in env
                e = CCP(g, Model(("build",), env, (("jobs", ("sym", "cli:jobs")),)), heaplists=True)
                try:
                    rs = e.run(init(names, alias))
                except Blowup:
                    rs = []
                c.states += e.count
                c.ob("Q2", parse.loc, bool(rs), f"options are decided for {env}", key="decided")
                for k, _, s in rs:
                    o = fields(e, s).get("opts", TOP) if k == "return" else TOP
                    got = {a[1]: b for a, b in o[1] if a is not None and a[0] == "c" and a[1] != "argv"} if o[0] == "dict" else {}
                    w = dict(want, jobs=("sym", "cli:jobs"))
                    ok = o[0] == "dict" and all(a is not None and a[0] == "c" for a, _ in o[1]) and \
                        {a: b for a, b in got.items() if b != ("c", None) and a != "loglevel"} == w
                    c.ob("Q2", parse.loc, ok, f"the options are right with {list(env)} in the environment",
                         f"with {list(env)} in the environment the options are {({a: show(b)[:40] for a, b in got.items()})}", key="options " + var)
                    lv = [v for kk, v in s.items() if isinstance(kk, tuple) and kk[0] == "W" and kk[2] == ("c", "level")]
                    c.ob("Q2", parse.loc, lv == ([("sym", "env:npm_config_loglevel")] if lvl else []),
                         f"the log level follows npm_config_loglevel with {list(env)}", key="level " + var)
    for cli in (True, False):
        e = CCP(g, Model(("build",), (), (("loglevel", ("sym", "cli:loglevel")),) if cli else ()), heaplists=True)
        for k, _, s in e.run(init(names, alias)):
            lv = [v for kk, v in s.items() if isinstance(kk, tuple) and kk[0] == "W" and kk[2] == ("c", "level")]
            c.ob("Q2", parse.loc, lv == ([("sym", "cli:loglevel")] if cli else []), "the log level follows --loglevel")
    q3(c, m, names)
    rebuild(c)
    driver(c)
    listing(c)


def q3(c, m, names):
    sites = []
    for f in m.functions:
        g = c.flat(f)
        for n in g.calls():
            cal = g.callee(n)
            if cal[0] == "call" and cal[1] == ("glob", "require") and cal[2]:
                sites.append((f, g, n, cal))
    for nm in names:
        t = c.js.mods.get("lib/" + nm + ".js")
        e = exported(c.js, "lib/" + nm + ".js") if t else None
        c.ob("Q3", m.fn.loc, e is not None and len(e.params) >= 1, f"the command {nm} is a function of its own module")
    c.need("Q3", sites, "dispatch to the command modules", m.fn.loc)
    for f, g, n, cal in sites:
        a = cal[2][0]
        names_t = None
        if a[0] == "cat" and a[1][0] == ("c", "./") and len(a[1]) == 2:
            names_t = a[1][1]
        elif a[0] == "call" and a[1][0] == "a" and a[1][2] in ("join", "resolve") and a[2][-1][0] != "c":
            names_t = a[2][-1]
        c.ob("Q3", n.loc, names_t is not None and names_t[0] in ("param", "free", "elem"), "the module of the command's own name is loaded",
             f"the loaded module is {show(a)[:80]}")
        own = [p[0].id for p in f.params if p[0].k == "Name"]
        args = [g.one(x, n) for x in n.args]
        c.ob("Q3", n.loc, len(args) >= 2 and (args[0] == ("this",) or args[0][0] == "free") and
             (args[1][0] == "param" and args[1][1] in own or args[1][0] == "star"),
             "the command gets the program and its own arguments", f"the command is called with {[show(x)[:40] for x in args]}")


def rebuild(c):
    f = exported(c.js, "lib/rebuild.js")
    if f is None:
        return c.ob("Q4", ("lib/rebuild.js", 1), False, "the rebuild command is exported")
    g = c.graph(f, NOLOG)
    pn = [p[0].id if p[0].k == "Name" else None for p in f.params] + [None, None]

    class M:
        def __call__(self, op, t):
            if op == "value" and t == ("a", ("param", pn[0]), "todo"):
                return ("new", "todo")
            return None
    for before in (0, 1):
        pending = [("sym", "pending")] * before
        e = CCP(g, M(), heaplists=True)
        for k, n, s in e.run({("F", "todo"): ("list", tuple(pending)), "#": 0}):
            q = e.deep(("new", "todo"), s)
            items = list(q[1]) if q[0] == "list" else []
            got = [(dict_get(x, "name"), dict_get(x, "args")) for x in items if x[0] == "dict"]
            want = [(("c", "clean"), lst(())), (("c", "configure"), ("param", pn[1])), (("c", "build"), lst(()))]
            c.ob("Q4", f.loc, k == "return" and got == want, "rebuild is clean, configure with the arguments, build",
                 f"rebuild queues {[(show(a) if a else None, show(b)[:40] if b else None) for a, b in got]}")


def driver(c):
    m = next((m for m in c.js.mods.values() if m.path == "bin/node-gyp.js"), None)
    if m is None:
        return c.ob("Q5", ("bin/node-gyp.js", 1), False, "command line driver exists")
    from .p08_cli_exit import is_cmd
    g = c.graph(m.fn, opaque("parseArgv", "usage", "errorMessage", "issueMessage"))
    stop = {n.id for n in g.nodes if n.live and is_cmd(g, n)}
    c.need("Q5", stop, "command dispatch", m.fn.loc)

    class M:
        def __init__(self, dev, home, d, isdir):
            self.dev, self.home, self.d, self.isdir = dev, home, d, isdir

        def __call__(self, op, t):
            if op == "value" and t[0] == "a" and t[1][0] == "a" and t[1][2] == "opts":
                if t[2] == "devdir":
                    return ("sym", "devdir") if self.dev else ("c", None)
                if t[2] == "directory":
                    return ("sym", "dir") if self.d else ("c", None)
            if op == "call":
                cc = t[1]
                if cc == ("a", ("mod", "os"), "homedir"):
                    return ("sym", "home") if self.home else ("c", "")
                if cc[0] == "a" and cc[2] == "isDirectory":
                    return ("c", self.isdir)
                if cc[0] == "a" and cc[2] == "replace" and cc[1] == ("sym", "devdir") and t[2][0] == ("regex", "^~", "") and \
                        t[2][1][:2] == ("sym", "home"):
                    return ("sym", "tilde")
            if op == "effect":
                return t[1] == ("a", ("glob", "process"), "chdir")
            if op == "truth":
                if t[0] == "sym":
                    return True
                if t[0] == "a" and t[2] == "cache":
                    return True
                if t[0] in ("op",) and len(t) == 4 and has(t, lambda x: x[0] == "a" and x[2] == "length" and x[1][0] == "a" and x[1][2] == "todo"):
                    return {"==": False, "===": False, "<": t[2][0] == "c", ">": t[3][0] == "c"}.get(t[1])
                if t[0] == "a" and t[2] == "length" and t[1][0] == "a" and t[1][2] == "todo":
                    return True
                if t[0] == "call" and t[1][0] == "a" and t[1][2] == "shift":
                    return True
            return None
    for dev, home, d, isdir in itertools.product((True, False), repeat=4):
        if isdir and not d:
            continue
        e = CCP(g, M(dev, home, d, isdir), maxstates=20000)
        try:
            rs = e.run(stop=stop)
        except Blowup:
            c.ob("Q5", m.fn.loc, False, "the driver is decided for every input class", "too many undecided branches")
            return
        c.states += e.count
        hits = [(n, s) for k, n, s in rs if k == "stop"]
        desc = f"--devdir {'given' if dev else 'absent'}, home directory {'known' if home else 'unknown'}"
        if not dev and not home:
            c.ob("Q5", m.fn.loc, not hits, f"no command runs without a headers directory ({desc})")
            continue
        c.ob("Q5", m.fn.loc, bool(hits), f"commands run ({desc})")
        for n, s in hits:
            v = [e.deep(v, s) for k, v in s.items() if isinstance(k, tuple) and k[0] == "W" and k[2] == ("c", "devDir")]
            if dev:
                ok = v == [("sym", "tilde")] if home else bool(v) and all(
                    has(x, lambda y: y == ("sym", "devdir")) for x in v)
            else:
                ok = len(v) == 1 and v[0][0] == "a" and v[0][2] == "cache" and v[0][1][0] == "call" and v[0][1][1] == ("mod", "env-paths") and \
                    v[0][1][2][:1] == (("c", "node-gyp"),)
                if ok:
                    o = e.deep(v[0][1][2][1], s) if len(v[0][1][2]) > 1 else ("dict", ())
                    ok = dict_get(o, "suffix") == ("c", "")
            c.ob("Q5", n.loc, ok, f"the headers directory is right ({desc})", f"{desc}: the headers directory is {[show(x)[:80] for x in v]}")
            ch = [a for _, _, a in s.get("fx", ())]
            c.ob("Q6", n.loc, ch == ([(("sym", "dir"),)] if d and isdir else []),
                 f"the working directory is right (-C {'given' if d else 'absent'}, {'' if isdir else 'not '}a directory)",
                 f"changes to {ch}")
    printing(c, g, m.fn.loc)


def printing(c, g, loc):
    """What the driver prints for the result of `list`."""
    def cmd(cc):
        return cc[0] in ("a", "i") and cc[1][0] == "a" and cc[1][2] == "commands" or \
            cc[0] == "a" and cc[2] in ("call", "apply") and cmd(cc[1])

    class M:
        def __init__(self, vs):
            self.vs = vs

        def __call__(self, op, t):
            if op == "value" and t[0] == "a":
                if t[2] == "todo":
                    return ("new", "todo")
                if t[1][0] == "a" and t[1][2] == "opts":
                    return ("sym", "devdir") if t[2] == "devdir" else ("c", None)
            if op == "throws":
                return False
            if op == "call":
                if cmd(t[1]):
                    return lst(("c", v) for v in self.vs)
                if t[1] == ("a", ("mod", "os"), "homedir"):
                    return ("sym", "home")
                if t[1][0] == "a" and t[1][2] == "parseArgv":
                    return ("c", None)
                if t[1][0] == "a" and t[1][2] == "replace":
                    return ("sym", "tilde")
            if op == "effect":
                return t[1][0] == "a" and t[1][2] in ("stdout",) or \
                    t[1] in (("a", ("glob", "console"), "log"), ("a", ("a", ("glob", "process"), "stdout"), "write"))
            if op == "truth" and t[0] == "sym":
                return True
            if op == "truth" and t in (("op", "floating"), ("op", "callback")):
                return t[1] == "floating"
            return None
    for vs in (("1.0.0",), ("1.0.0", "2.0.0", "iojs-3.0.0")):
        e = CCP(g, M(vs), heaplists=True, maxstates=20000)
        entry = ("dict", ((("c", "name"), ("c", "list")), (("c", "args"), lst(()))))
        try:
            rs = e.run({("F", "todo"): lst((entry,)), "#": 0})
        except Blowup:
            rs = []
        c.states += e.count
        got = set()
        for k, n, s in rs:
            words = []
            for _, _, a in s.get("fx", ()):
                for x in a:
                    x = e.deep(x, s)
                    words += str(x[1]).split() if x[0] == "c" else [show(x)[:40]]
            got.add(tuple(words))
        c.ob("Q7", loc, got == {vs}, f"every listed version of {list(vs)} is printed",
             f"of the versions {list(vs)} the command line prints {sorted(map(list, got))[:3]}", key="printing")


def listing(c):
    f = exported(c.js, "lib/list.js")
    if f is None:
        return c.ob("Q7", ("lib/list.js", 1), False, "the list command is exported")
    g = c.graph(f, NOLOG)
    pn = f.params[0][0].id

    class M:
        def __init__(self, code, entries):
            self.code, self.entries = code, entries

        def __call__(self, op, t):
            if op == "call" and fs_op(t[1]) in ("readdir",):
                return lst(("c", x) for x in self.entries) if t[2] and t[2][0] == ("a", ("param", pn), "devDir") else TOP
            if op == "throws" and fs_op(t[1]) in ("readdir",):
                return self.code is not None
            if op == "call" and t[1] == ("a", ("glob", "Array"), "isArray"):
                return ("c", True)
            if op == "value" and t[0] == "a" and t[2] == "code":
                return ("c", self.code)
            if op == "truth" and t[0] == "excof":
                return True
            return None
    for ents in ((), ("1.0.0",), ("1.0.0", "current", "iojs-2.0.0"), ("current",), ("20.0.0", "current2", ".x")):
        e = CCP(g, M(None, ents), heaplists=True)
        for k, n, s in e.run():
            v = e.deep(s.get(("v", "r", "$ret"), TOP), s)
            got = [x[1] for x in v[1]] if v[0] == "list" and all(x[0] == "c" for x in v[1]) else None
            c.ob("Q7", f.loc, k == "return" and got == [x for x in ents if x != "current"], f"every version directory of {list(ents)} is listed",
                 f"of {list(ents)} the command lists {got}")
    for code in ("ENOENT", "EACCES", "ENOTDIR"):
        e = CCP(g, M(code, ("1.0.0",)), heaplists=True)
        outs = e.run()
        fails = [k for k, n, s in outs if k == "raise"]
        empty = [k for k, n, s in outs if k == "return" and e.deep(s.get(("v", "r", "$ret"), TOP), s) == lst(())]
        c.ob("Q7", f.loc, bool(empty) and not fails if code == "ENOENT" else bool(fails) and not empty,
             f"a failure {code} of reading the directory {'means no versions' if code == 'ENOENT' else 'fails the command'}")
