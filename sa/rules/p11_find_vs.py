"""Only a complete, supported and requested Visual Studio is used; the newest one wins."""
import re
from ..match import *
from ..ccp import CCP, Blowup, RAISE
from ..cfg import show
from .jscommon import *

ID = "P11"
EXPLANATION = (
    "Each search strategy of lib/find-visualstudio.js is inlined into one graph. The points where it decides to return "
    "an installation are traced back through return values; each must be dominated by facts that MSBuild, a toolset and "
    "an SDK were found on that very installation, that its year is in the strategy's supported list, and that the three "
    "user selections match. Constant years, toolsets and Node.js limits are checked against the published table.")
M = "lib/find-visualstudio.js"
LIMIT = {2017: 22, 2015: 19, 2013: 9}  # first Node.js major that no longer supports the year
TOOLSET = {"v143": 2022, "v142": 2019, "v141": 2017, "v140": 2015, "v120": 2013}
MAJOR = {2017: 15, 2019: 16, 2022: 17, 2015: 14, 2013: 12}


def ret_chain(g):
    """Leaf assignments of the root's result (following $ret copies only)."""
    out, seen = [], set()
    todo = []
    for _, p in g.exit.pred:
        todo += back_rets(g, p)
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        t = n.term
        if t[0] == "v" and "ret" in str(t[2]) and str(t[2]).startswith("$ret"):
            for d in g.reaching(n, t):
                if not isinstance(d, (tuple, str)):
                    todo.append(d)
        else:
            out.append(n)
    return out


def back_rets(g, p):
    out, seen, st = [], set(), [p]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "assign" and n.var and str(n.var[2]).startswith("$ret"):
            out.append(n)
        elif n.op in ("nop", "leave"):
            st += [m for _, m in n.pred]
    return out


def consts_in(g, t):
    return [x[1] for x in closure(g, t, None) if x[0] == "c" and isinstance(x[1], int) and not isinstance(x[1], bool)]


def check(c):
    c.rule("V1", "an installation is returned only with MSBuild, toolset and SDK present")
    c.rule("V2", "its year is one of the strategy's supported years")
    c.rule("V3", "it matches msvs_version (year or path) and the VS command prompt, when set")
    c.rule("V4", "years are tried only for Node.js versions that support them; all years are covered, newest first")
    c.rule("V5", "years and toolsets follow the published table")
    c.rule("V6", "candidates of one query are examined newest first")
    c.rule("V7", "MSBuild, toolset and SDK are reported only when their package or file was found")
    c.rule("V9", "msvs_version selects a year or a directory, and the VS command prompt always restricts the search to itself")
    c.rule("V8", "for every class of machines the newest complete, selected installation is reported with its own MSBuild, toolset and SDK")
    mod = next((m for m in c.js.mods.values() if m.path == M), None)
    root = mod and next((f for f in mod.functions if f.name == "findVisualStudio" and f.cls is not None or f.qual == "findVisualStudio"), None)
    if root is None:
        c.ob("V1", (M, 1), False, "findVisualStudio exists")
        return
    cands = strategies(c, mod, root)
    c.need("V1", cands, "search strategies", root.loc)
    years = []
    for f, g, leaves in cands:
        years.append((f, one(c, f, g, leaves)))
    tried = set().union(*[y for _, y in years]) if years else set()
    for y in (2022, 2019, 2017, 2015, 2013):
        c.ob("V4", root.loc, y in tried, f"VS{y} is looked for", f"VS{y} is never looked for")
    order(c, root, years)
    tables(c, mod)
    selections(c, root, cands)
    decide(c, cands, years)


def strategies(c, mod, root):
    """[(function, graph, result assignments)] in the order in which findVisualStudio tries them."""
    byname = {f.name: f for f in mod.functions if f.cls is not None and not f.params}
    sets = [sorted((f for f in mod.functions if f.parent is root and not f.params), key=lambda f: f.loc[1:])]
    calls, consts = [], []
    for n in c.flat(root).nodes:
        if n.live and n.op == "call" and n.target and getattr(n.target[0], "module", None) is mod and not n.target[0].params:
            calls.append(n.target[0])
        for t in ([n.term] if n.op == "assign" else list(n.args) if n.op == "call" else []):
            for x in subterms(t):
                if x[0] == "list":
                    consts += [byname[y[1]] for y in x[1] if y[0] == "c" and y[1] in byname]
    for fs in sets + [consts, calls]:
        out = []
        for f in dict.fromkeys(fs):
            g = c.graph(f, NOLOG)
            leaves = [n for n in ret_chain(g) if not all(v == ("c", None) for v in g.values(n, n.term))]
            if leaves:
                out.append((f, g, leaves))
        if out:
            return out
    return []


class Selection:
    def __init__(self, version, env, cands):
        self.version, self.env = version, env
        self.names = {f.name for f in cands}
        self.fns = set(cands)

    def __call__(self, op, t):
        if op == "value" and t == ("a", ("this",), "configMsvsVersion"):
            return ("c", self.version)
        if op == "value" and t == ("a", ("a", ("glob", "process"), "env"), "VCINSTALLDIR"):
            return ("sym", "env") if self.env else ("c", None)
        if op == "truth":
            return True if t[0] in ("sym", "pathterm") else None
        if op == "throws":
            return False
        if op == "call":
            f, a = t[1], t[2]
            if f[0] == "fn" and f[1] in self.fns or f[0] == "a" and f[1] == ("this",) and f[2] in self.names:
                return ("sym", "info")
            if f[0] == "a" and f[1] in PATHLIKE and f[2] in ("join", "resolve", "normalize"):
                return RAISE if ("c", None) in a else pathterm(a)
            if f[0] == "a" and f[1] in PATHLIKE and f[2] == "dirname":
                return pathterm(a + (("c", ".."),))
            if f == ("glob", "parseInt") or f in (("glob", "Number"), ("a", ("glob", "Number"), "parseInt")):
                m = re.match(r"\s*([+-]?\d+)" + ("" if "parseInt" in f[1:] + f[-1:] else r"\s*$"), str(a[0][1])) if a and a[0][0] == "c" else None
                return ("c", int(m.group(1))) if m else ("sym", "NaN")
        return None


def selections(c, root, cands):
    fs = [f for f, _, _ in cands]
    g = c.graph(root, lambda f, d: NOLOG(f, d) and f not in fs)
    for version in (None, "2013", "2015", "2017", "2019", "2022", "C:\\VS2019\\BuildTools", "D:\\vs", "C:\\2022", "C:\\Program Files\\Microsoft Visual Studio\\2022\\Community"):
        for env in (False, True):
            what = f"msvs_version={version!r} {'inside' if env else 'outside'} a VS command prompt"
            try:
                e = CCP(g, Selection(version, env, fs), heaplists=True)
                outs = e.run()
            except Blowup:
                c.ob("V9", root.loc, False, f"{what}: the selections are decided", f"{what}: too many undecided branches")
                continue
            c.states += e.count
            year = ("c", int(version)) if version and version.isdigit() else ("c", None)
            path = pathterm([("c", version)]) if version and not version.isdigit() else ("c", None)
            for kind, n, s in outs:
                if kind != "return":
                    continue
                got = {k: s.get(("W", ("this",), ("c", k)), ("c", None)) for k in ("configVersionYear", "configPath", "envVcInstallDir")}
                want = {"configVersionYear": year, "configPath": path, "envVcInstallDir": pathterm([("sym", "env"), ("c", "..")]) if env else ("c", None)}
                bad = [k for k in want if got[k] != want[k]]
                c.ob("V9", root.loc, not bad, what, f"{what}: " + ", ".join(f"{k} is {show(got[k])[:60]} instead of {show(want[k])}" for k in bad))


def one(c, f, g, leaves):
    name = f"strategy at line {f.loc[1]}"
    ys = set()
    for n in leaves:
        vals = list(g.resolve(n.term, n))
        dicts = [g.content(v) if v[0] == "obj" else v for v in vals]
        old = [d for d in dicts if d[0] == "dict" and dict_get(d, "versionYear") is not None]
        nullable = [v for v in vals if v == ("c", None)]

        def own(x):
            return x in vals or any(x == v for v in vals)

        def truthy(key):
            def pred(t, truth):
                return truth and t[0] == "a" and t[2] == key and (own(t[1]) or not vals)
            return memo(g, pred, 0)
        if old:
            for d in old:
                y = dict_get(d, "versionYear")
                ys |= {v[1] for v in g.values(n, y) if v[0] == "c"}
        else:
            for key, what in (("msBuild", "MSBuild"), ("toolset", "a VC++ toolset"), ("sdk", "a Windows SDK")):
                c.must_pass("V1", g, [n], truthy(key), f"{name}: returned only with {what}",
                            f"{name}: an installation without {what} can be returned")
            # V2
            lists = []

            def inyears(t, truth):
                m = member(t, truth)
                if not m and t[0] == "t":
                    k = g.nodes[t[1]]
                    if k.op == "call" and k.callee[0] == "a" and k.callee[2] == "includes" and truth:
                        m = (g.one(k.callee[1], k, 6), g.one(k.args[0], k, 0), True)
                if m and m[2] and m[1][0] == "a" and m[1][2] == "versionYear":
                    lists.append(m[0])
                    return True
                return False
            em = memo(g, inyears, 3)
            fl = filters(c, g, n, em, inyears)
            ok = any(fl)
            if not ok:
                c.must_pass("V2", g, [n], em, f"{name}: the year is a supported one",
                            f"{name}: an installation of an unsupported year can be returned")
            else:
                c.ob("V2", n.loc, True, f"{name}: the list is filtered by supported year")
            for l in lists:
                ys |= set(consts_in(g, l))
        # V3
        def yearly(t, truth):
            if t[0] == "a" and t[2] == "configVersionYear" and not truth:
                return True
            if t[0] == "op" and t[1] == "==" and truth:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if a[0] == "a" and a[2] == "configVersionYear" and (b[0] == "c" or has(b, lambda x: x[0] == "a" and x[2] == "versionYear")):
                        return True
            return False

        def pathly(field):
            def pred(t, truth):
                if t[0] == "a" and t[2] == field and not truth:
                    return True
                rel = None
                if t[0] == "op" and t[1] == "==" and truth and t[3] == ("c", ""):
                    rel = t[2]
                elif not truth and t[0] in ("call", "t"):
                    rel = t
                if rel is not None:
                    rel = g.expand(rel, 3)
                    if rel[0] == "call" and rel[1][0] == "a" and rel[1][2] == "relative":
                        fields = [a[0] == "a" and a[2] == field for a in rel[2]]
                        return sum(fields) == 1 and len(rel[2]) == 2
                if t[0] == "op" and t[1] == "==" and truth:
                    return any(a[0] == "a" and a[2] == field and has(b, lambda x: x[0] == "a" and x[2] == "path") for a, b in ((t[2], t[3]), (t[3], t[2])))
                return False
            return memo(g, pred, 6)
        c.must_pass("V3", g, [n], memo(g, yearly, 6), f"{name}: msvs_version year matches",
                    f"{name}: an installation of another year than msvs_version can be returned")
        c.must_pass("V3", g, [n], pathly("configPath"), f"{name}: msvs_version path matches",
                    f"{name}: another installation than the one msvs_version points to can be returned")
        c.must_pass("V3", g, [n], pathly("envVcInstallDir"), f"{name}: the VS command prompt matches",
                    f"{name}: another installation than that of the VS command prompt can be returned")
        # V4
        lim = [LIMIT[y] for y in ys if y in LIMIT]
        if lim:
            L = min(lim)

            def gate(t, truth):
                if t[0] == "op" and t[1] == "<" and has(t, lambda x: x[0] == "a" and x[2] == "major"):
                    a, b = t[2], t[3]
                    if a[0] == "a" and a[2] == "major" and b[0] == "c":
                        return truth and b[1] <= L
                    if b[0] == "a" and b[2] == "major" and a[0] == "c":
                        return not truth and a[1] < L
                return False
            c.must_pass("V4", g, [n], memo(g, gate, 6), f"{name}: only for Node.js < {L}",
                        f"{name}: looks for VS{min(ys)} for Node.js versions that no longer support it (limit {L})")
        if not old:
            newest_first(c, g, n, name)
    return ys


def filters(c, g, leaf, em, pred):
    """[True] for each filter() over the returned list whose callback keeps only members."""
    out = []
    for n in g.calls():
        if n.callee[0] != "a" or n.callee[2] != "filter" or getattr(n, "loop", None) is None:
            continue
        h = g.nodes[n.loop]
        # the leaf must come from the filtered list
        if not any(x == ("t", n.id) for x in closure(g, leaf.term, leaf)):
            continue
        body = next(s for l, s in h.succ if l == "body")
        rets = [d for d in back_rets(g, [p for _, p in h.pred if p.id > body.id][-1])] if [p for _, p in h.pred if p.id > body.id] else []
        ok = bool(rets) and all(true_implies(g, d, d.term, pred, body, em) for d in rets)
        out.append(ok)
    return out


def newest_first(c, g, leaf, name):
    """The list is sorted by descending year before the first acceptable element is returned."""
    ok = False
    bad = None
    for n in g.calls():
        if n.callee[0] == "a" and n.callee[2] in ("sort", "toSorted") and n.args and n.args[0][0] == "fn":
            f = n.args[0][1]
            if len(f.params) < 2:
                continue
            fg = c.graph(f, NOLOG)
            a, b = [p[0].id for p in f.params[:2]]
            for r in ret_chain(fg):
                for v in fg.values(r, r.term):
                    if v[0] == "op" and v[1] == "-" and all(x[0] == "a" and x[2] in ("versionYear", "versionMajor") for x in v[2:4]):
                        desc = v[2][1] == ("param", b) and v[3][1] == ("param", a)
                        ok = ok or desc
                        if not desc:
                            bad = n
        if n.callee[0] == "a" and n.callee[2] in ("reverse",):
            bad = n
    c.ob("V6", (bad or leaf).loc, ok and not bad, f"{name}: examined newest first",
         f"{name}: installations are not examined newest first")
    # a counting loop must count up from 0
    for d in [leaf]:
        for v in g.resolve(leaf.term, leaf):
            if v[0] == "i" and v[2][0] in ("phi", "unk", "op", "c"):
                pass


def order(c, root, years):
    prev = None
    for f, ys in years:
        if not ys:
            continue
        if prev is not None:
            c.ob("V4", f.loc, max(ys) <= prev, f"strategy at line {f.loc[1]} does not look for newer years than the ones before",
                 f"VS{max(ys)} is looked for only after older years were accepted")
        prev = min(prev or 9999, max(ys))


def tables(c, mod):
    """Constant years/toolsets are chosen under the matching major/year test, and packages are looked for."""
    n5 = n7 = 0
    for f in mod.functions:
        if c.small(f, 4) and any(x is not f and x.module is mod for x in c.callers(f)):
            continue  # analysed inside its callers
        g = c.near(f)
        others = {n.loc for h in mod.functions if h is not f and not c.small(h, 4) for n in c.flat(h).nodes} - {n.loc for n in c.flat(f).nodes}
        for n in g.nodes:
            if not n.live or n.loc in others:
                continue
            # versionYear = K
            if n.op == "store" and n.name == "versionYear":
                for v in g.values(n, n.value):
                    if v[0] == "c" and v[1] in MAJOR:
                        n5 += 1
                        want = MAJOR[v[1]]

                        def eq(t, truth, want=want):
                            return truth and t[0] == "op" and t[1] == "==" and t[3] == ("c", want) and not has(t[2], lambda x: x[0] == "a" and "inor" in x[2])
                        c.must_pass("V5", g, [n], memo(g, eq, 2), f"year {v[1]} for major {want}", f"year {v[1]} is assigned to another version than {want}.x")
            if n.op == "assign" and n.var and str(n.var[2]).startswith("$ret") and n.term[0] == "c" and n.term[1] in TOOLSET:
                n5 += 1
                want = TOOLSET[n.term[1]]

                def eq(t, truth, want=want):
                    return truth and t[0] == "op" and t[1] == "==" and t[3] == ("c", want)
                c.must_pass("V5", g, [n], memo(g, eq, 2), f"toolset {n.term[1]} for {want}", f"toolset {n.term[1]} is chosen for another year than {want}")

                def pk(t, truth):
                    m = member(t, truth)
                    if not m and t[0] == "t":
                        k = g.nodes[t[1]]
                        if k.op == "call" and k.callee[0] == "a" and k.callee[2] in ("includes", "some") and truth:
                            return has(k.callee[1], lambda x: x[0] == "a" and x[2] == "packages")
                    return bool(m) and m[2] and has(m[0], lambda x: x[0] == "a" and x[2] == "packages")
                if not all_inline(n):
                    c.must_pass("V7", g, [n], memo(g, pk, 3), f"toolset {n.term[1]} needs a compiler package",
                                f"toolset {n.term[1]} is reported although no compiler package is installed")
                    n7 += 1
        for d in dicts(g):
            y, ts, mj = (dict_get(d, k) for k in ("versionYear", "toolset", "versionMajor"))
            if y is not None and y[0] == "c":
                n5 += 1
                c.ob("V5", f.loc, (ts is None or ts[0] != "c" or TOOLSET.get(ts[1]) == y[1]) and (mj is None or mj[0] != "c" or MAJOR.get(y[1]) == mj[1]),
                     f"{y[1]}: toolset and major version agree with the year", f"VS{y[1]} is described with toolset {show(ts)} and major {show(mj)}")
        if f.name == "getMSBuild":
            for r in ret_chain(g):
                vs = g.values(r, r.term)
                if all(v == ("c", None) for v in vs):
                    continue

                def found(t, truth):
                    m = member(t, truth)
                    if m:
                        return m[2] and has(m[0], lambda x: x[0] == "a" and x[2] == "packages")
                    if truth and t[0] in ("t", "call"):
                        if t[0] == "t":
                            k = g.nodes[t[1]]
                            nm, args = (k.callee, [v for a in k.args for v in g.values(k, a)]) if k.op == "call" else (("c", 0), [])
                        else:
                            nm, args = t[1], list(t[2])
                        if nm[0] == "a" and nm[2] in ("includes",):
                            return has(nm[1], lambda x: x[0] == "a" and x[2] == "packages")
                        return bool(re.search("xists|access|stat", show(nm))) and any(v in args for v in vs)
                    return False
                n7 += 1
                c.must_pass("V7", g, [r], memo(g, found, 4), "an MSBuild path needs its package or an existing file",
                            "an MSBuild path is reported that was neither announced by a package nor seen on disk")
    c.ob("V5", (M, 1), True, f"{n5} constant years/toolsets, {n7} presence tests")


def all_inline(n):
    return False


def dicts(g):
    for n in g.nodes:
        if not n.live:
            continue
        ts = [n.term] if n.op == "assign" else list(n.args) if n.op == "call" else []
        for t in ts:
            for x in subterms(t):
                if x[0] == "dict":
                    yield x


# ---- what is reported for every class of installations -------------------------------------------------------------
PK = "Microsoft.VisualStudio.Component."
BUILD = "Microsoft.VisualStudio.VC.MSBuild.Base"
X64, A64, EXPRESS = PK + "VC.Tools.x86.x64", PK + "VC.Tools.ARM64", "Microsoft.VisualStudio.WDExpress"
PATHLIKE = (("mod", "path"), ("a", ("mod", "path"), "win32"))


def sdk(kind, n="19041"):
    return {"10d": f"{PK}Windows10SDK.{n}.Desktop", "10": f"{PK}Windows10SDK.{n}", "11": f"{PK}Windows11SDK.{n}", "uwp": f"{PK}Windows10SDK.{n}.UWP",
            "11n": f"{PK}Windows11SDK.{n}.Native", "ip": PK + "Windows10SDK.IpOverUsb", "8": PK + "Windows81SDK"}[kind]


class World:
    """One class of machines: installations, what exists on disk, architecture, selections, environment."""

    def __init__(self, infos=(), arch="x64", exists=(), year=None, path=None, env=None, major=18, vscmd=None, sdkver=None, reg=(True, True)):
        self.__dict__.update(infos=infos, arch=arch, exists=exists, year=year, path=path, env=env, major=major, vscmd=vscmd, sdkver=sdkver, reg=reg)

    def describe(self):
        i = "; ".join(f"{v} with {[p.rsplit('.', 3)[-1] if p.count('.') < 5 else '.'.join(p.split('.')[3:]) for p in ps]}" for _, v, ps in self.infos)
        return f"[{i}] {self.arch} msvs_version={self.year or self.path} prompt={self.env} Node.js {self.major}"

    def __call__(self, op, t):
        if op == "value":
            if t[0] == "a":
                r = {"configVersionYear": self.year, "configPath": self.path, "envVcInstallDir": self.env}.get(t[2], 0) if t[1] == ("this",) else 0
                if r != 0:
                    return ("c", r) if r is None or isinstance(r, int) else ("sym", r)
                if t == ("a", ("glob", "process"), "arch"):
                    return ("c", self.arch)
                if t[2] == "major" and t[1] == ("a", ("this",), "nodeSemver"):
                    return ("c", self.major)
                if t[1] == ("a", ("glob", "process"), "env"):
                    return {"VSCMD_VER": ("c", self.vscmd), "WindowsSDKVersion": ("c", self.sdkver)}.get(t[2])
            return None
        if op == "truth":
            return True if t[0] in ("sym", "pathterm") else None
        if op == "eq":
            a, b = t
            if a[0] == "sym" and b[0] == "sym":
                return a == b
            if ("c", None) in (a, b) and (a[0] in ("sym", "pathterm") or b[0] in ("sym", "pathterm")):
                return a == b
            return None
        if op == "throws":
            return False
        if op == "call":
            return self.call(t[1], t[2])
        return None

    def call(self, f, a):
        if f[0] == "a" and f[1] in PATHLIKE:
            if ("c", None) in a:
                return RAISE
            if f[2] in ("join", "resolve"):
                return pathterm(a)
            if f[2] == "relative" and len(a) == 2:
                x, y = pathterm(a[:1]), pathterm(a[1:])
                return ("c", "" if x == y else "..\\other" if not (y[0] == "pathterm" and y[1][0] == x) else "below")
        if f[0] == "a" and f[2] in ("exec", "match") and (f[1][0] == "regex" or a and a[0][0] == "regex"):
            rx, s = (f[1], a[0]) if f[1][0] == "regex" else (a[0], f[1])
            if s == ("c", None) and rx is f[1]:
                s = ("c", "undefined")
            if s[0] == "c" and isinstance(s[1], str):
                m = re.search(rx[1], s[1])
                return ("list", tuple(("c", x) for x in (m.group(0),) + m.groups())) if m else ("c", None)
        if f == ("glob", "parseInt") and a and a[0][0] == "c":
            m = re.match(r"\s*([+-]?\d+)", str(a[0][1]))
            return ("c", int(m.group(1))) if m else ("sym", "NaN")
        if f in (("glob", "isNaN"), ("a", ("glob", "Number"), "isNaN")) and a:
            return ("c", a[0] == ("sym", "NaN"))
        if f[0] == "a" and f[1] == ("glob", "Math") and f[2] in ("max", "min") and all(x[0] == "c" for x in a):
            return ("c", (max if f[2] == "max" else min)(x[1] for x in a))
        if f == ("a", ("glob", "JSON"), "parse"):
            one = [("dict", ((("c", "path"), ("sym", p)), (("c", "InstallationPath"), ("sym", p)), (("c", "version"), ("c", v)),
                             (("c", "InstallationVersion"), ("dict", tuple((("c", k), ("c", int(x))) for k, x in
                                                                             zip(("Major", "Minor", "Build", "Revision"), (v + ".0.0.0.0").split(".")))
                                                              if v[0].isdigit() else (("c", "Major"), ("c", "?")))),
                             (("c", "packages"), ("list", tuple(("c", x) for x in ps))),
                             (("c", "Packages"), ("list", tuple(("dict", ((("c", "Id"), ("c", x)),)) for x in ps))))) for p, v, ps in self.infos]
            return ("list", tuple(one))
        if f == ("a", ("glob", "Array"), "isArray"):
            return ("c", True)
        nm = f[2] if f[0] == "a" else f[1].name if f[0] == "fn" else ""
        if nm in ("existsSync", "msBuildPathExists") and a:
            return ("c", a[0][0] == "pathterm" and self.has(a[0]))
        if nm == "execFile":
            return ("list", (("c", None), ("sym", "stdout"), ("c", "")))
        if nm == "regSearchKeys" and len(a) > 1:
            k = 1 if a[1] == ("c", "MSBuildToolsPath") else 0
            r = self.reg[k]
            return ("sym", "reg:msbuild" if k else "reg:vc") if r is True else ("c", None) if r is None else RAISE
        return None

    def has(self, p):
        tail = "/".join(x[1] for x in p[1][1:])
        return ("arm64" in tail) in self.exists if "MSBuild.exe" in tail else True


def pathterm(xs):
    out = []
    for x in xs:
        if x[0] == "pathterm":
            out += x[1]
        elif x[0] == "c" and isinstance(x[1], str):
            for y in x[1].replace("\\", "/").split("/"):
                if y == ".." and out and out[-1][0] == "c":
                    out.pop()
                elif y not in ("", "."):
                    out.append(("c", y))
        else:
            out.append(x)
    if out[:2] == [("sym", "reg:vc"), ("c", "..")]:
        out[:2] = [("sym", "reg")]
    return out[0] if len(out) == 1 and out[0][0] == "sym" else ("pathterm", tuple(out))


YEARS = {"15": 2017, "16": 2019, "17": 2022}
TS = {2017: "v141", 2019: "v142", 2022: "v143"}


def expected(w, ys):
    if any(w.major >= LIMIT[y] for y in ys if y in LIMIT):
        return None
    ok = []
    for p, v, ps in w.infos:
        y = YEARS.get(v.split(".")[0]) if "." in v else None
        if y not in ys:
            continue
        P = ("sym", p)
        std, arm = (pathterm([P] + [("c", x) for x in t]) for t in (("MSBuild", "Current", "Bin", "MSBuild.exe"), ("MSBuild", "Current", "Bin", "arm64", "MSBuild.exe")))
        usearm = w.arch == "arm64" and True in w.exists
        if y == 2017 and BUILD in ps:
            ms = pathterm([P] + [("c", x) for x in ("MSBuild", "15.0", "Bin", "MSBuild.exe")])
        elif usearm:
            ms = arm
        else:
            ms = std if False in w.exists or y == 2019 and BUILD in ps else None
        ts = TS[y] if (X64 in ps or EXPRESS in ps or A64 in ps and w.arch == "arm64") else None
        ns = [int(q.split(".")[4]) for q in ps if q.startswith((PK + "Windows10SDK.", PK + "Windows11SDK.")) and q.split(".")[4].isdigit()
              and (q.count(".") < 5 or q.split(".")[5] == "Desktop")]
        sd = f"10.0.{max(ns)}.0" if ns else "8.1" if sdk("8") in ps else None
        if ms and ts and sd and (not w.year or w.year == y) and (not w.path or w.path == p) and (not w.env or w.env == p):
            ok.append((-y, {"path": P, "versionYear": ("c", y), "msBuild": ms, "toolset": ("c", ts), "sdk": ("c", sd)}))
    return min(ok, key=lambda x: x[0])[1] if ok else None


def worlds(ys):
    V = [v for v, y in (("15.9.2", 2017), ("16.11.3", 2019), ("17.4.33110", 2022))]
    good = (BUILD, X64, sdk("10d"))
    for v in V + ["18.1.1", "14.0.1", "garbage"]:
        for ex in ((), (False,), (True,), (False, True)):
            for arch in ("x64", "arm64"):
                yield World([("P1", v, good)], arch, ex)
                yield World([("P1", v, good[1:])], arch, ex)
    mine = [v for v in V if YEARS[v[:2]] in ys]
    for v in mine:
        for arch in ("x64", "arm64", "ia32"):
            for tools in ((), (X64,), (A64,), (EXPRESS,), (X64, A64), (PK + "VC.Tools.ARM",)):
                yield World([("P1", v, (BUILD,) + tools + (sdk("10d"),))], arch, (False,))
        for ss in ((), ("10d",), ("10",), ("11",), ("uwp",), ("11n",), ("ip",), ("8",), ("8", "10d"), ("uwp", "8"), ("ip", "10")):
            yield World([("P1", v, (BUILD, X64) + tuple(sdk(s) for s in ss))], "x64", (False,))
        for a, b in (("10240", "22621"), ("22621", "10240")):
            yield World([("P1", v, (BUILD, X64, sdk("10d", a), sdk("11", b)))], "x64", (False,))
            yield World([("P1", v, (BUILD, X64, sdk("uwp", a), sdk("11", b)))], "x64", (False,))
        y = YEARS[v[:2]]
        for year, path, env in ((y, None, None), (y + 1, None, None), (y - 1, None, None), (None, "P1", None), (None, "P2", None), (None, None, "P1"), (None, None, "P2"),
                                (y, None, "P1"), (y, None, "P2"), (y + 1, None, "P1"), (None, "P1", "P1"), (None, "P1", "P2")):
            yield World([("P1", v, good)], "x64", (False,), year, path, env)
            yield World([("P1", v, good), ("P2", v, good)], "x64", (False,), year, path, env)
        for mj in (8, 9, 16, 18, 19, 20, 21, 22, 23, 24):
            yield World([("P1", v, good)], "x64", (False,), major=mj)
    for v in V:
        for x in V:
            for ps in (good, good[:2]):
                yield World([("P1", v, good), ("P2", x, ps)], "x64", (False,))
                yield World([("P1", v, ps), ("P2", x, good), ("P3", "18.0.0", good)], "x64", (False,))
    yield World([], "x64", (False,))


def decide(c, cands, years):
    """The installation each strategy reports, for every class of machines."""
    pred = lambda fn, d: NOLOG(fn, d) and fn.module.path != "lib/util.js"
    total = 0
    for (f, _, _), (_, ys) in zip(cands, years):
        g = c.graph(f, pred)
        old = any(n.op == "call" and n.live and has(n.callee, lambda x: x[0] == "a" and x[2] == "regSearchKeys") for n in g.nodes)
        name = f"strategy at line {f.loc[1]}"
        done = set()
        ws = []
        if old:
            y = max(ys, default=0)
            for r in ((a, b) for a in (True, None, False) for b in (True, None, False)):
                ws.append(World(reg=r, major=8))
            for year, path, env in ((y, None, None), (y + 1, None, None), (None, "reg", None), (None, "P2", None), (None, None, "reg"), (None, None, "P2"), (y, None, "P2")):
                ws.append(World(year=year, path=path, env=env, major=8))
            ws += [World(major=m) for m in (8, 9, 10, 17, 18, 19, 20)]
        else:
            spec = not any(n.op == "call" and n.live and n.callee[0] == "a" and n.callee[1:] == (("glob", "JSON"), "parse") for n in g.nodes)
            for w in worlds(ys):
                if not spec:
                    ws.append(w)
            if spec:
                for v in ("15.9.2", "16.11.3", "17.4.33110", "18.1.1", None):
                    for sv in ("10.0.19041.0\\", None, "junk"):
                        for env in ("P1", None):
                            for arch in ("x64", "arm64"):
                                for year, path in ((None, None), (2017, None), (2019, None), (2022, None), (None, "P1"), (None, "P2")):
                                    ps = (X64, A64, BUILD) + ((sdk("10d"),) if sv and sv[0] == "1" else ())
                                    ws.append(World([("P1", v or "none", ps)] if env else [], arch, (False,), year, path, env, vscmd=v, sdkver=sv))
        for w in ws:
            total += 1
            try:
                e = CCP(g, w, heaplists=True, maxstates=60000)
                e.sub = lambda h: c.graph(h, pred)
                outs = e.run()
            except Blowup:
                c.ob("V8", f.loc, False, f"{name}: the result is decided for every class of machines", f"{name}: too many undecided branches for {w.describe()}")
                break
            c.states += e.count
            if old:
                want = expected_old(w, ys)
            else:
                want = expected(w, ys)
            for kind, n, s in outs:
                got = e.deep(s.get(("v", "r", "$ret"), ("c", None)), s)
                ok = kind == "return" and (got == ("c", None) if want is None else got[0] == "dict" and all(dict_get(got, k) == v for k, v in want.items()))
                if ok:
                    c.ob("V8", f.loc, True, f"{name}: {w.describe()}")
                elif len(done) < 3:
                    done.add(w.describe())
                    d = {k: dict_get(got, k) for k in want or ()} if got[0] == "dict" else got
                    c.ob("V8", f.loc, False, f"{name}: {w.describe()}", f"{name}: for {w.describe()} it returns "
                         f"{ {k: show(v) if v else v for k, v in d.items()} if isinstance(d, dict) and d else kind + ' ' + show(got)[:160]} instead of {  {k: show(v) for k, v in want.items()} if want else 'nothing'}")
    c.input_classes = total


def expected_old(w, ys):
    y = max(ys, default=0)
    if w.major >= LIMIT.get(y, 0) or w.reg != (True, True):
        return None
    if w.year and w.year != y or w.path and w.path != "reg" or w.env and w.env != "reg":
        return None
    return {"versionYear": ("c", y), "toolset": ("c", {2015: "v140", 2013: "v120"}.get(y)), "msBuild": ("pathterm", (("sym", "reg:msbuild"), ("c", "MSBuild.exe")))}
