"""Where headers, libraries and checksums of a release are downloaded from."""
import itertools
import re
from ..ccp import CCP, Blowup, RAISE
from ..cfg import mk_cat, show
from ..match import *
from .jscommon import *

ID = "P18"
EXPLANATION = (
    "Conditional constant propagation of the release description over its graph, once per input class: where the version "
    "comes from (argument, --target, running binary), equal or not to the running version, version class (boundaries of "
    "the layouts), kind of process.release data and every combination of --dist-url, --disturl and NODEJS_ORG_MIRROR. "
    "Strings stay symbolic, so each class covers all inputs in it; the resulting URL terms are compared in normal form.")

# representative, (major, has a -headers tarball)
VERSIONS = [("0.8.0", 0, False), ("0.10.41", 0, False), ("0.10.42", 0, True), ("0.12.9", 0, False), ("0.12.10", 0, True),
            ("1.8.1", 1, False), ("2.5.0", 2, False), ("3.0.0", 3, True), ("3.3.1", 3, True), ("4.0.0", 4, True),
            ("22.1.0", 22, True)]
ARCH = (("ia32", "x86"), ("x64", "x64"), ("arm64", "arm64"))


def ver(s):
    return tuple(int(x) for x in re.findall(r"\d+", s)[:3])


def in_range(v, rng):
    """Constant semver range made of ||, comparators, ~ and ^ (None: not understood)."""
    v = ver(v)
    res = False
    for alt in rng.split("||"):
        ok = True
        alt = re.sub(r"(>=|<=|>|<|=|~|\^)\s+", r"\1", alt.strip())
        for part in alt.split():
            m = re.fullmatch(r"(>=|<=|>|<|=|~|\^)?v?(\d+)(?:\.(\d+|x|\*))?(?:\.(\d+|x|\*))?", part)
            if not m:
                return None
            op = m.group(1) or "="
            nums = [int(x) for x in m.groups()[1:] if x is not None and x.isdigit()]
            lo = tuple(nums + [0] * (3 - len(nums)))
            if op == "=" and len(nums) < 3:
                ok &= v[:len(nums)] == tuple(nums)
            elif op == "=":
                ok &= v == lo
            elif op in (">=", ">", "<=", "<"):
                if len(nums) < 3 and op in (">", "<="):
                    return None
                ok &= {">=": v >= lo, ">": v > lo, "<=": v <= lo, "<": v < lo}[op]
            elif op == "~":
                n = 2 if len(nums) >= 2 else 1
                ok &= v >= lo and v[:n] == lo[:n]
            elif op == "^":
                if len(nums) < 3:
                    return None
                n = next((i for i, x in enumerate(lo) if x), 2) + 1
                ok &= v >= lo and v[:n] == lo[:n]
        res |= ok
    return res


def js_rx(t):
    if t[0] != "regex":
        return None
    try:
        return re.compile(t[1])
    except re.error:
        return None


class Inputs:
    """One input class."""

    def __init__(self, params, src, same, version, rel, over):
        self.p = params
        self.src, self.same, self.version, self.rel, self.over = src, same, version, rel, over
        self.unknown = set()

    def describe(self):
        return (f"version {self.version[0]} from {self.src}{' (the running one)' if self.same else ''}, "
                f"process.release {self.rel}, overrides {[k for k in self.over if self.over[k]]}")

    def opt(self, name):
        v = {"target": self.src in ("target", "target+argv"), "dist-url": self.over["dist-url"],
             "disturl": self.over["disturl"]}.get(name)
        if name == "target" and self.src == "argv+target":
            return ("sym", "raw:other")
        return ("sym", "raw:target") if name == "target" and v else ("sym", "opt:" + name) if v else \
            ("c", None) if v is not None else None

    def __call__(self, op, t):
        if op == "value":
            if t[0] == "i" and t[1] == ("param", self.p[0]) and t[2] == ("c", 0):
                return {"argv": ("sym", "raw:argv"), "argv+target": ("sym", "raw:argv"), "target+argv": ("sym", "raw:junk")}.get(self.src, ("c", None))
            if t[0] == "a":
                o, n = t[1], t[2]
                if o == ("a", ("param", self.p[1]), "opts"):
                    return self.opt(n)
                if o == ("a", ("glob", "process"), "env"):
                    return ("sym", "env:" + n) if n == "NODEJS_ORG_MIRROR" and self.over["mirror"] else ("c", None)
                if o == ("param", self.p[3]):
                    if n == "name":
                        return ("c", "io.js" if self.rel.startswith("io") else "node")
                    if n in ("headersUrl", "libUrl"):
                        return ("sym", "rel:" + n) if n in self.rel else ("c", None)
                if o[0] == "call" and o[1] == ("op", "new", ("glob", "URL")) and n == "href":
                    return o
                if o[0] == "sv":
                    x = o[1]
                    if n in ("version", "raw"):
                        return ("sym", "ver:" + self.klass(x)) if n == "version" else x
                    if n in ("major", "minor", "patch") and self.klass(x) == "V":
                        return ("c", ver(self.version[0])[("major", "minor", "patch").index(n)])
            if t == ("param", self.p[3]) and self.rel == "none":
                return ("c", None)
            if t == ("param", self.p[2]):
                return ("sym", "raw:running")
        if op == "truth":
            if t[0] in ("sym", "sv"):
                return True
            if t == ("param", self.p[3]):
                return True
            if t[0] == "call" and t[1][0] == "a" and t[1][1] == ("sym", "rel:headersUrl"):
                return True
            if t[0] in ("call",) and t[1] == ("a", ("mod", "url"), "resolve"):
                return True
        if op == "notnull":
            return t[0] in ("sym", "sv") or None
        if op == "eq":
            a, b = t
            for x, y in ((a, b), (b, a)):
                if x[0] in ("sym", "sv") and y == ("c", None):
                    return False
                if x == ("param", self.p[3]) and y == ("c", None):
                    return False
            if a[0] == "sym" and b[0] == "sym" and a[1][:4] == b[1][:4] == "ver:":
                return a == b or self.same
        if op == "call":
            return self.call(t)
        if op == "throws":
            return False
        return None

    def klass(self, x):
        """V: the version the request is about, D: another running version, X: junk."""
        s = x[1]
        if s == "raw:running":
            return "V" if self.src == "running" or self.same else "D"
        return "W" if s == "raw:other" else "V"

    def call(self, t):
        callee, a = t[1], t[2]
        if callee[0] == "a" and callee[1] == ("mod", "semver"):
            f = callee[2]
            if f in ("valid", "parse", "clean", "major", "minor", "patch", "satisfies", "eq", "gte", "lt", "gt", "lte", "neq") and a:
                x = a[0]
                if x[0] == "sv":
                    x = x[1]
                if x[0] == "sym" and x[1] == "raw:junk" or x == ("c", None):
                    return ("c", None)
                if f in ("valid", "clean") and x[0] == "sym":
                    return ("sym", "ver:" + self.klass(x)) if x[1].startswith("raw:") else x
                if f == "parse" and x[0] == "sym":
                    return ("sv", x)
                if self.klass(x) == "V" and x[0] == "sym":
                    if f in ("major", "minor", "patch"):
                        return ("c", ver(self.version[0])[("major", "minor", "patch").index(f)])
                    if f == "satisfies" and len(a) >= 2 and a[1][0] == "c":
                        r = in_range(self.version[0], a[1][1])
                        return None if r is None else ("c", r)
                    if len(a) == 2 and a[1][0] == "c" and f in ("gte", "lt", "gt", "lte"):
                        v, w = ver(self.version[0]), ver(a[1][1])
                        return ("c", {"gte": v >= w, "lt": v < w, "gt": v > w, "lte": v <= w}[f])
                if f in ("eq", "neq") and len(a) == 2:
                    y = a[1][1] if a[1][0] == "sv" else a[1]
                    if y[0] == "sym" and x[0] == "sym":
                        return ("c", (self.klass(x) == self.klass(y)) == (f == "eq"))
        if callee[0] == "a" and callee[2] == "replace" and len(a) == 2:
            o, rx = callee[1], a[0]
            r = js_rx(rx)
            if o[0] == "c" and isinstance(o[1], str) and a[1][0] == "c":
                if r is not None:
                    return ("c", r.sub(a[1][1], o[1], count=0 if "g" in rx[2] else 1))
                if rx[0] == "c":
                    return ("c", o[1].replace(rx[1], a[1][1], 1))
            if o[0] == "sym" and r is not None and a[1] == ("c", "") and all(
                    r.sub("", s, count=0 if "g" in rx[2] else 1) == w
                    for s, w in (("http://h/d/", "http://h/d"), ("http://h/d", "http://h/d"), ("http://h/d///", "http://h/d"))):
                return ("noslash", o)
            if o == ("sym", "rel:libUrl") and r is not None:
                # the architecture directory of the running binary's library
                olds = ["x86", "x64", "arm64"] + (["ia32"] if self.version[1] == 3 else [])
                if self.version[1] == 3:
                    olds.remove("arm64")
                if all(r.sub("@", f"https://h/d/win-{x}/n.lib") == "https://h/d@n.lib" for x in olds):
                    return ("archlib", a[1])
        if callee[0] == "a" and callee[2] in ("test",) and len(a) == 1:
            r = js_rx(callee[1])
            if r is not None:
                if a[0] == ("sym", "rel:libUrl"):
                    return ("c", bool(r.search("https://h/d/win-x64/node.lib")))
                return ("c", False)
        if callee[0] == "a" and callee[2] == "match" and len(a) == 1 and callee[1] == ("sym", "rel:libUrl"):
            return ("c", True)
        if callee[0] == "a" and callee[2] in ("toString", "trim") and callee[1][0] in ("sym", "call", "noslash") and not a:
            return callee[1]
        if callee == ("glob", "String") and len(a) == 1:
            return a[0]
        return None


def dirof(t):
    """The directory part of a URL term: everything up to its last slash."""
    t = urlform(t)
    if t[0] == "cat" and t[1][-1][0] == "c" and t[1][-1][1].endswith("/"):
        return t
    if t[0] == "cat" and t[1][-1][0] == "c" and "/" in t[1][-1][1]:
        return mk_cat(list(t[1][:-1]) + [("c", t[1][-1][1].rsplit("/", 1)[0] + "/")])
    if t[0] == "dir":
        return t
    return ("dir", t)


def urlform(t):
    """Normal form of a URL term: concatenation over a symbolic base."""
    if t[0] == "call" and t[1] == ("a", ("mod", "url"), "resolve") and len(t[2]) == 2:
        base, rel = t[2]
    elif t[0] == "call" and t[1] == ("op", "new", ("glob", "URL")) and len(t[2]) == 2:
        rel, base = t[2]
    elif t[0] == "cat":
        out = []
        for x in t[1]:
            y = urlform(x)
            out.append(y)
        return mk_cat(out)
    else:
        return t
    rel = urlform(rel)
    b = dirof(base)
    if rel == ("c", "./") or rel == ("c", "."):
        return b
    first = rel[1][0] if rel[0] == "cat" else rel
    if first[0] == "c" and first[1].startswith("./"):
        rel = mk_cat([("c", first[1][2:])] + list(rel[1][1:] if rel[0] == "cat" else []))
        first = rel[1][0] if rel[0] == "cat" else rel
    if first[0] == "c" and (first[1].startswith(("/", "..")) or ":" in first[1]):
        return ("resolved", b, rel)
    return mk_cat([b, rel])


def classes(params):
    for v in VERSIONS:
        for src, same in (("argv", False), ("argv", True), ("argv+target", False), ("target", False), ("target", True), ("target+argv", False),
                          ("running", True)):
            for rel in ("none", "node", "node headersUrl", "node headersUrl libUrl", "node libUrl", "io.js headersUrl libUrl"):
                if rel != "none" and v[1] == 0 and same:
                    continue
                if rel.startswith("io") and v[1] >= 4:
                    continue
                for over in itertools.product((False, True), repeat=3):
                    yield Inputs(params, src, same, v, rel, dict(zip(("dist-url", "disturl", "mirror"), over)))


def expected(i):
    V = ("sym", "ver:V")
    use = i.rel if i.same else "none"
    major = i.version[1]
    if use == "none":
        name = "iojs" if 1 <= major < 4 else "node"
    else:
        name = "iojs" if use.startswith("io") else "node"
    o = i.over
    base = ("sym", "opt:dist-url") if o["dist-url"] else ("sym", "opt:disturl") if o["disturl"] else \
        ("sym", "env:NODEJS_ORG_MIRROR") if o["mirror"] else None
    if "headersUrl" in use and base is None:
        d = ("dir", ("sym", "rel:headersUrl"))
        tar = ("sym", "rel:headersUrl")
    else:
        b = ("noslash", base) if base else ("c", "https://nodejs.org/dist")
        d = mk_cat([b, ("c", "/v"), V, ("c", "/")])
        tar = mk_cat([d, ("c", name + "-v"), V, ("c", "-headers.tar.gz" if i.version[2] else ".tar.gz")])
    libs = {}
    for arch, w in ARCH:
        if "libUrl" in use and "headersUrl" in use and base is None:
            libs[arch] = ("archlib", ("c", f"/win-{w}/"))
        elif major >= 1:
            libs[arch] = mk_cat([d, ("c", f"win-{w}/{name}.lib")])
        else:
            libs[arch] = mk_cat([d, ("c", ("" if arch == "ia32" else w + "/") + name + ".lib")])
    return {"version": V, "name": ("c", name), "baseUrl": d, "tarballUrl": tar, "shasumsUrl": mk_cat([d, ("c", "SHASUMS256.txt")]),
            "versionDir": mk_cat([("c", "" if name == "node" else name + "-"), V])}, libs, d


TEXT = {
    "version": ("U1", "the requested version is the valid version argument, else --target, else the running version"),
    "name": ("U2", "the release name comes from process.release of the same version, else from the version class"),
    "baseUrl": ("U3", "the download directory follows --dist-url, --disturl, NODEJS_ORG_MIRROR, process.release, nodejs.org in this order"),
    "tarballUrl": ("U4", "the headers tarball of exactly the requested version is downloaded"),
    "shasumsUrl": ("U5", "checksums come from the directory of the release"),
    "versionDir": ("U6", "the directory below the devdir is the requested version (with a prefix for other releases)"),
}


def check(c):
    for r, t in TEXT.values():
        c.rule(r, t)
    c.rule("U7", "the import library of each architecture comes from that architecture's directory of the release")
    c.rule("U8", "an unparsable version gives a description without any URL")
    c.rule("U9", "install and configure derive the release from their own arguments, the options and the running binary")
    m = next((m for m in c.js.mods.values() if m.path == "lib/process-release.js"), None)
    f = m and exported(c.js, m.path)
    if f is None:
        return c.ob("U1", ("lib/process-release.js", 1), False, "the release description function is exported")
    g = c.graph(f, NOLOG)
    params = [p[0].id if p[0].k == "Name" else None for p in f.params]
    if len(params) < 4 or None in params:
        return c.ob("U1", f.loc, False, "the release function takes arguments, gyp, running version and release data")
    done = set()
    n = 0
    for i in classes(params):
        n += 1
        want, libs, d = expected(i)
        try:
            rs = run(c, g, i)
        except Blowup:
            c.ob("U1", f.loc, False, "the release description is decided for every input class", "too many undecided branches")
            return
        for kind, val in rs:
            if kind != "return" or val[0] != "dict":
                note(c, done, "U1", f.loc, False, "a valid version gives a release description", i, show(val)[:200])
                continue
            for k, w in want.items():
                got = norm_url(dict_get(val, k))
                note(c, done, TEXT[k][0], f.loc, got == w, TEXT[k][1], i, f"{k} is {show(got)[:160] if got else None}, expected {show(w)[:160]}")
            for arch, w in ARCH:
                o = dict_get(val, arch)
                got = norm_url(dict_get(o, "libUrl")) if o else None
                note(c, done, "U7", f.loc, got == libs[arch], f"the {arch} library comes from its directory", i,
                     f"{arch} libUrl is {show(got)[:160] if got else None}, expected {show(libs[arch])[:160]}")
                lp = dict_get(o, "libPath") if o else None
                ok = lp is not None and has(lp, lambda x: x == dict_get(o, "libUrl")) and has(lp, lambda x: x == dict_get(val, "baseUrl"))
                note(c, done, "U7", f.loc, ok, f"the {arch} library's name in the checksum list is relative to the download directory", i,
                     f"{arch} libPath is {show(lp)[:160] if lp else None}")
    # an invalid version
    bad = Bad(params)
    for kind, val in run(c, g, bad):
        urls = [k for k in ("tarballUrl", "shasumsUrl", "baseUrl", "versionDir") if val[0] == "dict" and dict_get(val, k)]
        c.ob("U8", f.loc, kind == "return" and val[0] == "dict" and not urls and not dict_get(val, "semver"),
             "no URL is derived from an unparsable version", f"result is {show(val)[:160]}")
    c.input_classes = n
    # callers
    for path in ("lib/install.js", "lib/configure.js"):
        root = exported(c.js, path)
        calls = []
        if root is not None:
            gg = c.graph(root, lambda fn, depth: fn is not f and NOLOG(fn, depth))
            calls = [nd for nd in gg.calls() if nd.target and nd.target[0] is f]
            pn = [p[0].id for p in root.params if p[0].k == "Name"]
        c.need("U9", calls, f"a call of the release function by {path}")
        for nd in calls:
            a = [gg.one(x, nd) for x in nd.args]
            c.ob("U9", nd.loc, len(a) >= 4 and a[2] == ("a", ("glob", "process"), "version")
                 and a[3] == ("a", ("glob", "process"), "release"),
                 "the running binary's version and release data are the defaults", f"called with {[show(x)[:60] for x in a]}")
            c.ob("U9", nd.loc, len(a) >= 2 and len(pn) >= 2 and a[1] == ("param", pn[0]) and a[0] == ("param", pn[1]),
                 "the command's arguments and options select the release", f"called with {[show(x)[:60] for x in a]}")


class Bad(Inputs):
    def __init__(self, params):
        super().__init__(params, "target", False, ("22.1.0", 22, True), "none", {"dist-url": False, "disturl": False, "mirror": False})

    def call(self, t):
        callee = t[1]
        if callee[0] == "a" and callee[1] == ("mod", "semver") and t[2] and t[2][0] == ("sym", "raw:target"):
            return ("c", None)
        return super().call(t)


def note(c, done, rule, loc, ok, what, i, detail):
    if ok:
        c.ob(rule, loc, True, what + " [" + i.describe() + "]")
    elif (rule, what) not in done:
        done.add((rule, what))
        c.ob(rule, loc, False, what, f"{what}: for {i.describe()}: {detail}")


def norm_url(t):
    return None if t is None else urlform(t)


def run(c, g, i):
    e = CCP(g, i)
    out = []
    rv = ("v", "r", "$ret")
    for kind, n, s in e.run():
        out.append((kind, e.deep(s.get(rv, ("c", None)), s)))
    c.states += e.count
    return out
