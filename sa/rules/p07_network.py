"""Every request honours --proxy, --noproxy and --cafile."""
from ..match import *
from ..cfg import show
from ..ir import walk_fn
from .jscommon import *

ID = "P07"
EXPLANATION = (
    "Who-calls-what query for network primitives over all JavaScript sources, then per request: the options object "
    "reaching it carries the user's proxy and noProxy settings on every path, and every path on which --cafile is set "
    "passes a successful read of that file whose certificates become the `ca` option. No option or environment variable "
    "that weakens TLS verification is set anywhere, and requested URLs come from the release description.")

WEAK = {"rejectUnauthorized", "strictSSL", "NODE_TLS_REJECT_UNAUTHORIZED"}


def opts_values(g, n, i):
    if len(n.args) <= i:
        return set()
    return g.resolve(n.args[i], n)


def dicts(g, t):
    """The literal(s) an options object may be: a list of [(key, value)], None when unknown."""
    t0 = g.content(t)
    if t0[0] == "alt":
        ds = [flat_dict(g, x) for x in t0[1:]]
        return None if any(d is None for d in ds) else ds
    d = flat_dict(g, t)
    return None if d is None else [d]


def flat_dict(g, t):
    """[(key, value)] of an options object including spreads of literals; None when unknown."""
    t0 = g.content(t)
    if t0[0] == "call" and t0[1] == ("a", ("glob", "Object"), "assign"):
        out = []
        for a in t0[2]:
            d = flat_dict(g, a)
            out += d if d is not None else []
        return out
    if t0[0] != "dict":
        return None
    out = []
    for k, v in t0[1]:
        if k is None:
            d = flat_dict(g, v)
            out += d if d is not None else []
        elif k[0] == "c":
            out.append((k[1], v))
    return out


def check(c):
    c.rule("N1", "network primitives are called only with the user's proxy and noproxy settings")
    c.rule("N2", "with --cafile every request is preceded by a successful read of that file, which becomes its CA list")
    c.rule("N3", "TLS verification is never weakened")
    c.rule("N4", "all certificates of the CA file are used")
    c.rule("N5", "only the URLs of the release description are requested")
    sites = list(c.flat_calls(c.js, lambda t, n, g: is_net(t)))
    c.need("N1", sites, "network request")
    roots = {f for f, _, _, _ in sites}
    # analyse each request inside its outermost exported function as well as each direct caller
    todo, done, tops = sorted(roots, key=lambda f: f.qual), set(), []
    while todo:
        root = todo.pop(0)
        while root.parent and not root.parent.is_module:
            root = root.parent
        if root in done:
            continue
        done.add(root)
        out = [c.js.export(root.module.name, x) for x in root.module.exports]
        up = [] if any(x and x[0] is root for x in out) else [f for f in c.callers(root) if not f.is_module and f is not root]
        if up:
            todo += up
        else:
            tops.append(root)
    for root in tops:
        g = c.graph(root, NOLOG)
        for n in g.calls():
            if not is_net(g.callee(n)):
                continue
            check_request(c, g, n)
    for m in c.js.mods.values():
        for f in m.functions:
            g = c.flat(f)
            for n in g.nodes:
                if n.op == "store" and n.live and n.name in WEAK:
                    c.ob("N3", n.loc, False, f"{n.name} is not changed")
                ts = list(n.args) + [v for _, v in n.kw] if n.op == "call" else [n.term] if n.op == "assign" else []
                for t in ts:
                    for x in walk_term(t):
                        if x[0] == "dict":
                            for k, v in x[1]:
                                if k and k[0] == "c" and k[1] in WEAK:
                                    c.ob("N3", n.loc, v == ("c", True), f"{k[1]} keeps verification on",
                                         f"option {k[1]} weakens TLS verification")
                        if x[0] == "a" and x[2] in WEAK or x[0] == "c" and x[1] in WEAK and n.op == "store":
                            pass
    c.ob("N3", None, True, "no TLS-weakening option in any source")
    # N5
    inst = exported(c.js, "lib/install.js")
    if inst:
        g = c.graph(inst, INSTALL)
        for n in g.calls():
            if is_net(g.callee(n)) and n.args:
                for v in g.values(n, n.args[0], 6):
                    ok = (v[0] == "a" and v[2].endswith("Url") and has(v, lambda x: x[0] == "mod" and x[1] == "lib/process-release.js"))
                    c.ob("N5", n.loc, ok, f"request for {show(v)[-50:]}", f"request for {show(v)[:90]} which is not a URL of the release")


def check_request(c, g, n):
    vals = opts_values(g, n, 1)
    c.ob("N1", n.loc, bool(vals), "request has an options argument", "request is sent without proxy and CA options")
    cafile = lambda t: attr_path(t) == "gyp.opts.cafile"
    reads = []
    for r in g.calls():
        if fs_op(g.callee(r)) == "readFile" and r.args and any(cafile(v) for v in g.values(r, r.args[0], 6)):
            reads.append(r)
    ids = {r.id for r in reads}
    any_ca, some_ca = [], []
    for v in vals:
        ds = dicts(g, v)
        c.ob("N1", n.loc, ds is not None, "options object is known here", f"options {show(v)[:60]} are not built here")
        if ds is None:
            continue
        dd = {}
        for d in ds:
            for k, x in dict(d).items():
                dd.setdefault(k, []).append(x)
        dd = {k: x for k, x in dd.items() if all(k in dict(d) for d in ds)}
        st = {}
        for s in g.nodes:
            if s.op == "store" and s.live and s.name is not None and v in g.resolve(s.obj, s):
                st.setdefault(s.name, []).append(s)
        for k, path in (("proxy", "gyp.opts.proxy"), ("noProxy", "gyp.opts.noproxy")):
            vs = [g.expand(x, 6) for x in dd.get(k, [])] + [y for s in st.get(k, []) for y in g.values(s, s.value)]
            ok = bool(vs) and all(attr_path(x) == path or (x[0] == "op" and x[1] in ("||", "??") and attr_path(x[2]) == path)
                                  for x in vs)
            if ok and k not in dd:
                done = {s.id for s in st[k]}
                c.must_pass("N1", g, [n], lambda m, l: m.id in done, f"{k} is set before the request",
                            f"the request can be sent without the user's {k} setting")
            else:
                c.ob("N1", n.loc, ok, f"{k} is the user's setting", f"the request does not carry {path} as {k}")
        cav = [(s.loc, s.value, s) for s in st.get("ca", [])] + [(n.loc, x, n) for x in dd.get("ca", [])]
        c.ob("N2", n.loc, bool(cav), "the CA list is set", "the request ignores --cafile")
        leaf = lambda x: leaf(x[3]) + leaf(x[4]) if x[0] == "op" and x[1] == "?:" else [z for y in x[1:] for z in leaf(y)] if x[0] == "alt" else [] if x in (("c", None), ("undef",), ("glob", "undefined")) else [x]
        any_ca.append(bool(cav))
        some_ca += [x for loc, t, at in cav for y in g.resolve(t, at) for x in leaf(y)]
        for loc, t, at in cav:
            rs = [x for y in g.resolve(t, at) for x in leaf(y)]
            c.ob("N2", loc, all(derives(g, x, None, lambda y: y[0] == "t" and y[1] in ids) for x in rs),
                 "ca comes from the CA file", "ca does not come from the file given with --cafile")
            for x in rs:
                for y in closure(g, x):
                    if y[0] == "i" and y[2][0] == "c" and any(
                            z[0] == "call" and z[1][0] == "a" and z[1][2] in ("match", "split") for z in [g.expand(y[1], 3)]):
                        c.ob("N4", loc, False, "every certificate of the CA file is used",
                             "only one certificate of the CA file is used", key="all certificates")
                    if y[0] == "regex":
                        c.ob("N4", loc, "g" in y[2] or "CERTIFICATE" not in y[1] or "BEGIN" not in y[1],
                             "the certificate pattern is global", "only the first certificate of the CA file is used")
        absent = memo(g, lambda t, tr: cafile(t) and not tr, 6)
        c.must_pass("N2", g, [n], lambda m, l: (m.id in ids and l != "exc") or absent(m, l),
                    "with --cafile the file is read before the request",
                    "a request can be sent without reading the file given with --cafile")
        if st.get("ca") and "ca" not in dd:
            done = {s.id for s in st["ca"]}
            c.must_pass("N2", g, [n], lambda m, l: m.id in done or absent(m, l), "with --cafile the CA list is set before the request",
                        "a request can be sent without the CA list although --cafile is set")
    c.ob("N2", n.loc, bool(some_ca) or not any(any_ca), "the CA list is not always empty", "ca does not come from the file given with --cafile")
    for r in reads:
        c.ob("N2", r.loc, r.awaited or True, "CA file read")
