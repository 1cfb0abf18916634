"""--ensure: up to date means untouched, anything else is reinstalled."""
from ..match import *
from ..cfg import show, alternatives
from ..explore import must_pass, walk_term
from .jscommon import *
from .installcommon import existing

ID = "P03"
EXPLANATION = (
    "Path-sensitive exploration of the install supergraph. Every normal return that started no effect must have passed "
    "(under --ensure) the stat of the version dir, the comparison installVersion >= package.installVersion on the value "
    "parsed from the marker file, and on Windows the stat of node.lib; every path to an effect must have passed one of "
    "the facts 'no --ensure', 'ENOENT', 'installVersion too small'; unexpected error codes must leave by exception.")


def check(c):
    c.rule("E1", "a return without any effect happens only when the marker value is >= the required one and node.lib exists on Windows")
    c.rule("E2", "effects start only without --ensure, or after ENOENT, or after the version comparison failed")
    c.rule("E3", "an error of the probes other than ENOENT/EACCES leaves install as an exception")
    c.rule("E4", "the compared value is the integer parsed from <versionDir>/installVersion, 0 when absent or garbage")
    c.rule("E5", "a reinstall accepts the directories an earlier install made")
    fn = exported(c.js, "lib/install.js")
    if fn is None:
        c.ob("E1", ("lib/install.js", 1), False, "install command is exported")
        return
    g = c.graph(fn, INSTALL)
    from .p02_install_rollback import is_effect
    effects = {n.id for n in g.calls() if is_effect(g, n)}
    reinst = {n.id for n in g.calls() if is_command(g.callee(n), "install")}
    existing(c, g, "E5")
    probes = {}
    for n in g.calls():
        op = fs_op(g.callee(n))
        if op in ("stat", "access", "lstat", "readFile") and n.args:
            for v in g.values(n, n.args[0], 6):
                ps = path_parts(v)
                if any(attr_path(p) == "gyp.devDir" for p in ps):
                    last = ps[-1]
                    if last == ("c", "installVersion") and op == "readFile":
                        probes[n.id] = "marker"
                    elif last == ("c", "node.lib"):
                        i = next(i for i, p in enumerate(ps) if attr_path(p) == "gyp.devDir")
                        mid = ps[i + 1:-1]
                        ok = len(mid) == 2 and mid[0][0] == "a" and mid[0][2] == "versionDir" and arch_value(g, n, mid[1])
                        c.ob("E1", n.loc, ok, "the probed import library is that of the target architecture",
                             f"the import library is looked for in {'/'.join(show(p)[:40] for p in ps)}, not in the target architecture's directory")
                        probes[n.id] = "lib"
                    elif last[0] == "a" and last[2] == "versionDir":
                        probes[n.id] = "dir"
    # copyDirectory's own stats are inside the install proper: probes are those reached before any effect
    for k in ("dir", "marker", "lib"):
        c.need("E1", [i for i, p in probes.items() if p == k], f"probe of the {k}", fn.loc)
    for i in probes:
        c.ob("E3", g.nodes[i].loc, g.nodes[i].awaited, "probe is awaited")
    cache = {}

    def is_marker_value(t):
        ids = {i for i, p in probes.items() if p == "marker"}
        return derives(g, t, None, lambda x: x[0] == "t" and x[1] in ids)

    def is_required(t):
        e = g.expand(t, 4)
        return e[0] == "a" and e[2] == "installVersion" and has(e, lambda x: x[0] == "a" and x[2] == "package")

    def facts(n, label):
        k = (n.id, label)
        if k in cache:
            return cache[k]
        out = set()
        if n.op == "branch" and label in ("T", "F"):
            def cmp_fresh(t, truth):
                # (marker < required) is False
                if t[0] == "op" and t[1] == "<":
                    return not truth and is_marker_or_default(t[2], n) and is_required(t[3])
                if t[0] == "op" and t[1] == "==" and truth:
                    return (is_marker_or_default(t[2], n) and is_required(t[3])) or (
                        is_marker_or_default(t[3], n) and is_required(t[2]))
                return False

            def cmp_stale(t, truth):
                if t[0] == "op" and t[1] == "<":
                    return truth and is_marker_or_default(t[2], n) and is_required(t[3])
                if t[0] == "op" and t[1] == "==" and not truth:
                    return (is_marker_or_default(t[2], n) and is_required(t[3])) or (
                        is_marker_or_default(t[3], n) and is_required(t[2]))
                return False

            rt, rtruth = norm_cond(n.term)
            if edge_any(g, n, label, cmp_fresh):
                out.add("fresh")
            if edge_any(g, n, label, cmp_stale):
                out.add("stale")
            if edge_implies(g, n, label, lambda t, truth: attr_path(t) == "gyp.opts.ensure" and not truth, 0):
                out.add("noensure")
            for code in ("ENOENT", "EACCES"):
                if edge_implies(g, n, label, lambda t, truth: truth and t[0] == "op" and t[1] == "==" and t[2][0] == "a"
                                and t[2][2] == "code" and t[3] == ("c", code), 0):
                    out.add(code)
            if edge_implies(g, n, label, lambda t, truth: t == ("op", "==", ("a", ("glob", "process"), "platform"), ("c", "win32"))
                            and not truth, 4):
                out.add("notwin")
            if edge_implies(g, n, label, lambda t, truth: truth and t[0] == "op" and t[1] == "==" and t[3] == ("c", "pre"), 6):
                out.add("pre")
        cache[k] = frozenset(out)
        return cache[k]

    def edge_any(g, n, label, pred):
        rs = g.resolve(n.term, n)
        # the compared variable may still hold its default (marker absent): judge by the whole alternative set
        hits = [implied(r, label == "T", pred) for r in rs]
        return bool(hits) and all(hits)

    def is_marker_or_default(t, n):
        return all(is_marker_value(a) or a == ("c", 0) or a[0] == "c" and a[1] in (0, -1, None)
                   for a in alternatives(t)) and (t[0] == "c" or any(is_marker_value(a) for a in alternatives(t)))

    for n in g.calls():
        if fs_op(g.callee(n)) == "writeFile" and len(n.args) > 1 and any(path_parts(v) and path_parts(v)[-1] == ("c", "installVersion") for v in g.values(n, n.args[0], 6)):
            for v in g.values(n, n.args[1], 4):
                ps = cat_parts(v)
                x = ps[0]
                while x[0] == "call" and (x[1] == ("glob", "String") and len(x[2]) == 1 or x[1][0] == "a" and x[1][2] == "toString" and not x[2]):
                    x = x[2][0] if x[1] == ("glob", "String") else x[1][1]
                ok = is_required(x) and all(p[0] == "c" and isinstance(p[1], str) and not p[1].strip() for p in ps[1:])
                c.ob("E4", n.loc, ok, "the recorded version is the installed one", f"the marker records {show(v)[:80]}, not node-gyp's install version")

    # E4: the comparison exists with a real marker value
    cmps = []
    for n in g.nodes:
        if n.op == "branch" and n.live:
            for r in g.resolve(n.term, n):
                for a, _ in atoms(r):
                    if a[0] == "op" and a[1] in ("<", "==") and len(a) == 4 and (is_required(a[2]) or is_required(a[3])):
                        cmps.append((n, a))
    c.need("E4", cmps, "comparison with package.installVersion", fn.loc)
    seen_default = seen_real = False
    for n, a in cmps:
        v = a[2] if is_required(a[3]) else a[3]
        for alt in alternatives(v):
            if is_marker_value(alt):
                seen_real = True
                e = g.expand(alt, 4)
                c.ob("E4", n.loc, has(e, lambda x: x[0] == "call" and (x[1] in (("glob", "parseInt"), ("glob", "Number"))
                                                                      or x[1][0] == "a" and x[1][2] == "parseInt")),
                     "marker text is parsed as a number")
                for x in walk_term(e):
                    if x[0] == "call" and len(x[2]) > 1 and (x[1] == ("glob", "parseInt") or x[1][0] == "a" and x[1][2] == "parseInt"):
                        c.ob("E4", n.loc, all(v in (("c", 10), ("c", 0), ("c", None)) or v[0] != "c" for v in g.values(n, x[2][1], 4)), "the marker is a decimal number",
                             "the marker is not parsed as the decimal number it is")
                # NaN would compare false with `<`: a fallback is needed
                c.ob("E4", n.loc, guards_nan(g, n, alt), "unparsable marker counts as not installed",
                     "an unparsable installVersion compares as up to date (NaN)")
            elif alt[0] == "c":
                seen_default = True
                c.ob("E4", n.loc, isinstance(alt[1], (int, float)) and not isinstance(alt[1], bool) and alt[1] < 1,
                     "default marker value is below any version")
            else:
                c.ob("E4", n.loc, False, f"compared value {show(alt)[:60]} comes from the marker file")
    c.ob("E4", fn.loc, seen_real, "the value compared is read from the marker file")

    # q = (effect?, dir-ok, fresh, lib-ok-or-notwin, permission, exceptional probe code pending)
    def step(q, n, label):
        eff, dirok, fresh, lib, perm, pend = q
        if n.id in probes and not eff:
            k = probes[n.id]
            if label == "exc":
                pend = k
            else:
                if k == "dir":
                    dirok = True
                if k == "lib":
                    lib = True
        fs = facts(n, label)
        if "noensure" in fs:
            perm = perm | {"noensure"}
        if "fresh" in fs:
            fresh = True
        if "stale" in fs:
            perm = perm | {"stale"}
        if "notwin" in fs:
            lib = True
        if "pre" in fs:
            fresh = dirok = lib = True
        if pend and "ENOENT" in fs:
            if pend == "dir" or pend == "lib":
                perm = perm | {"enoent"}
            pend = None
        if pend and "EACCES" in fs:
            pend = None
            perm = perm | {"eacces"}
        if n.id in effects or n.id in reinst:
            eff = True
        if eff:
            return ((True, True, True, True, frozenset(), None),) if n.id not in effects and n.id not in reinst else (
                (True, dirok, fresh, lib, perm, pend),)
        return ((eff, dirok, fresh, lib, perm, pend),)

    first = []

    def step2(q, n, label):
        if (n.id in effects or n.id in reinst) and not q[0]:
            first.append((n, q))
        return step(q, n, label)

    ex = c.explore(g, (False, False, False, False, frozenset(), None), step2)
    done = set()
    for n, q in first:
        if (n.id, q) in done:
            continue
        done.add((n.id, q))
        ok = bool(q[4]) and not q[5]
        c.ob("E2", n.loc, ok, f"install effect {show(g.callee(n))[:50]} is permitted here",
             "with --ensure an up to date (or unprobed) version is reinstalled", ex.trace(n, q) if not ok else None)
    for q in ex.states_at(g.exit):
        if not q[0]:
            ok = q[1] and q[2] and q[3]
            what = "version dir stat" if not q[1] else "installVersion comparison" if not q[2] else "node.lib probe"
            c.ob("E1", fn.loc, ok, "effect-free return only when up to date",
                 f"install can return without installing although the {what} was not passed",
                 ex.trace(g.exit, q) if not ok else None)
            c.ob("E3", fn.loc, not q[5], "no probe error is swallowed",
                 f"an unexpected error of the {q[5]} probe is swallowed", ex.trace(g.exit, q) if q[5] else None)


def arch_value(g, n, t):
    """Is t the target architecture: options first, else the running one?"""
    names = {x[2] for v in g.values(n, t, 6) for x in closure(g, v, n) if x[0] == "a"}
    return bool(names & {"arch", "target_arch"})


def guards_nan(g, n, alt):
    """Every path from the parse to the comparison tests the parsed value (truthiness, NaN, finiteness)."""
    if alt[0] == "op" and alt[1] == "?:":
        return has(g.expand(alt[2], 4), lambda x: x[0] == "call" and nan_test(x))
    if alt[0] == "op":
        return alt[1] in ("|", "~", ">>", "||")
    src = [x for x in walk_term(alt) if x[0] == "t"]
    if not src:
        return False
    start = g.nodes[src[0][1]]

    def about(t, truth):
        if t == alt and truth:
            return True
        if t == alt:
            return True  # replaced on this arm
        if t[0] == "call" or t[0] == "t":
            e = g.expand(t, 4)
            return e[0] == "call" and nan_test(e)
        return t[0] == "op" and t[1] == "==" and t[2] == t[3]

    def tested(m, l):
        return m.op == "branch" and l in ("T", "F") and edge_implies(g, m, l, about, 0)

    bad, _ = must_pass(g, [n], lambda m, l: l == "exc" or tested(m, l), start=start)
    if bad:
        return False
    # when the value is falsy, what is compared must be another one
    falsy = memo(g, lambda t, truth: t == alt and not truth, 0)
    for m in g.nodes:
        if m.op == "branch" and m.live:
            for l, s in m.succ:
                if falsy(m, l) and reachable(g, s, n, lambda k, l2: l2 == "exc" or k.op == "assign" and k.term[0] == "c" or tested(k, l2)):
                    return False
    return True


def nan_test(e):
    return show(e[1]).split(".")[-1] in ("isNaN", "isFinite", "isInteger", "isSafeInteger")
