"""installVersion marker is written last, after full verification."""
from ..match import *
from ..cfg import show, alternatives
from .jscommon import *
from .installcommon import in_place

ID = "P01"
EXPLANATION = (
    "Path-sensitive typestate analysis of the supergraph rooted at lib/install.js:install (every local helper, "
    "download() included, spliced in; both platforms; both Promise.all orders; every exception edge). Per-path state: "
    "responses whose status is untested, hashed-but-uncompared content, extraction whose error/count flags are "
    "untested. The marker write must be unreachable with any of them outstanding and nothing may write content "
    "after it.")


def marker_writes(g):
    out = []
    for n in g.calls():
        op = fs_op(g.callee(n))
        if op in FS_CONTENT and n.args:
            for a in n.args[:2]:
                for v in g.values(n, a, 6):
                    p = path_parts(v)
                    if p and p[-1] == ("c", "installVersion"):
                        out.append(n)
                        break
                else:
                    continue
                break
    return out


def check(c):
    c.rule("M1", "no path reaches the installVersion write with an unchecked response status, an uncompared checksum or "
                 "an unchecked extraction result")
    c.rule("M2", "every downloaded body is consumed through a SHA-256 transform that records the digest, or is the "
                 "checksum list; the hash transform hashes and forwards every chunk")
    c.rule("M3", "every asynchronous file, stream or network operation of the install is awaited")
    c.rule("M4", "no content is written after the marker; the marker holds package.installVersion inside the version dir")
    c.rule("M5", "expected digests come only from the SHASUMS256 response, recorded digests only from the hash transform")
    c.rule("M6", "before the marker is written, what was unpacked elsewhere is copied and the import library is in place on Windows")
    fn = exported(c.js, "lib/install.js")
    if fn is None:
        c.ob("M1", ("lib/install.js", 1), False, "install command is exported")
        return
    g = c.graph(fn, INSTALL)
    writes = c.need("M1", marker_writes(g), "write of the installVersion marker", fn.loc)
    in_place(c, g, writes, "M6")
    fetches = [n for n in g.calls() if is_net(g.callee(n))]
    c.need("M1", fetches, "download", fn.loc)
    fetch_ids = {n.id for n in fetches}
    extracts = [n for n in g.calls() if is_extract(g.callee(n))]
    c.need("M1", extracts, "tar extraction", fn.loc)
    pipes = [n for n in g.calls() if is_pipeline(g.callee(n))]
    pipe_args = {}
    for p in pipes:
        for a in p.args:
            for r in g.resolve(a, p):
                if r[0] == "t":
                    pipe_args.setdefault(r[1], p)

    def uses_response(t):
        return {x[1] for x in subterms(t) if x[0] == "t" and x[1] in fetch_ids}

    # --- M2: how bodies are consumed
    shas = {}  # node id of `new Transform(cb)` -> (container obj)
    digest_objs = set()
    for n in g.calls():
        if n.new and g.callee(n)[0] == "cls":
            for st in g.nodes:
                if st.op == "store" and st.live and st.name is None:
                    for v in g.resolve(st.value, st):
                        if v[0] == "cbarg" and v[1] == n.id:
                            for o in g.resolve(st.obj, st):
                                shas[n.id] = o
                                digest_objs.add(o)
                            c.ob("M5", st.loc, v[2] == 1, "recorded digest is the hash transform's result")
    body_uses = {}
    for n in g.calls():
        for a in list(n.args) + [v for _, v in n.kw]:
            for r in g.resolve(a, n):
                for x in subterms(r):
                    if x[0] == "a" and x[2] == "body" and x[1][0] == "t" and x[1][1] in fetch_ids:
                        body_uses.setdefault(n.id, set()).add(x[1][1])
        for r in g.resolve(n.callee, n):
            for x in subterms(r):
                if x[0] == "a" and x[1][0] == "t" and x[1][1] in fetch_ids and x[2] in (
                        "body", "text", "json", "arrayBuffer", "buffer", "blob"):
                    body_uses.setdefault(n.id, set()).add(x[1][1])
    hashed_pipes = {}
    for nid, res in sorted(body_uses.items()):
        n = g.nodes[nid]
        callee = g.callee(n)
        urls = set()
        for f in res:
            fnode = g.nodes[f]
            urls |= {show(v) for v in g.values(fnode, fnode.args[0], 6)} if fnode.args else set()
        if is_pipeline(callee):
            ids = [r[1] for a in n.args for r in g.resolve(a, n) if r[0] == "t"]
            pos = [i for i, a in enumerate(n.args) for r in g.resolve(a, n) if r[0] == "t" and r[1] in shas]
            ok = bool(pos) and 0 < pos[0] < len(n.args) - 1
            c.ob("M2", n.loc, ok, f"body of {sorted(urls)} is piped through the SHA-256 transform before it is stored")
            if ok:
                hashed_pipes[nid] = {shas[i] for i in ids if i in shas}
        else:
            ok = all("shasums" in u.lower() for u in urls)
            c.ob("M2", n.loc, ok, f"body of {sorted(urls)} bypasses the SHA-256 transform",
                 f"response body of {sorted(urls)} is consumed by {show(callee)[:60]} without hashing")
    c.need("M2", hashed_pipes, "hashed download", fn.loc)
    sha_classes = {g.callee(g.nodes[i])[1] for i in shas}
    for cls in sorted(sha_classes, key=lambda k: k.name):
        check_transform(c, cls)

    # --- M5
    def from_list(x):
        return x[0] == "a" and x[2] == "shasumsUrl"

    expect_objs = set()
    for st in g.nodes:
        if st.op == "store" and st.live and st.name is None:
            objs = g.resolve(st.obj, st)
            vals = g.resolve(st.value, st)
            for o in objs:
                if o in digest_objs:
                    c.ob("M5", st.loc, all(v[0] == "cbarg" and v[1] in shas for v in vals),
                         f"only digests are recorded in {show(o)}")
                else:
                    if any(derives(g, v, None, from_list) for v in vals):
                        expect_objs.add(o)
    for st in g.nodes:
        if st.op == "store" and st.live and st.name is None:
            for o in g.resolve(st.obj, st):
                if o in expect_objs:
                    ok = all(derives(g, a, None, from_list) and not derives(g, a, None, lambda x: x in digest_objs)
                             for v in g.resolve(st.value, st) for a in alternatives(v))
                    c.ob("M5", st.loc, ok, "expected digests come from the SHASUMS256 response")
    c.need("M5", expect_objs, "digest list parsed from the SHASUMS256 response", fn.loc)

    # --- M3
    for n in g.calls():
        callee = g.callee(n)
        op = fs_op(callee)
        sync = callee[0] == "a" and callee[2].endswith("Sync")
        stream = op in ("createWriteStream", "createReadStream")
        if is_extract(callee):
            need = n.id not in pipe_args
        elif is_pipeline(callee) or is_net(callee) or is_command(callee, "remove") or is_command(callee, "install"):
            need = True
        elif op and not sync and not stream:
            need = has(callee, lambda x: x[0] == "a" and x[2] == "promises") or has(
                callee, lambda x: x == ("mod", "fs/promises"))
        else:
            continue
        if need:
            c.ob("M3", n.loc, n.awaited, f"{show(callee)[:60]} is awaited",
                 f"{show(callee)[:60]}() is not awaited: its failure or completion is not observed")
        if stream:
            c.ob("M3", n.loc, n.id in pipe_args, f"{show(callee)[:60]} is driven by an awaited pipeline")

    for n in g.calls():
        # an asynchronous callback with effects, run by a library function
        if n.callee[0] == "a" and n.callee[2] in ("on", "once", "addListener", "then", "catch", "map") or getattr(n, "loop", None) is not None:
            continue
        for a in n.args:
            for r in g.resolve(a, n):
                if r[0] == "fn" and r[1].is_async and any(fs_op(k.callee) or is_pipeline(k.callee) or is_net(k.callee) for k in c.flat(r[1]).calls()):
                    c.ob("M3", n.loc, n.awaited or getattr(n, "tail", False), f"{show(n.callee)[:60]} is awaited",
                         f"{show(n.callee)[:60]}() runs file operations and is not awaited")
    for n in floating(g):
        c.ob("M3", n.loc, False, "local asynchronous call is awaited",
             "an asynchronous helper is started and never awaited")

    # --- M4 content of the marker
    for w in writes:
        vals = g.values(w, w.args[1], 5) if len(w.args) > 1 else set()
        c.ob("M4", w.loc, bool(vals) and all(has(v, lambda x: x[0] == "a" and x[2] == "installVersion") for v in vals),
             "marker content is package.installVersion")
        ok = True
        for v in g.values(w, w.args[0], 6):
            ps = path_parts(v)
            ok = ok and any(attr_path(p) == "gyp.devDir" for p in ps) and any(
                has(p, lambda x: x[0] == "a" and x[2] == "versionDir") for p in ps)
        c.ob("M4", w.loc, ok, "marker lies in the version directory of devDir")

    # --- typestate
    # q = (pending responses, unhashed?, dirty digests, compare-loop state, extraction facts outstanding, written)
    write_ids = {w.id for w in writes}
    pipe_ids = {p.id for p in pipes}
    ext_ids = {e.id for e in extracts}
    content_ids = set()
    for n in g.calls():
        if fs_op(g.callee(n)) in FS_CONTENT or n.id in pipe_ids or (n.id in ext_ids and n.id not in pipe_args):
            if n.id not in write_ids:
                content_ids.add(n.id)
    iters = {}
    for n in g.nodes:
        if n.op == "iter" and n.live:
            for r in g.resolve(n.term, n):
                if derives(g, r, None, lambda x: x in digest_objs):
                    iters[n.id] = n
    c.need("M1", iters, "loop over the recorded digests", fn.loc)
    problems = []
    forall = {i for i, n in iters.items()}

    def eq_fact(n, label):
        def pred(t, truth):
            if not truth or t[0] != "op" or t[1] != "==":
                return False
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if x[0] == "i" and x[1] in expect_objs and derives(g, y, None, lambda z: z in digest_objs) \
                        and any(z[0] in ("key", "elem") and z[2] in iters for z in subterms(x[2])):
                    return True
            return False
        return edge_implies(g, n, label, pred, 0)

    err_vars, cnt_vars = extraction_flags(c, g, extracts)
    flags = err_vars | cnt_vars
    c.need("M1", err_vars, "extraction warning flag", fn.loc)
    c.need("M1", cnt_vars, "extracted-file counter", fn.loc)
    cache = {}

    def info(n, label):
        k = (n.id, label)
        if k in cache:
            return cache[k]
        st = set()
        if n.op == "branch":
            def ok_status(t, truth):
                if t[0] == "op" and t[1] == "==" and truth:
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if a[0] == "a" and a[2] == "status" and a[1][0] == "t" and b == ("c", 200):
                            st.add(a[1][1])
                            return True
                if t[0] == "a" and t[2] == "ok" and truth and t[1][0] == "t":
                    st.add(t[1][1])
                    return True
                return False
            if not edge_implies(g, n, label, ok_status, 0):
                st = set()
        e = eq_fact(n, label)
        x = set()
        if n.op == "branch" and label in ("T", "F"):
            # raw variables: the flags are closure variables set by the callbacks
            for t, truth in atoms(unfold(g, n.term, n, flags), label == "T"):
                if t[0] == "v" and t[2] in err_vars and not truth:
                    x.add("err")
                if t[0] == "v" and t[2] in cnt_vars and truth:
                    x.add("cnt")
                if t[0] == "op" and t[1] == "==" and t[2][0] == "v" and t[2][2] in cnt_vars and t[3] == ("c", 0) and not truth:
                    x.add("cnt")
                if t[0] == "op" and t[1] == "<" and ((t[2] == ("c", 0) and t[3][0] == "v" and t[3][2] in cnt_vars and truth)
                                                    or (t[3] == ("c", 1) and t[2][0] == "v" and t[2][2] in cnt_vars and not truth)):
                    x.add("cnt")
        cache[k] = (frozenset(st), e, frozenset(x))
        return cache[k]

    def step(q, n, label):
        pend, dirty, loop, ext, written = q
        if label == "exc":
            return (q,)
        st, eq, fl = info(n, label)
        if st:
            pend = pend - st
        if fl:
            ext = ext - fl
        if n.id in body_uses and pend & body_uses[n.id]:
            problems.append((n, q, "M1", "response body used before its status was compared with 200"))
        if n.id in fetch_ids:
            pend = pend | {n.id}
        if n.id in hashed_pipes:
            dirty = True
        if n.id in ext_ids or (n.id in pipe_ids and any(p is n and i in ext_ids for i, p in pipe_args.items())):
            ext = frozenset({"err", "cnt"})
        if n.id in iters:
            # loop = (iterator, this iteration compared, every earlier iteration compared)
            good = loop == "-" or loop[0] != n.id or (loop[1] and loop[2])
            if label == "done":
                if good and n.id in forall:
                    dirty = False
                loop = "-"
            else:
                loop = (n.id, False, good)
        if eq and loop != "-":
            loop = (loop[0], True, loop[2])
        if n.id in content_ids and written:
            problems.append((n, q, "M4", "content is written after the installVersion marker"))
        if n.id in write_ids:
            written = True
        return ((pend, dirty, loop, ext, written),)

    ex = c.explore(g, (frozenset(), False, "-", frozenset(), False), step)
    for w in writes:
        qs = ex.states_at(w)
        bad = {}
        for q in qs:
            if q[0]:
                bad.setdefault("a response whose status was not compared with 200", q)
            if q[1]:
                bad.setdefault("downloaded content whose digest was not compared with the SHASUMS256 entry", q)
            if q[3]:
                bad.setdefault("a tar extraction whose " + ("warnings" if "err" in q[3] else "file count") +
                               " were not checked", q)
        c.ob("M1", w.loc, not bad and bool(qs), "marker write dominated by complete verification",
             "installVersion can be written after " + "; ".join(bad), ex.trace(w, next(iter(bad.values()))) if bad else None)
    seen = set()
    for n, q, r, msg in problems:
        if (n.loc, msg) not in seen:
            seen.add((n.loc, msg))
            c.ob(r, n.loc, False, msg, trace=ex.trace(n, q))


def extraction_flags(c, g, extracts):
    """Names of the closure variables the onwarn / filter callbacks of tar.extract set."""
    err, cnt = set(), set()
    for n in extracts:
        if not n.args:
            continue
        for o in g.resolve(n.args[0], n):
            o = g.content(o)
            ow, fl = dict_get(o, "onwarn"), dict_get(o, "filter")
            for cb, out, nm in ((ow, err, "onwarn"), (fl, cnt, "filter")):
                if cb is None:
                    c.ob("M1", n.loc, False, f"tar.extract observes {nm}",
                         f"tar.extract without {nm}: extraction problems go unnoticed")
                    continue
                for v in g.resolve(cb, n) if cb[0] not in ("fn",) else [cb]:
                    if v[0] != "fn":
                        continue
                    names = set()
                    for m in g.nodes:
                        if m.op == "assign" and m.live and m.frame is not None and v[1] in m.frame.stack \
                                and m.var[1] != m.frame.id and (m.term == ("c", True) or getattr(m, "aug", None)
                                                                or m.term[0] == "op"):
                            names.add(m.var[2])
                            if nm == "onwarn":
                                ok = m.term == ("c", True) or m.term[0] == "op" and m.term[1] == "||" and m.var in m.term[2:] or getattr(m, 'aug', None)
                                c.ob("M1", m.loc, ok, "a recorded warning stays recorded", "a later warning can clear the record of an earlier one")
                    c.ob("M1", n.loc, bool(names), f"the {nm} callback of tar.extract records what it saw")
                    out.update(names)
    return err, cnt


def check_transform(c, cls):
    prog = c.js
    tr, fl = prog.method(cls, "_transform"), prog.method(cls, "_flush")
    c.ob("M2", cls.loc, tr is not None and fl is not None, f"{cls.name} is a Transform with _transform and _flush")
    if not tr or not fl:
        return
    g = c.graph(tr, NOLOG)
    upd = [n for n in g.calls() if g.callee(n)[0] == "a" and g.callee(n)[2] == "update"
           and n.args and g.one(n.args[0], n) == ("param", tr.params[0][0].id)]
    cb = [n for n in g.calls() if g.callee(n) == ("param", tr.params[2][0].id)] if len(tr.params) > 2 else []
    cb += [n for n in g.calls() if g.callee(n) == ("a", ("this",), "push")]
    c.need("M2", cb, f"{cls.name}._transform forwards the chunk", tr.loc)
    c.need("M2", upd, f"{cls.name}._transform hashes the chunk", tr.loc)
    uid = {n.id for n in upd}
    for n in cb:
        if g.callee(n)[0] == "param":
            data = g.one(n.args[1], n) if len(n.args) > 1 else None
            if len(n.args) > 1:
                c.ob("M2", n.loc, data == ("param", tr.params[0][0].id), "the hashed chunk is the forwarded chunk")
    c.must_pass("M2", g, [g.exit], lambda n, l: n.id in uid and l != "exc",
                f"{cls.name}._transform hashes every chunk")
    # the digest algorithm
    algos = []
    for m in list(cls.methods.values()):
        gm = c.graph(m, NOLOG)
        for n in gm.calls():
            if is_mod_fn(gm.callee(n), "crypto", "createHash"):
                algos.append(gm.one(n.args[0], n))
                c.ob("M2", n.loc, algos[-1] == ("c", "sha256"), "digest algorithm is sha256")
    c.need("M2", algos, f"{cls.name} creates a sha256 hash", cls.loc)
    gf = c.graph(fl, NOLOG)
    dig = [n for n in gf.calls() if n.args and has(gf.one(n.args[-1], n, 5), lambda x: x[0] == "a" and x[2] == "digest")
           and gf.callee(n)[0] == "a" and gf.callee(n)[1] == ("this",)]
    c.need("M2", dig, f"{cls.name}._flush reports the digest", fl.loc)
    ids = {n.id for n in dig}
    c.must_pass("M2", gf, [gf.exit], lambda n, l: n.id in ids and l != "exc",
                f"{cls.name}._flush reports the digest before finishing")
