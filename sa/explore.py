"""Typestate exploration of a supergraph (ESP-style property simulation).

State = (node, automaton state, small store of branch facts).  The store keeps
(a) locals whose value is a literal constant and (b) the outcome of branch
conditions that cannot have changed since, so a flag variable or a repeated
test does not create infeasible paths.  If the store varieties at a
(node, automaton state) exceed a bound they are intersected, which only adds
paths.
"""
from collections import deque

UNSTABLE = {"unk", "phi", "cbarg", "undef", "v", "obj", "list", "dict"}


def walk_term(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x[1:] if isinstance(y, tuple))
            if x and isinstance(x[0], tuple):
                st.append(x[0])


NEG = {"!==": "===", "!=": "==", "is not": "is"}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


def norm_cond(t):
    """(term, polarity) with negations removed and comparisons oriented."""
    pol = True
    while True:
        if t[0] == "op" and t[1] in ("not",):
            t = t[2]
            pol = not pol
        elif t[0] == "op" and t[1] in NEG:
            t = ("op", NEG[t[1]]) + t[2:]
            pol = not pol
        elif t[0] == "op" and t[1] == "!!":
            t = t[2]
        elif t[0] == "call" and t[1] in (("glob", "bool"), ("glob", "Boolean")) and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    if t[0] == "op" and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] in ("===", "==", "is"):
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
            elif b[0] != "c" and repr(a) > repr(b):
                a, b = b, a
            t = ("op", "==", a, b)
        elif t[1] in (">", ">="):
            # a > b  ->  b < a ; a >= b -> not (a < b)
            if t[1] == ">":
                t = ("op", "<", b, a)
            else:
                t = ("op", "<", a, b)
                pol = not pol
        elif t[1] == "<=":
            t = ("op", "<", b, a)
            pol = not pol
    return t, pol


def truth(v):
    """Truth value of a constant term payload (JS and Python agree on these)."""
    return bool(v)


class Explorer:
    def __init__(self, g, maxstore=48):
        self.g = g
        self.maxstore = maxstore
        self.interesting = self._interesting()
        if not hasattr(g, "_xcache"):
            g._xcache = ({}, [])
        self._cond = g._xcache[0]
        if not g._xcache[1]:
            g._xcache[1].append(self._liveness())
        self.livein, self.bits = g._xcache[1][0]

    def _liveness(self):
        """Bit mask per node of the store keys a later branch can consult."""
        bits = {}

        def bit(k):
            return bits.setdefault(k, 1 << len(bits))
        gen, kill = {}, {}
        for n in self.g.nodes:
            a = b = 0
            if n.op == "branch":
                key = self.cond(n)[0]
                if key is not None:
                    a |= bit(("F", key))
                for x in walk_term(n.term):
                    if x[0] == "v":
                        a |= bit(x)
            elif n.op == "assign":
                b = bit(n.var)
                if n.var in self.interesting:
                    for x in walk_term(n.term):
                        if x[0] == "v":
                            a |= bit(x)
            gen[n.id], kill[n.id] = a, b
        live = {n.id: gen[n.id] for n in self.g.nodes}
        work = deque(self.g.nodes[::-1])
        inq = {n.id for n in self.g.nodes}
        while work:
            n = work.popleft()
            inq.discard(n.id)
            out = 0
            for _, m in n.succ:
                out |= live[m.id]
            new = gen[n.id] | (out & ~kill[n.id])
            if new != live[n.id]:
                live[n.id] = new
                for _, p in n.pred:
                    if p.id not in inq:
                        inq.add(p.id)
                        work.append(p)
        return live, bits

    def _interesting(self):
        branch_vars = set()
        for n in self.g.nodes:
            if n.op == "branch" and n.live:
                for x in walk_term(n.term):
                    if x[0] == "v":
                        branch_vars.add(x)
        # copy closure: y = x makes x interesting if y is
        changed = True
        while changed:
            changed = False
            for v, ds in self.g.defs.items():
                if v in branch_vars:
                    for d in ds:
                        if d.term[0] == "v" and d.term not in branch_vars:
                            branch_vars.add(d.term)
                            changed = True
        out = set()
        for v in branch_vars:
            for d in self.g.defs.get(v, []):
                if d.term[0] == "c" or d.term[0] == "v":
                    out.add(v)
        return out

    def cond(self, n):
        """(key, polarity, deps, rawkey) for a branch node."""
        if n.id in self._cond:
            return self._cond[n.id]
        raw, pol = norm_cond(n.term)
        rs = self.g.resolve(n.term, n)
        key = None
        deps = frozenset()
        attrs = frozenset()
        if len(rs) == 1:
            t, p2 = norm_cond(self.g.expand(next(iter(rs)), 6))
            base, _ = norm_cond(next(iter(rs)))
            ok = True
            d = set()
            at = set()
            for x in walk_term(next(iter(rs))):
                if x[0] in UNSTABLE:
                    ok = False
                elif x[0] in ("t", "excof"):
                    d.add(x[1])
                elif x[0] in ("elem", "key"):
                    d.add(x[2])
                elif x[0] == "a":
                    at.add(x[2])
                elif x[0] == "op" and x[1] in ("callback", "order", "floating"):
                    ok = False
            if ok:
                key, pol2 = base, norm_cond(next(iter(rs)))[1]
                deps = frozenset(d)
                attrs = frozenset(at)
                r = (key, pol2, deps, attrs, raw, pol)
                self._cond[n.id] = r
                return r
        r = (None, True, deps, attrs, raw, pol)
        self._cond[n.id] = r
        return r

    # store: dict frozen as tuple of sorted items by repr; values
    def eval_raw(self, t, store):
        """Truth of a raw condition under the const store: True/False/None."""
        if t[0] == "c":
            return truth(t[1])
        if t[0] == "v":
            s = store.get(t)
            if s is None:
                return None
            return s[1] if s[0] == "truth" else truth(s[1])
        if t[0] == "op" and t[1] == "not":
            r = self.eval_raw(t[2], store)
            return None if r is None else not r
        if t[0] == "op" and t[1] == "==" and len(t) == 4:
            a = self.const(t[2], store)
            b = self.const(t[3], store)
            if a is not None and b is not None:
                return a[0] == b[0]
        if t[0] == "op" and t[1] == "isnull":
            a = self.const(t[2], store)
            if a is not None:
                return a[0] is None
        if t[0] == "op" and t[1] in ("&&", "||"):
            rs = [self.eval_raw(x, store) for x in t[2:]]
            if t[1] == "&&":
                if False in rs:
                    return False
                return True if all(r is True for r in rs) else None
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        return None

    def const(self, t, store):
        if t[0] == "c":
            return (t[1],)
        if t[0] == "v":
            s = store.get(t)
            if s is not None and s[0] == "const":
                return (s[1],)
        return None

    def run(self, init, step, start=None, on_budget=400000):
        """step(q, node, label) -> iterable of successor automaton states.
        Returns {(node.id, q)} visited and a parent map for traces."""
        g = self.g
        start = start or g.entry
        seen = {}
        parent = {}
        work = deque()

        def push(node, q, store, par):
            key = (node.id, q)
            lv = self.livein[node.id]
            bits = self.bits
            fz = frozenset(i for i in store.items() if lv & bits.get(i[0], 0))
            lst = seen.setdefault(key, [])
            for o in lst:
                if o <= fz:
                    return
            if len(lst) >= self.maxstore:
                inter = fz
                for o in lst:
                    inter = inter & o
                lst[:] = [inter]
                fz = inter
            else:
                lst[:] = [o for o in lst if not fz <= o]
                lst.append(fz)
            sk = (node.id, q, fz)
            if sk not in parent:
                parent[sk] = par
            work.append(sk)

        push(start, init, {}, None)
        count = 0
        while work:
            sk = work.popleft()
            nid, q, fz = sk
            if fz not in seen.get((nid, q), ()):
                continue
            count += 1
            if count > on_budget:
                raise RuntimeError("exploration budget exceeded in " + repr(g.root))
            n = g.nodes[nid]
            store = dict(fz)
            # kill facts depending on this node's own value
            if n.op in ("call", "iter", "branch", "collect", "yield"):
                for k in [k for k, v in store.items() if k[0] == "F" and n.id in v[2]]:
                    del store[k]
            if n.op == "store" and n.name is not None:
                for k in [k for k, v in store.items() if k[0] == "F" and n.name in v[3]]:
                    del store[k]
            if n.op == "assign":
                v = n.var
                store.pop(v, None)
                if v in self.interesting:
                    t = n.term
                    if t[0] == "c":
                        try:
                            hash(t[1])
                            store[v] = ("const", t[1])
                        except TypeError:
                            pass
                    elif t[0] == "v" and t in dict(fz) and t != v:
                        store[v] = dict(fz)[t]
                    elif t[0] in ("list", "tuple", "dict", "fn", "cls"):
                        if t[0] in ("fn", "cls") or self.g.prog.lang == "js":
                            store[v] = ("truth", True)
                    else:
                        r = self.eval_raw(norm_cond(t)[0], dict(fz))
                        if r is not None and t[0] == "op" and t[1] in ("==", "===", "!=", "!==", "not", "&&", "||"):
                            p = norm_cond(t)[1]
                            store[v] = ("truth", r == p)
            if n.op == "branch":
                key, kpol, deps, attrs, raw, rpol = self.cond(n)
                known = self.eval_raw(raw, store)
                if known is not None:
                    known = (known == rpol)
                if known is None and key is not None:
                    f = store.get(("F", key))
                    if f is not None:
                        known = (f[1] == kpol)
                for label, m in n.succ:
                    if label in ("T", "F"):
                        val = label == "T"
                        if known is not None and known != val:
                            continue
                        st2 = dict(store)
                        if known is None:
                            if key is not None:
                                st2[("F", key)] = ("fact", val == kpol, deps, attrs)
                            if raw[0] == "v":
                                st2[raw] = ("truth", val == rpol)
                            elif raw[0] == "op" and raw[1] == "==" and raw[2][0] == "v" and raw[3][0] == "c" \
                                    and (val == rpol):
                                st2[raw[2]] = ("const", raw[3][1])
                        for q2 in step(q, n, label):
                            push(m, q2, st2, sk)
                    else:
                        for q2 in step(q, n, label):
                            push(m, q2, store, sk)
                continue
            for label, m in n.succ:
                for q2 in step(q, n, label):
                    push(m, q2, store, sk)
        self.seen = seen
        self.parent = parent
        self.count = count
        return seen

    def states_at(self, node):
        return {q for (nid, q) in self.seen if nid == node.id}

    def trace(self, node, q):
        """Shortest-found path of (file:line) to node in state q."""
        for sk in self.parent:
            if sk[0] == node.id and sk[1] == q:
                out = []
                while sk is not None:
                    n = self.g.nodes[sk[0]]
                    out.append((n, sk[1]))
                    sk = self.parent[sk]
                out.reverse()
                lines = []
                for n, q2 in out:
                    s = f"{n.loc[0]}:{n.loc[1]} {n.op}"
                    if not lines or lines[-1] != s:
                        lines.append(s)
                return lines
        return []


def must_pass(g, sinks, good, start=None, explorer=None):
    """Sinks (nodes) reachable without crossing a good edge.

    good(node, label) -> True when leaving node by label establishes the
    obligation.  Returns [(sink, trace)] violations."""
    ex = explorer or Explorer(g)
    gc = {}

    sinks = list(sinks)
    reach = {s.id for s in sinks}
    st = list(sinks)
    while st:
        for _, p in st.pop().pred:
            if p.id not in reach:
                reach.add(p.id)
                st.append(p)

    def step(q, n, label):
        if n.id not in reach:
            return ()
        k = (n.id, label)
        if k not in gc:
            gc[k] = bool(good(n, label))
        return () if gc[k] else (0,)

    ex.run(0, step, start)
    bad = []
    for s in sinks:
        if 0 in ex.states_at(s):
            bad.append((s, ex.trace(s, 0)))
    return bad, ex
