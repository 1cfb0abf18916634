"""Check driver: graphs, obligations, evidence and violation reports."""
import json
import multiprocessing
import os
import sys
import time

from . import project
from .cfg import Builder, show, TooBig
from .explore import Explorer, must_pass
from .ir import walk_fn
from .match import *

STMTS = {"Assert", "Assign", "Aug", "Break", "Continue", "Del", "Expr", "For", "IfS", "Raise", "Throw", "Return", "Try", "While", "With", "Yield", "VarS", "Switch"}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SA_OUT", os.path.join(VERIF, "evidence"))


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obligations = []  # (rule, construct, ok)
        self.violations = []
        self.functions = set()
        self.files = set()
        self.nodes = 0
        self.states = 0
        self.sites = set()
        self.rules = {}
        self.assumptions = []
        self._g = {}

    # ---- programs
    @property
    def js(self):
        p = project.js()
        self.files |= {m.path for m in p.mods.values()}
        return p

    @property
    def py(self):
        p = project.py()
        self.files |= {m.path for m in p.mods.values()}
        return p

    def graph(self, fn, inline=None, **kw):
        key = (fn, id(inline) if inline else None, tuple(sorted(kw.items(), key=repr)))
        if key in self._g:
            return self._g[key][0]
        prog = project.js() if fn.module.lang == "js" else project.py()
        b = Builder(prog, inline=inline, **kw)
        g = b.build(fn)
        g.inlined = b.inlined
        self._g[key] = (g, inline)
        self.functions.add(f"{fn.module.path}:{fn.qual}")
        for f in b.inlined:
            self.functions.add(f"{f.module.path}:{f.qual}")
        self.nodes += len(g.nodes)
        return g

    def flat(self, fn):
        key = (fn, "flat")
        if key not in _flat:
            prog = project.js() if fn.module.lang == "js" else project.py()
            _flat[key] = Builder(prog, inline=lambda f, d: False).build(fn)
        self.functions.add(f"{fn.module.path}:{fn.qual}")
        return _flat[key]

    def small(self, fn, limit=25):
        """A short function (helpers are analysed together with their callers)."""
        if not hasattr(fn, "_size"):
            fn._size = sum(1 for x in walk_fn(fn, True) if getattr(x, "k", None) in STMTS)
        return fn._size <= limit

    def near(self, fn):
        """Graph of fn with the short functions of its module it calls."""
        preds = self.__dict__.setdefault("_near", {})
        if fn not in preds:
            preds[fn] = lambda f, d, fn=fn: f is not fn and f.module is fn.module and d < 6 and self.small(f)
        return self.graph(fn, preds[fn])

    def callers(self, fn):
        """Functions that call fn directly."""
        cs = self.__dict__.setdefault("_callers", {})
        if fn.module.lang not in cs:
            m = cs[fn.module.lang] = {}
            for f, g, n, t in self.flat_calls(self.js if fn.module.lang == "js" else self.py):
                for v in [t] if t[0] != "v" else g.resolve(t, n):
                    if v[0] == "fn":
                        m.setdefault(v[1], []).append(f)
        return cs[fn.module.lang].get(fn, [])

    def flat_calls(self, prog, pred=None, mods=None):
        """(fn, graph, node, callee term) for every call site, one graph per function."""
        for m in prog.mods.values():
            if mods is not None and not mods(m):
                continue
            for f in m.functions:
                g = self.flat(f)
                for n in g.calls():
                    c = g.callee(n)
                    if pred is None or pred(c, n, g):
                        yield f, g, n, c

    # ---- independent parts
    def parallel(self, fn, items, tally=None):
        """fn(item) for every item in forked workers; what it records is merged in the order of the items."""
        items = list(items)
        jobs = min(len(items), int(os.environ.get("SA_JOBS", 0)) or min(8, os.cpu_count() or 1))
        if jobs < 2:
            return [fn(x) for x in items]
        _work.append((self, fn, items, tally))
        try:
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                rs = list(pool.imap(_part, range(len(items)), 1))
        finally:
            _work.pop()
        for r, obs, bad, states, nodes, sites, functions, files, n in rs:
            self.obligations += obs
            for v in bad:
                if all(x["key"] != v["key"] or x["where"] != v["where"] for x in self.violations):
                    self.violations.append(v)
            self.states += states
            self.nodes += nodes
            self.sites |= sites
            self.functions |= functions
            self.files |= files
            for k, x in n.items():
                tally.n[k] = tally.n.get(k, 0) + x
        return [r[0] for r in rs]

    # ---- reporting
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, loc, ok, what, detail=None, trace=None, key=None):
        """Record one obligation; `what` names the construct."""
        where = f"{loc[0]}:{loc[1]}" if loc else "-"
        self.sites.add(where)
        self.obligations.append((rule, where, what, bool(ok)))
        if not ok:
            self.bad(rule, loc, detail or what, trace, key or what)
        return ok

    def bad(self, rule, loc, msg, trace=None, key=None):
        where = f"{loc[0]}:{loc[1]}" if loc else "-"
        v = {"rule": rule, "where": where, "file": loc[0] if loc else None, "message": msg,
             "key": f"{rule}|{loc[0] if loc else ''}|{key or msg}", "path": list(trace or [])[-60:]}
        if all(x["key"] != v["key"] or x["where"] != v["where"] for x in self.violations):
            self.violations.append(v)

    def explore(self, g, init, step, **kw):
        ex = Explorer(g, maxstore=48 if self.tier == "quick" else 400)
        ex.run(init, step, on_budget=2000000, **kw)
        self.states += ex.count
        return ex

    def must_pass(self, rule, g, sinks, good, what, detail=None, key=None, start=None):
        """Every path to each sink crosses a good edge; one obligation per sink."""
        ex = Explorer(g, maxstore=48 if self.tier == "quick" else 400)
        sinks = list(sinks)
        bad, ex = must_pass(g, sinks, good, start=start, explorer=ex)
        self.states += ex.count
        b = {s.id: t for s, t in bad}
        for s in sinks:
            self.ob(rule, s.loc, s.id not in b, what(s) if callable(what) else what,
                    (detail(s) if callable(detail) else detail), b.get(s.id), key)
        return not bad

    def need(self, rule, items, what, loc=None):
        """The anchor the rule talks about must exist."""
        items = list(items)
        if not items:
            self.ob(rule, loc, False, f"{what}: no such construct in the current source")
        return items


_flat = {}
_work = []


def _part(i):
    c, fn, items, tally = _work[-1]
    obs, bad = c.obligations, c.violations
    c.obligations, c.violations, c.states, c.nodes = [], [], 0, 0
    if tally is not None:
        tally.n = {}
    r = fn(items[i])
    out = (r, c.obligations, c.violations, c.states, c.nodes, set(c.sites), set(c.functions), set(c.files), dict(tally.n) if tally is not None else {})
    c.obligations, c.violations = obs, bad
    return out


def load_known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("KNOWN-FINDING:"):
                # KNOWN-FINDING: property=<id> key=<rule|file|construct> :: text
                head, _, text = line[len("KNOWN-FINDING:"):].partition("::")
                head = head.strip()
                pid, _, key = head.partition(" key=")
                out[(pid.split("=", 1)[1].strip(), key.strip())] = text.strip()
    return out


def finish(c, explanation):
    known = load_known()
    real, quiet = [], []
    for v in c.violations:
        t = known.get((c.pid, v["key"]))
        if t is not None:
            quiet.append((v, t))
        else:
            real.append(v)
    os.makedirs(OUT, exist_ok=True)
    byrule = {}
    for r, w, what, ok in c.obligations:
        d = byrule.setdefault(r, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += ok
    ev = {
        "property": c.pid, "tier": c.tier, "seed": c.seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "functions_analysed": len(c.functions), "files": len(c.files), "graph_nodes": c.nodes,
            "explored_states": c.states, "construct_sites": len(c.sites),
            "obligations": len(c.obligations), "discharged": sum(o[3] for o in c.obligations),
            "rules": {r: {"rule": c.rules.get(r, ""), **byrule.get(r, {"obligations": 0, "discharged": 0})}
                      for r in sorted(set(c.rules) | set(byrule))},
            "samples": [{"rule": r, "where": w, "obligation": what, "ok": ok}
                        for r, w, what, ok in c.obligations[:: max(1, len(c.obligations) // 12)]][:14],
            "functions_sample": sorted(c.functions)[:40],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 3),
        "violations": len(real),
    }
    with open(os.path.join(OUT, c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    seen = set()
    for v, t in quiet:
        if v["key"] not in seen:
            seen.add(v["key"])
            print(f"KNOWN-FINDING: property={c.pid} {t or v['message']}")
    rp = os.path.join(OUT, c.pid + ".violations.json")
    if real:
        with open(rp, "w") as f:
            json.dump({"property": c.pid, "violations": real,
                       "replay": f"python3 {VERIF}/run.py {c.pid}"}, f, indent=1)
            f.write("\n")
        for v in real:
            print(f"{v['where']}: [{v['rule']}] {v['message']}")
            for s in v["path"][-25:]:
                print("      ", s)
        print(f"VIOLATION property={c.pid} replay={rp}")
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print(f"OK property={c.pid} obligations={len(c.obligations)} functions={len(c.functions)} "
          f"states={c.states} wall={ev['wall_s']}s")
    return 0
