"""Generated files do not depend on hash or directory order."""
from .. import order, project

ID = "P16"
EXPLANATION = (
    "Interprocedural order-taint analysis of the whole gyp library, flow-sensitive for local variables, field-based for "
    "attributes and constant dictionary keys: sets, directory listings, hashes, addresses, clocks and process ids are "
    "unordered or arbitrary sources; iterating them into a list, dict, string or a write marks what is built, sorted() "
    "and in-place sort() clear the mark, and in-place changes travel back through parameters and aliases. Every write "
    "site is an obligation: neither its text nor the loop it runs in may carry the mark.")


def check(c):
    c.rule("write", "no text written to a file, and no order of writes, depends on the iteration order of an unordered collection")
    a = order.Analysis(project.REPO, [f for f in project.py_files() if f[0].startswith("gyp")])
    a.run()
    c.files |= {m.path for m in a.mods.values()}
    c.functions |= {f"{f.mod.path}:{f.qual}" for f in a.fns}
    c.states += len(a.loc)
    sinks = dict(a.sinks)
    for p, line, qual in sorted(a.writes):
        if (p, line) not in sinks:
            c.ob("write", (p, line), True, f"write in {qual}")
    roots = []
    for (k, d), (w, fl) in a.why.items():
        if fl & order.TAINT and not fl & order.SET and w is not None and (w[0], w[1]) not in [r[:2] for r in roots]:
            roots.append(w)
    for (p, line), (qual, what) in sorted(sinks.items()):
        c.ob("write", (p, line), False, f"write in {qual}",
             f"{qual}: {what}; order first lost at " + ", ".join(f"{r[0]}:{r[1]} ({r[2]})" for r in roots[:6]) if roots else f"{qual}: {what}")
    c.need("write", a.writes, "a statement that writes to a file")
    c.assumptions.append("the output with --parallel (which node-gyp does not pass) is not covered: the arrival order of the worker results is not modelled")
