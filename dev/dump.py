"""dump graph nodes: dump.py mod qualname [lo hi]"""
import sys
sys.path.insert(0, '/verif')
from sa import project
from sa.kit import *
from sa.rules.jscommon import *
def dump(g, lo=0, hi=10**9, file=None):
    for n in g.nodes:
        if n.live and lo <= n.loc[1] <= hi and (file is None or n.loc[0].endswith(file)):
            x = []
            for k in ("term", "callee", "slot"):
                v = getattr(n, k, None)
                if v is not None:
                    x.append(f"{k}={show(v)}")
            if n.op == "call":
                x.append("args=" + ",".join(show(a) for a in n.args))
            print(n.id, n.loc[1], n.op, *x, [(l, s.id) for l, s in n.succ])
if __name__ == "__main__":
    c = Check("X")
    m, q = sys.argv[1:3]
    prog = c.js if m.endswith(".js") else c.py
    inl = "-i" in sys.argv
    a = [x for x in sys.argv[3:] if x != "-i"]
    fs = [f for mm in prog.mods.values() if mm.path.endswith(m) for f in mm.functions if f.qual == q or f.name == q]
    for f in fs:
        g = c.graph(f, NOLOG if prog is not None and m.endswith(".js") else None) if inl else c.flat(f)
        dump(g, *(int(x) for x in a))
