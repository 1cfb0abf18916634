#!/usr/bin/env python3
"""run.py <property id>|all [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import kit  # noqa: E402


def rules():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa", "rules")
    out = {}
    for f in sorted(os.listdir(d)):
        if f[:1] == "p" and f[1:3].isdigit() and f.endswith(".py"):
            m = importlib.import_module("sa.rules." + f[:-3])
            out[m.ID] = m
    return out


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            ids.append(a)
    rs = rules()
    if ids == ["all"]:
        ids = sorted(rs)
    rc = 0
    for i in ids:
        c = kit.Check(i, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        try:
            try:
                rs[i].check(c)
            except (TypeError, IndexError, KeyError, AttributeError, ValueError) as e:
                # code of a shape no rule expects: the property is not shown, like everything undecided
                traceback.print_exc()
                rule = next(iter(c.rules), i)
                c.ob(rule, None, False, "the analysis completes", f"the analysis cannot read this code ({type(e).__name__}: {str(e)[:80]}): nothing is shown")
            r = kit.finish(c, rs[i].EXPLANATION)
        except Exception:
            traceback.print_exc()
            print(f"ERROR property={i}")
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
