#!/usr/bin/env python3
"""python3 check.py <PROPERTY-ID> [--tier quick|thorough]

exit 0: property holds on everything examined (known findings are printed)
exit 1: violation (VIOLATION line)        other exits: the analysis itself broke
"""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bsa import program, report          # noqa: E402
from bsa.rules import REGISTRY           # noqa: E402


def run(prop, tier="quick", root=None):
    t0 = time.time()
    mod = importlib.import_module("bsa.rules." + REGISTRY[prop])
    prog = program.load(root)
    ctx = report.Ctx(prop, prog, tier)
    mod.check(ctx)
    # self tests: every rule must still fire on its positive example and stay quiet on its negative one
    st = {"positive": 0, "negative": 0}
    for name, sources, expect in getattr(mod, "SELFTESTS", []):
        sp = program.Program(sources=sources)
        sc = report.Ctx(prop, sp, "selftest")
        mod.check(sc)
        fired = {f["rule"] for f in sc.findings}
        if expect is None:
            st["negative"] += 1
            if fired:
                raise program.AnalysisBroken("self-test %s: unexpected finding %s" % (name, sc.findings))
        else:
            st["positive"] += 1
            if expect not in fired:
                raise program.AnalysisBroken("self-test %s: rule %s did not fire" % (name, expect))
    return report.finish(ctx, mod.TITLE, mod.EXPLANATION, mod.ASSUMPTIONS, t0, st)


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        return run(prop, tier)
    except program.AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv))
