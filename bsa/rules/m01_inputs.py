"""M01: read-only operations leave the objects they are given unchanged."""
import os

from ..effects import effects
from ..program import src
from ..report import loc

TITLE = "inputs are never modified"
EXPLANATION = (
    "Alias-and-effect analysis with interprocedural summaries: for every public function in the scope table (conversion, sample "
    "generation, priors, results, likelihood arguments, waveform, detector and utility functions) every parameter is tracked "
    "through assignments, views, shallow and deep copies, containers, fields and calls; an assignment, deletion, in-place operator, "
    "mutating method or out= argument that may reach the caller's object is a violation reported at that statement.")
ASSUMPTIONS = ["calls whose target cannot be resolved are assumed not to modify their arguments",
               "in-place operators on values whose type is known to be a number or string rebind"]
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "pure_api.txt")


def table():
    out = []
    with open(TABLE) as fh:
        for line in fh:
            line = line.split("#")[0].split()
            if len(line) >= 2:
                out.append((line[0], line[1:]))
    return out


def check(ctx):
    prog = ctx.prog
    quiet = ctx.tier == "selftest"
    ctx.rule("argument-modified", "no statement reachable from a scope function modifies the object bound to the parameter",
             floor=0 if quiet else 500)
    eff = effects(prog)
    rows = table() if not quiet else [(f.qual, f.params) for f in prog.funcs if f.name.startswith("pure_")]
    for qual, params in rows:
        f = prog.by_qual.get(qual)
        if f is None:
            ctx.note("scope function %s is gone" % qual)
            continue
        mut, _ = eff.of(f)
        for p in params:
            if p not in f.all_params:
                continue
            hits = [(lvl, h) for (q, lvl), h in mut.items() if q == p]
            ctx.ok("argument-modified", "%s(%s)" % (qual, p))
            for lvl, (node, g, text) in sorted(hits, key=lambda x: x[0]):
                ctx.bad("argument-modified", "%s: %s" % (qual, p),
                        "%s may modify its argument %r: %s [%s]" % (qual, p, text, src(node)[:100]), loc(g.module, node))


def _m(t):
    return {"bilby/x.py": t}


SELFTESTS = [
    ("store", _m("def pure_f(p):\n    q = p\n    q['a'] = 1\n    return q\n"), "argument-modified"),
    ("callee", _m("def g(x):\n    x.update(a=1)\ndef pure_f(p):\n    out = p\n    g(out)\n    return out\n"), "argument-modified"),
    ("inplace element of shallow copy", _m("def pure_f(p):\n    q = p.copy()\n    q['a'] += 1\n    return q\n"), "argument-modified"),
    ("view", _m("import numpy as np\ndef pure_f(p):\n    q = np.asarray(p)\n    q[0] = 1\n    return q\n"), "argument-modified"),
    ("tuple", _m("def g(x):\n    return x, 1\ndef pure_f(p):\n    q, _ = g(p)\n    q.sort()\n    return q\n"), "argument-modified"),
    ("field", _m("from copy import copy\ndef pure_f(p):\n    q = copy(p)\n    q.meta['a'] = 1\n    return q\n"), "argument-modified"),
    ("good", _m("from copy import copy, deepcopy\nimport numpy as np\ndef g(x):\n    y = x.copy()\n    y['b'] = 2\n    return y, ['b']\n"
                "def pure_f(p):\n    q = p.copy()\n    q['a'] = q['c'] + 1\n    q, added = g(q)\n    q['d'] = 0\n    added.append('d')\n"
                "    r = copy(p)\n    r.meta = copy(r.meta)\n    r.meta['a'] = 1\n    x = np.array(p['a'])\n    x += 1\n"
                "    z = deepcopy(p)\n    z['a'] *= 2\n    w = list(p)\n    w.append(1)\n    return q\n"), None),
]
