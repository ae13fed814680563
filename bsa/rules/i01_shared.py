"""I01: independent objects do not share state."""
import ast

from ..callgraph import reachable
from ..program import src, walk_func
from ..report import loc
from ..shared import shared, is_shared

TITLE = "independent objects do not share state"
EXPLANATION = (
    "Alias-and-effect analysis with interprocedural summaries and a field summary per class. Sources are the mutable values of class attributes, of module-level names and of default arguments, "
    "and the containers given to constructors and setters; they are followed through assignments, fields, properties, views, shallow copies and calls. A store, deletion, in-place operator or "
    "mutating method that may reach one of them is a violation reported at that statement. State kept on a class on purpose must be emptied by code that a sampler run reaches.")
ASSUMPTIONS = ["collaborators that an object is documented to work on (likelihood, priors, waveform generator, interferometers, joint distributions) are shared on purpose",
               "calls whose target cannot be resolved are assumed not to modify their arguments"]

#: process-wide by design
DELIBERATE = {
    "module:bilby.core.sampler.base_sampler._sampling_convenience_dump": "worker globals, set at the start of every parallel evaluation",
    "module:bilby.gw.cosmology.COSMOLOGY": "the documented process-wide cosmology",
    # the samplers' own records
    "arg:bilby.core.result.Result.__init__(meta_data)": "filled by the sampler that owns the result",
    "arg:bilby.core.result.Result.__init__(nested_samples)": "filled by the sampler that owns the result",
    "arg:bilby.core.result.Result.__init__(posterior)": "filled by the sampler that owns the result",
    "arg:bilby.core.result.Result.__init__(sampler_kwargs)": "filled by the sampler that owns the result",
    "arg:bilby.core.sampler.base_sampler.Sampler.__init__(meta_data)": "run_sampler passes its own copy",
    "arg:bilby.core.result.Result.meta_data(meta_data)": "filled by the sampler that owns the result",
    "arg:bilby.core.result.Result.nested_samples(nested_samples)": "filled by the sampler that owns the result",
    "arg:bilby.core.result.Result.posterior(posterior)": "filled by the sampler that owns the result",
    "arg:bilby.core.sampler.base_sampler.Sampler.kwargs(kwargs)": "the keyword dictionary of the constructor's own call",
    "arg:bilby.core.prior.interpolated.Interped.yy(yy)": "replaced by the interpolant before it is normalised",
    "arg:bilby.core.sampler.emcee.Emcee.__init__(pos0)": "counter derived from the shape",
    "arg:bilby.core.prior.interpolated.Interped.__init__(yy)": "replaced by the interpolant before it is normalised",
    "arg:bilby.gw.likelihood.roq.ROQGravitationalWaveTransient.__init__(roq_params)": "only the array built by the likelihood itself is changed",
    "arg:bilby.hyper.likelihood.HyperparameterLikelihood.__init__(posteriors)": "lists are built from the frames",
}


def fresh(e):
    return isinstance(e, (ast.Constant, ast.Dict, ast.List, ast.Set)) or isinstance(e, ast.Call)


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("class-state", "no method changes a mutable value stored on a class, unless a run empties it first", floor=8 * k)
    ctx.rule("module-state", "no function changes a mutable module-level value", floor=8 * k)
    ctx.rule("default-state", "no function changes or hands on for change the default value of an argument", floor=2 * k)
    ctx.rule("kept-argument", "no method adds, removes or replaces entries of a container that its object was given and keeps", floor=200 * k)
    ctx.rule("run-state", "state kept on a class between calls is emptied at the start of a run", floor=1 * k)
    eff = shared(prog)
    kinds = {"class": "class-state", "module": "module-state", "default": "default-state", "arg": "kept-argument"}
    for name in sorted(eff.sources):
        ctx.ok(kinds[name.split(":")[1]], name[7:])
    resets, writes = class_writes(prog)
    runs = [f for f in prog.funcs if f.name in ("run_sampler", "reset_sampler") and f.cls is not None]
    live = {f.qual for f in reachable(prog, runs)}
    seen = {}
    for qual in sorted(eff.summary):
        mut, _ = eff.summary[qual]
        for o, (node, f, text) in sorted(mut.items(), key=lambda x: str(x[0])):
            if not is_shared(o):
                continue
            key = o[0][7:]
            if key in DELIBERATE or (key, node) in seen:
                continue
            seen[(key, node)] = 1
            kind, what = eff.sources[o[0]]
            if kind == "arg" and o[1] or o[1] and (not mentions(node, eff.entries.get(o[0])) or kind == "class" and unrelated(prog, f, key[6:].rpartition(".")[0])):
                continue        # contents of a kept container: replaced entries are indistinguishable from given ones
            if kind == "class" and any(q in live or not runs for q in resets.get(key[6:], ())):
                continue
            ctx.bad(kinds[kind], "%s|%s" % (key, f.qual),
                    "%s is changed for every other user of it by %s: %s [%s]" % (what, f.qual, text, src(node)[:90]), loc(f.module, node))
    # state assigned on a class by its own methods
    for attr in sorted(writes):
        f, node = writes[attr][0]
        good = [q for q in resets.get(attr, ()) if q in live and q not in [w[0].qual for w in writes[attr]]]
        if good:
            ctx.ok("run-state", attr)
        else:
            ctx.ok("run-state", attr)
            ctx.bad("run-state", attr, "%s is kept on the class by %s and never emptied by code a run reaches, so a later run starts with the state of an earlier one"
                    % (attr, f.qual), loc(f.module, node))


def unrelated(prog, func, owner):
    c = prog.enclosing_class(func)
    return c is not None and c.qual != owner and owner not in c.all_base_names() and owner in prog.classes and c.qual not in prog.classes[owner].all_base_names()


def mentions(node, keys):
    """the statement changes one of the entries that are mutable"""
    if keys is None:
        return True
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and n.value in keys or isinstance(n, ast.Name) and n.id in keys:
            return True
    return False


def class_writes(prog):
    """({class.attr: [functions that assign a fresh value]}, {class.attr: [(method of that class, node)]})"""
    resets, writes = {}, {}
    for f in prog.funcs:
        own = prog.enclosing_class(f)
        for n in walk_func(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                if not isinstance(t, ast.Attribute) or t.attr.startswith("__"):
                    continue
                q = prog.resolve(f.module, t.value, f) if isinstance(t.value, (ast.Name, ast.Attribute)) else None
                c = prog.classes.get(q)
                if c is None:
                    continue
                hit = c.find_attr(t.attr)
                name = (hit[1].qual if hit else c.qual) + "." + t.attr
                if own is not None and own.qual == c.qual:
                    writes.setdefault(name, []).append((f, n))
                elif isinstance(n, ast.Assign) and fresh(n.value):
                    resets.setdefault(name, []).append(f.qual)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and isinstance(n.func.value, ast.Attribute):
                q = prog.resolve(f.module, n.func.value.value, f) if isinstance(n.func.value.value, (ast.Name, ast.Attribute)) else None
                if q in prog.classes and not (own is not None and own.qual == q):
                    resets.setdefault(q + "." + n.func.value.attr, []).append(f.qual)
    return resets, writes


def _m(t):
    return {"bilby/x.py": t}


SELFTESTS = [
    ("class dict", _m("class A:\n    d = dict(a=1)\n    def f(self):\n        k = self.d\n        k['b'] = 2\n"), "class-state"),
    ("field", _m("class A:\n    d = dict(a=1)\n    def __init__(self):\n        self.k = self.d\n    def f(self):\n        self.k.update(b=2)\n"), "class-state"),
    ("inherited", _m("class A:\n    d = dict(a=1)\nclass B(A):\n    def f(self):\n        self.d.pop('a')\n"), "class-state"),
    ("property", _m("class A:\n    d = dict(a=1)\n    @property\n    def k(self):\n        return self.d\n    def f(self):\n        self.k['a'] = 3\n"), "class-state"),
    ("default", _m("def f(a={}):\n    a['x'] = 1\n    return a\n"), "default-state"),
    ("default field", _m("class A:\n    def __init__(self, a=[]):\n        self.a = a\n    def f(self):\n        self.a.append(1)\n"), "default-state"),
    ("module", _m("D = dict()\ndef g(x):\n    x.update(a=1)\ndef f():\n    g(D)\n"), "module-state"),
    ("nested value", _m("D = dict(a=dict())\ndef f():\n    e = D.copy()\n    e['a']['b'] = 1\n    return e\n"), "module-state"),
    ("argument kept", _m("class A:\n    def __init__(self, arguments):\n        self.arguments = arguments\n    def f(self):\n        self.arguments['x'] = 1\n"), "kept-argument"),
    ("good", _m("from copy import deepcopy\nD = dict(a=1)\nclass A:\n    d = dict(a=1)\n    n = 0\n    l = []\n    def __init__(self, a=None, b=()):\n        self.k = self.d.copy()\n        self.l = []\n"
                "        self.a = dict() if a is None else dict(a)\n    def f(self):\n        self.k['b'] = 2\n        self.l.append(1)\n        self.a['x'] = 2\n        self.n += 1\n        e = deepcopy(D)\n"
                "        e['x'] = 1\n        return e\n"), None),
]
