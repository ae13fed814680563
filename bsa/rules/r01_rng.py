"""R01: every random number bilby draws comes from the one seedable generator."""
import ast

from ..callgraph import reachable
from ..infer import infer
from ..program import walk_func
from ..report import loc

TITLE = "all draws come from bilby's seedable generator"
RNG_MOD = "bilby.core.utils.random"
RNG_NAMES = {RNG_MOD + ".rng", RNG_MOD + ".Generator.rng"}
#: numpy.random names that are types / explicitly seeded constructors
ALLOWED_TYPES = {"Generator", "SeedSequence", "RandomState", "BitGenerator", "PCG64", "PCG64DXSM", "Philox",
                 "SFC64", "MT19937"}
#: constructors of new generators: need a seed that is neither absent, None nor a constant
NEW_GEN = {"numpy.random.default_rng": (0, "seed"), "numpy.random.SeedSequence": (0, "entropy"),
           "numpy.random.RandomState": (0, "seed"), "numpy.random.PCG64": (0, "seed"),
           "numpy.random.MT19937": (0, "seed"), "numpy.random.Philox": (0, "seed"),
           "numpy.random.SFC64": (0, "seed"), "numpy.random.PCG64DXSM": (0, "seed"),
           "random.Random": (0, "x")}
BANNED_ROOTS = ("numpy.random", "random", "secrets", "scipy.random")
BANNED = {"os.urandom", "uuid.uuid1", "uuid.uuid4", "random.SystemRandom"}
#: external stochastic callables -> names of the argument that carries the generator / seed
EXT = {
    "scipy.optimize.differential_evolution": ("seed", "rng"),
    "scipy.optimize._differentialevolution.differential_evolution": ("seed", "rng"),
    "scipy.optimize.dual_annealing": ("seed", "rng"),
    "scipy.optimize.basinhopping": ("seed", "rng"),
    "scipy.optimize.shgo": ("rng",),
    "sklearn.mixture.GaussianMixture": ("random_state",),
    "sklearn.mixture.BayesianGaussianMixture": ("random_state",),
    "sklearn.cluster.KMeans": ("random_state",),
    "dynesty.utils.resample_equal": ("rstate",),
    "nestle.resample_equal": ("rstate",),
    "scipy.stats.qmc.Sobol": ("seed", "rng"),
}
PANDAS = {"pandas.DataFrame", "pandas.Series", "pandas.core.frame.DataFrame"}

EXPLANATION = (
    "Resolved-name dataflow over every expression of bilby and cli_bilby: (a) no reference to a process-global or "
    "unseeded entropy source (numpy.random.*, stdlib random, os.urandom, uuid1/4, secrets), generators may only be "
    "constructed from a non-constant seed; (b) every call of an external stochastic routine (pandas .sample, "
    "gaussian_kde.resample, scipy rvs/differential_evolution, sklearn mixtures, dynesty/nestle resampling) passes a "
    "generator or seed; (c) bilby.core.utils.random.rng is looked up at the time of the draw: never bound at import, "
    "in a class body, in a default argument, or stored on an object; (d) nothing re-seeds the generator with a constant or "
    "implicit value; (e) every function handed to pool.map/imap that can reach a draw re-seeds from a per-task seed; "
    "(f) each sampler whose default kwargs contain a seed declares sampling_seed_key.")
ASSUMPTIONS = ["third-party sampler engines are seeded by their own documented seed argument; their internal draws "
               "(emcee, zeus, ptemcee, kombine, torch normalising flows) are outside bilby's generator",
               "the dynamic call graph of methods on untyped receivers is not followed in rule (e)"]


def maximal(n):
    p = getattr(n, "_parent", None)
    return not (isinstance(p, ast.Attribute) and p.value is n)


def is_const(e, prog, module, func, depth=0):
    """expression is None / a literal / time derived (so the stream is fixed or unseedable)"""
    if e is None:
        return True
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.UnaryOp):
        return is_const(e.operand, prog, module, func, depth)
    if isinstance(e, ast.BinOp):
        return is_const(e.left, prog, module, func, depth) and is_const(e.right, prog, module, func, depth)
    if isinstance(e, (ast.Tuple, ast.List)):
        return all(is_const(x, prog, module, func, depth) for x in e.elts)
    if isinstance(e, ast.Call):
        q = prog.resolve(module, e.func, func) or ""
        if q in ("time.time", "time.time_ns", "os.getpid", "builtins.id", "builtins.hash", "datetime.datetime.now"):
            return True
        if q in ("builtins.int", "builtins.abs") and e.args:
            return is_const(e.args[0], prog, module, func, depth)
        return False
    if isinstance(e, ast.Name) and depth < 6:
        f = func
        while f is not None:
            b = prog.local_bindings(f).get(e.id)
            if b:
                return all(k[0] == "expr" and is_const(k[1], prog, module, f, depth + 1) for k in b)
            f = f.parent
        sym = module.symbols.get(e.id)
        if sym and sym[0] == "var":
            return is_const(sym[1], prog, module, None, depth + 1)
    return False


def arg(call, pos, *names):
    for k in call.keywords:
        if k.arg in names:
            return k.value
    if pos is not None and len(call.args) > pos and not any(isinstance(a, ast.Starred) for a in call.args):
        return call.args[pos]
    return None


def has_starkw(call):
    return any(k.arg is None for k in call.keywords)


def scope_name(prog, node, module):
    f = prog.enclosing_func(node)
    return f.qual if f else module.name


def check(ctx):
    prog = ctx.prog
    ctx.rule("global-rng", "no reference to a process-global or unseedable entropy source")
    ctx.rule("fresh-generator", "a new generator is only built from a non-constant seed")
    ctx.rule("external-stochastic", "external stochastic routine receives a generator/seed")
    ctx.rule("captured-rng", "bilby's generator is looked up at draw time, never captured", floor=0)
    ctx.rule("reseed", "no constant / implicit reseeding of bilby's generator")
    ctx.rule("rng-module", "bilby.core.utils.random keeps one generator, reassigned only by seed()")
    ctx.rule("pool-draw", "pool tasks that can draw reseed from a per-task seed")
    ctx.rule("sampler-seed", "samplers with a seed kwarg declare sampling_seed_key")
    inf = infer(prog)
    for m in prog.modules.values():
        in_rng = m.name == RNG_MOD
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and maximal(n):
                f = prog.enclosing_func(n)
                q = prog.resolve(m, n, f)
                if q:
                    _ref(ctx, prog, m, f, n, q, in_rng)
            elif isinstance(n, (ast.ImportFrom,)) and prog.enclosing_func(n) is None:
                for local, tgt in m.import_bindings(n):
                    if prog.lookup_dotted(tgt) in RNG_NAMES or tgt in RNG_NAMES:
                        ctx.ok("captured-rng", loc(m, n))
                        ctx.bad("captured-rng", m.name + "." + local,
                                "the generator is bound at import time: a later bilby.core.utils.random.seed() "
                                "does not affect draws through this name", loc(m, n))
            if isinstance(n, ast.Call):
                _call(ctx, prog, inf, m, n, in_rng)
    _rng_module(ctx, prog)
    _pools(ctx, prog, inf)
    _samplers(ctx, prog)


def _ref(ctx, prog, m, f, n, q, in_rng):
    where = scope_name(prog, n, m)
    parent = getattr(n, "_parent", None)
    is_call = isinstance(parent, ast.Call) and parent.func is n
    if q in RNG_NAMES or any(q.startswith(r + ".") for r in RNG_NAMES):
        ctx.ok("captured-rng", "%s %s" % (loc(m, n), where))
        if in_rng:
            return
        exact = q in RNG_NAMES
        if f is None:
            ctx.bad("captured-rng", where + ":" + q.rsplit(".", 1)[-1],
                    "%s is evaluated at import/class/default-argument time, so seed() has no effect on it" % q, loc(m, n))
            return
        # walrus/assignment of the generator (or bound method) to an attribute, global or container
        p, child = parent, n
        while isinstance(p, (ast.IfExp, ast.BoolOp, ast.Tuple, ast.List, ast.Dict)) or \
                (isinstance(p, ast.Attribute) and not is_call and not isinstance(getattr(p, "_parent", None), ast.Call)):
            child, p = p, getattr(p, "_parent", None)
        if isinstance(p, (ast.Assign, ast.AnnAssign)) and not is_call and p.value is child:
            tg = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in tg:
                if isinstance(t, ast.Attribute):
                    ctx.bad("captured-rng", where + ":" + t.attr,
                            "the generator %s is stored in an object attribute, so a later seed() does not affect "
                            "draws through it" % q, loc(m, n))
                if isinstance(t, ast.Name) and f is not None and any(
                        isinstance(g, ast.Global) and t.id in g.names for g in walk_func(f.node)):
                    ctx.bad("captured-rng", where + ":" + t.id, "the generator is stored in a global", loc(m, n))
        return
    root = q.split(".")[0]
    banned = q in BANNED or any(q == r or q.startswith(r + ".") for r in BANNED_ROOTS)
    if not banned:
        return
    if q in NEW_GEN and is_call:
        return            # handled in _call
    if q.startswith("numpy.random."):
        leaf = q.split(".")[2]
        if leaf in ALLOWED_TYPES and not is_call:
            return
        if leaf == "default_rng" and not is_call:
            ctx.ok("global-rng")
            if not in_rng:
                ctx.bad("global-rng", where + ":default_rng", "numpy.random.default_rng used as a value", loc(m, n))
            return
        if in_rng and leaf in ("default_rng", "SeedSequence"):
            return
    if q == "numpy.random" or q == "random":
        p = parent
        if isinstance(p, ast.Attribute):
            return
    if root == "random" and q == "random.Random":
        pass
    ctx.ok("global-rng")
    # keyed by module and occurrence, so moving the draw into a helper of the same module keeps the key
    occ = ctx.__dict__.setdefault("_occ", {})
    occ[m.name, q] = occ.get((m.name, q), 0) + 1
    ctx.bad("global-rng", "%s:%s#%d" % (m.name, q, occ[m.name, q]), "%s is not driven by bilby.core.utils.random" % q, loc(m, n))


def _receiver_types(inf, call, m, f):
    if isinstance(call.func, ast.Attribute):
        return inf.types(call.func.value, m, f)
    return set()


PANDAS_SAMPLE_KW = {"frac", "replace", "weights", "axis", "ignore_index", "random_state"}


def _call(ctx, prog, inf, m, n, in_rng):
    f = prog.enclosing_func(n)
    q = prog.resolve(m, n.func, f) or ""
    where = scope_name(prog, n, m)
    if q in NEW_GEN:
        ctx.ok("fresh-generator", loc(m, n))
        if in_rng:
            return
        pos, kw = NEW_GEN[q]
        a = arg(n, pos, kw)
        if a is None and has_starkw(n):
            return
        if is_const(a, prog, m, f):
            ctx.bad("fresh-generator", where + ":" + q,
                    "%s is built from a constant or missing seed: draws ignore bilby's seed" % q, loc(m, n))
        return
    if q == RNG_MOD + ".seed":
        ctx.ok("reseed", loc(m, n))
        a = arg(n, 0, "seed")
        if is_const(a, prog, m, f):
            ctx.bad("reseed", where, "bilby's generator is reseeded with a constant/implicit value", loc(m, n))
        return
    if q in EXT:
        names = EXT[q]
        ctx.ok("external-stochastic", loc(m, n) + " " + q)
        a = arg(n, None, *names)
        if a is None and has_starkw(n) and _starkw_carries(prog, m, f, n, names):
            return
        if is_const(a, prog, m, f):
            ctx.bad("external-stochastic", where + ":" + q,
                    "%s is called without %s: its draws do not follow bilby's seed" % (q, "/".join(x for x in names if x != "**")),
                    loc(m, n))
        return
    if not isinstance(n.func, ast.Attribute):
        return
    meth = n.func.attr
    if meth not in ("sample", "resample", "rvs", "shuffle"):
        return
    ts = _receiver_types(inf, n, m, f)
    base = prog.resolve(m, n.func.value, f) or ""
    if meth == "sample":
        kws = {k.arg for k in n.keywords}
        text = ast.unparse(n.func.value)
        pandas = bool(ts & PANDAS) or bool(kws & PANDAS_SAMPLE_KW) or (
            not (ts & set(prog.classes)) and "posterior" in text.lower().split(".")[-1].split("[")[0])
        if pandas:
            ctx.ok("external-stochastic", loc(m, n) + " DataFrame.sample")
            a = arg(n, 4, "random_state")
            if is_const(a, prog, m, f) and not (a is None and has_starkw(n)):
                ctx.bad("external-stochastic", where + ":DataFrame.sample",
                        "pandas .sample without random_state draws from numpy's global generator", loc(m, n))
        elif any(t.startswith("sklearn.") for t in ts):
            ctx.ok("external-stochastic", loc(m, n))
    elif meth == "resample":
        kde = any("gaussian_kde" in t for t in ts)
        gw = any(t.startswith("gwpy") for t in ts)
        if kde and not gw:
            ctx.ok("external-stochastic", loc(m, n) + " gaussian_kde.resample")
            a = arg(n, 1, "seed")
            if is_const(a, prog, m, f):
                ctx.bad("external-stochastic", where + ":gaussian_kde.resample",
                        "gaussian_kde.resample without seed draws from numpy's global generator", loc(m, n))
    elif meth == "rvs":
        if base.startswith("scipy.") or any(t.startswith("scipy.") for t in ts):
            ctx.ok("external-stochastic", loc(m, n) + " rvs")
            a = arg(n, None, "random_state")
            if is_const(a, prog, m, f) and not has_starkw(n):
                ctx.bad("external-stochastic", where + ":rvs",
                        "scipy rvs without random_state draws from numpy's global generator", loc(m, n))


def _starkw_carries(prog, m, f, call, names):
    """**kw where kw is a local dict that mentions one of the names as a string key (or a parameter)."""
    for k in call.keywords:
        if k.arg is None:
            root = f.node if f is not None else m.tree
            for x in ast.walk(root):
                if isinstance(x, ast.Constant) and x.value in names:
                    return True
                if isinstance(x, ast.keyword) and x.arg in names:
                    return True
    return False


def _rng_module(ctx, prog):
    """Only seed() rebinds Generator.rng; generate_seeds derives from it; __getattr__ returns the current one."""
    m = prog.modules.get(RNG_MOD)
    if m is None:
        return
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tg:
                if isinstance(t, ast.Name) and t.id == "rng" and prog.enclosing_func(n) is None and \
                        not isinstance(getattr(n, "_parent", None), ast.ClassDef):
                    ctx.ok("rng-module")
                    ctx.bad("rng-module", "module-level rng", "module-level rng shadows the current generator: "
                            "seed() would not change what importers see", loc(m, n))
    sd = m.symbols.get("seed")
    ctx.ok("rng-module")
    if not sd or sd[0] != "func":
        ctx.bad("rng-module", "seed", "no seed() function", m.relpath)
    else:
        fn = sd[1]
        ok = False
        for n in walk_func(fn.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "rng" for t in n.targets):
                names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                if names & _tainted(fn):
                    ok = True
        if not ok:
            ctx.bad("rng-module", "seed", "seed() does not rebind the generator from its argument", loc(m, fn.node))
    gs = m.symbols.get("generate_seeds")
    if gs and gs[0] == "func":
        ctx.ok("rng-module")
        uses = any(isinstance(x, (ast.Name, ast.Attribute)) and (prog.resolve(m, x, gs[1]) or "").startswith(
            RNG_MOD + ".Generator.rng") or isinstance(x, ast.Attribute) and x.attr == "rng"
            for x in walk_func(gs[1].node))
        if not uses:
            ctx.bad("rng-module", "generate_seeds", "per-task seeds are not derived from bilby's generator",
                    loc(m, gs[1].node))


def _tainted(fn):
    """names derived from parameters"""
    t = set(fn.all_params)
    for _ in range(3):
        for n in walk_func(fn.node):
            if isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & t:
                for tg in n.targets:
                    t |= {x.id for x in ast.walk(tg) if isinstance(x, ast.Name)}
    return t


POOL_METHODS = {"map", "imap", "imap_unordered", "starmap", "map_async", "apply_async", "starmap_async", "submit"}


def _draws(prog, func):
    for n in walk_func(func.node, into_lambda=True):
        if isinstance(n, (ast.Name, ast.Attribute)):
            q = prog.resolve(func.module, n, func)
            if q and (q in RNG_NAMES or any(q.startswith(r + ".") for r in RNG_NAMES)):
                return True
    return False


def _seeds_first(prog, func):
    """func (or a function it unconditionally calls first) calls random.seed with a value derived from its arguments."""
    taint = _tainted(func)
    for n in walk_func(func.node):
        if isinstance(n, ast.Call) and (prog.resolve(func.module, n.func, func) == RNG_MOD + ".seed"):
            if n.args or n.keywords:
                a = n.args[0] if n.args else n.keywords[0].value
                if {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} & taint:
                    return True
    inf = infer(prog)
    for n in walk_func(func.node):
        if isinstance(n, ast.Call):
            for q in inf.callees(n, func.module, func):
                g = prog.by_qual.get(q)
                if g is not None and g is not func and g.module is func.module and _direct_seed(prog, g):
                    return True
    return False


def _direct_seed(prog, g):
    t = _tainted(g)
    for n in walk_func(g.node):
        if isinstance(n, ast.Call) and (prog.resolve(g.module, n.func, g) == RNG_MOD + ".seed") and (n.args or n.keywords):
            a = n.args[0] if n.args else n.keywords[0].value
            if {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} & t:
                return True
    return False


def _pools(ctx, prog, inf):
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in POOL_METHODS and n.args):
                continue
            text = ast.unparse(n.func.value).lower()
            if "pool" not in text and "executor" not in text:
                continue
            f = prog.enclosing_func(n)
            target = n.args[0]
            funcs = _func_values(prog, inf, target, m, f)
            ctx.ok("pool-draw", "%s %s" % (loc(m, n), ast.unparse(target)))
            for g in funcs:
                reach = reachable(prog, [g])
                drawing = [h for h in reach if _draws(prog, h)]
                if drawing and not _seeds_first(prog, g):
                    ctx.bad("pool-draw", "%s->%s" % (scope_name(prog, n, m), g.qual),
                            "%s runs in pool workers and reaches %s without seeding the worker from a per-task seed: "
                            "forked workers share one stream" % (g.qual, drawing[0].qual), loc(m, n))


def _func_values(prog, inf, e, m, f, depth=0):
    if isinstance(e, ast.Call):
        q = prog.resolve(m, e.func, f)
        if q == "functools.partial" and e.args:
            return _func_values(prog, inf, e.args[0], m, f, depth + 1)
        return []
    if isinstance(e, ast.Lambda):
        return [e._func] if hasattr(e, "_func") else []
    q = prog.resolve(m, e, f)
    if q in prog.by_qual:
        return [prog.by_qual[q]]
    out = []
    for t in inf.types(e, m, f):
        if t.startswith("func:") and t[5:] in prog.by_qual:
            out.append(prog.by_qual[t[5:]])
    return out


SEED_KEYS = {"seed", "random_seed", "rseed"}


def _samplers(ctx, prog):
    base = prog.classes.get("bilby.core.sampler.base_sampler.Sampler")
    if base is None:
        return
    for c in prog.classes.values():
        if base not in c.mro() or c is base:
            continue
        got = c.find_attr("default_kwargs")
        if not got:
            continue
        v, owner = got
        keys = set()
        for n in ast.walk(v):
            if isinstance(n, ast.keyword) and n.arg:
                keys.add(n.arg)
            elif isinstance(n, ast.Dict):
                keys |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
        hit = keys & SEED_KEYS
        if not hit:
            continue
        ctx.ok("sampler-seed", c.qual)
        k = c.find_attr("sampling_seed_key")
        val = k[0].value if k and isinstance(k[0], ast.Constant) else None
        if val is None:
            ctx.bad("sampler-seed", c.qual, "default kwargs contain %s but sampling_seed_key is not declared, so the "
                    "generic seed arguments never reach the engine" % sorted(hit), loc(c.module, c.node))
        elif val not in keys:
            ctx.bad("sampler-seed", c.qual, "sampling_seed_key=%r is not one of the sampler's kwargs" % val,
                    loc(c.module, c.node))


_RM = {"bilby/core/utils/random.py": '''
from numpy.random import default_rng, SeedSequence
def __getattr__(name):
    if name == "rng":
        return Generator.rng
class Generator:
    rng = default_rng()
def seed(seed):
    Generator.rng = default_rng(seed)
def generate_seeds(n):
    return SeedSequence(Generator.rng.integers(0, 2**63 - 1, size=4)).spawn(n)
'''}


def _s(text, **extra):
    d = dict(_RM)
    d["bilby/x.py"] = text
    d.update(extra)
    return d


SELFTESTS = [
    ("np.random alias", _s("import numpy as np\nr = np.random\ndef f():\n    return r.normal()\n"), "global-rng"),
    ("from numpy import random", _s("from numpy.random import uniform as u\ndef f():\n    return u()\n"), "global-rng"),
    ("stdlib random", _s("import random\ndef f():\n    return random.choice([1])\n"), "global-rng"),
    ("fresh", _s("import numpy as np\ndef f():\n    return np.random.default_rng(1).normal()\n"), "fresh-generator"),
    ("capture", _s("from .core.utils import random\nclass A:\n    def __init__(self):\n        self.r = random.rng\n"),
     "captured-rng"),
    ("default arg", _s("from .core.utils import random\ndef f(g=random.rng.uniform):\n    return g()\n"), "captured-rng"),
    ("import rng", _s("from .core.utils.random import rng\ndef f():\n    return rng.uniform()\n"), "captured-rng"),
    ("reseed", _s("from .core.utils.random import seed\ndef f():\n    seed(12)\n"), "reseed"),
    ("pandas", _s("import pandas as pd\ndef f():\n    d = pd.DataFrame({})\n    return d.sample(3)\n"),
     "external-stochastic"),
    ("pool", _s("from .core.utils import random\ndef t(a):\n    return random.rng.uniform()\n"
                "def f(pool):\n    return pool.map(t, [1])\n"), "pool-draw"),
    ("good", _s("import pandas as pd\nfrom .core.utils import random\ndef t(a):\n    x, s = a\n    random.seed(s)\n"
                "    return random.rng.uniform()\n"
                "def f(pool):\n    d = pd.DataFrame({})\n    d.sample(3, random_state=random.rng)\n"
                "    g = random.rng\n    g.normal()\n"
                "    return pool.map(t, zip([1], random.generate_seeds(1)))\n"), None),
]
