"""P01: joint priors combine the priors of their parameters."""
import itertools

from .. import algebra as A
from .. import randint as R
from ..oblig import Rule
from ..algebra import E, ZERO, ONE, sym, const
from ..interp import Interp, Obj, Py, T, PyExc, Arr, integer
from ..valnum import World, Undecided, NINF, Sp

TITLE = "joint priors combine the priors of their parameters"
EXPLANATION = (
    "Abstract evaluation: PriorDict and ConditionalPriorDict are evaluated with component priors replaced by uninterpreted functions of the value and "
    "of the conditioning values they are handed. For every order of the prior's and of the sample's keys the value returned by prob, ln_prob, cdf, rescale "
    "and sample must be the product, sum or list of those functions applied to the right arguments, once per way the constraints can turn out, also after "
    "earlier evaluations with other samples. ConditionalPrior methods are compared with the base family at the parameters returned by condition_func.")
ASSUMPTIONS = ["component priors are represented by uninterpreted functions; arrays are treated elementwise",
               "dictionaries of three parameters with up to two conditioning levels stand for larger ones"]

PD = "bilby.core.prior.dict."
BASE = "bilby.core.prior.base."
DEPS = {"a": (), "b": ("a",), "c": ("a", "b")}


class Lab:
    """fresh objects for one evaluation"""

    def __init__(self, prog, dec, cond, order=("a", "b", "c"), ncon=1, scalar=None, ninf=(), accept=None, single=()):
        self.prog = prog
        self.single = set(single)      # priors whose condition function does not take arrays
        self.w = World([sym("factor")], dec, scalar=scalar)
        self.draws = {}
        self.asked = []
        self.norm_keys = []
        self.cond = cond
        self.ninf = set(ninf)
        self.accept = accept
        self.it = Interp(prog, self.w, externals={
            PD + "PriorDict.normalize_constraint_factor": self.normalise,
            PD + "ConditionalPriorDict.normalize_constraint_factor": self.normalise})
        pc, cc = prog.classes[BASE + "Prior"], prog.classes[BASE + "Constraint"]
        d = {}
        for k in order:
            d[k] = self.prior(k, pc)
        for i in range(ncon):
            d["k%d" % i] = self.constraint(i, cc)
        cls = prog.classes[PD + ("ConditionalPriorDict" if cond else "PriorDict")]
        self.pd = self.it.new(cls, [d], {"conversion_function": Py(self.convert)} if ncon else {})

    def normalise(self, it, args, kw):
        self.norm_keys.append(args[1] if len(args) > 1 else None)
        return sym("factor")

    def deps(self, k):
        return DEPS[k] if self.cond else ()

    def term(self, kind, k, x, values):
        return A.fn("@%s_%s" % (kind, k), x, *[values[d] for d in self.deps(k)])

    def prior(self, k, cls):
        o = Obj(cls, {"least_recently_sampled": sym("stale_" + k), "_is_fixed": False, "name": k}, label="prior " + k)

        def val(kind):
            def f(it, args, kw):
                if set(kw) != set(self.deps(k)):
                    raise PyExc("IllegalRequiredVariablesException" if kw or self.deps(k) else "TypeError")
                def one(x, *ds):
                    if not all(isinstance(y, E) for y in (x,) + ds):
                        raise Undecided("argument")
                    if kind == "ln_prob" and k in self.ninf:
                        return NINF
                    if kind == "prob" and k in self.ninf:
                        return ZERO
                    return A.fn("@%s_%s" % (kind, k), x, *ds)
                return it.arrmap(one, args[0], *[kw[d] for d in self.deps(k)])
            return f
        for kind in ("prob", "ln_prob", "cdf", "rescale"):
            o.hooks[kind] = val(kind)

        def sample(it, args, kw):
            kw = dict(kw)
            size = kw.pop("size", args[0] if args else None)
            if set(kw) != set(self.deps(k)):
                raise PyExc("IllegalRequiredVariablesException" if kw or self.deps(k) else "TypeError")
            if k in self.single and any(isinstance(v, Arr) for v in kw.values()):
                raise PyExc("ValueError")
            n = self.draws[k] = self.draws.get(k, 0) + 1
            ds = [kw[d] for d in self.deps(k)]
            if size is None:
                v = A.fn("@sample_" + k, const(n), *ds)
            else:
                m = integer(size)
                if m is None or any(isinstance(x, Arr) and len(x) != m for x in ds):
                    raise Undecided("size")
                v = Arr(A.fn("@sample_" + k, const(n), const(i), *[x[i] if isinstance(x, Arr) else x for x in ds]) for i in range(m))
            o.attrs["least_recently_sampled"] = v
            return v
        o.hooks["sample"] = sample
        if self.cond and DEPS[k]:
            o.attrs["condition_func"] = Py(lambda it, a, kw: None)
            o.attrs["required_variables"] = list(DEPS[k])
        return o

    def constraint(self, i, cls):
        o = Obj(cls, {"_is_fixed": False, "name": "k%d" % i}, label="constraint %d" % i)

        def prob(it, args, kw):
            def one(x):
                self.asked.append((i, x))
                if self.accept is not None:
                    return x in self.accept
                return self.w.ask(("con", i, x))
            return it.arrmap(one, args[0])
        o.hooks["prob"] = prob
        return o

    def convert(self, it, args, kw):
        s = args[0]
        if not isinstance(s, dict):
            raise Undecided("sample")
        out = dict(s)
        have = [s[k] for k in ("a", "b", "c") if k in s]
        if len(have) == 3:
            for i in range(2):
                out["k%d" % i] = it.arrmap(lambda *h, i=i: A.fn("@conv%d" % i, *h), *have)
        return out


def draw(cond, *n):
    v = {}
    for k in "abc":
        v[k] = A.fn("@sample_" + k, *[const(x) for x in n], *[v[d] for d in (DEPS[k] if cond else ())])
    return v


def conv(v):
    return A.fn("@conv0", v["a"], v["b"], v["c"])


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("density", "prob and ln_prob are the product and sum over the sample's parameters, times the constraint factor where every constraint holds", floor=10 * k)
    ctx.rule("quantile", "cdf and rescale apply each parameter's own prior and keep the order of the keys", floor=6 * k)
    ctx.rule("sample", "a sample is drawn from each parameter's prior, conditioned on the same draw, and satisfies the constraints", floor=2 * k)
    ctx.rule("conditional", "a conditional prior uses the parameters its condition function returns for the given values", floor=4 * k)
    r = Rule(ctx)
    if BASE + "Prior" not in prog.classes or BASE + "Constraint" not in prog.classes:
        return
    for cond in (False, True):
        cname = "ConditionalPriorDict" if cond else "PriorDict"
        cls = prog.classes.get(PD + cname)
        if cls is not None:
            joint(ctx, r, prog, cls, cname, cond)
    families(ctx, r, prog)


def joint(ctx, r, prog, cls, cname, cond):
    xs = {k: sym("x" + k) for k in "abc"}
    ys = {k: sym("y" + k) for k in "abc"}
    perms = list(itertools.permutations("abc"))
    orders = perms if cond else [("a", "b", "c"), ("c", "a", "b")]

    def deps(kk):
        return DEPS[kk] if cond else ()

    def term(kind, kk, x, vals):
        return A.fn("@%s_%s" % (kind, kk), x, *[vals[d] for d in deps(kk)])

    def satisfied(dec, ncon):
        return all(dec.get(("con", i, A.fn("@conv%d" % i, *[xs[q] for q in "abc"])), None) is not False for i in range(ncon))

    def asked(dec, ncon):
        return all(("con", i, A.fn("@conv%d" % i, *[xs[q] for q in "abc"])) in dec for i in range(ncon))

    # densities
    for name in ("prob", "ln_prob"):
        f = cls.find(name)
        if f is None:
            continue
        for order in orders:
            for so in perms:
                for ncon in ((1, 2) if so == order else (1,)):
                    for mode in ("plain", "again", "unnormalized") if name == "ln_prob" else ("plain", "again"):
                        if mode != "plain" and not (so == ("b", "c", "a") or so == order):
                            continue

                        def thunk(dec, order=order, so=so, ncon=ncon, mode=mode, name=name):
                            lab = Lab(prog, dec, cond, order, ncon)
                            if mode == "again":
                                lab2 = dict(dec)
                                lab.w.dec = _Yes(lab2)
                                lab.it.method(lab.pd, name, {q: ys[q] for q in so})
                                lab.w.dec = dec
                            lab.norm_keys.clear()
                            kw = {"normalized": False} if mode == "unnormalized" else {}
                            return lab.it.method(lab.pd, name, {q: xs[q] for q in so}, **kw), lab

                        def judge(res, dec, ncon=ncon, mode=mode, name=name, so=so):
                            got, lab = res
                            want = ZERO if name == "ln_prob" else ONE
                            for q in "abc":
                                t = term(name, q, xs[q], xs)
                                want = want + t if name == "ln_prob" else want * t
                            zero = any(kk[0] == "zero" and v for kk, v in dec.items())
                            if not satisfied(dec, ncon):
                                want = NINF if name == "ln_prob" else ZERO
                            else:
                                if not asked(dec, ncon) and not zero:
                                    return "constraint not evaluated on the converted sample"
                                if mode != "unnormalized":
                                    want = want + A.fn("log", sym("factor")) if name == "ln_prob" else want * sym("factor")
                                    if not lab.norm_keys or not all(isinstance(n, (T, list)) and sorted(n) == ["a", "b", "c"] for n in lab.norm_keys):
                                        return "normalisation requested for other keys"
                            if not r.equal(got, want, dec):
                                return "gives %s instead of %s" % (str(got)[:160], str(want)[:120])
                        what = "%s.%s%s" % (cname, name, {"plain": "", "again": " after an earlier evaluation", "unnormalized": " without normalisation"}[mode])
                        r.report("density", what, f, r.run(thunk), judge)
        # outside the support of one parameter
        for bad in "abc":
            def thunk(dec, bad=bad, name=name):
                lab = Lab(prog, dec, cond, orders[0], 1, ninf=(bad,))
                return lab.it.method(lab.pd, name, {q: xs[q] for q in "abc"})

            def judge(got, dec, name=name):
                want = NINF if name == "ln_prob" else ZERO
                return None if got == want or isinstance(got, E) and not got and not isinstance(want, Sp) else "gives %s outside the support" % str(got)[:80]
            r.report("density", "%s.%s outside the support" % (cname, name), f, r.run(thunk), judge)
    # cdf, rescale
    f = cls.find("cdf")
    if f is not None:
        for so in perms:
            def thunk(dec, so=so):
                lab = Lab(prog, dec, cond, orders[-1], 1)
                return lab.it.method(lab.pd, "cdf", {q: xs[q] for q in so})

            def judge(got, dec, so=so):
                if not isinstance(got, dict) or list(got) != list(so):
                    return "keys %s" % (list(got) if isinstance(got, dict) else got,)
                for q in so:
                    if not r.equal(got[q], term("cdf", q, xs[q], xs), dec):
                        return "cdf of %s is %s" % (q, str(got[q])[:100])
            r.report("quantile", "%s.cdf" % cname, f, r.run(thunk), judge)
    f = cls.find("rescale")
    if f is not None:
        vals = {}
        for q in "abc":
            vals[q] = term("rescale", q, sym("u" + q), vals)
        for order in orders:
            for so in perms:
                for prev in (None,) + tuple(perms[1:4]):
                    def thunk(dec, so=so, order=order, prev=prev):
                        lab = Lab(prog, dec, cond, order, 1)
                        if prev is not None:
                            lab.it.method(lab.pd, "rescale", list(prev), [sym("v" + q) for q in prev])
                        return lab.it.method(lab.pd, "rescale", list(so), [sym("u" + q) for q in so])

                    def judge(got, dec, so=so):
                        if not isinstance(got, (list, T)) or len(got) != 3:
                            return "gives %s" % str(got)[:100]
                        for q, g in zip(so, got):
                            if not r.equal(g, vals[q], dec):
                                return "with keys %s the entry for %s is %s instead of %s" % (", ".join(so), q, str(g)[:100], str(vals[q])[:100])
                    r.report("quantile", "%s.rescale%s" % (cname, " after another key order" if prev else ""), f, r.run(thunk), judge)
    # samples
    f = cls.find("sample")
    if f is not None:
        d2 = draw(cond, 2)
        acc = [conv(d2)]
        for order in orders:
            def thunk(dec, order=order):
                lab = Lab(prog, dec, cond, order, 1, accept=acc)
                return lab.it.method(lab.pd, "sample"), lab

            def judge(res, dec):
                got, lab = res
                if not isinstance(got, dict) or sorted(got) != ["a", "b", "c"]:
                    return "keys %s" % (sorted(map(str, got)) if isinstance(got, dict) else got,)
                for q in "abc":
                    if not r.equal(got[q], d2[q], dec):
                        return "%s is %s, not the draw that satisfied the constraint" % (q, str(got[q])[:120])
            r.report("sample", "%s.sample" % cname, f, r.run(thunk), judge)
        rows = [draw(cond, 1, 1), draw(cond, 2, 0), draw(cond, 2, 2)]
        acc3 = [conv(v) for v in rows] + [conv(draw(cond, 3, 0))]
        for order in orders:
            def thunk(dec, order=order):
                lab = Lab(prog, dec, cond, order, 1, accept=acc3)
                return lab.it.method(lab.pd, "sample", const(3))

            def judge(got, dec):
                if not isinstance(got, dict) or sorted(got) != ["a", "b", "c"]:
                    return "keys %s" % (sorted(map(str, got)) if isinstance(got, dict) else got,)
                for q in "abc":
                    if not isinstance(got[q], Arr) or len(got[q]) != 3:
                        return "%s holds %s draws" % (q, len(got[q]) if isinstance(got[q], Arr) else str(got[q])[:60])
                    for i in range(3):
                        if not r.equal(got[q][i], rows[i][q], dec):
                            return "draw %d of %s is %s, not the one that satisfied the constraint" % (i, q, str(got[q][i])[:120])
            r.report("sample", "%s.sample of several draws" % cname, f, r.run(thunk), judge)
    f = cls.find("sample_subset")
    if f is not None and cond:
        # a conditioning parameter that is fixed and not asked for
        delta = prog.classes.get("bilby.core.prior.analytical.DeltaFunction")
        if delta is not None:
            def thunk(dec):
                lab = Lab(prog, dec, cond, ("b",), 0)
                b = lab.it.getitem(lab.pd, "b")
                b.attrs["required_variables"] = ["a"]
                pd = lab.it.new(cls, [{"b": b, "a": lab.it.new(delta, [sym("peak")])}])
                return lab.it.method(pd, "sample_subset", keys=["b"])

            def judge(got, dec):
                want = A.fn("@sample_b", const(1), sym("peak"))
                if not isinstance(got, dict) or list(got) != ["b"] or not r.equal(got["b"], want, dec):
                    return "gives %s with a fixed conditioning parameter" % str(got)[:120]
            r.report("sample", "%s.sample_subset with a fixed parameter" % cname, f, r.run(thunk), judge)
    if f is not None and cond:
        for so in orders[:2]:
            for single in ("b", "c", "bc"):
                def thunk(dec, so=so, single=single):
                    lab = Lab(prog, dec, cond, so, 0, single=single)
                    return lab.it.method(lab.pd, "sample_subset", keys=list(so), size=const(3))

                def judge(got, dec, single=single):
                    if not isinstance(got, dict) or sorted(got) != ["a", "b", "c"]:
                        return "gives %s" % str(got)[:100]
                    for i in range(3):
                        v = {}
                        for q in "abc":
                            v[q] = A.fn("@sample_" + q, *([const(i + 1)] if q in single else [ONE, const(i)]), *[v[d] for d in DEPS[q]])
                            x = got[q]
                            if not isinstance(x, Arr) or len(x) != 3 or not r.equal(x[i], v[q], dec):
                                return "draw %d of %s is %s" % (i, q, str(x[i] if isinstance(x, Arr) and len(x) == 3 else x)[:160])
                r.report("sample", "%s.sample_subset, %s conditioned one draw at a time, order %s" % (cname, "".join(single), "".join(so)), f, r.run(thunk), judge)
    if cond:
        for name, args in (("prob", [{"b": xs["b"]}]), ("ln_prob", [{"b": xs["b"]}]), ("cdf", [{"b": xs["b"]}]),
                           ("rescale", [["b"], [sym("u")]]), ("sample_subset", [["b"]])):
            f = cls.find(name)
            if f is None:
                continue

            def thunk(dec, name=name, args=args):
                lab = Lab(prog, dec, cond, ("b",), 0)
                try:
                    return lab.it.method(lab.pd, name, *args)
                except PyExc as e:
                    return "raised " + e.name.split(".")[-1]

            def judge(got, dec):
                return None if isinstance(got, str) and got.startswith("raised Illegal") else "gives %s though a conditioning parameter is missing" % str(got)[:80]
            r.report("conditional", "%s.%s with a missing conditioning parameter" % (cname, name), f, r.run(thunk), judge)
    # several samples at once
    for name in ("prob", "ln_prob"):
        f = cls.find(name)
        if f is None:
            continue
        xa = {q: Arr([sym("x%s%d" % (q, i)) for i in range(2)]) for q in "abc"}

        def thunk(dec, name=name):
            lab = Lab(prog, dec, cond, orders[-1], 1, scalar=False)
            return lab.it.method(lab.pd, name, dict(xa), axis=const(0))

        def judge(got, dec, name=name):
            if not isinstance(got, Arr) or len(got) != 2:
                return "gives %s for two samples" % str(got)[:100]
            for i in range(2):
                x = {q: xa[q][i] for q in "abc"}
                want = ZERO if name == "ln_prob" else ONE
                for q in "abc":
                    t = term(name, q, x[q], x)
                    want = want + t if name == "ln_prob" else want * t
                c = dec.get(("con", 0, A.fn("@conv0", *[x[q] for q in "abc"])))
                if c is False:
                    want = NINF if name == "ln_prob" else ZERO
                else:
                    if c is None and not any(kk[0] == "zero" and v for kk, v in dec.items()):
                        return "constraint not evaluated for one of the samples"
                    want = want + A.fn("log", sym("factor")) if name == "ln_prob" else want * sym("factor")
                if not r.equal(got[i], want, dec):
                    return "entry %d is %s instead of %s" % (i, str(got[i])[:120], str(want)[:120])
        r.report("density", "%s.%s of several samples" % (cname, name), f, r.run(thunk), judge)
    f = cls.find("sample_subset_constrained_as_array")
    if f is not None:
        d1 = draw(cond, 1)
        for so in perms:
            def thunk(dec, so=so):
                lab = Lab(prog, dec, cond, orders[-1], 0)
                return lab.it.method(lab.pd, f.name, keys=list(so))

            def judge(got, dec, so=so):
                if not isinstance(got, list) or len(got) != 3:
                    return "gives %s" % str(got)[:100]
                for q, g in zip(so, got):
                    g = g[0] if isinstance(g, Arr) and len(g) == 1 else g
                    if not r.equal(g, d1[q], dec):
                        return "with keys %s the row for %s is %s" % (", ".join(so), q, str(g)[:100])
            r.report("sample", "%s.%s" % (cname, f.name), f, r.run(thunk), judge)


class _Yes(dict):
    """an earlier evaluation: every question answered yes, unless it is whether something vanishes"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return k[0] != "zero"


FAMS = {"Uniform": ("minimum", "maximum"), "Gaussian": ("mu", "sigma"), "PowerLaw": ("alpha", "minimum", "maximum"),
        "LogNormal": ("mu", "sigma"), "Exponential": ("mu",), "Cauchy": ("alpha", "beta"), "Gamma": ("k", "theta"), "Sine": ("minimum", "maximum"),
        "TruncatedGaussian": ("mu", "sigma", "minimum", "maximum")}


def families(ctx, r, prog):
    from ..program import Class
    orig = next((c for q, c in prog.classes.items() if q.startswith("bilby.core.prior.conditional.") and q.endswith(".ConditionalPrior")), None)
    if orig is None:
        return
    for fam, ps in FAMS.items():
        base = prog.classes.get("bilby.core.prior.analytical." + fam)
        if base is None:
            continue
        derived = Class(orig.module, orig.node, "Conditional" + fam, "synthetic.Conditional" + fam, None)
        derived._mro = [derived, orig] + base.mro()
        for name in ("prob", "ln_prob", "cdf", "rescale"):
            f = orig.find(name)
            if f is None:
                continue
            for mode in ("first", "other values before", "none given"):
                def thunk(dec, mode=mode, name=name):
                    pos = [p for p in ps if p in ("sigma", "theta", "k", "beta")]
                    facts = [sym(p) for p in pos] + [sym("new_%s_%s" % (p, y)) for p in pos for y in "yz"]
                    if "maximum" in ps:
                        facts += [sym("new_maximum_" + y) - sym("new_minimum_" + y) for y in "yz"] + [sym("maximum") - sym("minimum")]
                    names = {"val"} | {n for x in facts for n in A.symbols(x)} | {"new_%s_%s" % (p, y) for p in ps for y in "yz"}
                    w = World(facts, dec, samples=samples(names, facts, (fam,)))
                    it = Interp(prog, w, externals={
                        "bilby.core.utils.introspection.infer_args_from_method": lambda i, a, k: ["name", "boundary"],
                        "bilby.core.utils.introspection.infer_parameters_from_function": lambda i, a, k: ["y"]})

                    def cond(i, a, kw):
                        if set(kw) != {"y"}:
                            raise PyExc("TypeError")
                        ref = a[0]
                        if not isinstance(ref, dict) or sorted(ref) != sorted(ps):
                            raise Undecided("reference parameters")
                        out = {p: sym("new_%s_%s" % (p, "z" if kw["y"] == sym("z") else "y")) for p in ps}
                        ref.clear()             # a condition function may work in place
                        ref.update(out)
                        return ref
                    o = it.new(derived, [], dict(condition_func=Py(cond), **{p: sym(p) for p in ps}))
                    want = it.new(base, [], {p: sym("new_%s_y" % p) for p in ps})
                    val = sym("val")
                    if mode == "other values before":
                        it.method(o, "rescale", val, y=sym("z"))
                    if mode == "none given":
                        it.method(o, "rescale", val, y=sym("y"))
                        got = it.method(o, name, val)
                    else:
                        got = it.method(o, name, val, y=sym("y"))
                    ref = o.attrs.get("_reference_params")
                    if isinstance(ref, dict) and any(ref.get(p) != sym(p) for p in ps):
                        return "reference parameters overwritten", None
                    return got, it.method(want, name, val)

                def judge(res, dec):
                    got, want = res
                    if isinstance(got, str):
                        return got
                    if isinstance(got, bool):
                        got = ONE if got else ZERO
                    if isinstance(want, bool):
                        want = ONE if want else ZERO
                    if got == want or isinstance(got, E) and isinstance(want, E) and A.equal(got, want):
                        return None
                    return "gives %s instead of %s" % (str(got)[:120], str(want)[:120])
                r.report("conditional", "Conditional%s.%s (%s)" % (fam, name, mode), f, r.run(thunk), judge)
        if fam != "Uniform":
            continue

        def make(dec):
            lo, hi = A.fn("@lo", sym("x"), sym("y")), A.fn("@hi", sym("x"), sym("y"))
            it = Interp(prog, World([sym("maximum") - sym("minimum"), hi - lo], dec), externals={
                "bilby.core.utils.introspection.infer_args_from_method": lambda i, a, k: ["name", "boundary"],
                "bilby.core.utils.introspection.infer_parameters_from_function": lambda i, a, k: ["y", "x"],
                "bilby.core.utils.random.rng": Obj("rng", hooks={"uniform": lambda i, a, k: A.fn("@uniform", *a[:2])})})

            def cond(i, a, kw):
                if set(kw) != {"x", "y"}:
                    raise PyExc("TypeError")
                return {"minimum": A.fn("@lo", kw["x"], kw["y"]), "maximum": A.fn("@hi", kw["x"], kw["y"])}
            return it, it.new(derived, [], dict(condition_func=Py(cond), minimum=sym("minimum"), maximum=sym("maximum")))

        def wrong(dec):
            it, o = make(dec)
            try:
                return it.method(o, "prob", sym("val"), y=sym("y"))
            except PyExc as e:
                return "raised " + e.name.split(".")[-1]

        def sample(dec):
            it, o = make(dec)
            v = it.method(o, "sample", x=sym("x"), y=sym("y"))
            lo, hi = A.fn("@lo", sym("x"), sym("y")), A.fn("@hi", sym("x"), sym("y"))
            return v, lo + A.fn("@uniform", ZERO, ONE) * (hi - lo), o.attrs.get("least_recently_sampled")

        def reset(dec):
            it, o = make(dec)
            it.method(o, "prob", sym("val"), x=sym("x"), y=sym("y"))
            it.method(o, "reset_to_reference_parameters")
            return [it.getattr(o, n) for n in ("minimum", "maximum")]
        f = orig.find("update_conditions")
        r.report("conditional", "conditional prior evaluated with some of its required variables", f, r.run(wrong),
                 lambda got, dec: None if isinstance(got, str) and got.startswith("raised") else "is accepted")
        f = orig.find("sample")
        if f is not None:
            r.report("conditional", "ConditionalUniform.sample", f, r.run(sample),
                     lambda got, dec: None if isinstance(got[0], E) and A.equal(got[0], got[1]) and got[2] == got[0] else "gives %s" % (got,))
        f = orig.find("reset_to_reference_parameters")
        if f is not None:
            r.report("conditional", "ConditionalUniform.reset_to_reference_parameters", f, r.run(reset),
                     lambda got, dec: None if got == [sym("minimum"), sym("maximum")] else "leaves %s" % (got,))


_SAMPLES = {}


def samples(names, facts, key):
    if key not in _SAMPLES:
        _SAMPLES[key] = R.Samples(names, facts, want=24)
    return _SAMPLES[key]


_BASE = "class Prior(object):\n    pass\nclass Constraint(Prior):\n    pass\n"
_DICT = """import numpy as np
from .base import Prior, Constraint
class PriorDict(dict):
    def __init__(self, dictionary=None, conversion_function=None):
        super(PriorDict, self).__init__(dictionary)
        self.conversion_function = conversion_function
    def evaluate_constraints(self, sample):
        out = self.conversion_function(sample)
        prob = 1
        for key in self:
            if isinstance(self[key], Constraint) and key in out:
                prob *= self[key].prob(out[key])
        return prob
    def normalize_constraint_factor(self, keys):
        return 1
    def prob(self, sample, **kwargs):
        prob = np.prod([self[key].prob(sample[key]) for key in sample], **kwargs)
        %s
        ratio = self.normalize_constraint_factor(tuple(sample.keys()))
        if isinstance(prob, float):
            return prob * ratio if self.evaluate_constraints(sample) else 0.0
        out = np.zeros_like(prob)
        keep = np.array(self.evaluate_constraints(sample), dtype=bool)
        out[keep] = prob[keep] * ratio
        return out
    def rescale(self, keys, theta):
        return [self[key].rescale(x) for key, x in zip(%s, theta)]
"""


def _p(a="pass", b="keys"):
    return {"bilby/core/prior/base.py": _BASE, "bilby/core/prior/dict.py": _DICT % (a, b)}


SELFTESTS = [
    ("joint density", _p(), None),
    ("joint density lost factor", _p("prob = self['a'].prob(sample['a'])"), "density"),
    ("unsorted keys", _p(b="sorted(keys)"), "quantile"),
]
