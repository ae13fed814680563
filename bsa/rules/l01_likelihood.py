"""L01: likelihoods return the log density they document."""
from .. import algebra as A
from ..algebra import ZERO, ONE, sym, const
from ..interp import Interp, Obj, Py, T, PyExc, Arr
from ..oblig import Rule
from ..valnum import World, Undecided, NINF

TITLE = "likelihoods return the log density they document"
EXPLANATION = (
    "Abstract evaluation: each likelihood class is constructed on data of uninterpreted values with an uninterpreted model function, its parameters are set, "
    "and the form returned by log_likelihood is compared with the documented density, on first use, after evaluations at other parameter values and after "
    "the data or options have been replaced through the public attributes.")
ASSUMPTIONS = ["data sets of three entries stand for longer ones", "special functions are uninterpreted; floating-point accuracy is not covered"]

LK = "bilby.core.likelihood."
HALF = const(1) / const(2)
N = 3


def log(x):
    return A.fn("log", x)


def lgam(x):
    return A.fn("gammaln", x)


class Lab:
    def __init__(self, prog, dec, facts=(), special=None):
        self.prog = prog
        facts = list(facts) + [sym(p) for p in ("s", "s2", "nu", "nu2")] + [sym("s%d" % i) for i in range(N)]
        self.w = World(facts, dec, scalar=True)
        self.special = special or {}
        self.it = Interp(prog, self.w, externals={
            "bilby.core.utils.introspection.infer_parameters_from_function": lambda i, a, k: ["m", "c", "k"],
            "scipy.stats.multivariate_normal": self.mvn})
        self.it.kind = "i"

    def mvn(self, it, args, kw):
        mean = kw.get("mean", args[0] if args else None)
        cov = kw.get("cov", args[1] if len(args) > 1 else None)
        if set(kw) - {"mean", "cov"} or not isinstance(mean, Arr) or not isinstance(cov, Arr):
            raise Undecided("multivariate_normal")
        flat = it.flatten(mean) + it.flatten(cov)
        return Obj("frozen", {}, {"logpdf": lambda i, a, k: A.fn("@logpdf", *(flat + i.flatten(a[0])))})

    def func(self, name="@f", keys=("m", "c", "k"), special=None):
        def f(it, args, kw):
            if len(args) != 1 or set(kw) != set(keys):
                raise PyExc("TypeError")

            def one(x):
                s = (special or {}).get(x)
                return s if s is not None else A.fn(name, x, *[kw[k] for k in keys])
            return it.arrmap(one, args[0])
        return Py(f)

    def arr(self, n):
        return Arr(sym("%s%d" % (n, i)) for i in range(N))

    def setp(self, o, **kw):
        p = self.it.getattr(o, "parameters")
        self.it.dictmethod(p, "update", [kw], {}, None)

    def ll(self, o, name="log_likelihood"):
        return self.it.method(o, name)


def model(x, m="m", c="c", name="@f"):
    return A.fn(name, x, sym(m), sym(c), sym("k0"))


def pos(names="f", keys=("m", "c")):
    return [model(sym("x%d" % i), *keys) for i in range(N)]


def total(f):
    t = ZERO
    for i in range(N):
        t = t + f(i)
    return t


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("density", "log_likelihood is the documented density at the current data, options and parameters", floor=6 * k)
    ctx.rule("combine", "joint and derived likelihoods combine their parts", floor=2 * k)
    two = {"data": ["%s%s%d" % (n, p, i) for n in "xy" for p in ("", "p") for i in range(N)]}
    del two
    x = [sym("x%d" % i) for i in range(N)]
    y = [sym("y%d" % i) for i in range(N)]
    facts = [sym(p) for p in ("s", "s2", "nu", "nu2")] + [sym("s%d" % i) for i in range(N)]
    r = Rule(ctx, facts + x + y)

    def cls(n):
        return prog.classes.get(LK + n)

    def judge(want):
        def j(got, dec):
            if isinstance(got, T):
                got, extra = got
                if extra:
                    return extra
            return None if r.equal(got, want, dec) else "gives %s instead of %s" % (str(got)[:140], str(want)[:140])
        return j

    def family(name, opts, want, facts2=(), ynon=False):
        """opts: {constructor option: (value, other value)}; want(model): reference"""
        c = cls(name)
        if c is None:
            return
        f = c.find("log_likelihood")
        fx = list(facts2) + y if ynon else list(facts2)
        for mode in ("first", "other parameters before", "data replaced", "option replaced"):
            if mode == "option replaced" and not opts:
                continue

            def thunk(dec, mode=mode):
                lab = Lab(prog, dec, fx + [sym("%sq%d" % (n, i)) for n in "xy" for i in range(N)] + pos() + pos(keys=("m2", "c2")) +
                          [A.fn("@f", sym("xq%d" % i), sym("m"), sym("c"), sym("k0")) for i in range(N)])
                init = {o: v[1 if mode == "option replaced" else 0] for o, v in opts.items()}
                data = (lab.arr("xq"), lab.arr("yq")) if mode == "data replaced" else (lab.arr("x"), lab.arr("y"))
                o = lab.it.new(c, list(data) + [lab.func()], dict(init, k=sym("k0")))
                if mode == "other parameters before":
                    lab.setp(o, m=sym("m2"), c=sym("c2"))
                    lab.ll(o)
                lab.setp(o, m=sym("m"), c=sym("c"))
                if mode == "data replaced":
                    lab.ll(o)
                    lab.it.setattr(o, "x", lab.arr("x"))
                    lab.it.setattr(o, "y", lab.arr("y"))
                if mode == "option replaced":
                    lab.ll(o)
                    for q, v in opts.items():
                        lab.it.setattr(o, q, v[0])
                return lab.ll(o)
            label = "%s.log_likelihood (%s%s)" % (name, mode, "".join(", %s %s" % (q, "array" if isinstance(v[0], Arr) else "given") for q, v in opts.items()))
            r.report("density", label, f, r.run(thunk), judge(want))

    def sampled(name, key, opts, want):
        """an option left to the sampler"""
        c = cls(name)
        if c is None:
            return
        f = c.find("log_likelihood")
        for mode in ("first", "again"):
            def thunk(dec, mode=mode):
                lab = Lab(prog, dec, pos())
                o = lab.it.new(c, [lab.arr("x"), lab.arr("y"), lab.func()], dict(opts, k=sym("k0")))
                if key not in lab.it.getattr(o, "parameters"):
                    return T((ZERO, "%s is not among the parameters" % key))
                if mode == "again":
                    lab.setp(o, m=sym("m2"), c=sym("c2"), **{key: sym(key[0] == "s" and "s2" or "nu2")})
                    lab.ll(o)
                lab.setp(o, m=sym("m"), c=sym("c"), **{key: sym(key[0] == "s" and "s" or "nu")})
                return lab.ll(o)
            r.report("density", "%s.log_likelihood (sampled %s, %s)" % (name, key, mode), f, r.run(thunk), judge(want))

    def gauss(s):
        return total(lambda i: -(y[i] - model(x[i])) * (y[i] - model(x[i])) / (const(2) * s(i) * s(i)) - HALF * log(const(2) * A.PI * s(i) * s(i)))
    S = sym("s")
    family("GaussianLikelihood", {"sigma": (S, sym("s2"))}, gauss(lambda i: S))
    family("GaussianLikelihood", {"sigma": (Arr(sym("s%d" % i) for i in range(N)), sym("s2"))}, gauss(lambda i: sym("s%d" % i)))
    sampled("GaussianLikelihood", "sigma", {}, gauss(lambda i: S))
    family("PoissonLikelihood", {}, total(lambda i: -model(x[i]) + y[i] * log(model(x[i])) - lgam(y[i] + ONE)), ynon=True)
    family("ExponentialLikelihood", {}, total(lambda i: -log(model(x[i])) - y[i] / model(x[i])), ynon=True)

    def student(nu, s):
        return total(lambda i: -(nu + ONE) / const(2) * A.fn("log1p", (y[i] - model(x[i])) * (y[i] - model(x[i])) / (s * s) / nu) -
                     HALF * log(nu * A.PI * s * s) + lgam((nu + ONE) / const(2)) - lgam(nu / const(2)))
    NU = sym("nu")
    family("StudentTLikelihood", {"nu": (NU, sym("nu2")), "sigma": (S, sym("s2"))}, student(NU, S))
    family("StudentTLikelihood", {"nu": (NU, sym("nu2"))}, student(NU, ONE))
    sampled("StudentTLikelihood", "nu", {"sigma": S}, student(NU, S))
    # inadmissible rates
    for name, val, want in (("PoissonLikelihood", ZERO, NINF), ("PoissonLikelihood", const(-1), "ValueError"), ("ExponentialLikelihood", const(-1), NINF),
                            ("StudentTLikelihood", None, "ValueError")):
        c = cls(name)
        if c is None:
            continue
        for j in range(N if val is not None else 1):
            def thunk(dec, j=j):
                lab = Lab(prog, dec, pos() + y)
                o = lab.it.new(c, [lab.arr("x"), lab.arr("y"), lab.func(special={x[j]: val} if val is not None else None)],
                               dict({"nu": const(-1)} if val is None else {}, k=sym("k0")))
                lab.setp(o, m=sym("m"), c=sym("c"))
                try:
                    return lab.ll(o)
                except PyExc as e:
                    return e.name.split(".")[-1]
            what = "%s with %s" % (name, "a rate of %s" % A.show(val) if val is not None and hasattr(A, "show") else "inadmissible values")
            r.report("density", what, c.find("log_likelihood"), r.run(thunk), lambda got, dec: None if got == want else "gives %s instead of %s" % (got, want))
    for name in ("PoissonLikelihood", "ExponentialLikelihood"):
        c = cls(name)
        if c is None:
            continue
        for j in range(N):
            def thunk(dec, j=j):
                lab = Lab(prog, dec, pos() + y)
                try:
                    lab.it.new(c, [lab.arr("x"), Arr(const(-1) if i == j else y[i] for i in range(N)), lab.func()], {"k": sym("k0")})
                except PyExc as e:
                    return e.name.split(".")[-1]
            r.report("density", "%s with negative data" % name, c.find("log_likelihood"), r.run(thunk),
                     lambda got, dec: None if got == "ValueError" else "gives %s" % got)
    # multinomial
    c = cls("Multinomial")
    if c is not None:
        p0, p1 = sym("p0"), sym("p1")
        n = [sym("n%d" % i) for i in range(3)]
        probs = [p0, p1, ONE - p0 - p1]

        def multi(ps):
            t = lgam(n[0] + n[1] + n[2] + ONE)
            for a, p in zip(n, ps):
                t = t + A.fn("xlogy", a, p) - lgam(a + ONE)
            return t
        for mode in ("first", "again"):
            for base in ("parameter_", "z"):
                def thunk(dec, mode=mode, base=base):
                    lab = Lab(prog, dec, n + probs)
                    o = lab.it.new(c, [Arr(n)], dict({"n_dimensions": const(3)}, **({} if base == "parameter_" else {"base": base})))
                    if mode == "again":
                        lab.setp(o, **{base + "0": sym("p1"), base + "1": sym("p0")})
                        lab.ll(o)
                        lab.ll(o, "noise_log_likelihood")
                    lab.setp(o, **{base + "1": p1, base + "0": p0})
                    return lab.ll(o), lab.ll(o, "noise_log_likelihood")
                r.report("density", "Multinomial (%s, base %s)" % (mode, base), c.find("log_likelihood"), r.run(thunk),
                         lambda got, dec: judge(multi(probs))(got[0], dec) or judge(multi([ONE / const(3)] * 3))(got[1], dec))
    # multivariate Gaussians
    cov = Arr(Arr(sym("v%d%d" % (min(i, j), max(i, j))) for j in range(3)) for i in range(3))
    flatcov = [q for row in cov for q in row]
    for name, means in (("AnalyticalMultidimensionalCovariantGaussian", ["mu"]), ("AnalyticalMultidimensionalBimodalCovariantGaussian", ["mu", "mv"])):
        c = cls(name)
        if c is None:
            continue
        zs = [sym("z%d" % i) for i in range(3)]
        pdf = [A.fn("@logpdf", *([sym("%s%d" % (mm, i)) for i in range(3)] + flatcov + zs)) for mm in means]
        want = pdf[0] if len(pdf) == 1 else log(A.fn("exp", pdf[0]) + A.fn("exp", pdf[1])) - log(const(2))
        alt = pdf[0] if len(pdf) == 1 else A.fn("logaddexp", pdf[0], pdf[1]) - log(const(2))
        for mode in ("first", "again"):
            def thunk(dec, mode=mode):
                lab = Lab(prog, dec, [sym("v%d%d" % (i, i)) for i in range(3)])
                o = lab.it.new(c, [Arr(sym("%s%d" % (mm, i)) for i in range(3)) for mm in means] + [cov])
                p = lab.it.getattr(o, "parameters")
                if sorted(p) != ["x0", "x1", "x2"]:
                    return T((ZERO, "has parameters %s" % sorted(p)))
                if mode == "again":
                    lab.setp(o, x2=sym("q2"), x1=sym("q1"), x0=sym("q0"))
                    lab.ll(o)
                lab.setp(o, x2=zs[2], x0=zs[0], x1=zs[1])
                return lab.ll(o)
            r.report("density", "%s (%s)" % (name, mode), c.find("log_likelihood"), r.run(thunk),
                     lambda got, dec: None if judge(alt)(got, dec) is None else judge(want)(got, dec))
    gp(ctx, r, prog, cls, judge, x, y)
    combine(ctx, r, prog, cls, judge, x, y, gauss)
    hyper(ctx, r, prog, judge)


def gp(ctx, r, prog, cls, judge, x, y):
    for name, ext in (("CeleriteLikelihood", "celerite.GP"), ("GeorgeLikelihood", "george.GP")):
        c = cls(name)
        if c is None:
            continue
        for mode in ("first", "again", "other order", "failing"):
            def thunk(dec, mode=mode):
                lab = Lab(prog, dec)
                state = {"mean:a": sym("a0"), "kernel:b": sym("b0"), "kernel:c": sym("c0")}
                computed = []

                def compute(it, a, k):
                    computed.append((a[0], k.get("yerr", a[1] if len(a) > 1 else None)))

                def setvec(it, a, k):
                    v = k.get("vector", a[0] if a else None)
                    if not isinstance(v, (list, T)) or len(v) != len(state):
                        raise PyExc("ValueError")
                    state.update(zip(list(state), v))

                def setone(it, a, k):
                    n = k.get("name", a[0] if a else None)
                    if n not in state:
                        raise PyExc("ValueError")
                    state[n] = k.get("value", a[1] if len(a) > 1 else None)

                def ll(it, a, k):
                    if mode == "failing":
                        raise PyExc("numpy.linalg.LinAlgError")
                    if not computed:
                        raise PyExc("RuntimeError")
                    return A.fn("@gp", *(list(computed[-1][0]) + list(computed[-1][1]) + list(a[0]) + [state[q] for q in sorted(state)]))
                g = Obj("gp", {}, {"compute": compute, "get_parameter_dict": lambda i, a, k: dict(state), "set_parameter_vector": setvec, "set_parameter": setone,
                                   "get_parameter_names": lambda i, a, k: T(state), "log_likelihood": ll})
                lab.it.ext[ext] = lambda i, a, k: g
                o = lab.it.new(c, [Obj("kernel"), Obj("mean"), lab.arr("x"), lab.arr("y")], {"yerr": lab.arr("s")})
                if mode == "again":
                    lab.setp(o, **{q: sym("q" + q[-1]) for q in state})
                    lab.ll(o)
                new = {q: sym(q[-1]) for q in state}
                if mode == "other order":
                    lab.it.method(o, "set_parameters", {q: new[q] for q in reversed(list(new))})
                else:
                    lab.setp(o, **new)
                return lab.ll(o)
            want = A.fn("@gp", *(x + [sym("s%d" % i) for i in range(N)] + y + [sym("b"), sym("c"), sym("a")]))
            want = NINF if mode == "failing" else want
            r.report("combine", "%s (%s)" % (name, mode), c.find("log_likelihood"), r.run(thunk), judge(want))


def combine(ctx, r, prog, cls, judge, x, y, gauss):
    base, joint, zero, gl = cls("Likelihood"), cls("JointLikelihood"), cls("ZeroLikelihood"), cls("GaussianLikelihood")
    if base is not None:
        def thunk(dec):
            lab = Lab(prog, dec)
            o = Obj(base, {"parameters": {}}, {"log_likelihood": lambda i, a, k: sym("ll"), "noise_log_likelihood": lambda i, a, k: sym("nl")})
            return lab.ll(o, "log_likelihood_ratio")
        r.report("combine", "Likelihood.log_likelihood_ratio", base.find("log_likelihood_ratio"), r.run(thunk), judge(sym("ll") - sym("nl")))
    if gl is None:
        return
    if zero is not None:
        def thunk(dec):
            lab = Lab(prog, dec, pos())
            o = lab.it.new(gl, [lab.arr("x"), lab.arr("y"), lab.func()], {"sigma": sym("s"), "k": sym("k0")})
            z = lab.it.new(zero, [o])
            lab.setp(z, m=sym("m"), c=sym("c"))
            return lab.ll(z), lab.ll(z, "noise_log_likelihood"), lab.it.getattr(z, "parameters"), lab.it.getattr(z, "x")
        r.report("combine", "ZeroLikelihood", zero.find("log_likelihood"), r.run(thunk),
                 lambda got, dec: judge(ZERO)(got[0], dec) or judge(ZERO)(got[1], dec) or
                 (None if set(got[2]) == {"m", "c"} and list(got[3]) == x else "parameters or attributes of the wrapped likelihood differ"))
    if joint is not None:
        def m2(i, m, d):
            return A.fn("@g", x[i], sym(m), sym(d))

        def want(m, c, d):
            return gauss(lambda i: sym("s")) + total(lambda i: -(y[i] - m2(i, m, d)) * (y[i] - m2(i, m, d)) / (const(2) * sym("s2") * sym("s2")) -
                                                     HALF * log(const(2) * A.PI * sym("s2") * sym("s2")))

        def thunk(dec, mode):
            lab = Lab(prog, dec, pos())
            o1 = lab.it.new(gl, [lab.arr("x"), lab.arr("y"), lab.func()], {"sigma": sym("s"), "k": sym("k0")})
            lab.it.ext["bilby.core.utils.introspection.infer_parameters_from_function"] = lambda i, a, k: ["d", "m"]
            o2 = lab.it.new(gl, [lab.arr("x"), lab.arr("y"), lab.func("@g", ("m", "d"))], {"sigma": sym("s2")})
            for o, keys in ((o1, ("m", "c")), (o2, ("d", "m"))):
                lab.setp(o, **{q: sym("stale_" + q) for q in keys})
            j = lab.it.new(joint, [o1, o2] if mode != "reversed" else [o2, o1])
            if mode == "again":
                lab.setp(j, m=sym("q1"), c=sym("q2"), d=sym("q3"))
                lab.ll(j)
            if mode == "replaced":
                p = lab.it.getattr(j, "parameters")
                if not isinstance(p, dict) or set(p) != {"m", "c", "d"}:
                    return T((ZERO, "has parameters %s" % sorted(p)))
            lab.setp(j, d=sym("d"), c=sym("c"), m=sym("m"))
            if any(v != sym("stale_" + q) for o in (o1, o2) for q, v in lab.it.getattr(o, "parameters").items()):
                return T((ZERO, "changes the parameters of the likelihoods it was given"))
            return lab.ll(j)
        for mode in ("first", "reversed", "again", "replaced"):
            r.report("combine", "JointLikelihood (%s)" % mode, joint.find("log_likelihood"), r.run(lambda dec, mode=mode: thunk(dec, mode)),
                     judge(want("m", "c", "d")))

        def noise(dec):
            lab = Lab(prog, dec)
            hooks = [{"noise_log_likelihood": lambda i, a, k, n=n: sym("nl%d" % n), "log_likelihood": lambda i, a, k, n=n: sym("ll%d" % n)} for n in range(3)]
            o = [Obj(base, {"parameters": {}}, h) for h in hooks]
            j = lab.it.new(joint, o)
            return lab.ll(j, "noise_log_likelihood"), lab.ll(j), lab.ll(j, "log_likelihood_ratio")
        n, q = sym("nl0") + sym("nl1") + sym("nl2"), sym("ll0") + sym("ll1") + sym("ll2")
        r.report("combine", "JointLikelihood noise and ratio", joint.find("noise_log_likelihood"), r.run(noise),
                 lambda got, dec: judge(n)(got[0], dec) or judge(q)(got[1], dec) or judge(q - n)(got[2], dec))


def hyper(ctx, r, prog, judge):
    c = prog.classes.get("bilby.hyper.likelihood.HyperparameterLikelihood")
    if c is None:
        return
    mcls = prog.classes.get("bilby.hyper.model.Model")
    f = c.find("log_likelihood_ratio")

    def hp(i, j, lam):
        return A.fn("@h", sym("v%d%d" % (i, j)), sym(lam))

    def sp(i, j, how):
        return {"prior": sym("p%d%d" % (i, j)), "log_prior": A.fn("exp", sym("l%d%d" % (i, j))), "function": A.fn("@sp", sym("v%d%d" % (i, j)))}[how]

    for how in ("prior", "log_prior", "function"):
        for sizes in ((2, 2), (3, 2)):
            for mode in ("first", "again", "new parameters", "resampled", "fewer"):
                def thunk(dec, how=how, sizes=sizes, mode=mode):
                    facts = [sym("p%d%d" % (i, j)) for i in range(2) for j in range(3)] + [hp(i, j, "lam") for i in range(2) for j in range(3)]
                    facts += [A.fn("@sp", sym("v%d%d" % (i, j))) for i in range(2) for j in range(3)]
                    w = World(facts + [sym("lam2") - sym("lam")], dec, scalar=True)
                    it = Interp(prog, w, externals={
                        "bilby.core.utils.introspection.infer_args_from_function_except_n_args": lambda i, a, k: ["dataset", "lam"]
                        if a and a[0] is hfun or k.get("func") is hfun else ["dataset"]})

                    def table(i, m):
                        cols = {"v": Arr(sym("v%d%d" % (i, j)) for j in range(m))}
                        if how == "prior" or how == "function" and mode in ("again", "resampled"):
                            cols["prior"] = Arr(sym("p%d%d" % (i, j)) for j in range(m))
                        if how == "log_prior" or how == "function" and mode in ("again", "fewer"):
                            cols["log_prior"] = Arr(sym("l%d%d" % (i, j)) for j in range(m))

                        def sample(it, a, k):
                            from ..interp import integer
                            n = integer(k.get("n", a[0] if a else ONE))
                            if n is None or k.get("replace"):
                                raise Undecided("sample")
                            if n > m:
                                raise PyExc("ValueError")
                            return {q: Arr(v[:n]) for q, v in cols.items()}
                        return Obj("pandas.DataFrame", {}, {"sample": sample, "__len__": lambda i, a, k: const(m),
                                                            "keys": lambda i, a, k: list(cols)}, items=cols)

                    def apply(name):
                        def g(it, a, k):
                            d = a[0]
                            d = d.items if isinstance(d, Obj) else d
                            if name == "@h" and set(k) != {"lam"} or name == "@sp" and k:
                                raise PyExc("TypeError")
                            return it.arrmap(lambda *q: A.fn(name, *q), d["v"], *([k["lam"]] if name == "@h" else []))
                        return Py(g)
                    hfun, sfun = apply("@h"), apply("@sp")
                    kw = {"log_evidences": [sym("e0"), sym("e1")]}
                    if mode == "fewer":
                        kw["max_samples"] = ONE
                    if how == "function":
                        kw["sampling_prior"] = sfun if mode == "first" else it.new(mcls, [[sfun]]) if mcls is not None else sfun
                    o = it.new(c, [[table(i, m) for i, m in enumerate(sizes)], hfun if mode == "first" or mcls is None else it.new(mcls, [[hfun]])], kw)
                    p = it.getattr(o, "parameters")
                    if mode == "again":
                        it.dictmethod(p, "update", [{"lam": sym("lam2")}], {}, None)
                        it.method(o, "log_likelihood_ratio")
                    it.dictmethod(p, "update", [{"lam": sym("lam")}], {}, None)
                    if mode == "new parameters":
                        it.dictmethod(p, "update", [{"lam": sym("lam2")}], {}, None)
                        it.setattr(o, "parameters", {"lam": sym("lam")})
                    if mode == "resampled":
                        it.setattr(o, "data", it.method(o, "resample_posteriors", ONE))
                    return [it.method(o, n) for n in ("log_likelihood_ratio", "noise_log_likelihood", "log_likelihood")]
                want = ZERO
                m = 1 if mode in ("resampled", "fewer") else min(sizes)
                for i in range(2):
                    s = ZERO
                    for j in range(m):
                        s = s + hp(i, j, "lam") / sp(i, j, how)
                    want = want + log(s / const(m))
                ev = sym("e0") + sym("e1")
                r.report("combine", "HyperparameterLikelihood (%s, %d and %d samples, %s)" % (how, sizes[0], sizes[1], mode), f, r.run(thunk),
                         lambda got, dec: judge(want)(got[0], dec) or judge(ev)(got[1], dec) or judge(want + ev)(got[2], dec))


_LIK = """import numpy as np
from .utils import infer_parameters_from_function
class Likelihood(object):
    def __init__(self, parameters=None):
        self.parameters = parameters
    def log_likelihood(self):
        return np.nan
    def noise_log_likelihood(self):
        return np.nan
    def log_likelihood_ratio(self):
        return %s
class GaussianLikelihood(Likelihood):
    def __init__(self, x, y, func, sigma=None, **kwargs):
        super(GaussianLikelihood, self).__init__({k: None for k in infer_parameters_from_function(func) if k not in kwargs})
        self.keys = list(self.parameters)
        self.x, self.y, self.func, self.kwargs = x, y, func, kwargs
        self._sigma = sigma
        if sigma is None:
            self.parameters['sigma'] = None
    @property
    def sigma(self):
        return self.parameters.get('sigma', self._sigma)
    @sigma.setter
    def sigma(self, sigma):
        self._sigma = sigma
    def log_likelihood(self):
        res = self.y - self.func(self.x, **{k: self.parameters[k] for k in self.keys}, **self.kwargs)
        return np.sum(- (res / self.sigma)**2 / 2 - np.log(2 * np.pi * %s) / 2)
"""
_PKG = {"bilby/core/utils/__init__.py": "from .introspection import *\n",
        "bilby/core/utils/introspection.py": "def infer_parameters_from_function(f):\n    return []\n"}


def _l(a="self.log_likelihood() - self.noise_log_likelihood()", b="self.sigma**2"):
    return dict(_PKG, **{"bilby/core/likelihood.py": _LIK % (a, b)})


SELFTESTS = [
    ("Gaussian likelihood", _l(), None),
    ("Gaussian normalisation", _l(b="self.sigma"), "density"),
    ("ratio", _l("self.noise_log_likelihood() - self.log_likelihood()"), "combine"),
]
