"""N02: run_sampler hands the problem over unchanged, books evidence and time, and reuses a cached result only for the same problem."""
import itertools

from ..algebra import ZERO, ONE, const, sym
from ..interp import Obj, Arr, Py, PyExc, T, Fn, Cls
from ..oblig import Rule
from ..valnum import Undecided, INF, NINF, NAN
from . import n01_samplers as n01

TITLE = "run_sampler books evidence and time and reuses cached results only for the same problem"
EXPLANATION = (
    "Abstract evaluation: run_sampler is evaluated with a stand-in sampler whose construction, run, posterior generation and saves are recorded as events. The recorded "
    "constructor arguments are compared with the caller's; evidence, noise evidence, Bayes factor and sampling time of the result are compared as expressions with the forms the "
    "documentation gives, for ratio and full likelihoods. Sampler._check_cached_result, _initialise_parameters, _verify_use_ratio and the starting-point methods are evaluated in "
    "every combination of matching and differing cached attributes, prior kinds and acceptable and unacceptable draws.")
ASSUMPTIONS = ["a stand-in sampler subclass represents the installed samplers, which N01 covers", "three sampled, one fixed and one constrained parameter stand for more",
               "files are represented by the object read back from them"]

S = "bilby.core.sampler."
B = S + "base_sampler.Sampler."


class Lab(n01.Lab):
    def __init__(self, prog, dec, **kw):
        n01.Lab.__init__(self, prog, dec, **kw)
        self.events = []
        self.own = None
        self.cached = None
        self.given_time = None
        self.posterior = None
        self.it.ext.update({
            "datetime.timedelta": self.delta, "datetime.datetime.now": self.now,
            S + "get_sampler_class": lambda i, a, k: Cls(self.cls), "inspect.isclass": lambda i, a, k: isinstance(a[0], Cls),
            self.cls.qual: self.construct,
            "bilby.core.utils.loaded_modules_dict": lambda i, a, k: {"numpy": "1"}, "bilby.core.utils.env_package_list": lambda i, a, k: "packages",
            "bilby.core.utils.log.loaded_modules_dict": lambda i, a, k: {"numpy": "1"}, "bilby.core.utils.log.env_package_list": lambda i, a, k: "packages",
            "bilby.core.prior.dict.PriorDict.fill_priors": lambda i, a, k: self.events.append(("fill", a[0], a[1:], k)),
        })
        self.like.attrs["meta_data"] = {"kind": "x"}
        self.cmd = self.it.ext["bilby.core.utils.command_line_args"]

    @property
    def cls(self):
        c = self.prog.classes.get(S + "nestle.Nestle")
        if c is None:
            raise Undecided("no sampler class")
        return c

    def delta(self, it, a, k):
        unit = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600}
        v = ZERO
        for n, x in list(zip(("days", "seconds"), a)) + list(k.items()):
            if n not in unit:
                raise Undecided("timedelta")
            v = v + x * const(unit[n])
        return n01.span(v)

    def construct(self, it, a, k):
        self.built = {"likelihood": a[0] if a else k.get("likelihood"), "priors": a[1] if len(a) > 1 else k.get("priors")}
        self.built.update({n: v for n, v in k.items() if n not in ("likelihood", "priors")})
        self.events.append(("construct",))
        return self.sampler(k.get("use_ratio") if self.own is None else self.own, k.get("injection_parameters"))

    def sampler(self, ratio, injection=None):
        res = Obj("bilby.core.result.Result", {"sampling_time": self.given_time, "log_evidence": sym("logz"), "log_evidence_err": sym("err"), "injection_parameters": injection,
                                               "log_noise_evidence": None, "log_bayes_factor": None, "priors": self.pd, "_posterior": self.posterior, "meta_data": {}},
                  {"save_to_file": lambda i, a, k: self.events.append(("save", dict(k), res.attrs["_posterior"])), "plot_corner": lambda i, a, k: self.events.append(("plot",)),
                   "samples_to_posterior": self.fill, "__bool__": lambda i, a, k: True}, label="result")
        self.res = res
        o = Obj(self.cls, {"use_ratio": ratio, "cached_result": self.cached, "likelihood": self.like}, {}, label="sampler")

        def run(i, a, k):
            self.events.append(("run",))
            return res
        o.hooks["run_sampler"] = run
        return o

    def fill(self, it, a, k):
        self.events.append(("posterior", dict(k)))
        self.res.attrs["_posterior"] = "posterior"
        if self.cached is not None:
            self.cached.attrs["_posterior"] = "posterior"


def entry(prog):
    m = prog.modules.get("bilby.core.sampler")
    s = m and m.symbols.get("run_sampler")
    return s[1] if s and s[0] == "func" else None


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("evidence", "log_evidence, log_noise_evidence and log_bayes_factor follow from the sampler's value and whether it sampled the likelihood ratio", floor=4 * k)
    ctx.rule("time", "sampling_time is the sampler's own time in seconds, or the elapsed time when it gives none", floor=2 * k)
    ctx.rule("hand over", "the sampler is built from exactly the caller's problem and options", floor=3 * k)
    ctx.rule("outcome", "the posterior is generated once from the likelihood, priors and conversion given, and the saved result holds it", floor=2 * k)
    ctx.rule("cache", "a cached result is reused only if its parameters and likelihood description are those of this run", floor=4 * k)
    ctx.rule("parameters", "sampled, fixed and constrained parameters are told apart by their priors", floor=1 * k)
    ctx.rule("starts", "starting points are draws from the prior with finite prior and likelihood, stored with their own values", floor=1 * k)
    r = Rule(ctx)
    f = entry(prog)
    if f is not None:
        books(ctx, r, prog, f)
    sampler(ctx, r, prog)


def books(ctx, r, prog, f):
    def call(lab, **kw):
        args = {"likelihood": lab.like, "priors": lab.pd, "label": "L", "outdir": "O", "sampler": "nestle", "save": False}
        args.update(kw)
        return lab.it.apply(Fn(f), [], args)

    # the sampler settles use_ratio itself: what was asked for does not matter
    for ratio, how, asked in itertools.product((True, False), ("name", "class", "object"), (True, False)):
        def thunk(dec, ratio=ratio, how=how, asked=asked):
            lab = Lab(prog, dec)
            lab.own = ratio
            lab.given_time = n01.span(sym("T"))
            which = {"name": "nestle", "class": Cls(lab.cls)}.get(how) or lab.sampler(ratio)
            return call(lab, sampler=which, use_ratio=asked), lab

        def judge(got, dec, ratio=ratio):
            res, lab = got
            if not isinstance(res, Obj) or res is not lab.res:
                return "the result returned is not the sampler's"
            a = res.attrs
            z, n = sym("logz"), sym("noise")
            want = {"log_evidence": z + n if ratio else z, "log_noise_evidence": n, "log_bayes_factor": z if ratio else z - n, "log_evidence_err": sym("err")}
            for q, v in want.items():
                if a.get(q) != v:
                    return "%s is %s instead of %s" % (q, a.get(q), v)
        r.report("evidence", "run_sampler, sampler given as %s, use_ratio=%s, asked for %s" % (how, ratio, asked), f, r.run(thunk), judge)

    for what, given, want in (("seconds", n01.q(7, 2), n01.q(7, 2)), ("whole seconds", n01.q(90000), n01.q(90000)), ("a time difference", "span", sym("T")), ("no time", None, n01.q(5, 2))):
        def thunk(dec, given=given):
            lab = Lab(prog, dec)
            lab.given_time = n01.span(sym("T")) if given == "span" else given
            return call(lab, use_ratio=False)

        def judge(res, dec, want=want):
            if res.attrs.get("sampling_time") != want:
                return "sampling_time is %s instead of %s" % (res.attrs.get("sampling_time"), want)
        r.report("time", "run_sampler with a sampler that reports %s" % what, f, r.run(thunk), judge)

    for what, plain in (("dictionary", True), ("PriorDict", False)):
        for how in ("name", "class"):
            def thunk(dec, plain=plain, how=how):
                lab = Lab(prog, dec)
                priors = {n: lab.it.getitem(lab.pd, n) for n in ("b", "c", "a", "d")} if plain else lab.pd
                meta = {"mine": "m"}
                inj = {"a": sym("ia")}
                call(lab, priors=priors, meta_data=meta, injection_parameters=inj, use_ratio=True, npool=const(3), plot=False, nlive=const(77), result_class="RC", default_priors_file="F",
                     sampler="nestle" if how == "name" else Cls(lab.cls), clean=True)
                return lab, priors, meta, inj

            def judge(got, dec, plain=plain):
                lab, priors, meta, inj = got
                b = lab.built
                want = {"label": "L", "outdir": "O", "use_ratio": True, "injection_parameters": inj, "npool": const(3), "nlive": const(77), "plot": False, "resume": False, "result_class": "RC"}
                for n, v in want.items():
                    if n not in b or not (b[n] is v or b[n] == v):
                        return "the sampler is built with %s=%s instead of %s" % (n, b.get(n), v)
                if b["likelihood"] is not lab.like:
                    return "the sampler is built with another likelihood"
                it = lab.it
                if not isinstance(b["priors"], Obj) or any(it.getitem(b["priors"], n) is not it.getitem(lab.pd, n) for n in ("a", "b", "c", "d")):
                    return "the sampler is built with other priors"
                if not plain and b["priors"] is not priors:
                    return "the sampler is built with other priors"
                md = b.get("meta_data")
                if not isinstance(md, dict) or md.get("likelihood") != {"kind": "x"} or md.get("mine") != "m":
                    return "the metadata handed over is %s" % (md,)
                if set(meta) != {"mine"}:
                    return "the caller's metadata is changed"
                fills = [e for e in lab.events if e[0] == "fill"]
                names = [e[0] for e in lab.events]
                if not fills or names.index("fill") > names.index("construct"):
                    return "missing priors are not filled before the sampler is built"
                if fills[0][1] is not b["priors"] or (list(fills[0][2]) + [fills[0][3].get("likelihood")])[0] is not lab.like or "F" not in list(fills[0][2]) + list(fills[0][3].values()):
                    return "missing priors are filled from something else"
            r.report("hand over", "run_sampler with a %s, sampler given as %s" % (what, how), f, r.run(thunk), judge)

    for kind, ok in (("sampled", False), ("fixed", True), ("number", True), ("absent", True)):
        def thunk(dec, kind=kind):
            lab = Lab(prog, dec)
            lab.like.attrs["marginalized_parameters"] = ["d", "zz"] if kind in ("fixed", "absent") else ["b"]
            if kind == "absent":
                lab.like.attrs["marginalized_parameters"] = ["zz"]
            if kind == "number":
                lab.it.setitem(lab.pd, "b", n01.q(1, 2))
            try:
                call(lab, use_ratio=False)
            except PyExc as e:
                if e.name.split(".")[-1] != "SamplingMarginalisedParameterError" or lab.events:
                    raise
                return "refused", lab
            return "done", lab

        def judge(got, dec, ok=ok):
            if (got[0] == "done") != ok:
                return "it is %s" % ("refused" if ok else "sampled although the likelihood marginalises over it")
        r.report("hand over", "run_sampler with a marginalised parameter that is %s" % kind, f, r.run(thunk), judge)

    for save, ready, cached in itertools.product((False, "hdf5"), (False, True), (False, True)):
        def thunk(dec, save=save, ready=ready, cached=cached):
            lab = Lab(prog, dec)
            lab.posterior = "posterior" if ready else None
            lab.given_time = n01.span(sym("T"))
            if cached:
                lab.sampler(False)
                lab.cached = lab.res
            conv = Py(lambda i, a, k: dict(a[0], derived=sym("derived")))
            res = call(lab, use_ratio=False, save=save, conversion_function=conv, npool=const(4), injection_parameters={"a": sym("ia")})
            return res, lab, conv

        def judge(got, dec, save=save, ready=ready, cached=cached):
            res, lab, conv = got
            names = [e[0] for e in lab.events]
            if cached:
                if res is not lab.cached:
                    return "the cached result is not returned"
                if "run" in names:
                    return "the sampler runs although a cached result is used"
                for n in ("log_noise_evidence", "log_bayes_factor"):
                    if res.attrs.get(n) is not None:
                        return "%s of the cached result is changed" % n
                if res.attrs["log_evidence"] != sym("logz"):
                    return "log_evidence of the cached result is changed"
            elif names.count("run") != 1:
                return "the sampler is run %d times" % names.count("run")
            elif res.attrs.get("injection_parameters") != {"a": sym("ia"), "derived": sym("derived")}:
                return "the injection parameters are %s instead of the converted ones" % (res.attrs.get("injection_parameters"),)
            posts = [e for e in lab.events if e[0] == "posterior"]
            if ready and posts:
                return "an existing posterior is generated again"
            if not ready:
                if len(posts) != 1:
                    return "the posterior is generated %d times" % len(posts)
                k = posts[0][1]
                if k.get("likelihood") is not lab.like or k.get("priors") is not lab.pd or k.get("conversion_function") is not conv or k.get("npool") != const(4):
                    return "the posterior is generated with %s" % k
            saves = [e for e in lab.events if e[0] == "save"]
            if not save and saves:
                return "the result is saved although that is not asked for"
            if save:
                last = lab.events[-1]
                if last[0] != "save" or last[2] != "posterior":
                    return "the result saved last does not hold the posterior"
                if not (last[1].get("overwrite") is True) or last[1].get("extension") != "hdf5" or last[1].get("outdir") != "O":
                    return "the result is saved with %s" % last[1]
        r.report("outcome", "run_sampler, save=%s, posterior %s, %s" % (save, "there" if ready else "to be generated", "cached result" if cached else "new run"), f, r.run(thunk), judge)


def sampler(ctx, r, prog):
    base = prog.classes.get(B[:-1])
    if base is None:
        return
    f = base.methods.get("_check_cached_result")
    if f is not None:
        for skeys, fkeys, like, mode in itertools.product(("same", "other", "swapped"), ("same", "other"), ("same", "other", "missing"), ("", "clean", "use_cached", "absent")):
            def thunk(dec, skeys=skeys, fkeys=fkeys, like=like, mode=mode):
                lab = Lab(prog, dec)
                c = prog.classes.get("bilby.core.result.Result")
                if c is None:
                    raise Undecided("no Result")
                cached = Obj(c, {}, {"__bool__": lambda i, a, k: True})
                for n, v in (("search_parameter_keys", {"same": ["b", "c", "a"], "other": ["b", "c"], "swapped": ["a", "b", "c"]}[skeys]), ("fixed_parameter_keys", ["d"] if fkeys == "same" else []),
                             ("meta_data", {"likelihood": {"kind": "x"} if like == "same" else {"kind": "y"} if like == "other" else {}})):
                    lab.it.setattr(cached, n, v)
                calls = []

                def read(i, a, k):
                    calls.append(k)
                    if mode == "absent":
                        raise PyExc("OSError")
                    return cached
                lab.it.ext["bilby.core.result.read_in_result"] = read
                lab.it.ext["numpy.testing.assert_equal"] = lambda i, a, k: None if a[0] == a[1] else lab._raise("AssertionError")
                s = Obj(base, {"label": "l", "outdir": "o", "_search_parameter_keys": ["b", "c", "a"], "_fixed_parameter_keys": ["d"], "_constraint_parameter_keys": [], "likelihood": lab.like,
                               "priors": lab.pd, "meta_data": {"likelihood": {"kind": "x"}}, "use_ratio": False})
                lab.cmd.attrs["clean"], lab.cmd.attrs["use_cached"] = mode == "clean", mode == "use_cached"
                lab.it.apply(Fn(f, s), ["RC"], {})
                return s.attrs.get("cached_result"), cached, calls

            def judge(got, dec, skeys=skeys, fkeys=fkeys, like=like, mode=mode):
                have, cached, calls = got
                keep = mode == "use_cached" or mode == "" and skeys == fkeys == like == "same"
                if (have is cached) != keep or have is not None and have is not cached:
                    return "the cached result is %s" % ("dropped" if keep else "used")
                if calls and (calls[0].get("outdir"), calls[0].get("label"), calls[0].get("result_class")) != ("o", "l", "RC"):
                    return "another result is read: %s" % calls[0]
            r.report("cache", "cached result with %s search keys, %s fixed keys, %s likelihood%s" % (skeys, fkeys, like, ", " + mode if mode else ""), f, r.run(thunk), judge)

    f = base.methods.get("_initialise_parameters")
    if f is not None:
        for order in (("b", "c", "a"), ("c", "a", "b")):
            def thunk(dec, order=order):
                lab = Lab(prog, dec, order=order)
                lab.events = []
                for c in ("bilby.core.result.Result", "bilby.core.sampler.base_sampler.Result"):
                    lab.it.ext[c] = lambda i, a, k: lab.events.append(k) or Obj("bilby.core.result.Result", dict(k))
                s = lab.make("base_sampler.Sampler", injection_parameters="inj", meta_data="meta", nlive=const(5))
                res = s.attrs.get("result")
                return s, res, lab

            def judge(got, dec, order=order):
                s, res, lab = got
                it = lab.it
                want = {"search_parameter_keys": list(order), "fixed_parameter_keys": ["d"], "constraint_parameter_keys": ["k0"]}
                for n, v in want.items():
                    if it.getattr(s, n) != v:
                        return "%s is %s instead of %s" % (n, it.getattr(s, n), v)
                    if not isinstance(res, Obj) or res.attrs.get(n) != v:
                        return "the result's %s is not %s" % (n, v)
                if it.getattr(s, "ndim") != const(3):
                    return "ndim is not the number of sampled parameters"
                if lab.like.attrs["parameters"].get("d") != sym("peak"):
                    return "the fixed parameter is not given to the likelihood"
                for n, v in {"label": "l", "outdir": "o", "injection_parameters": "inj", "meta_data": "meta", "use_ratio": False, "sampler_kwargs": s.attrs.get("_kwargs")}.items():
                    if res.attrs.get(n) != v:
                        return "the result's %s is %s instead of %s" % (n, res.attrs.get(n), v)
                if res.attrs.get("priors") is not lab.pd:
                    return "the result's priors are not those sampled"
            r.report("parameters", "sampled, fixed and constrained parameters", f, r.run(thunk), judge)

    f = base.methods.get("_verify_use_ratio")
    if f is not None:
        for ask, value in itertools.product((None, True, False), ("finite", "nan")):
            def thunk(dec, ask=ask, value=value):
                lab = Lab(prog, dec)
                lab.like.hooks["log_likelihood_ratio"] = lambda i, a, k: sym("finite") if value == "finite" else NAN
                lab.it.ext["numpy.isnan"] = lambda i, a, k: a[0] is NAN or a[0] == NAN
                s = lab.make("base_sampler.Sampler", use_ratio=ask)
                lab.it.apply(Fn(f, s), [], {})
                return s.attrs.get("use_ratio")

            def judge(got, dec, ask=ask, value=value):
                want = ask if ask is not None else (True if value == "finite" else None)
                if (got or None) != (want or None):
                    return "use_ratio becomes %s" % (got,)
            r.report("parameters", "use_ratio=%s and a %s likelihood ratio" % (ask, value), f, r.run(thunk), judge)
    starts(ctx, r, prog, base)


def starts(ctx, r, prog, base):
    f = base.methods.get("get_initial_points_from_prior")
    if f is not None:
        for bad in ((), (1,), (1, 2), (2,)):
            def thunk(dec, bad=bad):
                lab = Lab(prog, dec)
                draws = []

                def uniform(it, a, k):
                    if k.get("size", a[2] if len(a) > 2 else None) is None:
                        return sym("u0")
                    n = len(draws) + 1
                    u = [sym("u%d_%d" % (n, i)) for i in range(3)]
                    draws.append(u)
                    low, high = (list(a) + [ZERO, ONE][len(a):])[:2]
                    return Arr(low + x * (high - low) for x in u)
                lab.it.ext["bilby.core.utils.random.rng"].hooks["uniform"] = uniform
                lab.ninfs = ["u%d_" % n for n in bad]
                lab.w.dec = n01.Yes(dec, [sym("t%d" % i) for i in range(3)], lab)
                finite(lab)
                s = lab.make("base_sampler.Sampler", use_ratio=False)
                return lab.it.apply(Fn(f, s), [const(2)], {}), draws, lab

            def judge(got, dec, bad=bad):
                res, draws, lab = got
                good = [u for n, u in enumerate(draws, 1) if n not in bad][:2]
                if not isinstance(res, T) or len(res) != 3 or any(len(x) != 2 for x in res):
                    return "it returns %s" % str(res)[:100]
                for i, u in enumerate(good):
                    th = lab.cube(u)
                    if list(res[0][i]) != u:
                        return "row %d of the unit cube points is %s" % (i, str(res[0][i])[:100])
                    if list(res[1][i]) != th:
                        return "row %d of the parameters is not the image of its unit cube point" % i
                    if res[2][i] != lab.at(th):
                        return "row %d has another point's likelihood" % i
            r.report("starts", "initial points, draws %s unacceptable" % (list(bad) or "none"), f, r.run(thunk), judge)
    f = base.methods.get("get_random_draw_from_prior")
    if f is not None:
        def thunk(dec):
            lab = Lab(prog, dec)
            lab.w.dec = n01.Yes(dec, [sym("t%d" % i) for i in range(3)], lab)
            finite(lab)
            s = lab.make("base_sampler.Sampler", use_ratio=False)
            return lab.it.apply(Fn(f, s), [], {}), lab

        def judge(got, dec):
            x, lab = got
            if not isinstance(x, Arr) or [str(v)[:9] for v in x] != ["@sample_" + n for n in lab.order]:
                return "a draw is %s" % str(x)[:100]
        r.report("starts", "a random draw", f, r.run(thunk), judge)
    f = base.methods.get("check_draw")
    if f is not None:
        for prior, like in itertools.product(("finite", "-inf", "nan"), ("finite", "-inf", "nan", "inf")):
            def thunk(dec, prior=prior, like=like):
                lab = Lab(prog, dec)
                val = {"finite": sym("v"), "-inf": NINF, "nan": NAN, "inf": INF}
                finite(lab)
                s = lab.make("base_sampler.Sampler", use_ratio=False)
                s.hooks["log_prior"] = lambda i, a, k: val[prior]
                s.hooks["log_likelihood"] = lambda i, a, k: val[like]
                return lab.it.apply(Fn(f, s), [Arr([sym("x"), sym("y"), sym("z")])], {"warning": False})

            def judge(got, dec, ok=prior == like == "finite"):
                if bool(got) != ok:
                    return "the draw is %s" % ("rejected" if ok else "accepted")
            r.report("starts", "check_draw with %s prior and %s likelihood" % (prior, like), f, r.run(thunk), judge)


def finite(lab):
    lab.it.ext["numpy.isnan"] = lambda i, a, k: a[0] == NAN
