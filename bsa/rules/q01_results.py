"""Q01: combining, reweighting and summarising results follows the documented estimators."""
from fractions import Fraction

from .. import algebra as A
from ..algebra import ZERO, ONE, const, sym
from ..frame import Table, EXTERNALS
from ..interp import Interp, Obj, Arr, Py, PyExc, T, integer
from ..oblig import Rule
from ..valnum import Undecided, World, NAN, INF
from .f02_strain import several

TITLE = "combining, reweighting and summarising results follows the documented estimators"
EXPLANATION = (
    "Abstract evaluation: Result and ResultList objects with data frames of uninterpreted parameter values and likelihood, prior and weight columns that are logarithms of "
    "rationals are reweighted, combined and summarised, with every random draw and every evaluation of likelihood and prior supplied by the rule; weights, kept rows, columns, evidences "
    "and errors are compared with the documented estimators, also when the computation is interrupted and resumed.")
ASSUMPTIONS = ["posteriors of a few rows and two parameters stand for larger ones", "process pools map their function over the samples in order"]

R = "bilby.core.result."
HALF = Fraction(1, 2)


def lg(x):
    return A.fn("log", const(x))


ROWS = 5
OLDL = [2, 3, 5, 4, 1]
OLDP = [1, 2, 1, HALF, 3]
NEWL = [4, 3, 1, 6, 5]
NEWP = [3, 1, 2, 2, 1]
SECL = [7, 2, 3, 1, 4]
SECP = [2, 5, 1, 3, 1]
PRIMES = [101, 103, 107, 109, 113]
DRAWS = [Fraction(x, 20) for x in (3, 11, 7, 19, 1, 13, 9, 17, 5, 15)]


class Lab:
    def __init__(self, prog, dec):
        self.prog, self.w = prog, World([], dec, scalar=True)
        self.uniforms, self.saves, self.files, self.stop = [], [], {}, None
        self.evaluated = []
        rng = Obj("rng", {}, {"uniform": self.uniform, "random": lambda i, a, k: self.uniform(i, [], {"size": a[0] if a else k.get("size")})})
        e = dict(EXTERNALS)
        ident = lambda i, a, k: a[0]        # noqa: E731
        e.update({
            "bilby.core.utils.random.rng": rng, "tqdm.auto.tqdm": ident, "tqdm.tqdm": ident, "os.path.abspath": ident,
            "bilby.core.utils.io.recursively_decode_bilby_json": ident, "multiprocessing.Pool": self.pool, "multiprocessing.pool.Pool": self.pool,
            "numpy.genfromtxt": self.read, "numpy.loadtxt": self.read, "numpy.savetxt": self.write, "os.replace": self.move, "os.rename": self.move,
            "shutil.move": self.move, "os.path.exists": lambda i, a, k: a[0] in self.files, "os.path.isfile": lambda i, a, k: a[0] in self.files,
            "inspect.signature": lambda i, a, k: Obj("signature", {"parameters": getattr(a[0], "params", {})}),
            "bilby.core.utils.log.get_version_information": lambda i, a, k: "v", "bilby.core.utils.get_version_information": lambda i, a, k: "v",
        })
        self.it = Interp(prog, self.w, limit=200000, externals=e)

    def uniform(self, it, a, k):
        low, high, size = (list(a) + [k.get(n, d) for n, d in (("low", ZERO), ("high", ONE), ("size", None))][len(a):])[:3]
        n = [integer(x) for x in (size if isinstance(size, (list, T)) else [size])] if size is not None else []
        at = len(self.uniforms)
        self.uniforms.append(n)
        if not n:
            return low + const(DRAWS[at]) * (high - low)
        if len(n) != 1:
            raise Undecided("shape of draws")
        return Arr(low + const(DRAWS[(at * 3 + i) % len(DRAWS)]) * (high - low) for i in range(n[0]))

    def pool(self, it, a, k):
        run = lambda i, b, kw: [it.apply(b[0], [x]) for x in it.iterate(b[1])]       # noqa: E731
        none = lambda i, b, kw: None         # noqa: E731
        o = Obj("pool", {}, {"imap": run, "map": run, "close": none, "join": none, "terminate": none, "__exit__": none})
        o.hooks["__enter__"] = lambda i, b, kw: o
        return o

    def read(self, it, a, k):
        if a[0] not in self.files:
            raise PyExc("FileNotFoundError")
        return Arr(Arr(r) for r in self.files[a[0]])

    def write(self, it, a, k):
        self.files[a[0]] = [list(r) for r in a[1]]
        self.saves.append(a[0])

    def move(self, it, a, k):
        self.files[a[1]] = self.files.pop(a[0])

    def likelihood(self, table):
        def log_likelihood(i, a, k):
            p = o.attrs["parameters"]
            for j in range(ROWS):
                if p.get("a") == sym("a%d" % j) and p.get("b") == sym("b%d" % j):
                    return lg(table[j])
            return sym("mixed")
        o = Obj("likelihood", {"parameters": {"a": None, "b": None}}, {"log_likelihood": log_likelihood})
        return o

    def prior(self, table, stop=None):
        """a dictionary of priors: the row's prior only comes out when both of its values are used"""
        seen = []
        pc, pd = (self.prog.classes.get("bilby.core.prior." + n) for n in ("base.Prior", "dict.PriorDict"))

        def part(name, f):
            def ln_prob(i, a, k):
                for j in range(ROWS):
                    if a[0] == sym("%s%d" % (name, j)):
                        return lg(f(j))
                return sym("mixed " + name)

            def first(i, a, k):
                seen.append(1)
                if stop is not None and len(seen) == stop:
                    raise PyExc("KeyboardInterrupt")
                return ln_prob(i, a, k)
            return Obj(pc, {"name": name, "_is_fixed": False}, {"ln_prob": first if name == "a" else ln_prob}, label="new " + name)
        c = Obj(pc, {"name": "c", "_is_fixed": True}, {"ln_prob": lambda i, a, k: INF}, label="new c")
        d = {"b": part("b", lambda j: Fraction(1, PRIMES[j])), "c": c, "a": part("a", lambda j: Fraction(table[j]) * PRIMES[j])}
        if pd is None:
            def ln_prob(i, a, k):
                p = a[0].items if isinstance(a[0], Obj) else a[0]
                s = ZERO
                for x in "ab":
                    s = s + d[x].hooks["ln_prob"](i, [p[x]], {})
                return s
            return Obj("newpriors", {"non_fixed_keys": ["b", "a"]}, {"ln_prob": ln_prob}, d)
        o = self.it.new(pd, [d], {})
        o.hooks["normalize_constraint_factor"] = lambda i, a, k: ONE
        return o

    def frame(self, rows=ROWS, tag="", extra=()):
        c = {"a": [sym("a%s%d" % (tag, i)) for i in range(rows)], "b": [sym("b%s%d" % (tag, i)) for i in range(rows)],
             "log_likelihood": [lg(x) for x in OLDL[:rows]], "log_prior": [lg(x) for x in OLDP[:rows]],
             "c": [sym("peak")] * rows, "derived": [sym("derived%s%d" % (tag, i)) for i in range(rows)]}
        c.update(extra)
        return Table(c)

    def component(self, label):
        """a prior, equal to those of the same label"""
        pc = self.prog.classes.get("bilby.core.prior.base.Prior")
        return Obj(pc, {"name": label[-1], "_is_fixed": False}, {"__eq__": lambda i, a, k: isinstance(a[0], Obj) and a[0].label == label}, label=label)

    def result(self, **kw):
        pd = self.prog.classes.get("bilby.core.prior.dict.PriorDict")
        pr = {k: self.component("prior " + k) for k in "ab"}
        d = dict(label="run", outdir="dir", sampler="dynesty", search_parameter_keys=["a", "b"], priors=self.it.new(pd, [pr], {}) if pd is not None else None,
                 parameter_labels=["a", "b"], parameter_labels_with_unit=["a", "b"], meta_data={"m": "x"}, version="v", log_evidence=sym("lZ"),
                 log_noise_evidence=sym("lN"), log_bayes_factor=sym("lZ") - sym("lN"), posterior=self.frame())
        d.update(kw)
        return self.it.new(self.prog.classes[R + "Result"], [], d)


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("weights", "reweighting weights are the ratio of new to old likelihood times prior of the same row, also after an interruption", floor=3 * k)
    ctx.rule("reweight", "a reweighted result keeps rows in proportion to their weight and updates likelihood, prior, evidence and labels", floor=3 * k)
    ctx.rule("combine", "combined results follow the evidences of the runs; inconsistent runs are rejected", floor=4 * k)
    ctx.rule("summary", "posterior columns, credible levels and summary values follow their definitions", floor=3 * k)
    r = Rule(ctx)
    weights(r, prog)
    if R + "Result" in prog.classes:
        reweight(r, prog)
        combine(r, prog)
        summary(r, prog)


def row(i, new=(None, None), old=(None, None)):
    """new/old: (likelihood table, prior table), None: as stored"""
    ol, op = old[0] or OLDL, old[1] or OLDP
    nl, np_ = new[0] or ol, new[1] or op
    return lg(nl[i]) + lg(np_[i]) - lg(ol[i]) - lg(op[i]), lg(nl[i]), lg(np_[i]), lg(ol[i]), lg(op[i])


NAMES = ("log weights", "new likelihoods", "new priors", "old likelihoods", "old priors")
SCEN = {"new likelihood": ((NEWL, None), (None, None)), "new prior": ((None, NEWP), (None, None)), "new likelihood and prior": ((NEWL, NEWP), (None, None)),
        "given old likelihood": ((NEWL, NEWP), (SECL, None)), "given old prior": ((NEWL, NEWP), (None, SECP)), "given old likelihood and prior": ((NEWL, NEWP), (SECL, SECP)),
        "old likelihood and prior only": ((None, None), (SECL, SECP))}


def args(b, new, old):
    k = {}
    for side, (li, pr) in (("new", new), ("old", old)):
        if li is not None:
            k[side + "_likelihood"] = b.likelihood(li)
        if pr is not None:
            k[side + "_prior"] = b.prior(pr)
    return k


def weights(r, prog):
    f = prog.by_qual.get(R + "get_weights_for_reweighting")
    for what, (new, old) in SCEN.items() if f is not None else ():
        def thunk(dec):
            b = Lab(prog, dec)
            res = Obj("result", {"posterior": b.frame()})
            out = b.it.callf(f, [res], args(b, new, old))
            got = [(n, out[j], [row(i, new, old)[j] for i in range(ROWS)]) for j, n in enumerate(NAMES)]
            return got + [("columns left in the posterior", list(res.attrs["posterior"].items) == ["a", "b", "log_likelihood", "log_prior", "c", "derived"], True)]
        r.report("weights", "weights with " + what, f, r.run(thunk), several(r))
        for every in (1, 2, 3):
            for stop in range(1, ROWS + 1):
                if new[1] is None:
                    continue

                def thunk(dec):
                    b = Lab(prog, dec)
                    k = args(b, new, old)
                    k.update(resume_file="resume.txt", n_checkpoint=const(every))
                    try:
                        b.it.callf(f, [Obj("result", {"posterior": b.frame()})], dict(k, new_prior=b.prior(new[1], stop)))
                    except PyExc as e:
                        if e.name != "KeyboardInterrupt":
                            raise
                    out = b.it.callf(f, [Obj("result", {"posterior": b.frame()})], k)
                    return [(n, out[j], [row(i, new, old)[j] for i in range(ROWS)]) for j, n in enumerate(NAMES)]
                r.report("weights", "weights with %s resumed after %d of %d samples, checkpoints every %d" % (what, stop - 1, ROWS, every), f, r.run(thunk), several(r))
    f = prog.by_qual.get(R + "rejection_sample")
    if f is not None:
        w = [const(x) for x in (4, 1, 3, 2, HALF)]

        def thunk(dec):
            b = Lab(prog, dec)
            out = b.it.callf(f, [b.frame(), Arr(w)], {})
            arr = b.it.callf(f, [Arr(Arr([sym("a%d" % i)]) for i in range(ROWS)), Arr(w)], {})
            keep = [i for i in range(ROWS) if A.const_of(w[i]) > 4 * DRAWS[i]]
            keep2 = [i for i in range(ROWS) if A.const_of(w[i]) > 4 * DRAWS[3 + i]]
            return [("kept rows", list(out.items["a"]), [sym("a%d" % i) for i in keep]), ("kept values", list(out.items["log_prior"]), [lg(OLDP[i]) for i in keep]),
                    ("kept rows of an array", [x[0] for x in arr], [sym("a%d" % i) for i in keep2])]
        r.report("reweight", "rejection sampling", f, r.run(thunk), several(r))


def exp_(x):
    return A.exp(x)


def reweight(r, prog):
    f = prog.by_qual.get(R + "reweight")
    if f is None:
        return
    for what, (new, old) in SCEN.items():
        for opt in ("", "label", "conversion", "conversion with pool", "nested", "verbose"):
            if opt and what not in ("new likelihood and prior", "new prior"):
                continue

            def thunk(dec):
                b = Lab(prog, dec)
                nested = [HALF, 1, Fraction(1, 4), 2, Fraction(1, 3)]
                kw = {}
                if opt == "nested":
                    kw["nested_samples"] = b.frame(extra={"weights": [const(x) for x in nested]})
                    kw["posterior"] = b.frame(rows=2)
                res = b.result(**kw)
                before = dict(res.attrs)
                k = args(b, new, old)
                calls = []
                if opt.startswith("conversion"):
                    def convert(it, a, q):
                        calls.append((a[1:], q))
                        t = a[0].clone()
                        t.put("extra", [A.fn("@extra", x) for x in t.items["a"]])
                        return t
                    c = Py(convert)
                    c.params = {"sample": 1, "likelihood": 1, "priors": 1}
                    if opt.endswith("pool"):
                        c.params["npool"] = 1
                    k.update(conversion_function=c, npool=const(3))
                if opt == "label":
                    k["label"] = "other"
                if opt == "nested":
                    k["use_nested_samples"] = True
                if opt == "verbose":
                    k["verbose_output"] = True
                out = b.it.callf(f, [res], k)
                extra = []
                lw = [row(i, new, old)[0] for i in range(ROWS)]
                if opt == "nested":
                    lw = [x + lg(nested[i]) for i, x in enumerate(lw)]
                if opt == "verbose":
                    names = ("weights", "new likelihoods", "new priors", "old likelihoods", "old priors")
                    extra = [("returned " + n, out[1 + j], [exp_(lw[i]) if j == 0 else row(i, new, old)[j] for i in range(ROWS)]) for j, n in enumerate(names)]
                    out = out[0]
                w = [A.const_of(exp_(x)) for x in lw]
                keep = [i for i in range(ROWS) if w[i] > max(w) * DRAWS[i]]
                post = b.it.getattr(out, "posterior")
                tot = const(sum(w)) if opt == "nested" else const(sum(w) / ROWS)
                lz = sym("lZ") + A.log(tot)
                got = [("kept rows", list(post.items["a"]), [sym("a%d" % i) for i in keep]), ("kept rows of b", list(post.items["b"]), [sym("b%d" % i) for i in keep]),
                       ("likelihood column", list(post.items["log_likelihood"]), [row(i, new, old)[1] for i in keep]),
                       ("prior column", list(post.items["log_prior"]), [row(i, new, old)[2] for i in keep]),
                       ("row labels", post.index == list(range(len(keep))), True),
                       ("log evidence", b.it.getattr(out, "log_evidence"), lz), ("log Bayes factor", b.it.getattr(out, "log_bayes_factor"), lz - sym("lN")),
                       ("label", b.it.getattr(out, "label") == ("other" if opt == "label" else "run_reweighted"), True),
                       ("the given result's label", res.attrs["label"] == "run", True), ("the given result's meta data", dict(b.it.getattr(res, "meta_data")) == {"m": "x"}, True), ("the given result's evidence", res.attrs["log_evidence"], sym("lZ")),
                       ("the given result's rows", len(b.it.getattr(res, "posterior").items["a"]) == (2 if opt == "nested" else ROWS), True),
                       ("the given result's likelihoods", list(b.it.getattr(res, "posterior").items["log_likelihood"]), [lg(x) for x in OLDL[:2 if opt == "nested" else ROWS]])]
                pri = b.it.getattr(out, "priors").items
                want = "new " if new[1] is not None else "prior "
                got.append(("priors", [pri[q].label for q in "ab"] == [want + q for q in "ab"], True))
                old_pri = b.it.getattr(res, "priors").items
                got.append(("the given result's priors", [old_pri[q].label for q in "ab"] == ["prior " + q for q in "ab"], True))
                if opt.startswith("conversion"):
                    got.append(("converted column", list(post.items.get("extra", [])), [A.fn("@extra", sym("a%d" % i)) for i in keep]))
                    got.append(("conversion arguments", len(calls) == 1 and calls[0][0] == [k.get("new_likelihood"), k.get("new_prior")]
                                and calls[0][1] == ({"npool": const(3)} if opt.endswith("pool") else {}), True))
                del before
                return got + extra
            r.report("reweight", "reweighting with %s%s" % (what, ", " + opt if opt else ""), f, r.run(thunk), several(r))


def combine(r, prog):
    cls = prog.classes.get(R + "ResultList")
    f = cls.find("combine") if cls is not None else None
    if f is None:
        return
    LZ, SIZES = [4, 6, 3], [4, 5, 3]

    def runs(b, sampler="dynesty", nested=True, errs=("s0", "s1", "s2"), over=(), common=None):
        out = []
        for i in range(3):
            kw = dict(sampler=sampler, log_evidence=lg(LZ[i]), log_evidence_err=sym(errs[i]) if errs[i] else NAN, posterior=b.frame(SIZES[i], "r%d_" % i), label="run%d" % i)
            if nested:
                kw["nested_samples"] = b.frame(2, "n%d_" % i)
            for j, key, v in over:
                if i == j:
                    kw[key] = v(b) if callable(v) else v
            o = b.result(**kw)
            if common is not None and "priors" in common:
                o.attrs["_priors"] = common["priors"]
            elif i and "_priors" in out[0].attrs and not any(key == "priors" and j == i for j, key, v in over):
                o.attrs["_priors"] = out[0].attrs["_priors"]
            out.append(o)
        return out

    def go(b, rs, **k):
        lst = b.it.new(cls, [list(rs)], {})
        return b.it.method(lst, "combine", **k)

    lz = A.log(const(Fraction(sum(LZ), 3)))
    for kind in ("nested", "bilby_mcmc", "emcee"):
        for shuffle in (False, True):
            for errs in (("s0", "s1", "s2"), ("s0", None, "s2"), (None, None, None)):
                if kind == "emcee" and errs[0] is None or shuffle and errs[1] is None:
                    continue

                def thunk(dec):
                    b = Lab(prog, dec)
                    rs = runs(b, "dynesty" if kind == "nested" else kind, kind == "nested", errs)
                    perm = []

                    def sample(it, n, random_state=None, frac=None, me=None):
                        if integer(n) != me.size() or random_state is not it.ext["bilby.core.utils.random.rng"]:
                            raise Undecided("sample")
                        perm.append(1)
                        return me.rows(list(reversed(range(me.size()))))
                    Table.do_sample = lambda me, it, *a, **k: sample(it, *a, me=me, **k)
                    try:
                        out = go(b, rs, **({"shuffle": True} if shuffle else {}))
                    finally:
                        del Table.do_sample
                    post = b.it.getattr(out, "posterior")
                    keep = []
                    for i, n in enumerate(SIZES):
                        for j in range(n):
                            if kind != "nested" or DRAWS[(i * 3 + j) % len(DRAWS)] < Fraction(LZ[i], max(LZ)):
                                keep.append((i, j))
                    if shuffle:
                        keep.reverse()
                    got = [("rows", list(post.items["a"]), [sym("ar%d_%d" % x) for x in keep]), ("rows of b", list(post.items["b"]), [sym("br%d_%d" % x) for x in keep]),
                           ("likelihoods", list(post.items["log_likelihood"]), [lg(OLDL[j]) for i, j in keep]),
                           ("label", b.it.getattr(out, "label") == "run0_combined", True), ("the first run's label", rs[0].attrs["label"] == "run0", True),
                           ("the first run's rows", len(b.it.getattr(rs[0], "posterior").items["a"]) == SIZES[0], True)]
                    if not shuffle:
                        got.append(("row labels", post.index == list(range(len(keep))), True))
                    if kind != "emcee":
                        fin = [sym(e) for e in errs if e]
                        err = None
                        if fin:
                            s = ZERO
                            for e in fin:
                                s = s + A.exp(const(2) * e)
                            err = const(HALF) * A.log(s / const(3))
                        got += [("log evidence", b.it.getattr(out, "log_evidence"), lz), ("log Bayes factor", b.it.getattr(out, "log_bayes_factor"), lz - sym("lN")),
                                ("log evidence error", b.it.getattr(out, "log_evidence_err"), NAN if err is None else err),
                                ("the first run's evidence", rs[0].attrs["log_evidence"], lg(LZ[0]))]
                    if kind == "nested":
                        got.append(("nested samples", out.attrs["_nested_samples"], None))
                    return got
                r.report("combine", "%s runs%s%s" % (kind, ", shuffled" if shuffle else "", "" if all(errs) else ", evidence errors %s" % ([bool(e) for e in errs],)), f, r.run(thunk), several(r))

    def thunk(dec):
        b = Lab(prog, dec)
        rs = runs(b)[:1]
        out = go(b, rs)
        return [("a new result", out is not rs[0], True), ("evidence", b.it.getattr(out, "log_evidence"), lg(LZ[0])), ("rows", list(b.it.getattr(out, "posterior").items["a"]), [sym("ar0_%d" % j) for j in range(SIZES[0])])]
    r.report("combine", "a single run", f, r.run(thunk), several(r))

    def other(*names):
        return lambda b: b.it.new(prog.classes["bilby.core.prior.dict.PriorDict"], [{n[-1]: b.component(n) for n in names}], {})
    bad = {"another sampler": (1, "sampler", "emcee"), "another noise evidence": (2, "log_noise_evidence", const(3)), "other parameters": (1, "search_parameter_keys", ["a", "c"]),
           "an additional prior": (2, "priors", other("prior a", "prior b", "prior c")), "a prior missing": (1, "priors", other("prior a")),
           "another prior": (2, "priors", other("prior a", "another b")), "a prior for another parameter": (2, "priors", other("prior a", "prior c")), "no nested samples": (1, "nested_samples", None)}
    for what, over in bad.items():
        for level in ("default", "error", "warning", "ignore"):
            def thunk(dec):
                b = Lab(prog, dec)
                ov = [over]
                if what == "another noise evidence":
                    ov += [(i, "log_noise_evidence", const(1)) for i in range(2)]
                rs = runs(b, over=ov)
                try:
                    out = go(b, rs, **({} if level == "default" else {"consistency_level": level}))
                except PyExc as e:
                    return e.name.split(".")[-1]
                return len(b.it.getattr(out, "posterior").items["a"])
            strict = level in ("default", "error") or what == "no nested samples"
            r.report("combine", "runs with %s, level %s" % (what, level), f, r.run(thunk),
                     (lambda got, dec: None if got == "ResultListError" else "gives %s" % got) if strict else
                     (lambda got, dec: None if not isinstance(got, str) else "raises %s" % got))


def summary(r, prog):
    cls = R + "Result"
    find = prog.classes[cls].find
    f = find("samples_to_posterior")
    if f is not None:
        for conv in (None, "plain", "pool"):
            for stored in (True, False):
                def thunk(dec):
                    b = Lab(prog, dec)
                    samples = Arr(Arr([sym("b%d" % i), sym("a%d" % i)]) for i in range(ROWS))
                    res = b.result(samples=samples, search_parameter_keys=["b", "a"], posterior=None, log_likelihood_evaluations=Arr(sym("L%d" % i) for i in range(ROWS)),
                                   log_prior_evaluations=Arr(sym("p%d" % i) for i in range(ROWS)) if stored else None)
                    dc = prog.classes["bilby.core.prior.analytical.DeltaFunction"]
                    def ln_prob(i, a, k):
                        p = a[0].items if isinstance(a[0], Obj) else a[0]
                        if set(p) != {"a", "b"}:
                            raise PyExc("KeyError")
                        return Arr(A.fn("@lnp", x, y) for x, y in zip(p["a"], p["b"]))
                    fixed = Obj(dc, {"peak": sym("peak"), "name": "c"}, {"peak": None})
                    del fixed.hooks["peak"]
                    fixed.attrs["_peak"] = sym("peak")
                    pri = Obj("priors", {}, {"ln_prob": ln_prob}, {"a": Obj("prior"), "b": Obj("prior"), "c": fixed, "d": const(Fraction(7, 2))})
                    calls = []
                    k = {"priors": pri, "likelihood": Obj("likelihood")}
                    if conv:
                        def convert(it, a, q):
                            calls.append((a[1:], q))
                            t = a[0].clone()
                            t.put("extra", [A.fn("@extra", x) for x in t.items["a"]])
                            return t
                        k["conversion_function"] = c = Py(convert)
                        c.params = {"sample": 1, "npool": 1} if conv == "pool" else {"sample": 1}
                        k["npool"] = const(2)
                    b.it.method(res, "samples_to_posterior", **k)
                    p = b.it.getattr(res, "posterior").items
                    rows = range(ROWS)
                    out = [("column a", list(p["a"]), [sym("a%d" % i) for i in rows]), ("column b", list(p["b"]), [sym("b%d" % i) for i in rows]),
                           ("fixed column", list(p["c"]), [sym("peak")] * ROWS), ("column of a number", list(p["d"]), [const(Fraction(7, 2))] * ROWS),
                           ("likelihood", list(p["log_likelihood"]), [sym("L%d" % i) for i in rows]),
                           ("prior", list(p["log_prior"]), [sym("p%d" % i) if stored else A.fn("@lnp", sym("a%d" % i), sym("b%d" % i)) for i in rows])]
                    if conv:
                        out.append(("converted column", list(p["extra"]), [A.fn("@extra", sym("a%d" % i)) for i in rows]))
                        out.append(("conversion arguments", calls[0][0] == [k["likelihood"], pri] and calls[0][1] == ({"npool": const(2)} if conv == "pool" else {}), True))
                    return out
                r.report("summary", "posterior from samples, conversion %s, priors %s" % (conv, "stored" if stored else "evaluated"), f, r.run(thunk), several(r))
    f = find("get_injection_credible_level")
    if f is not None:
        vals = [3, 1, 4, 1, 5]
        for inj, weighted in ((4, False), (2, True), (1, False), (9, True), (0, False)):
            def thunk(dec):
                b = Lab(prog, dec)
                t = b.frame()
                t.put("a", [const(x) for x in vals])
                t.put("z", [const(-x) for x in vals])
                ws = [const(x) for x in (2, 1, 3, 5, 4)]
                res = b.result(posterior=t, injection_parameters={"a": const(inj), "q": const(1)})
                k = {"weights": Arr(ws)} if weighted else {}
                ws = [A.const_of(x) for x in ws] if weighted else [1] * ROWS
                want = Fraction(sum(w for x, w in zip(vals, ws) if x < inj), sum(ws))
                return [("level", b.it.method(res, "get_injection_credible_level", "a", **k), const(want)),
                        ("level of a parameter that was not injected", b.it.method(res, "get_injection_credible_level", "b", **k), NAN),
                        ("level of a parameter without samples", b.it.method(res, "get_injection_credible_level", "q", **k), NAN)]
            r.report("summary", "credible level of %d%s" % (inj, ", weighted" if weighted else ""), f, r.run(thunk), several(r))
    f = find("get_weights_by_new_prior")
    if f is not None:
        for names in (None, ["a"]):
            for labels in (None, [3, 1, 0, 4, 2]):
                def thunk(dec):
                    b = Lab(prog, dec)
                    t = b.frame()
                    t = Table({k: list(v) for k, v in t.items.items()}, labels)
                    res = b.result(posterior=t)

                    def priors(tag, keys, con):
                        d = {k: Obj("prior", {}, {"prob": lambda i, a, q, k=k: A.fn("@%s%s" % (tag, k), a[0])}) for k in keys}

                        def ev(i, a, q):
                            s = a[0].items if isinstance(a[0], Obj) else a[0]
                            return con(s)
                        return Obj("priors", {}, {"evaluate_constraints": ev}, d)
                    zero = sym("a2")
                    new = priors("new", "abz", lambda s: ZERO if s["a"] == zero else ONE)
                    old = priors("old", "ba", lambda s: ONE)
                    got = b.it.method(res, "get_weights_by_new_prior", old, new, **({"prior_names": names} if names else {}))
                    want = []
                    for i in range(ROWS):
                        w = ONE if i != 2 else ZERO
                        for k in (names or "ab"):
                            x = sym("%s%d" % (k, i))
                            w = w * A.fn("@new" + k, x) / A.fn("@old" + k, x)
                        want.append(w)
                    return [("weights", list(got), want)]
                r.report("summary", "weights by a new prior%s%s" % (", for a only" if names else "", ", shuffled row labels" if labels else ""), f, r.run(thunk), several(r))
    for name, of in (("log_10_bayes_factor", "log_bayes_factor"), ("log_10_evidence", "log_evidence"), ("log_10_evidence_err", "log_evidence_err"), ("log_10_noise_evidence", "log_noise_evidence")):
        f = find(name)
        if f is not None:
            def thunk(dec):
                b = Lab(prog, dec)
                res = b.result(log_evidence=sym("q_log_evidence"), log_bayes_factor=sym("q_log_bayes_factor"), log_evidence_err=sym("q_log_evidence_err"),
                               log_noise_evidence=sym("q_log_noise_evidence"))
                return [(name, b.it.getattr(res, name), sym("q_" + of) / A.fn("log", const(10)))]
            r.report("summary", name, f, r.run(thunk), several(r))
    f = find("bayesian_model_dimensionality")
    if f is not None:
        def thunk(dec):
            b = Lab(prog, dec)
            t = b.frame(3)
            xs = [sym("L%d" % i) for i in range(3)]
            t.put("log_likelihood", xs)
            m = (xs[0] + xs[1] + xs[2]) / const(3)
            sq = (xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2]) / const(3)
            return [("dimensionality", b.it.getattr(b.result(posterior=t), "bayesian_model_dimensionality"), const(2) * (sq - m * m))]
        r.report("summary", "bayesian_model_dimensionality", f, r.run(thunk), several(r))
    f = find("calculate_prior_values")
    if f is not None:
        def thunk(dec):
            b = Lab(prog, dec)
            res = b.result()
            dc = prog.classes["bilby.core.prior.analytical.DeltaFunction"]
            pri = {k: Obj("prior", {}, {"prob": lambda i, a, q, k=k: i.arrmap(lambda x: A.fn("@prob_" + k, x), a[0])}) for k in "baz"}
            pri["log_prior"] = Obj(dc, {"_peak": ONE, "name": "c"})
            b.it.method(res, "calculate_prior_values", pri)
            v = b.it.getattr(res, "prior_values").items
            return [("columns", sorted(v) == ["a", "b"], True)] + [("values of " + k, list(v[k]), [A.fn("@prob_" + k, sym("%s%d" % (k, i))) for i in range(ROWS)]) for k in "ab"]
        r.report("summary", "prior values", f, r.run(thunk), several(r))
    f = find("get_one_dimensional_median_and_error_bar")
    if f is not None:
        def thunk(dec):
            b = Lab(prog, dec)

            def percentile(it, a, k):
                v, q = (list(a) + [k[n] for n in ("a", "q")[len(a):]])[:2]
                if list(v) != [sym("b%d" % i) for i in range(ROWS)]:
                    return Arr([sym("wrong")] * 3)
                return it.arrmap(lambda x: A.fn("@percentile", x), q)
            b.it.ext["numpy.percentile"] = percentile
            b.it.ext["collections.namedtuple"] = lambda it, a, k: Obj(a[0])
            p = lambda x: A.fn("@percentile", const(x))       # noqa: E731
            out = b.it.method(b.result(), "get_one_dimensional_median_and_error_bar", "b")
            got = [("default " + n, b.it.getattr(out, n), v) for n, v in (("median", p(50)), ("plus", p(84) - p(50)), ("minus", p(50) - p(16)))]
            out = b.it.method(b.result(), "get_one_dimensional_median_and_error_bar", "b", quantiles=T((const(Fraction(1, 10)), const(Fraction(7, 10)))))
            return got + [("median", b.it.getattr(out, "median"), p(50)), ("plus", b.it.getattr(out, "plus"), p(70) - p(50)), ("minus", b.it.getattr(out, "minus"), p(50) - p(10))]
        r.report("summary", "median and error bar", f, r.run(thunk), several(r))


_SMALL = """
import numpy as np
def rejection_sample(posterior, weights):
    keep = weights > %s(weights) * random.rng.uniform(0, 1, weights.shape)
    return posterior[keep]

from ..core.utils import random

def get_weights_for_reweighting(result, new_likelihood=None, new_prior=None, old_likelihood=None, old_prior=None, resume_file=None, n_checkpoint=5000, npool=1):
    post = result.posterior
    rows = [{k: r[k] for k in post} for _, r in post.iterrows()]
    def prior(p):
        return np.array([p.ln_prob({"a": r["a"], "b": r["b"]}) for r in rows])
    def like(l):
        out = []
        for r in rows:
            l.parameters.update(r)
            out.append(l.log_likelihood())
        return np.array(out)
    ol = post["log_likelihood"].values if old_likelihood is None else like(old_likelihood)
    op = post["log_prior"].values if old_prior is None else prior(old_prior)
    nl = ol if new_likelihood is None else like(new_likelihood)
    np_ = op if new_prior is None else prior(new_prior)
    return %s, nl, np_, ol, op
"""


def _s(m, w):
    return {"bilby/core/result.py": _SMALL % (m, w)}


SELFTESTS = [
    ("weights", _s("np.max", "nl + np_ - ol - op"), None),
    ("old prior added", _s("np.max", "nl + np_ - ol + op"), "weights"),
    ("kept relative to the sum", _s("np.sum", "nl + np_ - ol - op"), "reweight"),
]
