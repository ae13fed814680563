"""N01: samplers evaluate the problem they were given and store points with their own values."""
import itertools
from fractions import Fraction

from .. import algebra as A
from ..algebra import ZERO, ONE, E, const, sym
from ..frame import EXTERNALS, Table
from ..interp import Obj, Arr, Py, PyExc, T, Fn, Cls, Ext, integer
from ..oblig import Rule
from ..valnum import Undecided, NINF, NAN, Sp
from . import p01_joint as p01

TITLE = "samplers evaluate the given problem and store every point with its own values"
EXPLANATION = (
    "Abstract evaluation: every sampler interface is constructed with priors and a likelihood that are uninterpreted functions of the parameters and run with the external "
    "sampling package replaced by a stand-in. The functions handed to the package are evaluated at symbolic points and compared with the prior and likelihood of the parameters at "
    "the positions of the search keys; the stand-in's output is labelled point by point and every row of the stored result is traced to the label it came from.")
ASSUMPTIONS = ["external packages call the functions they are given and return arrays in their documented layout", "three search parameters, one fixed and one constrained quantity stand for more",
               "four to twelve points stand for longer runs", "the bilby_mcmc, pymc and ptmcmc proposal code is outside this rule"]

S = "bilby.core.sampler."
KEYS = ("b", "c", "a")
ORDERS = [("b", "c", "a"), ("a", "b", "c"), ("c", "b", "a")]


def q(n, d=1):
    return const(Fraction(n, d))


class Lab(p01.Lab):
    def __init__(self, prog, dec, order=KEYS, cond=False, ratio=False, accept=None, ninf=()):
        p01.Lab.__init__(self, prog, dec, cond, order=order, ncon=1, accept=accept, ninf=ninf, scalar=True)
        self.order, self.ratio = order, ratio
        self.it.left = 400000
        it = self.it
        for k in order:
            o = it.getitem(self.pd, k)
            o.attrs.update({"_boundary": {"b": "periodic", "c": "reflective"}.get(k), "_minimum": sym("min_" + k), "_maximum": sym("max_" + k)})
            o.attrs.update({"minimum": o.attrs["_minimum"], "maximum": o.attrs["_maximum"], "boundary": o.attrs["_boundary"]})
        it.getitem(self.pd, "k0").attrs["_is_fixed"] = True
        delta = prog.classes.get("bilby.core.prior.analytical.DeltaFunction")
        if delta is None:
            raise Undecided("DeltaFunction")
        it.setitem(self.pd, "d", it.new(delta, [sym("peak")]))
        self.ninfs = ()         # draws whose likelihood vanishes
        self.evals = []
        self.like = Obj("likelihood", {"parameters": {"a": None, "b": None, "c": None, "d": None}, "meta_data": {}, "marginalized_parameters": [], "label": None},
                        {"log_likelihood": self.ll, "log_likelihood_ratio": self.llr, "noise_log_likelihood": lambda i, a, k: sym("noise")}, label="likelihood")
        self.points = {}        # point -> {"logl":, "logp":, "weight":}
        self.expected = None    # the points the posterior must hold, in any order
        self.report = []        # what the functions handed to the package do wrong
        self.files = {}
        self.clock = 0
        none = lambda i, a, k: None     # noqa: E731
        e = it.ext
        e.update(EXTERNALS)
        cmd = Obj("cmd", {"clean": False, "use_cached": False, "bilby_test_mode": False, "bilby_zero_likelihood_mode": False})
        e.update({
            "bilby.core.utils.command_line_args": cmd, "bilby.core.utils.cmd.command_line_args": cmd,
            "bilby.core.result.read_in_result": self.raiser("OSError"), "bilby.core.result.Result": self.result,
            "bilby.core.utils.check_directory_exists_and_if_not_mkdir": none, "bilby.core.utils.io.check_directory_exists_and_if_not_mkdir": none,
            "bilby.core.utils.random.seed": none, "bilby.core.utils.io.safe_file_dump": none, "bilby.core.utils.safe_file_dump": none,
            "bilby.core.utils.random.rng": Obj("rng", {}, {"uniform": self.uniform, "integers": self.integers}),
            "numpy.random.default_rng": lambda i, a, k: Obj("rng"), "datetime.datetime.now": self.now, "datetime.timedelta": lambda i, a, k: span(ZERO), "time.time": self.seconds,
            "mpi4py.MPI.COMM_WORLD.Get_size": lambda i, a, k: ONE, "signal.signal": none, "signal.SIGTERM": "TERM", "signal.SIGINT": "INT", "signal.SIGALRM": "ALRM",
            "tqdm.auto.tqdm": self.bar, "tqdm.tqdm": self.bar, "os.path.isfile": lambda i, a, k: a[0] in self.files, "os.path.exists": lambda i, a, k: a[0] in self.files,
            "os.path.getsize": lambda i, a, k: ONE if a[0] in self.files else self._raise("OSError"), "os.path.getmtime": self.seconds, "os.remove": none, "os.replace": none, "os.rename": none, "os.fsync": none, "os.getenv": none, "os.makedirs": none,
            "shutil.rmtree": none, "shutil.copytree": none, "shutil.move": none, "shutil.copyfile": none, "shutil.copyfileobj": none,
            "tempfile.TemporaryDirectory": lambda i, a, k: Obj("tempdir", {"name": "/scratch"}), "glob.glob": lambda i, a, k: [], "builtins.open": self.open, "numpy.loadtxt": self.load, "numpy.genfromtxt": self.load,
            "multiprocessing.Pool": lambda i, a, k: Obj("pool", {"map": Py(lambda j, x, y: [j.apply(x[0], [z]) for z in j.iterate(x[1])])}),
            "dill.pickles": lambda i, a, k: True, "inspect.stack": lambda i, a, k: [T([]), Obj("frame", {"function": "?"})],
            "packaging.version.parse": lambda i, a, k: const(Fraction(*[int(x) for x in (a[0].split(".") + ["0"])[:2]][:1])) if isinstance(a[0], str) else i._und("version"),
        })

    def _raise(self, n):
        raise PyExc(n)

    def raiser(self, n):
        return lambda i, a, k: self._raise(n)

    # -- the problem ------------------------------------------------------------
    def value(self, it):
        p = self.like.attrs["parameters"]
        if not isinstance(p, dict) or any(k not in p or not isinstance(p[k], (E, Sp)) for k in "abcd"):
            return self._raise("KeyError")
        n = len(self.evals)
        self.evals.append(tuple(p[k] for k in "abcd"))
        if any(u in repr([p[k] for k in "abc"]) for u in self.ninfs):
            return NINF
        return A.fn("@ll", *[p[k] for k in "abcd"])

    def ll(self, it, a, k):
        return self.value(it)

    def llr(self, it, a, k):
        v = self.value(it)
        return v - sym("noise") if isinstance(v, E) else v

    def at(self, theta):
        """the log likelihood the sampler must use at this point"""
        p = dict(zip(self.order, theta))
        v = A.fn("@ll", *[p[k] for k in "abc"], sym("peak"))
        return v - sym("noise") if self.ratio else v

    def prior_at(self, theta):
        p = dict(zip(self.order, theta))
        v = ZERO
        for k in "abc":
            v = v + self.term("ln_prob", k, p[k], p)
        return v

    def constraint_at(self, theta):
        p = dict(zip(self.order, theta))
        return ("con", 0, A.fn("@conv0", *[p[k] for k in "abc"]))

    def cube(self, u):
        v = {}
        for k in "abc":
            v[k] = self.term("rescale", k, u[self.order.index(k)], v)
        return [v[k] for k in self.order]

    # -- stand-ins ---------------------------------------------------------------
    def result(self, it, a, k):
        d = {"max_autocorrelation_time": None, "sampling_time": None, "meta_data": {}, "samples": None, "log_likelihood_evaluations": None, "log_prior_evaluations": None,
             "nested_samples": None, "num_likelihood_evaluations": None}
        d.update({n: v for n, v in k.items() if v is not None})
        return Obj("bilby.core.result.Result", d, {})

    def bar(self, it, a, k):
        return Obj("bar", {"n": ZERO}, {"__iter__": lambda i, x, y: i.iterate(a[0]), "close": lambda i, x, y: None, "update": lambda i, x, y: None, "set_postfix_str": lambda i, x, y: None})

    def now(self, it, a, k):
        self.clock += Fraction(5, 2)
        return Moment(const(self.clock))

    def seconds(self, it, a, k):
        self.clock += 1
        return const(self.clock)

    def uniform(self, it, a, k):
        low, high, size = (list(a) + [k.get(n, d) for n, d in (("low", ZERO), ("high", ONE), ("size", None))][len(a):])[:3]
        if isinstance(size, T):
            raise Undecided("draw")
        if self.one is not None and low == ZERO and high == ONE:
            return self.one if size is None else Arr([self.one] * integer(size))
        if size is None:
            self.draws["s"] = self.draws.get("s", 0) + 1
            return low + sym("u_%d" % self.draws["s"]) * (high - low)
        n = integer(size)
        self.draws["u"] = self.draws.get("u", 0) + 1
        m = self.draws["u"]
        if low == ZERO and high == ONE and m not in self.fixed_draws:
            return Arr(sym("u%d_%d" % (m, i)) for i in range(n))
        v = self.fixed_draws.get(m, self.fixed_draws.get("all"))
        if v is None or len(v) != n:
            raise Undecided("draw")
        return Arr(low + x * (high - low) for x in v)
    fixed_draws = {"all": [q(1, 7), q(4, 5), q(1, 5), q(1, 3)]}

    pick = one = None

    def integers(self, it, a, k):
        if self.pick is None:
            raise Undecided("draw")
        return self.pick

    def open(self, it, a, k):
        f = Obj("file", {}, {"write": lambda i, x, y: self.files.setdefault(a[0], []).append(x[0]), "readline": lambda i, x, y: i._und("readline")})
        f.hooks.update({"__enter__": lambda i, x, y: f, "__exit__": lambda i, x, y: None, "read": lambda i, x, y: "", "close": lambda i, x, y: None})
        return f

    tables = ()

    def load(self, it, a, k):
        for end, v in self.tables:
            if isinstance(a[0], str) and a[0].endswith(end):
                return v
        return self._raise("OSError")

    def starts(self, n):
        return [[sym("start%d_%s" % (i, k)) for k in self.order] for i in range(n)]

    def make(self, name, **kw):
        c = self.prog.classes.get(S + name)
        if c is None:
            raise Undecided("no class " + name)
        args = {"outdir": "o", "label": "l", "use_ratio": self.ratio, "skip_import_verification": True, "soft_init": True}
        args.update(kw)
        return self.it.new(c, [self.like, self.pd], args)

    # -- checks made while the stand-in runs -----------------------------------------
    def probe(self, logl=None, cube=None, prior=None, logpost=None, pair=None, floor=True, wrap=None, unwrap=None, vec=Arr):
        it = self.it
        t = [sym("t%d" % i) for i in range(3)]
        key = self.constraint_at(t)
        if cube is not None:
            u = [sym("u%d" % i) for i in range(3)]
            got = it.apply(cube, [Arr(u)])
            got = list(got) if isinstance(got, (list, T)) else None
            want = self.cube(u)
            if got is None or len(got) != 3 or any(g != w for g, w in zip(got, want)):
                self.report.append("the prior transform gives %s instead of %s" % (str(got)[:160], str(want)[:160]))
        if prior is not None:
            got = it.apply(prior, [wrap(t) if wrap else vec(t)])
            want = self.prior_at(t)
            ok = self.w.dec.get(key) is not False
            if unwrap:
                got = unwrap(got)
            if ok and got != want + A.fn("log", sym("factor")) or not ok and got != NINF:
                self.report.append("the log prior is %s instead of %s" % (str(got)[:160], str(want)[:120] if ok else "-inf"))
        if logl is not None:
            got = it.apply(logl, [wrap(t) if wrap else vec(t)])
            if unwrap:
                got = unwrap(got)
            ok = self.w.dec.get(key) is not False
            if not floor or ok:
                if got != self.at(t):
                    self.report.append("the log likelihood is %s instead of %s" % (str(got)[:160], str(self.at(t))[:120]))
                if floor and key not in self.w.dec:
                    self.report.append("the constraint is not evaluated at the point")
            elif not very_low(got):
                self.report.append("the log likelihood is %s where the constraint fails" % str(got)[:120])
        if logpost is not None:
            got = it.apply(logpost, [vec(t)])
            ok = self.w.dec.get(key) is not False
            lp, l = self.prior_at(t) + A.fn("log", sym("factor")), self.at(t)
            if not isinstance(got, T) or len(got) != 2 or not isinstance(got[1], (list, T)) or len(got[1]) != 2:
                raise Undecided("log posterior")
            if ok and (got[0] != l + lp or got[1][0] != l or got[1][1] != lp):
                self.report.append("the log posterior and its terms are %s" % str(got)[:200])
            if not ok and (got[0] != NINF or got[1][1] != NINF):
                self.report.append("the log posterior is %s where the prior vanishes" % str(got[0])[:100])
        if pair is not None:
            got = it.apply(pair, [vec(t)])
            ok = self.w.dec.get(key) is not False
            lp, l = self.prior_at(t) + A.fn("log", sym("factor")), self.at(t)
            if ok and (not isinstance(got, T) or got[0] != l or got[1] != lp) or not ok and got[1] != NINF:
                self.report.append("log likelihood and log prior are %s" % str(got)[:200])

    def rows(self, n, shape=None):
        """labelled points"""
        out = Arr()
        for i in range(n):
            m = len(self.points)
            p = tuple(q(1000 * (j + 1) + m) for j in range(3))
            self.points[p] = {"logl": q(-7 - 3 * m), "logp": q(-1 - m, 2), "weight": q([3, 5, 1, 4, 2, 6][m % 6], 8 + m // 6)}
            out.append(Arr(p))
        return out

    def info(self, rows, what):
        return Arr(self.points[tuple(r)][what] for r in rows)

    # -- the stored result --------------------------------------------------------------
    def trace(self, res, nested=True, logl=True, logp=False, weight="weights", wvalue=None):
        out = list(self.report)
        a = res.attrs
        s = a.get("samples")
        if not isinstance(s, Arr) or not all(isinstance(r, Arr) and len(r) == 3 for r in s):
            if isinstance(s, Obj):
                raise Undecided("samples")
            out.append("samples are %s" % str(s)[:100])
            return out
        pts = [tuple(r) for r in s]
        for p in pts:
            if p not in self.points:
                out.append("a stored sample %s is not a point of the run" % (tuple(map(str, p)),))
                return out
        if self.expected is not None and sorted(map(repr, pts)) != sorted(map(repr, self.expected)):
            out.append("the posterior holds %d points, not the %d it should" % (len(pts), len(self.expected)))
        for use, attr, what in ((logl, "log_likelihood_evaluations", "logl"), (logp, "log_prior_evaluations", "logp")):
            if not use:
                continue
            v = a.get(attr)
            if not isinstance(v, (Arr, list)) or len(v) != len(pts):
                out.append("%s has %s entries for %d samples" % (attr, len(v) if isinstance(v, (Arr, list)) else str(v)[:40], len(pts)))
                continue
            for p, x in zip(pts, v):
                if x != self.points[p][what]:
                    out.append("%s gives %s for the sample that has %s" % (attr, x, self.points[p][what]))
                    break
        if nested:
            n = a.get("nested_samples")
            if not isinstance(n, Table) or not set(self.order) <= set(n.items):
                out.append("nested samples %s" % (list(n.items) if isinstance(n, Table) else str(n)[:60]))
                return out
            for i in range(n.size()):
                p = tuple(list.__getitem__(n.items[k], i) for k in self.order)
                if p not in self.points:
                    out.append("row %d of the nested samples is not a point of the run: %s" % (i, [str(x) for x in p]))
                    break
                for col, want in (("log_likelihood", self.points[p]["logl"]), (weight, wvalue(p) if wvalue else self.points[p]["weight"])):
                    if col is None:
                        continue
                    if col not in n.items:
                        out.append("nested samples lack %s" % col)
                    elif list.__getitem__(n.items[col], i) != want:
                        out.append("nested samples give %s = %s for a point with %s" % (col, list.__getitem__(n.items[col], i), want))
                if out:
                    break
            if n.size() != len(self.points):
                out.append("nested samples have %d rows for %d points" % (n.size(), len(self.points)))
        return out


class Moment(Obj):
    def __init__(self, v):
        Obj.__init__(self, "datetime.datetime", {}, {"__sub__": lambda i, a, k: span(v - a[0].v)})
        self.v = v

    def clone(self):
        return self


def span(v):
    o = Obj("datetime.timedelta", {"seconds": A.fn("@floor", v)}, {"total_seconds": lambda i, a, k: v})
    o.v = v
    o.clone = lambda: o
    o.hooks["__add__"] = lambda i, a, k: span(v + a[0].v)
    return o


def very_low(v):
    if v == NINF:
        return True
    return isinstance(v, E) and A.is_const(v) and A.const_of(v) < -10 ** 100 or isinstance(v, E) and "nan_to_num" in str(v)


# -- one driver per external package: install the stand-in, run, return (result, options of the comparison) --------------
def nestle(lab):
    def sample(it, a, k):
        b = dict(zip(("loglikelihood", "prior_transform", "ndim"), a))
        b.update(k)
        lab.probe(logl=b["loglikelihood"], cube=b["prior_transform"])
        if integer(b["ndim"]) != 3:
            lab.report.append("ndim is %s" % b["ndim"])
        rows = lab.rows(4)
        lab.out = Obj("nestle result", {"samples": rows, "weights": lab.info(rows, "weight"), "logl": lab.info(rows, "logl"), "logz": sym("logz"), "logzerr": sym("logzerr"), "h": sym("H")})
        return lab.out

    def resample(it, a, k):
        if a[1] != lab.out.attrs["weights"]:
            lab.report.append("resampled with other weights")
        keep = [2, 0, 1, 0]
        lab.expected = [tuple(a[0][i]) for i in keep]
        return Arr(Arr(a[0][i]) for i in keep)
    lab.it.ext.update({"nestle.sample": sample, "nestle.resample_equal": resample, "nestle.__version__": "0.2.1", "nestle.print_progress": lambda i, a, k: None})
    res = lab.it.method(lab.make("nestle.Nestle"), "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    return lab.trace(res)


def evidence(lab, res, z, err):
    for n, v in (("log_evidence", z), ("log_evidence_err", err)):
        g = res.attrs.get(n)
        if v is not None and g != v:
            lab.report.append("%s is %s instead of %s" % (n, str(g)[:60], str(v)[:60]))


def ultranest(lab):
    class Run:
        pass

    def integrator(it, a, k):
        b = dict(zip(("param_names", "loglike", "transform"), a))
        b.update(k)
        if list(b["param_names"]) != list(lab.order):
            lab.report.append("the parameter names are %s" % list(b["param_names"]))
        lab.probe(logl=b["loglike"], cube=b["transform"])
        wrapped(lab, b.get("wrapped_params"))

        def run(it, a, k):
            rows = lab.rows(4)
            w = lab.info(rows, "weight")
            lab.expected = [tuple(r) for r, x, u in zip(rows, w, lab.fixed_draws["all"]) if A.const_of(u) < A.const_of(x) / max(A.const_of(y) for y in w)]
            return {"weighted_samples": {"points": [list(r) for r in rows], "weights": list(w), "logl": list(lab.info(rows, "logl"))}, "logz": sym("logz"), "logzerr": sym("logzerr")}
        return Obj("ultranest sampler", {}, {"run": run})
    lab.it.ext.update({"ultranest.integrator.ReactiveNestedSampler": integrator, "ultranest.integrator.NestedSampler": integrator})
    lab.fixed_draws = dict(lab.fixed_draws)
    lab.fixed_draws[1] = lab.fixed_draws["all"]
    s = lab.make("ultranest.Ultranest", temporary_directory=False)
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    return lab.trace(res)


def wrapped(lab, w):
    want = [k == "b" for k in lab.order]
    if w is not None and (len(w) != 3 or [x == ONE or x is True for x in w] != want):
        lab.report.append("periodic parameters are marked %s for the keys %s" % ([str(x) for x in w], list(lab.order)))


def pymultinest(lab):
    def solve(it, a, k):
        lab.probe(logl=k["LogLikelihood"], cube=k["Prior"])
        wrapped(lab, k.get("wrapped_params"))
        rows = lab.rows(2)
        dead = Arr(Arr(list(r) + [lab.points[tuple(r)]["logl"], q(-1), ONE]) for r in rows)
        more = lab.rows(2)
        live = Arr(Arr(list(r) + [lab.points[tuple(r)]["logl"], ONE]) for r in more)
        every = list(rows) + list(more)
        lab.expected = [tuple(every[i]) for i in (3, 1, 0)]
        lab.tables = (("post_equal_weights.dat", Arr(Arr(list(p) + [lab.points[p]["logl"]]) for p in lab.expected)), ("ev.dat", dead), ("phys_live.points", live))
        return {"logZ": sym("logz"), "logZerr": sym("logzerr")}
    lab.it.ext.update({"pymultinest.solve": solve, "importlib.import_module": lambda i, a, k: Obj("module")})
    s = lab.make("pymultinest.Pymultinest", temporary_directory=False)
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    return lab.trace(res, weight=None)


def cpnest(lab):
    def run(it, a, k):
        m = a[0]
        names = it.getattr(m, "names")
        if list(names) != list(lab.order):
            lab.report.append("the parameter names are %s" % list(names))
        back = list(reversed(lab.order))

        def point(t):
            p = dict(zip(lab.order, t))
            return Obj("live point", {}, {"keys": lambda i, x, y: list(back)}, {n: p[n] for n in back})
        lab.probe(logl=it.getattr(m, "log_likelihood"), prior=it.getattr(m, "log_prior"), wrap=point)
        p = it.method(m, "new_point")
        if list(p.attrs["names"]) != list(names) or [str(v)[:9] for v in p.attrs["values"]] != ["@sample_" + n for n in names]:
            lab.report.append("a new point is %s with names %s" % ([str(v)[:30] for v in p.attrs["values"]], list(p.attrs["names"])))
        bounds = it.getattr(m, "bounds")
        if [list(x) for x in bounds] != [[sym("min_" + n), sym("max_" + n)] for n in names]:
            lab.report.append("the bounds are %s" % str(bounds)[:120])
        rows = lab.rows(4)
        lab.expected = [tuple(rows[i]) for i in (1, 3)]

        def table(ps):
            cols = {n: Arr(p[lab.order.index(n)] for p in ps) for n in back}
            cols["logL"] = lab.info(ps, "logl")
            return cols
        post = table(lab.expected)
        state = Obj("state", {"nlive": q(4), "logZ": sym("logz"), "info": sym("info")})

        def get(i, a, k):
            if isinstance(a[0], str):
                return post[a[0]]
            return Obj("structured", {"cols": [post[n] for n in a[0]]})
        out = Obj("cpnest", {"posterior_samples": Obj("structured", {}, {"__getitem__": get}), "NS": Obj("NS", {"state": state})}, {
            "run": lambda i, a, k: None, "get_nested_samples": lambda i, a, k: {n: v for n, v in table([tuple(r) for r in rows]).items()}})

        def weights(i, a, k):
            return T([sym("logz"), Arr(A.fn("log", lab.points[tuple(r)]["weight"]) if x == lab.points[tuple(r)]["logl"] else sym("odd") for r, x in zip(rows, a[0]))])
        it.ext["cpnest.nest2pos.compute_weights"] = weights
        return out
    lab.it.ext.update({"cpnest.CPNest": run, "cpnest.parameter.LivePoint": lambda i, a, k: Obj("live point", {"names": a[0], "values": a[1]}),
                       "array.array": lambda i, a, k: Arr(a[1]), "numpy.lib.recfunctions.structured_to_unstructured": lambda i, a, k: Arr(Arr(x) for x in zip(*a[0].attrs["cols"]))})
    s = lab.make("cpnest.Cpnest")
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), None)
    return lab.trace(res)


def nessai(lab):
    back = list(reversed(lab.order))

    def flow(it, a, k):
        m = a[0]
        if list(it.getattr(m, "names")) != list(lab.order):
            lab.report.append("the parameter names are %s" % list(it.getattr(m, "names")))

        def point(t):
            p = dict(zip(lab.order, t))
            return {n: p[n] for n in back}
        lab.probe(logl=it.getattr(m, "log_likelihood"), wrap=point)
        t = [sym("t%d" % i) for i in range(3)]
        if lab.w.dec.get(lab.constraint_at(t)) is not False:
            got = it.apply(it.getattr(m, "log_prior"), [point(t)])
            if got != lab.prior_at(t) + A.fn("log", sym("factor")):
                lab.report.append("the log prior is %s" % str(got)[:120])
        if not lab.cond:
            u = {n: sym("u_" + n) for n in back}
            got = it.method(m, "from_unit_hypercube", u)
            for n in lab.order:
                if got.get(n) != lab.term("rescale", n, u[n], {}):
                    lab.report.append("the transform of %s is %s" % (n, str(got.get(n))[:80]))
        got = it.method(m, "to_unit_hypercube", point(t))
        p = dict(zip(lab.order, t))
        for n in lab.order:
            if got.get(n) != lab.term("cdf", n, p[n], p):
                lab.report.append("the unit coordinate of %s is %s" % (n, str(got.get(n))[:80]))
        b = it.getattr(m, "bounds")
        if {n: list(v) for n, v in b.items()} != {n: [sym("min_" + n), sym("max_" + n)] for n in lab.order}:
            lab.report.append("the bounds are %s" % str(b)[:120])
        rows = lab.rows(4)
        lab.expected = [tuple(rows[i]) for i in (3, 0, 2)]

        def table(ps):
            cols = {n: Arr(x[lab.order.index(n)] for x in ps) for n in back}
            cols["logL"] = lab.info(ps, "logl")
            cols["logP"] = lab.info(ps, "logp")
            cols["it"] = Arr(const(i) for i in range(len(ps)))
            return cols
        lab.live = table(lab.expected)
        ns = Obj("ns", {"total_likelihood_evaluations": q(9), "sampling_time": span(sym("dt")), "state": Obj("state", {"nlive": q(4)})})

        def weights(i, a, k):
            return T([sym("logz"), Arr(A.fn("log", lab.points[tuple(r)]["weight"]) if x == lab.points[tuple(r)]["logl"] else sym("odd") for r, x in zip(rows, a[0]))])
        it.ext["nessai.posterior.compute_weights"] = weights
        return Obj("flow sampler", {"ns": ns, "posterior_samples": lab.live, "nested_samples": table([tuple(r) for r in rows]), "log_evidence": sym("logz"), "log_evidence_error": sym("logzerr")},
                   {"run": lambda i, a, k: None})

    def array(it, a, k):
        names = a[1] if len(a) > 1 else k.get("names", list(a[0]))
        return Arr(Arr(x) for x in zip(*[a[0][n] for n in names]))
    lab.it.ext.update({"nessai.flowsampler.FlowSampler": flow, "nessai.livepoint.live_points_to_array": array, "nessai.livepoint.dict_to_live_points": lambda i, a, k: a[0],
                       "nessai.utils.setup_logger": lambda i, a, k: None, "nessai.utils.bilbyutils.get_all_kwargs": lambda i, a, k: {"nlive": q(9), "plot": True, "seed": None, "n_pool": None, "output": None},
                       "nessai.utils.bilbyutils.get_run_kwargs_list": lambda i, a, k: ["plot"], "logging.getLogger": lambda i, a, k: Obj("logger", {}, {"getEffectiveLevel": lambda j, x, y: q(20)})})
    s = lab.make("nessai.Nessai")
    s.attrs.setdefault("fs", None)
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    tot = sum(A.const_of(v["weight"]) for v in lab.points.values())
    return lab.trace(res, wvalue=lambda p: lab.points[p]["weight"] / const(tot))


def dnest4(lab):
    def sampler(it, a, k):
        m = a[0]
        lab.probe(logl=it.getattr(m, "log_likelihood"))
        p = it.method(m, "from_prior")
        if not isinstance(p, Arr) or [str(v)[:9] for v in p] != ["@sample_" + n for n in lab.order]:
            lab.report.append("a prior draw is %s" % str(p)[:120])
        for idx, start, step in itertools.product(range(3), (q(1, 3), q(8, 3)), (q(5, 8), q(7, 8), q(1, 8))):
            old = [low[n][0] + start for n in lab.order]
            new = Arr(old)
            lab.pick, lab.one = const(idx), step
            got = it.method(m, "perturb", new)
            if any((x == y) != (j != idx) for j, (x, y) in enumerate(zip(old, new))):
                lab.report.append("a proposal moves other parameters than the chosen one")
            if got != lab.prior_at(new) - lab.prior_at(old):
                lab.report.append("a proposal is weighted by %s instead of the ratio of the priors" % str(got)[:100])
            lab.one = q(1) - step
            it.method(m, "perturb", new)
            lab.pick = lab.one = None
            if list(new) != old:
                lab.report.append("a proposal is not undone by the opposite step")
        rows = lab.rows(4)
        post = [tuple(rows[i]) for i in (2, 2, 1)]
        lab.expected = post

        def stats(i, a, k):
            return {"log_Z": sym("logz"), "H": sym("H")}
        return Obj("dnest4 sampler", {"backend": Obj("backend", {"posterior_samples": [list(p) for p in post]})}, {"sample": lambda i, a, k: [], "postprocess": stats})
    lab.it.ext.update({"dnest4.DNest4Sampler": sampler, "dnest4.backends.MemoryBackend": lambda i, a, k: Obj("backend"),
                       "bilby.core.prior.dict.PriorDict.sample": None})
    del lab.it.ext["bilby.core.prior.dict.PriorDict.sample"]
    real = lab.pd

    class Draws(list):
        pass
    low = {n: [q(2 + 10 * i), q(5 + 11 * i), q(3 + 10 * i)] for i, n in enumerate("abc")}
    lab.big = {n: Arr(v) for n, v in low.items()}

    def sample(it, a, k):
        size = k.get("size", a[1] if len(a) > 1 else None)
        if size is not None and integer(size) and integer(size) > 100:
            return dict(lab.big)
        f = next(c.methods["sample"] for c in real.cls.mro() if "sample" in c.methods)
        return it.callf(f, a, k)
    for c in real.cls.mro():
        if "sample" in c.methods:
            lab.it.ext[c.methods["sample"].qual] = sample
            break
    s = lab.make("dnest4.DNest4", temporary_directory=False)
    m = lab.it.getattr(s, "_dnest4_model")
    for i, n in enumerate(lab.order):
        lo, hi = low[n][0], low[n][1]
        for attr, v in (("_widths", hi - lo), ("_centers", (hi + lo) / q(2))):
            if lab.it.getattr(m, attr)[i] != v:
                lab.report.append("%s of %s is %s" % (attr, n, lab.it.getattr(m, attr)[i]))
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), None)
    return lab.trace(res, nested=False, logl=False)


def polychord(lab):
    def run(it, a, k):
        got = []

        def logl(i, x, y):
            v = i.apply(k["loglikelihood"], x)
            if not isinstance(v, T) or len(v) != 2 or list(v[1]) != list(x[0]):
                lab.report.append("derived parameters are %s" % str(v)[:100])
                raise Undecided("polychord")
            got.append(v)
            return v[0]
        lab.probe(logl=Py(logl), cube=k["prior"])
        for n in ("nDims", "nDerived"):
            if integer(k[n]) != 3:
                lab.report.append("%s is %s" % (n, k[n]))
        rows = lab.rows(3)
        lab.expected = [tuple(r) for r in rows]
        # weight, -2 log likelihood, parameters on the unit cube or in the prior, derived parameters
        lab.tables = (("_equal_weights.txt", Arr(Arr([ONE, q(-2) * lab.points[tuple(r)]["logl"]] + [sym("x%d" % j) for j in range(3)] + list(r)) for r in rows)),)
        return Obj("polychord output", {"logZ": sym("logz"), "logZerr": sym("logzerr")})
    lab.it.ext.update({"pypolychord.run_polychord": run, "pypolychord.settings.PolyChordSettings": lambda i, a, k: Obj("settings")})
    s = lab.make("polychord.PyPolyChord")
    res = lab.it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    return lab.trace(res, nested=False)


def ptmcmc(lab):
    def sampler(it, a, k):
        lab.probe(logl=k["logl"], prior=k["logp"], floor=False)

        def run(i, a, k2):
            if list(k2["p0"]) != list(lab.start):
                lab.report.append("the chain does not start at the draw from the prior")
            rows = lab.rows(4)
            lab.expected = [tuple(r) for r in rows[1:]]
            lab.tables = (("chain_1.txt", Arr(Arr(list(r) + [lab.points[tuple(r)]["logl"] + lab.points[tuple(r)]["logp"], lab.points[tuple(r)]["logl"], q(1, 3), q(1, 4)]) for r in rows)),)
        return Obj("pt sampler", {}, {"sample": run})
    lab.it.ext["PTMCMCSampler.PTMCMCSampler.PTSampler"] = sampler
    s = lab.make("ptmcmc.PTMCMCSampler", burn=ONE, meta_data={})
    lab.start = lab.it.getattr(s, "p0")
    if not isinstance(lab.start, Arr) or [str(v)[:9] for v in lab.start] != ["@sample_" + n for n in lab.order]:
        lab.report.append("the starting point is %s" % str(lab.start)[:100])
    res = lab.it.method(s, "run_sampler")
    return lab.trace(res, nested=False)


def signature(names):
    empty = Obj("empty")
    return Obj("signature", {"parameters": {n: Obj("parameter", {"default": v, "empty": empty}) for n, v in names.items()}})


INIT = {"nlive": q(500), "bound": "multi", "sample": "auto", "periodic": None, "reflective": None, "update_interval": None, "rstate": None, "queue_size": None, "pool": None,
        "live_points": None, "walks": None, "facc": q(1, 2)}
NESTED = {"maxiter": None, "maxcall": None, "dlogz": None, "add_live": True, "print_progress": True, "print_func": None, "save_bounds": True}


def dynesty(lab, reject=True):
    it = lab.it

    def signed(i, a, k):
        return signature(dict(NESTED) if "run_nested" in str(getattr(a[0], "q", a[0])) else dict(INIT))

    def sampler(i, a, k):
        lab.probe(logl=k["loglikelihood"], cube=k["prior_transform"])
        if integer(k["ndim"]) != 3:
            lab.report.append("ndim is %s" % k["ndim"])
        for n, want in (("periodic", "b"), ("reflective", "c")):
            got = k.get(n)
            if got is None or [integer(x) for x in got] != [lab.order.index(want)]:
                lab.report.append("%s parameters are %s for the keys %s" % (n, got and [str(x) for x in got], list(lab.order)))
        live = k["live_points"]
        u, v, l = live[0], live[1], live[2]
        if not len(u) == len(v) == len(l) == 3:
            lab.report.append("%d live points were requested and %d are given" % (3, len(u)))
        for x, y, z in zip(u, v, l):
            if list(y) != lab.cube(list(x)) or z != lab.at(list(y)):
                lab.report.append("a live point at %s has the parameters %s and the log likelihood %s" % ([str(w) for w in x], [str(w)[:40] for w in y], str(z)[:60]))
            if any(w in repr(list(y)) for w in lab.unusable):
                lab.report.append("a live point has a vanishing likelihood")
        rows = lab.rows(4)
        w = lab.info(rows, "weight")
        logz = Arr([sym("z0"), sym("logz")])
        values = {"samples": rows, "logl": lab.info(rows, "logl"), "logwt": Arr(A.fn("log", x) + sym("logz") for x in w), "logz": logz, "logzerr": Arr([ONE, sym("logzerr")]),
                  "information": Arr([ONE, sym("H")])}
        out = Obj("results", values, {"__getitem__": lambda j, x, y: values[x[0]]})
        if reject:
            most = max(A.const_of(x) for x in w)
            lab.expected = [tuple(r) for r, x, d in zip(rows, w, lab.fixed_draws["all"]) if A.const_of(d) < A.const_of(x) / most]
        else:
            keep = [2, 0, 1, 0]
            lab.expected = [tuple(rows[j]) for j in keep]

            def resample(j, x, y):
                if list(x[1]) != list(w):
                    lab.report.append("resampled with other weights")
                return Arr(Arr(rows[m]) for m in keep)
            it.ext["dynesty.utils.resample_equal"] = resample
        s = Obj("dynesty sampler", {"ncall": ZERO, "results": out, "kwargs": {}, "it": ZERO, "pool": None, "added_live": False})

        def nested(j, x, y):
            s.attrs["ncall"] = q(10)
            s.attrs["added_live"] = True
        s.hooks.update({"run_nested": nested, "_remove_live_points": lambda j, x, y: s.attrs.update(added_live=False)})
        return s
    lab.unusable = ("u2_", "u4_")
    lab.ninfs = lab.unusable
    lab.it.ext.update({"inspect.signature": signed, "dynesty.NestedSampler": sampler, "dynesty.__version__": "2", "dynesty.dynamicsampler._SAMPLERS": {}, "dynesty.nestedsamplers._SAMPLING": {}})
    s = lab.make("dynesty.Dynesty", nlive=q(3), check_point_plot=False, rejection_sample_posterior=reject, print_method="none")
    lab.draws.pop("u", None)
    res = it.method(s, "run_sampler")
    evidence(lab, res, sym("logz"), sym("logzerr"))
    taken = it.method(s.attrs["sampling_time"], "total_seconds")
    noted = it.getitem(it.getitem(it.getattr(res, "meta_data"), "run_statistics"), "sampling_time_s")
    if noted != taken:
        lab.report.append("the run is said to have taken %s s instead of %s s" % (noted, taken))
    return lab.trace(res)


def chains(lab, walkers=2, steps=3):
    rows = lab.rows(walkers * steps)
    return [[rows[w * steps + s] for s in range(steps)] for w in range(walkers)]      # [walker][step]


def ensemble(lab, kind):
    it = lab.it
    burn = 1
    chain = chains(lab)
    wm = Arr(Arr(Arr(p) for p in w) for w in chain)
    sm = Arr(Arr(Arr(chain[w][s]) for w in range(2)) for s in range(3))
    blobs = Arr(Arr(Arr([lab.points[tuple(chain[w][s])]["logl"], lab.points[tuple(chain[w][s])]["logp"]]) for w in range(2)) for s in range(3))
    lab.expected = [tuple(chain[w][s]) for s in range(burn, 3) for w in range(2)]
    start = lab.starts(2)

    def build(i, a, k):
        fn = k.get("log_prob_fn", k.get("lnpostfn", k.get("logprob_fn")))
        lab.probe(logpost=fn)
        n = k.get("ndim", k.get("dim"))
        if integer(n) != 3 or integer(k["nwalkers"]) != 2:
            lab.report.append("%s dimensions and %s walkers" % (n, k["nwalkers"]))
        s = Obj("%s sampler" % kind, {"pool": None, "blobs": Arr()})

        def run(j, x, y):
            p0 = y.get("initial_state", y.get("start", y.get("p0")))
            if [list(r) for r in p0] != start:
                lab.report.append("the walkers do not start at the points given for the search parameters")
            s.attrs["chain"] = sm if kind == "kombine" else wm
            s.attrs["blobs"] = blobs
            out = []
            for t in range(3):
                c, b = sm[t], blobs[t]
                lp = Arr(x[0] + x[1] for x in b)
                if kind == "emcee":
                    out.append(Obj("state", {"coords": c, "blobs": b, "log_prob": lp}))
                else:
                    out.append(T([c, lp, b]) if kind == "zeus" else T([c, lp, sym("lnprop"), b]))
            return out
        s.hooks["sample"] = run

        def flat(what):
            def f(j, x, y):
                d = integer(y.get("discard", ZERO))
                if y.get("flat") is not True:
                    return what
                return Arr(p for t in range(d, 3) for p in what[t])
            return f
        s.hooks.update({"get_chain": flat(sm), "get_blobs": flat(blobs), "get_last_sample": lambda j, x, y: sm[-1]})
        return s
    name = {"emcee": "emcee.Emcee", "zeus": "zeus.Zeus", "kombine": "kombine.Kombine"}[kind]
    e = it.ext
    e.update({"emcee.EnsembleSampler": build, "zeus.EnsembleSampler": build, "kombine.Sampler": build, "kombine.SerialPool": lambda i, a, k: Obj("kombine.SerialPool", {}, {"close": lambda j, x, y: None, "join": lambda j, x, y: None}),
              "emcee.__version__": "3.1", "packaging.version.parse": lambda i, a, k: const(int(a[0].split(".")[0])), "emcee.autocorr.integrated_time": lambda i, a, k: Arr([q(4), q(7), q(2)])})
    back = list(reversed(lab.order))
    pos = Table({n: Arr(start[w][lab.order.index(n)] for w in range(2)) for n in back})
    s = lab.make(name, nwalkers=const(2), iterations=const(3), nburn=const(burn), pos0=pos)
    res = it.method(s, "run_sampler")
    a = res.attrs
    w = a.get("walkers")
    if w is not None and (not isinstance(w, Arr) or w != wm):
        lab.report.append("the stored walkers do not hold each walker's chain")
    if integer(a.get("nburn")) != burn:
        lab.report.append("nburn is %s" % a.get("nburn"))
    return lab.trace(res, nested=False, logp=True)


def ptemcee(lab):
    it = lab.it
    W, K = 2, 2
    lab.iter = 0
    back = list(reversed(lab.order))
    start = [[[sym("p%d_%d_%s" % (t, w, n)) for n in lab.order] for w in range(W)] for t in range(K)]
    cold = []

    def build(i, a, k):
        if integer(k["dim"]) != 3 or integer(k["nwalkers"]) != W or integer(k["ntemps"]) != K:
            lab.report.append("%s dimensions, %s walkers, %s temperatures" % (k["dim"], k["nwalkers"], k["ntemps"]))
        lab.probe(logl=k["logl"], prior=k["logp"], floor=False)
        s = Obj("ptemcee sampler", {"pool": None, "betas": Arr([ONE, q(1, 4)]), "dim": q(3), "nwalkers": const(W), "ntemps": const(K), "chain": sym("chain")})

        def run(j, x, y):
            if lab.iter == 0:
                lab.probe(pair=s.attrs.get("_likeprior"))
                if [[list(p) for p in t] for t in x[0]] != start:
                    lab.report.append("the walkers do not start at the points given for the search parameters")
            elif [[list(p) for p in t] for t in x[0]] != lab.last:
                lab.report.append("the run does not continue where it stopped")
            rows = lab.rows(W)
            hot = Arr(Arr(q(5000 * (d + 1) + 10 * lab.iter + w) for d in range(3)) for w in range(W))
            lab.iter += 1
            cold.append([tuple(r) for r in rows])
            lab.last = [[list(p) for p in rows], [list(p) for p in hot]]
            ll = Arr([lab.info(rows, "logl"), Arr(q(-900 - lab.iter - w) for w in range(W))])
            lp = Arr([Arr(lab.points[tuple(r)]["logl"] + lab.points[tuple(r)]["logp"] for r in rows), Arr(q(-950 - lab.iter) for w in range(W))])
            return [T([Arr([Arr(Arr(p) for p in rows), hot]), lp, ll])]
        s.hooks["sample"] = run
        return s

    def iteration(i, a, k):
        n = integer(a[0])
        stop = n == 8
        smp = a[1]
        have = len(smp[0]) if isinstance(smp, Arr) and len(smp) else None
        if stop:
            d = n - have
            lab.expected = [cold[t][w] for w in range(W) for t in range(d + 1, n, 2)]
            lab.kept = range(d + 1, n)
        return T([stop, const(1), const(2), const(3), const(40)])
    e = it.ext
    P = S + "ptemcee."
    e.update({"ptemcee.Sampler": build, "ptemcee.__version__": "1.0.1", P + "check_iteration": iteration, P + "checkpoint": lambda i, a, k: None})
    f = lab.prog.modules[P[:-1]].symbols.get("compute_evidence", (0, None))[1] if P[:-1] in lab.prog.modules else None
    if f is not None:
        seen = []

        def evid(i, a, k):
            if seen:
                return it.ext.pop(P + "compute_evidence")
            seen.append(1)
            k = dict(k)
            k["make_plots"] = False
            del it.ext[P + "compute_evidence"]
            return i.apply(Fn(f), list(a[:8]), k)
        e[P + "compute_evidence"] = evid
    pos = {n: Arr(Arr(start[t][w][lab.order.index(n)] for w in range(W)) for t in range(K)) for n in back}
    for n, (lo, hi) in {"a": (-10 ** 6, 10 ** 6), "b": (-10 ** 7, 10 ** 7), "c": (-10 ** 6, 10 ** 6)}.items():
        it.getitem(lab.pd, n).attrs.update({"minimum": q(lo), "maximum": q(hi), "_minimum": q(lo), "_maximum": q(hi)})
    s = lab.make("ptemcee.Ptemcee", nwalkers=const(W), ntemps=const(K), pos0=pos, burn_in_fixed_discard=const(2), check_point_plot=False, verbose=False)
    res = it.method(s, "run_sampler")
    out = lab.trace(res, nested=False)
    hot = [sum(Fraction(-900 - t - 1 - w) for t in lab.kept for w in range(W)) / (len(lab.kept) * W)][0]
    c = [A.const_of(lab.points[cold[t][w]]["logl"]) for t in lab.kept for w in range(W)]
    want = (hot + sum(c) / len(c)) / 2 * Fraction(3, 4)
    if res.attrs.get("log_evidence") != const(want):
        out.append("the evidence is %s instead of the thermodynamic integral %s" % (str(res.attrs.get("log_evidence"))[:60], want))
    return out


DRIVERS = {"nestle.Nestle": nestle, "ultranest.Ultranest": ultranest, "pymultinest.Pymultinest": pymultinest, "cpnest.Cpnest": cpnest, "nessai.Nessai": nessai,
           "dnest4.DNest4": dnest4, "polychord.PyPolyChord": polychord, "ptmcmc.PTMCMCSampler": ptmcmc,
           "dynesty.Dynesty": dynesty, "dynesty.Dynesty resampled": lambda lab: dynesty(lab, False), "emcee.Emcee": lambda lab: ensemble(lab, "emcee"),
           "zeus.Zeus": lambda lab: ensemble(lab, "zeus"), "kombine.Kombine": lambda lab: ensemble(lab, "kombine"), "ptemcee.Ptemcee": ptemcee}


def case(prog, dec, name, order=KEYS, ratio=False):
    lab = Lab(prog, dec, order, False, ratio)
    lab.w.dec = Yes(dec, [sym("t%d" % i) for i in range(3)], lab)
    return DRIVERS[name](lab)


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("run", "the functions handed to the package evaluate the search parameters, and the stored rows are points of the run with their own values", floor=4 * k)
    r = Rule(ctx)
    for name, drive in DRIVERS.items():
        c = prog.classes.get(S + name.split(" ")[0])
        f = c and c.find("run_sampler")
        if f is None:
            continue
        for order in ORDERS if ctx.tier == "thorough" else ORDERS[:1]:
            for ratio in (False, True):
                def thunk(dec, name=name, order=order, ratio=ratio):
                    return case(prog, dec, name, order, ratio)
                r.report("run", name.split(".")[1], f, r.run(thunk), lambda res, dec: "; ".join(dict.fromkeys(res))[:400] if res else None)


class Yes(dict):
    """constraints hold everywhere except, in one of the cases, at the probing point"""

    def __init__(self, dec, t, lab):
        dict.__init__(self, dec)
        self.dec, self.free = dec, lab.constraint_at(t)

    def __contains__(self, k):
        return k in self.dec or k[0] == "con" and k != self.free

    def __getitem__(self, k):
        if k in self.dec:
            return self.dec[k]
        if k[0] == "con" and k != self.free:
            return True
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d
