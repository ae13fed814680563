"""H01: Markov chain moves of bilby_mcmc leave the target distribution invariant."""
import math
import itertools
from fractions import Fraction

from .. import algebra as A
from .. import randint as R
from ..algebra import ZERO, ONE, E, const, sym
from ..frame import Table
from ..interp import Obj, Arr, Py, PyExc, T, integer
from ..oblig import Rule
from ..valnum import Undecided, INF, NINF, NAN, World
from . import n01_samplers as n01

TITLE = "Markov chain moves leave the target distribution invariant"
EXPLANATION = (
    "Abstract evaluation: every proposal of bilby_mcmc is evaluated on a chain of uninterpreted samples with uninterpreted random draws. A proposal that reports no correction "
    "must be its own reverse under a measure-preserving change of its draws or be independent of the current value; the others must report the log ratio of their reverse and "
    "forward densities. Acceptance steps, tempering swaps, temperature adaptation, evidence estimators and the reuse of tempered samples are evaluated on uninterpreted chains and "
    "the quantity each random draw is compared with must be the documented acceptance probability.")
ASSUMPTIONS = ["three parameters, two or three chains and a few samples stand for more", "branches on random draws are followed for one valuation on either side of each threshold",
               "adaptation stops in the long run; density estimates are uninterpreted functions"]

P = "bilby.bilby_mcmc.proposals."
M = "bilby.bilby_mcmc.sampler."
C = "bilby.bilby_mcmc.chain."
ABC = ("b", "c", "a")


def q(n, d=1):
    return const(Fraction(n, d))


class Guide(World):
    """branches are decided by one valuation of the symbols; the quantities compared are recorded"""

    def __init__(self, env):
        World.__init__(self, [], {}, scalar=True)
        self.env = dict(env)
        self.asked = []

    def ask(self, key):
        if key in self.dec:
            return self.dec[key]
        if key[0] == "con":
            return True
        if key[0] not in ("pos", "zero"):
            raise Undecided("decision")
        if key[0] == "zero":
            return False
        self.asked.append(key[1])
        try:
            return R.real(R.value(key[1], self.env)) > 0
        except (R.NoValue, OverflowError, ZeroDivisionError, ValueError) as e:
            raise Undecided("no value: %s" % e)


class Lab(n01.Lab):
    def __init__(self, prog, env=(), order=ABC, ratio=False, boundary=None, width=None, ninf=()):
        n01.Lab.__init__(self, prog, {}, order=order, ratio=ratio, ninf=ninf)
        it = self.it
        self.w = it.w = Guide(dict(env))
        for k in order:
            o = it.getitem(self.pd, k)
            b = boundary.get(k) if boundary is not None else None
            o.attrs["_boundary"] = o.attrs["boundary"] = b
            o.attrs["_minimum"] = o.attrs["minimum"] = sym("min_" + k)
            o.attrs["_maximum"] = o.attrs["maximum"] = sym("min_" + k) + sym("width_" + k)
            o.attrs["width"] = sym("width_" + k)
        for k in ("k0", "d"):
            it.getitem(self.pd, k).attrs.update({"_boundary": None, "boundary": None, "_minimum": ZERO, "minimum": ZERO, "_maximum": ONE, "maximum": ONE, "width": ONE})
        self.like.attrs["parameters"]["d"] = sym("peak")
        self.like.attrs.setdefault("_parameters", self.like.attrs["parameters"])
        self.log = []           # (kind, symbol)
        self.picks = []         # integers to be drawn, in turn
        self.mvn = []
        it.ext["bilby.core.utils.random.rng"] = Obj("rng", {}, {
            "uniform": self.r_uniform, "random": lambda i, a, k: self.draw("u"), "normal": self.r_normal, "standard_normal": self.r_normal, "integers": self.r_integers,
            "choice": self.r_choice, "multivariate_normal": self.r_mvn})
        dump = Obj("dump", {"likelihood": self.like, "priors": self.pd, "search_parameter_keys": list(order), "use_ratio": ratio, "parameters": None}, label="dump")
        for m in ("bilby.core.sampler.base_sampler.", M):
            it.ext[m + "_sampling_convenience_dump"] = dump
        it.ext[C + "Chain._get_zero_chain_array"] = lambda i, a, k: Arr(Arr([ZERO] * 5) for _ in range(8))
        self.fits = []
        e = it.ext
        e.update({"scipy.stats.gaussian_kde": self.kde, "sklearn.mixture.GaussianMixture": self.gmm, "numpy.random.RandomState": lambda i, a, k: Obj("state"),
                  "numpy.random.SeedSequence": lambda i, a, k: Obj("seeds", {}, {"spawn": lambda j, x, y: [Obj("seeds") for _ in range(integer(x[0]))]}), "numpy.random.default_rng": lambda i, a, k: i.ext["bilby.core.utils.random.rng"],
                  "collections.Counter": lambda i, a, k: {}, "numpy.std": lambda i, a, k: ONE, "time.time": lambda i, a, k: ZERO})

    # -- draws
    def draw(self, kind, *args):
        s = sym("%s_%d" % (kind, 1 + sum(1 for x in self.log if x[0] == kind)))
        self.log.append((kind, s) + args)
        return s

    def r_uniform(self, it, a, k):
        low, high, size = (list(a) + [k.get(n, d) for n, d in (("low", ZERO), ("high", ONE), ("size", None))][len(a):])[:3]
        if size is not None:
            raise Undecided("size")
        return low + self.draw("u") * (high - low)

    def r_normal(self, it, a, k):
        loc, scale, size = (list(a) + [k.get(n, d) for n, d in (("loc", ZERO), ("scale", ONE), ("size", None))][len(a):])[:3]
        if size is not None:
            n = integer(size)
            if n is None:
                raise Undecided("size")
            return Arr(loc + scale * self.draw("n") for _ in range(n))
        return loc + scale * self.draw("n")

    def r_integers(self, it, a, k):
        if k.get("size") is not None:
            return Arr(self.draw("seed") for _ in range(integer(k["size"])))
        if self.picks:
            lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2]
            v = self.picks.pop(0)
            if not integer(lo) <= v < integer(hi):
                raise Undecided("pick")
            self.log.append(("i", v, integer(lo), integer(hi)))
            return const(v)
        if len(a) == 1 and a[0] == const(2):
            return self.draw("sign")
        raise Undecided("integers")

    def r_choice(self, it, a, k):
        v = list(it.iterate(a[0])) if not isinstance(a[0], E) else None
        if v is None or k.get("size") is not None:
            raise Undecided("choice")
        return v[0]

    def r_mvn(self, it, a, k):
        mean, cov = a[:2]
        n = len(mean)
        self.mvn.append((mean, cov))
        return Arr(mean[i] + self.draw("n") for i in range(n))

    # -- density estimates: q(point), with points given in the order of the rows that were fitted
    def kde(self, it, a, k):
        self.fits.append(a[0])

        def one(v):
            return Arr([A.fn("@q", *[x[0] if isinstance(x, Arr) else x for x in v])])

        def resample(i, x, y):
            n = integer(x[0] if x else y.get("size", ONE))
            m = 1 if n == 1 else 3
            return Arr(Arr(self.draw("kde") for _ in range(m)) for _ in range(3))
        return Obj("kde", {}, {"logpdf": lambda i, x, y: one(x[0]), "resample": resample,
                               "pdf": lambda i, x, y: Arr([A.exp(one(x[0])[0])]), "__call__": lambda i, x, y: Arr([A.exp(one(x[0])[0])])})

    def gmm(self, it, a, k):
        def fit(i, x, y):
            self.fits.append(Arr(Arr(r[j] for r in x[0]) for j in range(len(x[0][0]))))
        return Obj("gmm", {}, {"fit": fit, "score_samples": lambda i, x, y: Arr(A.fn("@q", *r) for r in x[0]),
                               "sample": lambda i, x, y: T([Arr(Arr(self.draw("kde") for _ in range(3)) for _ in range(1 if integer(y.get("n_samples", x[0] if x else ONE)) == 1 else 3)), Arr()])})

    # -- chains
    def sample(self, tag, keys=None):
        d = {k: sym("%s_%s" % (tag, k)) for k in keys or self.order}
        d["logl"], d["logp"] = sym(tag + "_logl"), sym(tag + "_logp")
        return self.it.new(self.prog.classes[C + "Sample"], [self.rename(d)])

    def rename(self, d):
        it = self.it
        ll, lp = self.keys()
        return {ll if k == "logl" else lp if k == "logp" else k: v for k, v in d.items()}

    def keys(self):
        c = self.prog.modules["bilby.bilby_mcmc.utils"].consts if hasattr(self.prog.modules["bilby.bilby_mcmc.utils"], "consts") else {}
        out = []
        for n, d in (("LOGLKEY", "logl"), ("LOGPKEY", "logp")):
            v = c.get(n, d)
            out.append(v if isinstance(v, str) else d)
        return out

    def chain(self, *tags, **kw):
        """a chain whose samples are the given ones, the last being current"""
        it = self.it
        c = it.new(self.prog.classes[C + "Chain"], [self.sample(tags[0])], dict({"block_length": q(8)}, **kw))
        for t in tags[1:]:
            it.method(c, "append", self.sample(t))
        return c

    def entry(self, s, k):
        return self.it.getitem(s, k)

    def propose(self, cls, pos=(), kw=None, chain=None, picks=(), call=False, extra=None, mod=P):
        it = self.it
        c = self.prog.classes.get(mod + cls)
        if c is None:
            raise Undecided("no class " + cls)
        p = it.new(c, [self.pd] + list(pos), dict(kw or {}))
        if extra:
            extra(p)
        ch = chain or self.chain("y", "z", "x")
        self.log.clear()
        self.picks = list(picks)
        lk, ps = self.like, self.pd
        if call:
            r = it.apply(p, [ch], {"likelihood": lk, "priors": ps}) if call != "ensemble" else it.apply(p, [ch, self.complement])
        elif c.find_attr("needs_likelihood_and_priors") is not None:
            r = it.method(p, "propose", ch, lk, ps)
        else:
            r = it.method(p, "propose", ch)
        if not isinstance(r, T) or len(r) != 2:
            raise Undecided("proposal")
        self.after = p
        now = it.getattr(ch, "current_sample")
        if any(self.entry(now, k) != sym("x_" + k) for k in self.order):
            return "the chain's own current sample is changed by proposing"
        return r


def zero(e):
    return isinstance(e, E) and (not e or A.is_zero(e)) or e is False or e == 0


def same(a, b):
    """equal as forms, or under every valuation"""
    if a == b:
        return True
    if not isinstance(a, E) or not isinstance(b, E):
        return False
    if A.is_zero(a - b):
        return True
    names = set()
    A.symbols(a, names)
    A.symbols(b, names)
    s = R.Samples(names - {"e", "pi", "1j"}, [], want=8, ranges={n: (0.05, 0.95) for n in names if n.startswith(("u_", "width_", "y_w"))})
    r = R.close(a, b, s.env)
    if r is None:
        raise Undecided("too few valuations to compare")
    return r


def reflected(e, log):
    """the form under the measure-preserving reflection of the symmetric draws"""
    for entry in log:
        kind, s = entry[:2]
        if kind == "n":
            e = A.subst(e, s_name(s), -s)
        elif kind == "sign":
            e = A.subst(e, s_name(s), ONE - s)
    return e


def s_name(s):
    n = set()
    A.symbols(s, n)
    return n.pop()


def symmetric(lab, r, moved, order, swap=None):
    """random walk: the displacement is free of the current value and changes sign under a reflection of the draws (or exchange of the two other samples)"""
    s, f = r
    if not zero(f):
        return "the log factor of a symmetric move is %s" % A.show(f)[:80]
    for k in order:
        d = lab.entry(s, k) - sym("x_" + k)
        if k not in moved:
            if not zero(d):
                return "%s is moved although it is not one of the proposal's parameters" % k
            continue
        names = set()
        A.symbols(d, names)
        if any(n.startswith("x_") for n in names):
            return "the displacement of %s depends on the current sample" % k
        if zero(d):
            return "%s is not moved" % k
        b = d
        if swap:
            for t in order:
                b = A.subst(b, "y_" + t, sym("tmp_" + t))
                b = A.subst(b, "z_" + t, sym("y_" + t))
                b = A.subst(b, "tmp_" + t, sym("z_" + t))
        else:
            b = reflected(b, lab.log)
        if not same(b, -d):
            return "the displacement of %s, %s, is not symmetric" % (k, A.show(d)[:100])
        other = [n for n in names if n[:2] in ("y_", "z_") and n[2:] != k or n.startswith("width_") and n[6:] != k]
        if other:
            return "the displacement of %s uses %s" % (k, other)
    return None


ENVS = [{"u_1": 0.4, "u_2": 0.45, "u_3": 0.3, "n_1": 0.3}, {"u_1": 0.0005, "u_2": 0.6}, {"u_1": 0.7, "u_2": 0.00005}, {"u_1": 0.8, "u_2": 0.7, "u_3": 0.2}]


def gaussian(name, kw, envs=ENVS):
    def run(prog, k):
        for order in (ABC, ("a", "b", "c"))[:1 + k]:
            for sub in (None, ["c", "a"]):
                for env in envs:
                    lab = Lab(prog, env, order)
                    a = dict(kw)
                    if sub:
                        a["subset"] = list(sub)
                    r = lab.propose(name, kw=a)
                    yield (r if isinstance(r, str) else symmetric(lab, r, sub or order, order)), "%s, %s parameters" % (name, "all" if sub is None else "some")
    return run


def jump(prog, k):
    for sub in (None, ["c", "a"]):
        lab = Lab(prog, {})
        kw = {"jumps": {"b": q(3), "c": q(5), "a": q(7)}} if sub is None else {"subset": sub, "jumps": q(2)}
        r = lab.propose("FixedJumpProposal", kw=kw)
        yield (r if isinstance(r, str) else symmetric(lab, r, sub or ABC, ABC)), "FixedJumpProposal"


def evolution(prog, k):
    for sub in (None, ["c", "a"]):
        for env in ENVS:
            lab = Lab(prog, env)
            r = lab.propose("DifferentialEvolutionProposal", kw={"subset": sub} if sub else {}, picks=[0, 1])
            yield (r if isinstance(r, str) else symmetric(lab, r, sub or ABC, ABC, swap=True)), "DifferentialEvolutionProposal"


def independent(prog, k):
    for sub in (None, ["c", "a"]):
        lab = Lab(prog, {})
        r = lab.propose("UniformProposal", kw={"subset": sub} if sub else {})
        m = None
        if isinstance(r, str):
            m = r
        elif not zero(r[1]):
            m = "the log factor is %s" % A.show(r[1])
        else:
            us = [x[1] for x in lab.log if x[0] == "u"]
            for key in ABC:
                v = lab.entry(r[0], key)
                if sub and key not in sub:
                    if v != sym("x_" + key):
                        m = "%s is moved although it is not one of the proposal's parameters" % key
                elif not any(same(v, sym("min_" + key) + u * sym("width_" + key)) for u in us):
                    m = "%s becomes %s, not a uniform draw between the bounds of its prior" % (key, A.show(v)[:80])
            if m is None and len(us) != len(sub or ABC):
                m = "%d draws for %d parameters" % (len(us), len(sub or ABC))
        yield m, "UniformProposal"


def from_prior(prog, k):
    for order in (ABC, ("a", "b", "c"))[:1 + k]:
        for sub in (None, ["c", "a"]):
            lab = Lab(prog, {}, order)
            r = lab.propose("PriorProposal", kw={"subset": sub} if sub else {})
            m = r if isinstance(r, str) else None
            if m is None:
                moved = [x for x in order if not sub or x in sub]
                want = ZERO
                for key in order:
                    v = lab.entry(r[0], key)
                    if key not in moved:
                        if v != sym("x_" + key):
                            m = "%s is moved although it is not one of the proposal's parameters" % key
                        continue
                    if not str(v).startswith("@sample_" + key) and ("@sample_" + key) not in repr(v):
                        m = "%s becomes %s, not a draw from its prior" % (key, A.show(v)[:80])
                    want = want + A.fn("@ln_prob_" + key, sym("x_" + key)) - A.fn("@ln_prob_" + key, v)
                if m is None and not same(r[1], want):
                    m = "the log factor is %s instead of ln pi(current) - ln pi(new)" % A.show(r[1])[:120]
            yield m, "PriorProposal"


def density(name, fit=True):
    def run(prog, k):
        for order in (ABC, ("a", "b", "c"))[:1 + k]:
            lab = Lab(prog, {}, order)
            p = {}

            def trained(o):
                p["o"] = o
                ch = lab.chain("y", "z", "w", "x")
                lab.picks = [0, 1, 2, 0, 1, 2, 0, 1]
                lab.it.method(o, "refit", ch)
                if lab.it.getattr(o, "trained") is not True or not lab.fits:
                    raise Undecided("density estimate")
            r = lab.propose(name, kw={"fallback": Py(lambda i, a, kw: Obj("fallback"))}, extra=trained)
            m = r if isinstance(r, str) else None
            rows = lab.fits[-1]
            if m is None and (not isinstance(rows, Arr) or len(rows) != 3 or any(not isinstance(row, Arr) or any(s_name(x).split("_")[1] != key for x in row) for row, key in zip(rows, order))):
                m = "the density is not fitted to the chain's values of %s, row by row" % (order,)
            if m is None:
                m = ratio_of_densities(lab, r, order)
            yield m, name
    return run


def ratio_of_densities(lab, r, order):
    new = [lab.entry(r[0], key) for key in order]
    drawn = [x[1] for x in lab.log if x[0] == "kde"]
    if len(drawn) < 3 or new != drawn[-3:]:
        return "the new values %s are not the draw from the density, parameter by parameter" % [str(x)[:60] for x in new]
    want = A.fn("@q", *[sym("x_" + key) for key in order]) - A.fn("@q", *new)
    if not same(r[1], want):
        return "the log factor is %s instead of ln q(current) - ln q(new)" % A.show(r[1])[:160]
    return None


def flow(prog, k):
    lab = Lab(prog, {})

    def tensor(v):
        o = Obj("tensor", {}, {"detach": lambda i, a, kw: o, "numpy": lambda i, a, kw: v, "__getitem__": lambda i, a, kw: tensor(i.getitem(v, a[0])), "item": lambda i, a, kw: v[0]})
        o.v = v
        o.clone = lambda: o
        return o

    def logprob(it, a, kw):
        x = a[0] if a else kw.get("inputs")
        x = getattr(x, "v", x)
        return tensor(Arr(A.fn("@q", *row) for row in x))
    fl = Obj("flow", {}, {"eval": lambda i, a, kw: None, "train": lambda i, a, kw: None, "sample": lambda i, a, kw: tensor(Arr([Arr(lab.draw("kde") for _ in range(3))])), "log_prob": logprob})
    lab.it.ext["torch.tensor"] = lambda i, a, kw: tensor(a[0])
    lab.it.ext["torch.float32"] = "float32"

    def trained(o):
        o.attrs.update({"initialised": True, "trained": True, "flow": fl, "next_refit_time": q(10 ** 6)})
    r = lab.propose("NormalizingFlowProposal", kw={"fallback": Py(lambda i, a, kw: Obj("fallback"))}, extra=trained)
    yield (r if isinstance(r, str) else ratio_of_densities(lab, r, ABC)), "NormalizingFlowProposal"


def stretched(lab, r, comp, moved, order, scale):
    us = [x[1] for x in lab.log if x[0] == "u"]
    if len(us) != 1:
        return "%d uniform draws" % len(us)
    z = (us[0] * (scale - ONE) + ONE) ** 2 / scale if False else A.power(us[0] * (scale - ONE) + ONE, q(2)) / scale
    for key in order:
        v = lab.entry(r[0], key)
        want = sym("%s_%s" % (comp, key)) + (sym("x_" + key) - sym("%s_%s" % (comp, key))) * z if key in moved else sym("x_" + key)
        if not same(v, want):
            return "%s becomes %s instead of %s" % (key, A.show(v)[:100], A.show(want)[:100])
    want = q(len(moved) - 1) * A.log(z)
    if not same(r[1], want):
        return "the log factor is %s instead of (n - 1) log z" % A.show(r[1])[:120]
    return None


def stretch(prog, k):
    for sub in (None, ["c", "a"]):
        for scale in (q(2), q(3)):
            lab = Lab(prog, {"u_1": 0.3})
            kw = {"scale": scale}
            if sub:
                kw["subset"] = sub
            r = lab.propose("StretchProposal", kw=kw, picks=[1])
            yield (r if isinstance(r, str) else stretched(lab, r, "z", sub or ABC, ABC, scale)), "StretchProposal"
    lab = Lab(prog, {"u_1": 0.3})
    lab.complement = [lab.chain("v", "y"), lab.chain("v", "z"), lab.chain("v", "w")]
    r = lab.propose("EnsembleStretch", kw={"scale": q(3)}, picks=[1], call="ensemble")
    yield (r if isinstance(r, str) else stretched(lab, r, "z", ABC, ABC, q(3))), "EnsembleStretch"


def fisher(prog, k):
    for order in (ABC, ("a", "b", "c"))[:1 + k]:
        lab = Lab(prog, {}, order)
        seen = []

        def make(it, a, kw):
            seen.append(kw.get("parameters", a[2] if len(a) > 2 else None))
            return Obj("fisher", {}, {"calculate_iFIM": lambda i, x, y: seen.append(x[0]) or Obj("covariance")})
        lab.it.ext["bilby.core.fisher.FisherMatrixPosteriorEstimator"] = make
        r = lab.propose("FisherMatrixProposal", kw={"scale_init": q(3)})
        m = r if isinstance(r, str) else symmetric(lab, r, order, order)
        if m is None:
            if not seen or list(seen[0] or []) != list(order):
                m = "the matrix is computed for %s" % (seen[:1],)
            elif not isinstance(seen[1], dict) or any(seen[1].get(x) != sym("x_" + x) for x in order):
                m = "the matrix is not computed at the current sample"
            elif not lab.mvn or any(not zero(x) for x in lab.mvn[0][0]):
                m = "jumps do not have zero mean"
            else:
                ds = [lab.entry(r[0], key) - sym("x_" + key) for key in order]
                if any(not same(d, q(3) * sym("n_%d" % (i + 1))) for i, d in enumerate(ds)):
                    m = "the jumps %s are not the draws of these parameters" % [A.show(d) for d in ds]
        yield m, "FisherMatrixProposal"


GW = ("psi", "phase", "dL")


class GWLab(Lab):
    """a problem in polarisation and phase"""

    def __init__(self, prog, env, delta=False):
        Lab.__init__(self, prog, env)
        it = self.it
        cls = prog.classes["bilby.core.prior.base.Prior"]
        self.phase = "delta_phase" if delta else "phase"
        names = ["psi", self.phase, "cos_theta_jn"]
        d = {}
        for n in names:
            o = Obj(cls, {"_is_fixed": False, "name": n, "_boundary": "periodic", "boundary": "periodic", "_minimum": ZERO, "minimum": ZERO,
                          "_maximum": sym("pi") * (ONE if n == "psi" else q(2)), "maximum": sym("pi") * (ONE if n == "psi" else q(2)), "width": sym("pi") * (ONE if n == "psi" else q(2))}, label=n)
            d[n] = o
        self.pd = it.new(prog.classes["bilby.core.prior.dict.PriorDict"], [d])
        self.order = tuple(names)
        it.ext["numpy.sign"] = lambda i, a, k: ONE
        it.ext["numpy.mod"] = lambda i, a, k: A.fn("@mod", a[0], a[1])


def unmod(e):
    """(argument, period) of a remainder, or (form, None)"""
    if isinstance(e, E) and len(e) == 1:
        m, c = e[0]
        if c == 1 and len(m) == 1 and m[0][1] == ONE and m[0][0][:2] == ("fn", "@mod"):
            return m[0][0][2], m[0][0][3]
    return e, None


def polarisation(prog, k):
    pi = sym("pi")
    for delta in (False, True):
        for cls, dpsi, dphase in (("PhaseReversalProposal", None, pi), ("PolarisationReversalProposal", pi / q(2), None), ("PhasePolarisationReversalProposal", pi / q(2), pi)):
            lab = GWLab(prog, {}, delta)
            r = lab.propose(cls)
            m = r if isinstance(r, str) else None
            if m is None and not zero(r[1]):
                m = "the log factor is %s" % A.show(r[1])
            if m is None:
                for key, shift, period in (("psi", dpsi, pi), (lab.phase, dphase, q(2) * pi), ("cos_theta_jn", None, None)):
                    v, p = unmod(lab.entry(r[0], key))
                    if shift is None:
                        if v != sym("x_" + key):
                            m = "%s becomes %s" % (key, A.show(v)[:80])
                        continue
                    d = v - sym("x_" + key) - shift
                    if p != period and not (p is None):
                        m = "%s is taken modulo %s" % (key, A.show(p))
                    elif not same(reflected(d, lab.log), -d):
                        m = "%s is shifted by %s, which is not half a turn up to a symmetric jump" % (key, A.show(d + shift)[:80])
            yield m, cls + (" (delta_phase)" if delta else "")
        for u in (0.3, 0.8):
            lab = GWLab(prog, {"u_1": u, "u_2": 0.4}, delta)
            r = lab.propose("CorrelatedPolarisationPhaseJump")
            m = r if isinstance(r, str) else None
            if m is None and not zero(r[1]):
                m = "the log factor is %s" % A.show(r[1])
            if m is None:
                psi, ph = lab.entry(r[0], "psi"), lab.entry(r[0], lab.phase)
                x, y = sym("x_psi"), sym("x_" + lab.phase)
                if delta:       # phase = delta_phase - psi
                    y, ph = A.fn("@mod", y - x, q(2) * pi), ph - psi
                u2 = sym("u_2")
                s, d = psi + ph, psi - ph
                if u < 0.5:
                    ok = same(d, x - y) and same(s, q(3) * pi * u2)
                else:
                    ok = same(s, x + y) and same(d, q(3) * pi * u2 - q(2) * pi)
                if not ok:
                    m = "psi and phase become %s and %s" % (A.show(psi)[:90], A.show(ph)[:90])
            yield m, "CorrelatedPolarisationPhaseJump" + (" (delta_phase)" if delta else "")


def boundaries(prog, k):
    """boundaries are applied to the proposal's own parameters when no correction is needed, and never otherwise"""
    for order in (ABC, ("a", "b", "c"))[:1 + k]:
        lab = Lab(prog, {}, order, boundary={"b": "periodic", "c": "reflective", "a": None})
        for sub in (None, ["c", "a"], ["b"]):
            r = lab.propose("FixedGaussianProposal", kw={"subset": sub} if sub else {}, call=True)
            m = r if isinstance(r, str) else None
            if m is None:
                moved = sub or order
                ns = {key: sym("n_%d" % (i + 1)) for i, key in enumerate(x for x in order if x in moved)}
                for key in order:
                    v = sym("x_" + key)
                    if key in moved:
                        v = v + sym("width_" + key) * ns[key] * q(1, 100)
                        lo, wd = sym("min_" + key), sym("width_" + key)
                        got = lab.entry(r[0], key)
                        if key == "b":
                            w = [lo + A.fn("@mod", v - lo, wd)]
                            arg = [x for x in calls(got, "mod")]
                            if not any(same(x[0], v - lo) and same(x[1], wd) and same(got, lo + form("mod", x)) for x in arg) and not same(got, w[0]):
                                m = "the periodic parameter becomes %s" % A.show(got)[:120]
                        elif key == "c":
                            if not folded(lab, got, (v - lo) / wd, lo, wd):
                                m = "the reflective parameter becomes %s" % A.show(got)[:120]
                        elif not same(got, v):
                            m = "the unbounded parameter becomes %s" % A.show(got)[:120]
                    elif lab.entry(r[0], key) != v:
                        m = "%s is changed" % key
            yield m, "boundaries"
        r = lab.propose("StretchProposal", picks=[1], call=True)
        m = r if isinstance(r, str) else None
        if m is None and any(calls(lab.entry(r[0], key), f) for key in order for f in ("mod", "reflect")):
            m = "a boundary is applied to a move whose reverse density was computed for the point before wrapping"
        yield m, "boundaries of corrected moves"


def folded(lab, got, x, lo, wd):
    """lo + wd * (x reflected into the unit interval), under the valuation the branches were taken for"""
    env = lab.w.env
    v = R.real(R.value(x, env)) % 2
    want = R.real(R.value(lo, env)) + R.real(R.value(wd, env)) * (v if v <= 1 else 2 - v)
    return isinstance(got, E) and abs(R.real(R.value(got, env)) - want) < 1e-9 * (1 + abs(want))


def calls(e, name):
    """argument lists of the applications of a function in a form"""
    out = []

    def atom(a):
        if not isinstance(a, tuple):
            return
        if a[:1] == ("fn",) and str(a[1]).lstrip("@").split(".")[-1] in (name, name + "ulo", "remainder" if name == "mod" else name):
            out.append(list(a[2:]) + [a])
        for x in a:
            if isinstance(x, E):
                walk(x)

    def walk(x):
        for m, c in x:
            for a, p in m:
                atom(a)
                walk(p)
    if isinstance(e, E):
        walk(e)
    return out


def form(name, args):
    return A.atom(args[-1])


PROPOSALS = [("random walks", gaussian("FixedGaussianProposal", {}), "FixedGaussianProposal"), ("random walks", gaussian("AdaptiveGaussianProposal", {"sigma": q(1, 2), "scale_init": q(3)}), "AdaptiveGaussianProposal"),
             ("random walks", jump, "FixedJumpProposal"), ("differential evolution", evolution, "DifferentialEvolutionProposal"), ("independence", independent, "UniformProposal"),
             ("independence", from_prior, "PriorProposal"), ("density estimates", density("KDEProposal"), "KDEProposal"), ("density estimates", density("GMMProposal"), "GMMProposal"),
             ("density estimates", flow, "NormalizingFlowProposal"), ("stretch", stretch, "StretchProposal"), ("fisher", fisher, "FisherMatrixProposal"),
             ("polarisation", polarisation, "PhaseReversalProposal"), ("boundaries", boundaries, "BaseProposal")]


# -- the sampler ---------------------------------------------------------------------------------------------------------
def inputs(**kw):
    d = {"autocorr_c": q(5), "burn_in_nact": q(1), "thin_by_nact": q(1), "fixed_discard": ZERO, "target_nsamples": q(1000), "stop_after_convergence": False, "L1steps": ONE, "L2steps": q(2), "min_tau": ONE,
         "fixed_tau": None, "tau_window": None}
    d.update(kw)
    return Obj("inputs", dict(d), {"_asdict": lambda i, a, k: dict(d)})


class Moves(Obj):
    """a proposal that offers the given points"""

    def __init__(self, lab, points):
        Obj.__init__(self, "proposal", {"accepted": ZERO, "rejected": ZERO, "weight": ONE}, {"__call__": self.go})
        self.lab, self.points, self.n = lab, list(points), 0
        self.seen = []

    def clone(self):
        return self

    def go(self, it, a, kw):
        cur = it.getattr(a[0], "current_sample")
        self.seen.append(tuple(it.getitem(cur, k) for k in self.lab.order))
        t, f = self.points[self.n]
        self.n += 1
        for k in self.lab.order:
            it.setitem(cur, k, sym("%s_%s" % (t, k)))
        return T([cur, f])


def pt(lab, betas, nens=1, pt_ensemble=False, points=(), method="stepping_stone", rejection=False, **kw):
    it, prog = lab.it, lab.prog
    cyc = it.new(prog.classes[P + "ProposalCycle"], [[Moves(lab, points)]])
    n = len(betas)
    pi = Obj("pt_inputs", {"ntemps": q(n), "nensemble": q(nens), "pt_ensemble": pt_ensemble, "Tmax": None, "Tmax_from_SNR": q(20), "initial_betas": list(betas), "adapt": kw.pop("adapt", False),
                           "adapt_t0": q(100), "adapt_nu": q(10)})
    s = it.new(prog.classes[M + "BilbyPTMCMCSampler"], [], {
        "convergence_inputs": inputs(**kw), "pt_inputs": pi, "proposal_cycle": cyc, "pt_rejection_sample": rejection, "pool": None, "use_ratio": lab.ratio, "evidence_method": method,
        "initial_sample_method": "prior", "initial_sample_dict": None})
    return s


def posterior(lab, vals):
    """log likelihood and log prior of a point given in the sampler's parameter order"""
    return lab.at(vals), lab.prior_at(vals) + A.fn("log", sym("factor"))


def decided(lab, uname, want):
    """the quantity the uniform draw was compared with: vanishing where u equals the wanted probability"""
    for e in reversed(lab.w.asked):
        names = set()
        A.symbols(e, names)
        if uname in names:
            z = A.subst(e, uname, want)
            if A.is_zero(z) or same(z, ZERO):
                return None
            return "the draw is accepted where %s is positive" % A.show(e)[:200]
    return "no draw decides the move"


def value(lab, e):
    return R.real(R.value(e, lab.w.env))


def single(lab, beta, points, **kw):
    it, prog = lab.it, lab.prog
    mv = Moves(lab, points)
    cyc = it.new(prog.classes[P + "ProposalCycle"], [[mv]])
    s = it.new(prog.classes[M + "BilbyMCMCSampler"], [inputs(**kw)], {"proposal_cycle": cyc, "beta": beta, "use_ratio": lab.ratio})
    return s, mv


def vals_of(lab, s):
    return [lab.entry(s, k) for k in lab.order]


def step_case(prog, ratio, beta, accept, order=ABC):
    """one step: acceptance probability, what is appended and counted"""
    lab = Lab(prog, {}, order, ratio=ratio)
    it = lab.it
    f = sym("factor_q")
    s, mv = single(lab, beta, [("p", f)])
    ch = it.getattr(s, "chain")
    x = vals_of(lab, it.getattr(ch, "current_sample"))
    ll, lp = lab.keys()
    l0, p0 = posterior(lab, x)
    cur = it.getattr(ch, "current_sample")
    if lab.entry(cur, ll) != l0 or lab.entry(cur, lp) != p0:
        return "the first sample's log likelihood and prior are %s, %s" % (lab.entry(cur, ll), lab.entry(cur, lp))
    y = [sym("p_" + k) for k in order]
    l1, p1 = posterior(lab, y)
    alpha = A.exp(f + beta * (l1 - l0) + p1 - p0)
    lab.log.clear()
    a = R.real(R.value(alpha, lab.w.env))
    lab.w.env["u_1"] = a * (0.5 if accept else 1.5)
    lab.w.asked.clear()
    it.method(s, "step")
    m = decided(lab, "u_1", alpha)
    if m:
        return m + ", not u <= exp(log q-ratio + beta * delta lnL + delta ln pi)"
    cur = it.getattr(ch, "current_sample")
    got = vals_of(lab, cur) + [lab.entry(cur, ll), lab.entry(cur, lp)]
    if got != ((y + [l1, p1]) if accept else (x + [l0, p0])):
        return "after %s the chain stands at %s" % ("acceptance" if accept else "rejection", [str(v)[:60] for v in got])
    row = it.getitem(ch, q(-1))
    if it.getattr(ch, "position") != ONE or [lab.entry(row, k) for k in list(order) + [ll, lp]] != got:
        return "the sample stored at the end of the chain is not the current one"
    if (it.getattr(s, "accepted"), it.getattr(s, "rejected")) != ((ONE, ZERO) if accept else (ZERO, ONE)) or (mv.attrs["accepted"], mv.attrs["rejected"]) != ((ONE, ZERO) if accept else (ZERO, ONE)):
        return "counters are %s, %s" % (it.getattr(s, "accepted"), it.getattr(s, "rejected"))
    return None


def internal_steps(prog):
    """several internal steps: the later ones start from the accepted point; one sample is stored"""
    for acc in itertools.product((True, False), repeat=2):
        lab = Lab(prog, {})
        it = lab.it
        beta = q(1, 3)
        s, mv = single(lab, beta, [("p", sym("f1")), ("r", sym("f2"))], L1steps=q(2))
        ch = it.getattr(s, "chain")
        x = vals_of(lab, it.getattr(ch, "current_sample"))
        pts = {"x": x, "p": [sym("p_" + k) for k in ABC], "r": [sym("r_" + k) for k in ABC]}
        post = {t: posterior(lab, v) for t, v in pts.items()}
        at, names, alphas = "x", [], []
        for i, (t, f, ok) in enumerate((("p", sym("f1"), acc[0]), ("r", sym("f2"), acc[1]))):
            al = A.exp(f + beta * (post[t][0] - post[at][0]) + post[t][1] - post[at][1])
            lab.w.env["u_%d" % (i + 1)] = R.real(R.value(al, lab.w.env)) * (0.5 if ok else 1.5)
            alphas.append(al)
            names.append(at)
            if ok:
                at = t
        lab.log.clear()
        lab.w.asked.clear()
        it.method(s, "step")
        m = None
        if mv.seen != [tuple(pts[t]) for t in names]:
            m = "internal steps start from other points than the ones accepted before"
        m = m or decided(lab, "u_1", alphas[0]) or decided(lab, "u_2", alphas[1])
        cur = it.getattr(ch, "current_sample")
        if m is None and (vals_of(lab, cur) != pts[at] or it.getattr(ch, "position") != ONE):
            m = "the stored sample is not the last accepted one"
        if m is None and vals_of(lab, it.getitem(ch, q(-1))) != pts[at]:
            m = "the stored row is not the last accepted sample"
        yield m, "internal steps"


def impossible(prog):
    """points without prior or likelihood are rejected"""
    for what in ("prior", "likelihood", "nan"):
        for order in (ABC,):
            lab = Lab(prog, {}, order)
            it = lab.it
            s, mv = single(lab, ONE, [("p", ZERO), ("r", ZERO)])
            ch = it.getattr(s, "chain")
            x = vals_of(lab, it.getattr(ch, "current_sample"))
            if what == "prior":
                o = it.getitem(lab.pd, "c")
                o.hooks["ln_prob"] = lambda i, a, k: NINF
            elif what == "likelihood":
                lab.ninfs = ("p_",)
            else:
                lab.like.hooks["log_likelihood"] = lambda i, a, k: NAN
            it.method(s, "step")
            cur = it.getattr(ch, "current_sample")
            m = None
            if vals_of(lab, cur) != x or vals_of(lab, it.getitem(ch, q(-1))) != x or it.getattr(ch, "position") != ONE:
                m = "a point with %s is not rejected in favour of the current one" % {"nan": "undefined likelihood"}.get(what, "vanishing " + what)
            yield m, "impossible points"


def swaps(prog):
    for pe, accept in itertools.product((False, True), (True, False)):
        for nens in (1, 2):
            if pe and nens == 1:
                continue
            lab = Lab(prog, {})
            it = lab.it
            betas = [ONE, q(1, 2)]
            s = pt(lab, betas, nens, pe)
            ll, lp = lab.keys()
            d = it.getattr(s, "sampler_dictionary")
            lists = [[(it.getitem(it.getitem(d, const(t)), const(e))) for t in range(2)] for e in range(nens if pe else 1)]
            before, n = [], 0
            for row in lists:
                pair = []
                for smp in row:
                    ch = it.getattr(smp, "chain")
                    it.method(ch, "append", lab.sample("s%d" % n))
                    pair.append("s%d" % n)
                    n += 1
                before.append(pair)
            for i, (a, b) in enumerate(before):
                al = A.exp((q(1, 2) - ONE) * (sym(a + "_logl") - sym(b + "_logl")))
                lab.w.env["u_%d" % (i + 1)] = R.real(R.value(al, lab.w.env)) * (0.5 if accept else 1.5)
            lab.log.clear()
            lab.w.asked.clear()
            it.method(s, "swap_tempered_chains")
            m = None
            for i, (a, b) in enumerate(before):
                m = m or decided(lab, "u_%d" % (i + 1), A.exp((q(1, 2) - ONE) * (sym(a + "_logl") - sym(b + "_logl"))))
                got = []
                for smp in lists[i]:
                    ch = it.getattr(smp, "chain")
                    r, c = it.getitem(ch, q(-1)), it.getattr(ch, "current_sample")
                    got.append([lab.entry(r, k) for k in ABC + (ll, lp)])
                    if got[-1] != [lab.entry(c, k) for k in ABC + (ll, lp)]:
                        m = m or "current sample and last row of a chain differ after a swap"
                want = [[sym("%s_%s" % (t, k)) for k in ABC + ("logl", "logp")] for t in ((b, a) if accept else (a, b))]
                if got != want:
                    m = m or "after %s the pair of chains holds %s" % ("a swap" if accept else "a rejected swap", str(got)[:160])
                cnt = (it.getattr(lists[i][0], "pt_accepted"), it.getattr(lists[i][0], "pt_rejected"))
                if cnt != ((ONE, ZERO) if accept else (ZERO, ONE)):
                    m = m or "swap counters are %s" % (cnt,)
            yield m, "tempering swaps"


def ensemble(prog):
    for accept in (True, False, None):
        lab = Lab(prog, {})
        it = lab.it
        s = pt(lab, [ONE, q(1, 4)], 2, True)
        ll, lp = lab.keys()
        d = it.getattr(s, "sampler_dictionary")
        mv = Moves(lab, [("e%d" % i, sym("fe%d" % i)) for i in range(4)])
        comps = []
        old = mv.hooks["__call__"]

        def go(i, a, kw, old=old):
            comps.append((a[0], list(i.iterate(a[1]))))
            return old(i, a, kw)
        mv.hooks["__call__"] = go
        s.attrs["ensemble_proposal_cycle"] = Obj("cycle", {}, {"get_proposal": lambda i, a, k: mv})
        order, want, n = [], [], 0
        for t in range(2):
            for e in range(2):
                smp = it.getitem(it.getitem(d, const(t)), const(e))
                ch = it.getattr(smp, "chain")
                x = vals_of(lab, it.getattr(ch, "current_sample"))
                y = [sym("e%d_%s" % (n, k)) for k in ABC]
                l0, p0 = posterior(lab, x)
                l1, p1 = posterior(lab, y)
                al = A.exp(sym("fe%d" % n) + (ONE, q(1, 4))[t] * (l1 - l0) + p1 - p0)
                if accept is not None:
                    lab.w.env["u_%d" % (n + 1)] = R.real(R.value(al, lab.w.env)) * (0.5 if accept else 1.5)
                order.append((smp, ch, t, e))
                want.append(((y + [l1, p1]) if accept else (x + [l0, p0]), al))
                n += 1
        if accept is None:
            it.getitem(lab.pd, "b").hooks["ln_prob"] = lambda i, a, k: NINF
        lab.log.clear()
        lab.w.asked.clear()
        it.method(s, "ensemble_step")
        m = None
        for i, (smp, ch, t, e) in enumerate(order):
            if accept is not None:
                m = m or decided(lab, "u_%d" % (i + 1), want[i][1])
            c = it.getattr(ch, "current_sample")
            r = it.getitem(ch, q(-1))
            for v in (c, r):
                if vals_of(lab, v) + [lab.entry(v, ll), lab.entry(v, lp)] != want[i][0]:
                    m = m or "after an ensemble step chain %d holds another sample" % i
            if i < len(comps):
                if comps[i][0] is not ch or any(x is ch for x in comps[i][1]) or [id(x) for x in comps[i][1]] != [id(z[1]) for z in order if z[2] == t and z[1] is not ch]:
                    m = m or "the complement of a walker is not the other walkers of its temperature"
        yield m, "ensemble step"


def schedule(prog):
    """ladder and end points"""
    lab = Lab(prog, {})
    it = lab.it
    s = pt(lab, [ONE, q(1, 2), q(1, 4), q(1, 8)], 1, False)
    lst = list(it.getattr(s, "sampler_list"))
    for i, smp in enumerate(lst):
        smp.attrs["accepted"], smp.attrs["rejected"] = q(5), q(i + 2)
        smp.attrs["pt_accepted"], smp.attrs["pt_rejected"] = q(i + 3), q(7)
    sc = it.getattr(s, "swap_counter")
    it.setitem(sc, "temperature", q(4))
    it.method(s, "adapt_temperatures")
    got = [it.getattr(x, "beta") for x in lst]
    m = None
    r = [q(i + 3) / q(i + 10) for i in range(4)]
    kap = q(100) / q(104) / q(10)
    d1, d2 = q(2) * A.exp(kap * (r[0] - r[1])) - q(1) * A.exp(kap * (r[0] - r[1])), q(2) * A.exp(kap * (r[1] - r[2]))
    if got[0] != ONE or got[3] != q(1, 8):
        m = "the ends of the ladder are moved to %s and %s" % (got[0], got[3])
    elif not same(got[1], ONE / (ONE + d1)) or not same(got[2], ONE / (ONE + d1 + d2)):
        m = "the inner temperatures become %s" % ([str(x)[:80] for x in got[1:3]],)
    yield m, "adaptation"
    lab = Lab(prog, {})
    it = lab.it
    s = pt(lab, [ONE, q(1, 2), q(1, 4)], 2, False)
    d = it.getattr(s, "sampler_dictionary")
    got = [[it.getattr(x, "beta") for x in it.iterate(it.getitem(d, const(t)))] for t in range(3)]
    m = None
    if got != [[ONE, ONE], [q(1, 2)], [q(1, 4)]]:
        m = "chains have inverse temperatures %s" % ([[str(x) for x in r] for r in got],)
    yield m, "ladder"


def fill(lab, smp, tag, n, mindex, tau=ONE):
    it = lab.it
    ch = it.getattr(smp, "chain")
    keys = list(it.getattr(ch, "keys"))
    ll, lp = lab.keys()
    rows = Arr(Arr(sym("%s%d_%s" % (tag, i, "logl" if k == ll else "logp" if k == lp else k)) for k in keys) for i in range(n))
    taus = {}
    it.setitem(taus, const(n - 1), tau)
    ch.attrs.update({"_chain_array": rows, "_chain_array_length": const(n), "position": const(n - 1), "_last_minimum_index": T([const(n - 1), const(mindex), "T"]),
                     "max_tau_dict": taus})
    return ch


def evidence(prog):
    from .q01_results import A as _  # noqa: F401
    # thermodynamic integration over the whole ladder, per ensemble
    for pe in (False, True):
        lab = Lab(prog, {})
        it = lab.it
        betas = [ONE, q(1, 2), q(1, 6)]
        s = pt(lab, betas, 2, pe, method="thermodynamic")
        d = it.getattr(s, "sampler_dictionary")
        per = []
        for e in range(2 if pe else 1):
            means = []
            for t in range(3):
                smp = it.getitem(it.getitem(d, const(t)), const(e))
                tag = "t%de%d_" % (t, e)
                fill(lab, smp, tag, 5, 2)
                means.append(sum((sym("%s%d_logl" % (tag, i)) for i in range(2, 5)), ZERO) / q(3))
            z = sum(((betas[t] - betas[t + 1]) * (means[t] + means[t + 1]) / q(2) for t in range(2)), ZERO)
            per.append(z)
        it.ext["scipy.stats.sem"] = lambda i, a, k: ONE
        r = it.method(s, "compute_evidence_per_ensemble", it.getattr(s, "thermodynamic_integration_evidence"), {"outdir": "o", "label": "l", "make_plots": False})
        want = A.log(sum((A.exp(z) for z in per), ZERO) / q(len(per))) if len(per) > 1 else per[0]
        m = None
        if not isinstance(r, T) or not same(r[0], want):
            m = "the thermodynamic evidence is %s" % str(r)[:200]
        yield m, "thermodynamic integration"
        # stepping stone
        lab = Lab(prog, {})
        it = lab.it
        s = pt(lab, betas, 2, pe)
        d = it.getattr(s, "sampler_dictionary")
        per = []
        for e in range(2 if pe else 1):
            z = ZERO
            for t in range(3):
                smp = it.getitem(it.getitem(d, const(t)), const(e))
                tag = "t%de%d_" % (t, e)
                fill(lab, smp, tag, 6 if t != 1 else 5, 1 + (t == 2), q(2))
            for t in (1, 2):        # ratio from the hotter chain t to t-1
                tag = "t%de%d_" % (t, e)
                z = z + A.log(sum((A.exp((betas[t - 1] - betas[t]) * sym("%s%d_logl" % (tag, i))) for i in (2, 4)), ZERO) / q(2))
            per.append(z)
        r = it.method(s, "compute_evidence_per_ensemble", it.getattr(s, "stepping_stone_evidence"), {"outdir": "o", "label": "l", "make_plots": False})
        want = A.log(sum((A.exp(z) for z in per), ZERO) / q(len(per))) if len(per) > 1 else per[0]
        m = None
        if not isinstance(r, T) or not same(r[0], want):
            m = "the stepping stone evidence is %s" % str(r)[:200]
        yield m, "stepping stone"


def hot(prog):
    """samples of a tempered chain are reweighted by L^(1 - beta) and keep their own values"""
    for ratio in (False, True):
        lab = Lab(prog, {}, ratio=ratio)
        it = lab.it
        s, mv = single(lab, q(1, 4), [])
        ch = fill(lab, s, "h", 5, 1)
        seen = []
        it.ext["bilby.core.result.rejection_sample"] = lambda i, a, k: seen.append((a[0], a[1] if len(a) > 1 else k["weights"])) or a[0]
        for turn in range(2):
            it.method(s, "rejection_sample_zero_temperature_samples")
        m = None
        ll, lp = lab.keys()
        for df, w in seen:
            if not isinstance(df, Table) or not isinstance(w, (Arr, Obj, list)):
                raise Undecided("samples")
            w = list(it.iterate(w))
            n = df.size()
            if n != 3 and n != 4 or len(w) != n:
                m = "%d of the chain's samples are reweighted" % n
                break
            for i in range(n):
                for k in ABC + (ll, lp):
                    want = sym("h%d_%s" % (i + 1, "logl" if k == ll else "logp" if k == lp else k))
                    if list.__getitem__(df.items[k], i) != want:
                        m = m or "%s of a reused sample is %s instead of the chain's value %s" % (k, str(list.__getitem__(df.items[k], i))[:60], want)
                if not same(w[i] / w[0], A.exp(q(3, 4) * (sym("h%d_logl" % (i + 1)) - sym("h1_logl")))):
                    m = m or "the weight of a sample is not proportional to L^(1 - beta)"
        rows = it.getattr(ch, "_chain_array")
        keys = list(it.getattr(ch, "keys"))
        if any(rows[i][keys.index(ll)] != sym("h%d_logl" % i) for i in range(5)):
            m = m or "reweighting alters the log likelihoods stored in the chain"
        yield m, "samples of tempered chains"


def start(prog):
    """maximisation of the initial sample: the objective is minus the log posterior and excluded points are never favoured"""
    for good in (True, False):
        lab = Lab(prog, {})
        it = lab.it
        seen = []

        def de(i, a, k):
            seen.append((a[0] if a else k["func"], a[1] if len(a) > 1 else k["bounds"]))
            return Obj("result", {"success": True, "x": Arr(sym("best%d" % j) for j in range(3))})
        it.ext["scipy.optimize.differential_evolution"] = de
        f = lab.prog.by_qual.get(M + "get_initial_maximimum_posterior_sample")
        if f is None:
            raise Undecided("no function")
        r = it.callf(f, [q(1, 4)], {})
        m = None
        if not isinstance(r, dict) or any(r.get(k) != sym("best%d" % j) for j, k in enumerate(ABC)):
            m = "the initial sample is %s" % str(r)[:100]
        if not seen:
            raise Undecided("maximiser")
        if not good:
            it.getitem(lab.pd, "c").hooks["ln_prob"] = lambda i, a, k: NINF
        t = [sym("t%d" % j) for j in range(3)]
        v = it.apply(seen[0][0], [Arr(t)])
        if good:
            l, p = posterior(lab, t)
            if m is None and not same(v, -q(1, 4) * l - p):
                m = "the maximiser minimises %s" % str(v)[:120]
        elif m is None and (v == NINF or isinstance(v, E)):
            m = "a point outside the prior has objective %s, the best possible for a minimiser" % (v,)
        yield m, "initial maximisation"


def collected(prog):
    """samples of all cold chains, rows of the chain after burn-in"""
    lab = Lab(prog, {})
    it = lab.it
    s = pt(lab, [ONE, q(1, 2)], 2, False)
    lst = list(it.getattr(s, "sampler_list"))
    for i, smp in enumerate(lst):
        fill(lab, smp, "c%d_" % i, 8, 2, q(2))
    df = it.getattr(s, "samples")
    if not isinstance(df, Table):
        raise Undecided("samples")
    m = None
    ll, lp = lab.keys()
    got = []
    for i in range(df.size()):
        names = {str(list.__getitem__(df.items[k], i)).rsplit("_", 1)[0] for k in ABC + (ll, lp)}
        if len(names) != 1 or any(not str(list.__getitem__(df.items[k], i)).endswith("_" + ("logl" if k == ll else "logp" if k == lp else k)) for k in ABC + (ll, lp)):
            m = "a row of the samples mixes values of different samples: %s" % sorted(names)
            break
        got.append(names.pop())
    if m is None and got != ["c%d_%d" % (c, i) for c in (0, 1) for i in (2, 4, 6)]:
        m = "the samples are %s" % got
    yield m, "collected samples"

def pooled(s):
    return Obj("pool", {"_processes": q(2)}, {"map": lambda j, a, k: [j.apply(a[0], [z]) for z in j.iterate(a[1])]})


def rounds(prog):
    """every chain moves once per round; ensemble moves and swaps come at the given interval; adaptation ends"""
    for pe, pool in itertools.product((False, True), repeat=2):
        for l2 in (1, 3):
            lab = Lab(prog, {})
            it = lab.it
            s = pt(lab, [ONE, q(1, 2)], 2, pe, adapt=True, L2steps=q(l2))
            if pool:
                s.attrs["pool"] = pooled(s)
            lst = list(it.iterate(it.getattr(s, "sampler_list")))
            moved, events = [], []

            def stepped(i, x):
                def f(j, a, k):
                    moved[-1].append(i)
                    if not pool:
                        ch = j.getattr(x, "chain")
                        ch.attrs["position"] = ch.attrs["position"] + ONE
                        return x
                    y = Obj(x.cls, dict(x.attrs), dict(x.hooks))
                    y.attrs["stepped"] = const(len(moved))
                    y.attrs["step"] = Py(stepped(i, y))
                    if i == 0:
                        ch = j.getattr(y, "chain")
                        ch.attrs["position"] = ch.attrs["position"] + ONE
                    return y
                return f
            for i, x in enumerate(lst):
                x.attrs["step"] = Py(stepped(i, x))
            for n in ("ensemble_step", "swap_tempered_chains", "adapt_temperatures"):
                s.attrs[n] = Py(lambda i, a, k, n=n: events.append((len(moved), n)))
            n = 14
            m = None
            ch = it.getattr(lst[0], "chain")
            for r in range(n):
                moved.append([])
                if r == 10:
                    now = list(it.iterate(it.getattr(s, "sampler_list")))[0]
                    it.getattr(now, "chain").attrs["position"] = q(5000)
                it.method(s, "step_all_chains")
                if sorted(moved[-1]) != list(range(len(lst))):
                    m = m or "in one round the chains moved are %s of %d" % (moved[-1], len(lst))
                now = list(it.iterate(it.getattr(s, "sampler_list")))
                if [(integer(x.attrs["Tindex"]) if isinstance(x.attrs["Tindex"], E) else x.attrs["Tindex"], x.attrs["Eindex"]) for x in now] != [(integer(x.attrs["Tindex"]) if isinstance(x.attrs["Tindex"], E) else x.attrs["Tindex"], x.attrs["Eindex"]) for x in lst]:
                    m = m or "after a round the chains stand in other places of the ladder"
                if pool and any(x.attrs.get("stepped") != const(len(moved)) for x in now):
                    m = m or "chains moved by the pool are not kept"
            for what in ("ensemble_step", "swap_tempered_chains"):
                at = [r for r, w in events if w == what]
                if not at or any(b - a != l2 for a, b in zip(at, at[1:])) or at[0] > l2 + 1 or n - at[-1] >= l2:
                    m = m or "with L2steps=%d, %s happens in rounds %s" % (l2, what, at)
            sw = [r for r, w in events if w == "swap_tempered_chains"]
            ad = [r for r, w in events if w == "adapt_temperatures"]
            if ad != [r for r in sw if r <= 10]:
                m = m or "temperatures adapt in rounds %s with swaps in rounds %s and adaptation due to end at round 10" % (ad, sw)
            if it.getitem(it.getattr(s, "swap_counter"), "temperature") != const(len(sw)):
                m = m or "the swap counter that adaptation decays with is wrong"
            yield m, "rounds"


def ladders(prog):
    for kw, want in (({"Tmax": q(64)}, [ONE, q(1, 8), q(1, 64)]), ({"Tmax_from_SNR": q(9), "Tmax": None}, [ONE, ONE / A.power(q(27), q(1, 2)), q(1, 27)]), ({"initial_betas": [ONE, q(1, 2)]}, None),
                     ({"Tmax_from_SNR": None}, None)):
        lab = Lab(prog, {})
        it = lab.it
        it.ext["numpy.logspace"] = lambda i, a, k: Arr(A.exp(A.log(q(10)) * (a[0] + (a[1] - a[0]) * q(j) / q(integer(a[2]) - 1))) for j in range(integer(a[2])))
        s = pt(lab, [ONE, q(1, 2), q(1, 4)])
        d = dict(it.getattr(s, "pt_inputs").attrs, initial_betas=None)
        d.update(kw)
        s.attrs["pt_inputs"] = Obj("pt_inputs", d)
        m = None
        try:
            r = it.method(s, "get_initial_betas")
        except PyExc as e:
            if want is not None:
                m = "raises %s" % e.name
        else:
            r = list(it.iterate(r))
            if want is None:
                m = "a ladder %s is accepted for three temperatures" % [str(x) for x in r] if kw.get("initial_betas") else "no error without a way to choose the ladder"
            elif len(r) != 3 or any(not same(x, y) for x, y in zip(r, want)):
                m = "the ladder is %s" % [str(x)[:60] for x in r]
        yield m, "ladder from %s" % sorted(kw)[0]


def counted(prog):
    """samples counted towards convergence are those collected"""
    for rej, nens in itertools.product((False, True), (1, 2)):
        lab = Lab(prog, {})
        it = lab.it
        s = pt(lab, [ONE, q(1, 2)], nens, False, rejection=rej, target_nsamples=q(100))
        lst = list(it.iterate(it.getattr(s, "sampler_list")))
        ns = {}
        for i, smp in enumerate(lst):
            n = 5 + i
            fill(lab, smp, "c%d_" % i, n, 2, ONE)
            ns[i] = n - 1 - 2 if i < nens else (n - 1 - 2 if rej else 0)
        it.ext["bilby.core.result.rejection_sample"] = lambda i, a, k: a[0]
        got = it.getattr(s, "nsamples")
        m = None
        if got != const(sum(ns.values())):
            m = "%s samples are counted, %s are collected" % (got, sum(ns.values()))
        df = it.getattr(s, "samples")
        if isinstance(df, Table) and df.size() != sum(ns.values()):
            m = m or "%s samples are collected instead of %s" % (df.size(), sum(ns.values()))
        yield m, "samples counted, pt_rejection_sample=%s" % rej
    for n, target, conv in ((4, 3, True), (4, 4, False)):
        lab = Lab(prog, {})
        it = lab.it
        s, mv = single(lab, ONE, [], target_nsamples=q(target), stop_after_convergence=True)
        ch = fill(lab, s, "h", n + 3, 2)
        it.getattr(s, "nsamples")
        m = None
        if bool(it.getattr(ch, "converged")) != conv:
            m = "with %d of %d samples the chain counts as %sconverged" % (n, target, "" if not conv else "not ")
        it.method(s, "step") if conv else None
        if conv and it.getattr(ch, "position") != q(n + 2):
            m = m or "a converged chain moves although it should stop"
        yield m, "convergence"


def stored(prog):
    """a chain keeps every appended sample across blocks"""
    lab = Lab(prog, {})
    it = lab.it
    ch = lab.chain(*["s%d" % i for i in range(20)])
    ll, lp = lab.keys()
    m = None
    for i in list(range(20)) + [-1, -20]:
        r = it.getitem(ch, const(i))
        want = "s%d_" % (i % 20)
        if any(lab.entry(r, k) != sym(want + ("logl" if k == ll else "logp" if k == lp else k)) for k in ABC + (ll, lp)):
            m = "sample %d of the chain is not the one appended" % i
    for k in ABC:
        a = list(it.iterate(it.method(ch, "get_1d_array", k)))
        if a != [sym("s%d_%s" % (i, k)) for i in range(20)]:
            m = m or "the track of %s is not the appended samples" % k
    try:
        it.getitem(ch, const(20))
        m = m or "a sample beyond the end of the chain is returned"
    except PyExc:
        pass
    yield m, "stored samples"


def booked(prog):
    """evidence and samples handed to the result"""
    for method in ("thermodynamic", "stepping_stone"):
        lab = Lab(prog, {})
        it = lab.it
        s = pt(lab, [ONE, q(1, 2)], 1, False, method=method)
        ll, lp = lab.keys()
        lst = list(it.iterate(it.getattr(s, "sampler_list")))
        for i, smp in enumerate(lst):
            fill(lab, smp, "c%d_" % i, 6, 2, ONE)
        calls_ = {"thermodynamic": (sym("zt"), sym("et")), "stepping_stone": (sym("zs"), sym("es"))}
        s.attrs["thermodynamic_integration_evidence"] = Py(lambda i, a, k: T(calls_["thermodynamic"]))
        s.attrs["stepping_stone_evidence"] = Py(lambda i, a, k: T(calls_["stepping_stone"]))
        s.attrs["sampling_time"] = sym("seconds")
        s.attrs["pool"] = None
        it.getattr(s, "pt_inputs").hooks["_asdict"] = lambda i, a, k: {}
        it.ext["datetime.timedelta"] = lambda i, a, k: Obj("delta", {"seconds": A.fn("@secondsofday", k["seconds"]), "t": k["seconds"]}, {"total_seconds": lambda j, x, y: k["seconds"]})
        res = Obj("result", {"meta_data": {}})
        f = prog.classes[M + "Bilby_MCMC"].find("add_data_to_result")
        r = it.callf(f, [], {"result": res, "ptsampler": s, "outdir": "o", "label": "l", "make_plots": False})
        g = r.attrs
        m = None
        if not same(g.get("log_evidence"), calls_[method][0]) or not same(g.get("log_evidence_err"), calls_[method][1]):
            m = "evidence of method %s is booked as %s +/- %s" % (method, g.get("log_evidence"), g.get("log_evidence_err"))
        n = [sym("c0_%d" % i) for i in range(2, 5)]
        df = g.get("samples")
        if not isinstance(df, Table):
            raise Undecided("samples")
        for col, at in ((ll, "log_likelihood_evaluations"), (lp, "log_prior_evaluations")):
            v = list(it.iterate(g[at]))
            if v != [sym("c0_%d_%s" % (i, "logl" if col == ll else "logp")) for i in range(2, 5)]:
                m = m or "%s are %s" % (at, [str(x) for x in v])
        t = g.get("sampling_time")
        st = g["meta_data"].get("run_statistics", {})
        if not isinstance(t, Obj) or t.attrs.get("t") != sym("seconds") or st.get("sampling_time_s") != sym("seconds"):
            m = m or "the sampling time reported is %s" % (st.get("sampling_time_s"),)
        yield m, "result"


# -- random walks inside dynesty -----------------------------------------------------------------------------------------
W = "bilby.core.sampler.dynesty_utils."


class Cube(Lab):
    """walks in the unit cube: a prior transform @T, a likelihood @L, a live set of uninterpreted points"""

    def __init__(self, prog, env=(), n=3, clusters=3, proposals=("diff",), periodic=None, reflective=None, walks=6, level=0.35):
        Lab.__init__(self, prog, env)
        it, e = self.it, self.it.ext
        self.n = n
        self.calls, self.made = [], []
        it.loops = 500
        self.live = Arr(Arr(sym("w_live%d_%d" % (i, j)) for j in range(n)) for i in range(4))
        for i in range(4):
            for j in range(n):
                self.w.env.setdefault("w_live%d_%d" % (i, j), 0.2 + 0.13 * ((i * 5 + j * 3) % 5))
        for j in range(n):
            self.w.env.setdefault("u0_%d" % j, 0.4 + 0.1 * j)
        self.rng = Obj("rstate", {}, {"uniform": self.c_uniform, "choice": self.c_choice, "gamma": lambda i, a, k: self.draw("g"), "normal": self.c_normal, "integers": self.r_integers,
                                      "random": lambda i, a, k: self.draw("u")})
        e["dynesty.utils.get_random_generator"] = lambda i, a, k: self.rng
        e["numpy.random.default_rng"] = lambda i, a, k: self.rng
        e["dynesty.utils.apply_reflect"] = lambda i, a, k: Arr(A.fn("@fold", x) for x in a[0]) if isinstance(a[0], Arr) else A.fn("@fold", a[0])
        e["numpy.linalg.norm"] = lambda i, a, k: sym("norm")
        e["numpy.unique"] = lambda i, a, k: a[0]
        e["numpy.equal"] = lambda i, a, k: Obj("eq", {}, {"all": lambda j, x, y: Arr([False] * 4)})
        e["numpy.where"] = lambda i, a, k: T([Arr(const(j) for j, b in enumerate(a[0]) if b)])
        e["numpy.delete"] = lambda i, a, k: a[0]
        e["numpy.diff"] = self.c_diff
        e["numpy.ceil"] = self.c_ceil
        e["bilby.bilby_mcmc.chain.calculate_tau"] = lambda i, a, k: q(2)
        kw = {"live": self.live, "walks": q(walks), "nlive": q(4), "periodic": periodic, "reflective": reflective}
        self.axes = Arr(Arr(sym("ax%d%d" % (i, j)) for j in range(clusters)) for i in range(clusters))
        self.axes.shape = None
        self.u0 = Arr(sym("u0_%d" % j) for j in range(n))
        self.args = Obj("args", {"u": self.u0, "axes": self.axes, "scale": sym("scale"), "rseed": q(1), "kwargs": kw, "loglstar": sym("level"), "prior_transform": Py(self.transform),
                                 "loglikelihood": Py(self.logl)})
        self.w.env.setdefault("level", level)
        self.props = list(proposals)

    def transform(self, it, a, k):
        return Arr(A.fn("@T%d" % j, x) for j, x in enumerate(a[0]))

    def logl(self, it, a, k):
        v = A.fn("@L", *a[0])
        self.calls.append((Arr(a[0]), v))
        return v

    def c_diff(self, it, a, k):
        rows = list(a[0])
        return Arr(Arr(y - x for x, y in zip(p, r)) if isinstance(p, (Arr, list)) else r - p for p, r in zip(rows, rows[1:]))

    def c_ceil(self, it, a, k):
        if a[0] in (INF, NINF, NAN):
            return a[0]
        return q(math.ceil(value(self, a[0]) - 1e-12))

    def c_uniform(self, it, a, k):
        size = a[2] if len(a) > 2 else k.get("size")
        lo, hi = a[0] if a else k.get("low", ZERO), a[1] if len(a) > 1 else k.get("high", ONE)
        if (lo, hi) != (ZERO, ONE):
            self.made.append("a uniform draw lies between %s and %s instead of zero and one" % (lo, hi))
        if size is None:
            return self.r_uniform(it, a, k)
        return Arr(self.draw("f") for _ in range(integer(size)))

    def c_normal(self, it, a, k):
        size = a[2] if len(a) > 2 else k.get("size")
        return Arr(self.draw("n") for _ in range(integer(size)))

    def c_choice(self, it, a, k):
        vals = a[0]
        size = a[1] if len(a) > 1 else k.get("size")
        if isinstance(vals, Arr) and len(vals) and isinstance(vals[0], Arr):
            if integer(size) != 2 or k.get("replace", a[2] if len(a) > 2 else True) is not False:
                self.made.append("the two points of a differential move are not drawn without replacement")
            i = sum(1 for x in self.log if x[0] == "pair")
            self.log.append(("pair", i))
            return Arr(Arr(x) for x in (vals[i % 4], vals[(i + 1) % 4]))
        vals = list(vals)
        return [vals[i % len(vals)] for i in range(integer(size))]


def names_of(e):
    out = set()
    A.symbols(e, out)
    return out


def cube_moves(prog):
    """differential and volumetric moves are symmetric in the clustered dimensions and uniform in the others"""
    for fname, clusters, env in (("propose_differetial_evolution", 3, {"u_1": 0.3}), ("propose_differetial_evolution", 2, {"u_1": 0.3}), ("propose_differetial_evolution", 2, {"u_1": 0.8}),
                                 ("propose_volumetric", 3, {}), ("propose_volumetric", 2, {})):
        lab = Cube(prog, env, clusters=clusters)
        it = lab.it
        f = prog.by_qual.get(W + fname)
        if f is None:
            continue
        kw = {"u": Arr(lab.u0), "n": q(3), "n_cluster": q(clusters), "rstate": lab.rng}
        if "volum" in fname:
            kw.update(axes=lab.axes, scale=sym("scale"))
        else:
            kw.update(live=Arr(Arr(x[:clusters]) for x in lab.live), mix=q(1, 2), scale=sym("scale"))
        given = kw["u"]
        r = it.callf(f, [], kw)
        m = lab.made[0] if lab.made else None
        if not isinstance(r, Arr) or len(r) != 3:
            raise Undecided("move")
        if list(given) != list(lab.u0):
            m = m or "%s changes the current point itself" % fname
        rays = []
        for j in range(3):
            if j >= clusters:
                if names_of(r[j]) not in ({"f_%d" % (1 + i)} for i in range(3)) or not zero(r[j] - sym(list(names_of(r[j]))[0])):
                    m = m or "dimension %d outside the clustered ones becomes %s, not a uniform draw" % (j, A.show(r[j])[:60])
                rays.append(frozenset(names_of(r[j])))
                continue
            d = r[j] - sym("u0_%d" % j)
            if any(x.startswith("u0_") for x in names_of(d)) or zero(d):
                m = m or "the displacement of %s in dimension %d is %s" % (fname, j, A.show(d)[:80])
            b = d
            for i in range(3):
                if "volum" in fname:
                    b = A.subst(b, "n_%d" % (1 + i), -sym("n_%d" % (1 + i)))
                else:
                    b = A.subst(A.subst(A.subst(b, "w_live0_%d" % i, sym("tmp")), "w_live1_%d" % i, sym("w_live0_%d" % i)), "tmp", sym("w_live1_%d" % i))
            if not same(b, -d):
                m = m or "the displacement of %s, %s, is not symmetric" % (fname, A.show(d)[:100])
            if "volum" in fname:
                want = sum((sym("scale") * sym("ax%d%d" % (j, i)) * sym("n_%d" % (1 + i)) / sym("norm") * A.power(sym("u_1"), q(1, clusters)) for i in range(clusters)), ZERO)
                if not same(d, want):
                    m = m or "the move %s is not uniform in the ellipsoid of the axes" % A.show(d)[:100]
        if len(set(rays)) != len(rays):
            m = m or "dimensions share a uniform draw"
        yield m, fname


def cube_bounds(prog):
    f = prog.by_qual.get(W + "apply_boundaries_")
    if f is None:
        return
    for vals, per, ref, inside in (((0.2, 0.5, 0.9), None, None, True), ((-0.1, 0.5, 0.9), None, None, False), ((0.2, 0.5, 1.3), None, None, False), ((1.2, 0.5, 0.9), [0], None, True),
                                   ((0.2, -0.3, 0.4), [0], [1], True), ((0.2, 1.3, 1.4), [0], [1], False), ((0.0005, 0.9995, 0.5), [2], [1], True)):
        lab = Cube(prog, {"p_%d" % j: v for j, v in enumerate(vals)})
        it = lab.it
        w = lab.w
        fold = {"@fold": lambda x: None}
        pt_ = Arr(sym("p_%d" % j) for j in range(3))
        per_, ref_ = [const(i) for i in per] if per else None, [const(i) for i in ref] if ref else None
        # a folded coordinate takes the value of the reflection
        env = dict(w.env)
        it.ext["dynesty.utils.apply_reflect"] = lambda i, a, k: Arr(_reflect(lab, x, vals, j) for j, x in zip(ref or (), a[0]))
        r = it.callf(f, [], {"u_prop": pt_, "periodic": per_, "reflective": ref_})
        m = None
        if (r is None) == inside:
            m = "the point %s with periodic %s and reflective %s dimensions is %s" % (vals, per, ref, "rejected" if inside else "kept")
        elif r is not None:
            for j in range(3):
                v = value(lab, r[j])
                want = vals[j] % 1 if per and j in per else _folded(vals[j]) if ref and j in ref else vals[j]
                if abs(v - want) > 1e-9:
                    m = m or "coordinate %d at %s moves to %s instead of %s" % (j, vals[j], v, want)
        yield m, "boundaries"


def _folded(v):
    v = abs(v) % 2
    return 2 - v if v > 1 else v


def _reflect(lab, x, vals, j):
    s = sym("folded_%d" % j)
    lab.w.env["folded_%d" % j] = _folded(vals[j])
    return s


def walk_of(prog, cls, env_level, walks, conf, outside=2, args=None):
    """run one walk with stand-in moves: (lab, result)"""
    lab = Cube(prog, {}, walks=walks, level=0.5)
    it = lab.it
    it.classvars.update({(prog.classes["bilby.core.sampler.base_sampler._SamplingContainer"], n): v for n, v in conf.items()})
    lab.from_, lab.seen, lab.values = [], {}, {}

    def move(i, a, k):
        u = k["u"] if "u" in k else a[0]
        n = len(lab.from_)
        lab.from_.append(list(u))
        for j in range(3):
            lab.w.env["p%d_%d" % (n, j)] = 1.4 if n % 7 == outside and j == 1 else 0.1 + 0.8 * ((n * 7 + j * 3) % 10) / 10
        return Arr(sym("p%d_%d" % (n, j)) for j in range(3))
    for n in ("propose_differetial_evolution", "propose_volumetric"):
        it.ext[W + n] = move

    def transform(i, a, k):
        v = Arr(A.fn("@T%d" % j, x) for j, x in enumerate(a[0]))
        lab.seen[tuple(v)] = list(a[0])
        return v

    def logl(i, a, k):
        key = tuple(a[0])
        if key not in lab.values:
            n = len(lab.values)
            s = sym("L%d" % n)
            lab.w.env["L%d" % n] = env_level(n)
            lab.values[key] = s
        lab.calls.append((Arr(a[0]), lab.values[key]))
        return lab.values[key]
    lab.args.attrs["prior_transform"], lab.args.attrs["loglikelihood"] = Py(transform), Py(logl)
    lab.args.attrs["kwargs"].update(args or {})
    return lab, it.new(prog.classes[W + cls], [])


def triple(lab, got, fresh):
    """the point, its parameters and its log likelihood belong together; above the level unless a new draw"""
    u, v, l = list(got[0]), tuple(got[1]), got[2]
    if lab.made:
        return lab.made[0]
    if lab.seen.get(v) != u:
        return "the parameters returned are not those of the point"
    if l != lab.values.get(v):
        return "the log likelihood returned is not the point's own"
    draw = all(len(names_of(x)) == 1 and next(iter(names_of(x))).startswith("f_") for x in u)
    if draw:
        return None if fresh else "a new draw is returned although the walk moved"
    if fresh:
        return "without an accepted move the point returned is not a draw from the prior"
    if not value(lab, l) > 0.5:
        return "the point returned lies below the likelihood level"
    return None


def path(lab, known=0):
    """every move starts from the last point accepted, and exactly the points above the level are accepted"""
    at, acc, i = list(lab.u0), 0, 0
    calls = lab.calls[known:]
    for n, u in enumerate(lab.from_):
        if u != at:
            return "move %d starts from another point than the last accepted one" % n, acc
        new = [sym("p%d_%d" % (n, j)) for j in range(3)]
        if lab.w.env["p%d_1" % n] > 1:
            continue
        if i >= len(calls) or lab.seen.get(tuple(calls[i][0])) != new:
            return "the likelihood is evaluated at other points than the moves propose", acc
        if value(lab, calls[i][1]) > 0.5:
            at, acc = new, acc + 1
        i += 1
    return None, acc


NEVER = lambda n: 0.1                                   # noqa: E731
SOME = lambda n: (0.1, 0.7, 0.8, 0.2, 0.6)[n % 5]       # noqa: E731


def cube_fixed(prog):
    for level in (SOME, NEVER):
        for props in (["diff"], {"diff": q(1), "volumetric": q(2)}):
            lab, w = walk_of(prog, "FixedRWalk", level, 9, {"proposals": props})
            r = lab.it.apply(w, [lab.args])
            m, acc = path(lab)
            m = m or triple(lab, r[:3], level is NEVER)
            blob = r[4]
            if m is None and (lab.it.getitem(blob, "accept") != const(acc) or lab.it.getitem(blob, "reject") != const(9 - acc)):
                m = "%s accepted and %s rejected moves are reported, %d of 9 were accepted" % (lab.it.getitem(blob, "accept"), lab.it.getitem(blob, "reject"), acc)
            if m is None and acc:
                last = [sym("p%d_%d" % (max(n for n in range(9) if lab.w.env["p%d_1" % n] < 1 and value(lab, lab.values[tuple(A.fn("@T%d" % j, sym("p%d_%d" % (n, j))) for j in range(3))]) > 0.5), j)) for j in range(3)]
                if list(r[0]) != last:
                    m = "the point returned is not the last accepted one"
            yield m, "FixedRWalk"


def cube_acceptance(prog):
    for level, nact in ((SOME, 4), (NEVER, 3), (lambda n: 0.9 if n < 2 else 0.1, 2)):
        lab, w = walk_of(prog, "AcceptanceTrackingRWalk", level, 5, {"proposals": ["diff"], "nact": q(nact), "maxmcmc": q(30)})
        r = lab.it.apply(w, [lab.args])
        m, acc = path(lab)
        m = m or triple(lab, r[:3], not acc)
        if m is None and lab.it.getitem(r[4], "accept") != const(acc):
            m = "%s accepted moves are reported, %d were" % (lab.it.getitem(r[4], "accept"), acc)
        if m is None and lab.it.getitem(r[4], "reject") != const(len(lab.from_) - acc):
            m = "%s rejected moves are reported, %d were" % (lab.it.getitem(r[4], "reject"), len(lab.from_) - acc)
        yield m, "AcceptanceTrackingRWalk"


def cube_cached(prog):
    for level, nact, most in ((SOME, 1, 6), (SOME, -1, 6), (SOME, 200, 6), (NEVER, 2, 1), (SOME, 2, 1)):
        lab, w = walk_of(prog, "ACTTrackingRWalk", level, 5, {"proposals": ["diff"], "nact": q(nact), "maxmcmc": q(most)})
        it = lab.it
        m = None
        w.attrs["args"] = lab.args
        it.method(w, "build_cache")
        got = list(it.iterate(it.getattr(w, "_cache")))
        m, acc = path(lab, 1)
        if not got:
            m = m or "no point is found"
        at = []
        for e in got:
            m = m or triple(lab, list(e)[:3], not acc)
            at.append(tuple(list(e)[0]))
        if m is None and nact == 1 and len(got) < 3:
            raise Undecided("no chain to thin")
        # the points found are handed out once each, in order, skipping those that fell below the level
        w.attrs["build_cache"] = Py(lambda i, a, k: None)
        lim = sorted(value(lab, list(e)[2]) for e in got)[len(got) // 2] - 1e-6
        lab.w.env["level"] = lim
        want = [list(e)[2] for e in got if value(lab, list(e)[2]) >= lim]
        out = []
        for _ in want:
            r = it.apply(w, [lab.args])
            out.append(r[2])
            m = m or triple(lab, r[:3], not acc)
        if m is None and out != want[:len(out)]:
            m = "points are handed out as %s instead of %s" % ([str(x) for x in out], [str(x) for x in want])
        yield m, "ACTTrackingRWalk"


STEPS = [("internal steps", internal_steps, "BilbyMCMCSampler"), ("impossible points", impossible, "BilbyMCMCSampler"), ("tempering", swaps, "BilbyPTMCMCSampler"), ("ensemble", ensemble, "BilbyPTMCMCSampler"),
         ("temperatures", schedule, "BilbyPTMCMCSampler"), ("evidence", evidence, "BilbyPTMCMCSampler"), ("tempered samples", hot, "BilbyMCMCSampler"), ("start", start, None),
         ("samples", collected, "BilbyPTMCMCSampler"), ("rounds", rounds, "BilbyPTMCMCSampler"), ("ladder", ladders, "BilbyPTMCMCSampler"), ("counts", counted, "BilbyPTMCMCSampler"),
         ("chain", stored, "BilbyMCMCSampler"), ("result", booked, "Bilby_MCMC")]


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    rule = Rule(ctx)
    for name, (text, floor) in RULES.items():
        ctx.rule(name, text, floor=floor * k)

    def go(name, what, thunk, func):
        res = rule.run(lambda dec: thunk())
        rule.report(name, what, func, res, lambda r, dec: r)

    def anchor(cls, mod):
        c = prog.classes.get(mod + cls) if cls else None
        if c is None:
            return None
        for n in ("propose", "step", "step_all_chains", "apply_boundaries", "add_data_to_result"):
            f = c.find(n)
            if f is not None:
                return f
        return None

    def table(name, gen, func):
        def first():
            for m, w in gen:
                if m:
                    return "%s: %s" % (w, m)
            return None
        go(name, func[0], first, func[1])

    for name, fn, cls in PROPOSALS:
        if prog.classes.get(P + cls) is None:
            continue
        table(name, fn(prog, k), (cls, anchor(cls, P)))
    c = prog.classes.get(M + "BilbyMCMCSampler")
    if c is not None:
        for ratio, beta, acc in itertools.product((False, True), (ONE, q(1, 3)), (True, False)):
            for order in (ABC, ("a", "b", "c"))[:1 + k]:
                go("step", "step with %s at beta %s, %s" % ("ratio" if ratio else "likelihood", beta, "accepted" if acc else "rejected"),
                   lambda: step_case(prog, ratio, beta, acc, order), c.find("step"))
    for name, fn, cls in STEPS:
        if cls and prog.classes.get(M + cls) is None:
            continue
        f = prog.by_qual.get(M + "get_initial_maximimum_posterior_sample") if cls is None else anchor(cls, M)
        if f is None:
            continue
        table(name, fn(prog), (name, f))
    for name, fn, what in CUBE:
        f = prog.by_qual.get(W + what)
        c = prog.classes.get(W + what)
        f = f or c and (c.find("build_cache") or c.find("__call__"))
        if f is not None:
            table(name, fn(prog), (name, f))


CUBE = [("walk moves", cube_moves, "propose_differetial_evolution"), ("walk boundaries", cube_bounds, "apply_boundaries_"), ("fixed walk", cube_fixed, "FixedRWalk"),
        ("acceptance walk", cube_acceptance, "AcceptanceTrackingRWalk"), ("autocorrelation walk", cube_cached, "ACTTrackingRWalk")]


RULES = {
    "random walks": ("symmetric steps about the current point, ratio one", 2), "differential evolution": ("a scaled difference of two chain points is added, ratio one", 1),
    "independence": ("points are drawn independently of the current one and the ratio is that of their densities", 2), "density estimates": ("the ratio is that of the learned density the point was drawn from", 2),
    "stretch": ("a stretch by z in n dimensions has log ratio (n - 1) log z", 1), "fisher": ("steps follow the inverse Fisher matrix at the current point", 1),
    "polarisation": ("the move keeps the documented combination fixed", 1), "boundaries": ("periodic and reflective parameters are folded, others leave the support", 1),
    "step": ("acceptance is min(1, exp(log ratio + beta delta lnL + delta ln prior)) and the stored sample is the current point", 6), "internal steps": ("inner steps continue from the last point", 1),
    "impossible points": ("points without prior or likelihood are rejected", 1), "tempering": ("swaps have probability min(1, exp(delta beta delta lnL)) and exchange whole samples", 1),
    "ensemble": ("ensemble members are proposed from the complementary set", 1), "temperatures": ("ladder adaptation targets equal swap rates and keeps the ends", 1),
    "evidence": ("stepping-stone and thermodynamic estimates", 1), "tempered samples": ("hot samples are reweighted by their own likelihood", 1), "start": ("the start maximises the posterior inside the prior", 1),
    "samples": ("the samples returned are those collected", 1), "rounds": ("rounds continue from the last state", 1), "ladder": ("initial ladder of inverse temperatures", 1),
    "counts": ("counts are those of the target temperature chains", 1), "chain": ("chain rows are the steps taken", 1), "result": ("the result holds the run's samples, likelihoods and times", 1),
    "walk moves": ("cube moves are symmetric", 1), "walk boundaries": ("cube boundaries", 1), "fixed walk": ("fixed-length walks", 1), "acceptance walk": ("walks until a number of acceptances", 1),
    "autocorrelation walk": ("walks thinned by their autocorrelation", 1)}
