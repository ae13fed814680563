"""D01: density, log density, cumulative distribution and quantile function of a prior describe one distribution."""
from .. import algebra as A
from ..algebra import ZERO, ONE, sym
from ..program import AnalysisBroken     # noqa: F401
from ..report import loc
from .. import randint as R
from ..valnum import Eval, World, Undecided, NINF, cases, Need, substitutions, admissible

TITLE = "density, log density, cdf and quantile agree"
EXPLANATION = (
    "Value numbering: prob, ln_prob, cdf and rescale of every analytic prior are reduced, together with the constructor, properties and helpers they use, "
    "to algebraic normal forms, once per combination of the comparisons they make (scalar and array arguments, special exponents, side of a mode, "
    "inside and on either side of the support). In each case log(prob) must have the normal form of ln_prob, the derivative of cdf that of prob, and cdf "
    "composed with rescale that of its argument; outside the support prob is 0, ln_prob -inf and cdf 0 or 1.")
ASSUMPTIONS = ["parameters named in the family table as positive are positive; minimum < maximum",
               "special functions satisfy their textbook identities; boundary points are not distinguished"]

PM = "bilby.core.prior.analytical."
POS = "pos"


class Fam:
    def __init__(self, cls, support="bounded", positive=(), facts=(), skip=(), mod=PM):
        self.qual = mod + cls
        self.support, self.positive, self.facts, self.skip = support, positive, facts, set(skip)


FAMILIES = [
    Fam("Uniform"),
    Fam("PowerLaw", positive=["minimum", "maximum"]),
    Fam("LogUniform", positive=["minimum", "maximum"]),
    Fam("SymmetricLogUniform", support="symmetric", positive=["minimum", "maximum"]),
    Fam("Cosine"),
    Fam("Sine"),
    Fam("Gaussian", support="real", positive=["sigma"]),
    Fam("TruncatedGaussian", positive=["sigma"]),
    Fam("HalfGaussian", support="positive", positive=["sigma"]),
    Fam("LogNormal", support="positive", positive=["sigma"]),
    Fam("Exponential", support="positive", positive=["mu"]),
    Fam("StudentT", support="real", positive=["df", "scale"]),
    Fam("Beta", positive=["alpha", "beta"]),
    Fam("Logistic", support="real", positive=["scale"]),
    Fam("Cauchy", support="real", positive=["beta"]),
    Fam("Gamma", support="positive", positive=["k", "theta"]),
    Fam("ChiSquared", support="positive", positive=["nu"]),
    Fam("FermiDirac", support="positive", positive=["sigma"]),
    Fam("Triangular", facts=[("mode", "minimum"), ("maximum", "mode")]),
]
RANGES = {"u": (0.02, 0.98), "alpha": (-3, 3), "df": (0.5, 4), "k": (0.5, 4), "nu": (0.5, 4)}
VAL, U = sym("val"), sym("u")
MIN, MAX = sym("minimum"), sym("maximum")


def facts_for(fam, where):
    f = [sym(p) for p in fam.positive] + [sym(a) - sym(b) for a, b in fam.facts]
    if fam.support in ("bounded", "symmetric"):
        f.append(MAX - MIN)
        if fam.facts:
            pass
    if fam.support == "bounded":
        if where == "in":
            f += [VAL - MIN, MAX - VAL]
            if "minimum" in fam.positive:
                f.append(VAL)
            for a, b in fam.facts:
                pass
        elif where == "below":
            f += [MIN - VAL, MAX - VAL]
            if "minimum" in fam.positive:
                f.append(VAL)
        else:
            f += [VAL - MIN, VAL - MAX]
            if "minimum" in fam.positive:
                f.append(VAL)
    elif fam.support == "positive":
        f += [VAL] if where == "in" else [-VAL]
    elif fam.support == "symmetric":
        if where == "in":
            f += [VAL, VAL - MIN, MAX - VAL, VAL + MIN, VAL + MAX]
        elif where == "in-":
            f += [-VAL, MIN - VAL, MAX - VAL, -VAL - MIN, VAL + MAX]
        elif where == "gap":
            f += [VAL, MIN - VAL, MAX - VAL, VAL + MIN, VAL + MAX]
        elif where == "above":
            f += [VAL, VAL - MIN, VAL - MAX, VAL + MIN, VAL + MAX]
        elif where == "below":
            f += [-VAL, MIN - VAL, MAX - VAL, -VAL - MIN, -VAL - MAX]
    return f


REGIONS = {"bounded": (["in"], ["below", "above"]), "positive": (["in"], ["below"]), "real": (["in"], []),
           "symmetric": (["in", "in-"], ["gap", "above", "below"])}


def apply_subs(v, subs):
    if isinstance(v, A.E):
        for n, x in subs:
            v = A.subst(v, n, x)
    return v


def number(v):
    if v is True:
        return ONE
    if v is False:
        return ZERO
    return v


class Runner:
    def __init__(self, prog, fam, deep=False):
        self.prog, self.fam, self.deep = prog, fam, deep
        self.memo = {}
        self.cls = prog.classes.get(fam.qual)

    def samples(self, facts):
        key = tuple(facts)
        if key not in self.memo:
            names = {"val", "u", "minimum", "maximum"}
            for f in facts:
                A.symbols(f, names)
            self.memo[key] = R.Samples(names - {"e", "pi"}, facts, want=400 if self.deep else 40, 
                                       ranges={**RANGES, **{p: (0.4, 4) for p in self.fam.positive if p in ("alpha", "beta")}})
        return self.memo[key]

    def same(self, a, b, facts, dec):
        """True / False, or None when the two forms cannot be told apart or related"""
        try:
            if A.equal(a, b):
                return True
        except A.TooBig:
            pass
        return R.close(a, b, admissible(self.samples(facts), facts, dec))

    def run(self, name, arg, facts, dec):
        """value of self.name(arg) under the facts and decisions"""
        f = self.cls.find(name)
        w = World(facts, dec, samples=self.samples(facts))
        ev = Eval(self.prog, w, self.cls)
        ev.attrs = ev.construct(self.cls)
        ev.attrs.pop("name", None)
        ev.cls = self.cls
        return number(ev.call(f, [arg]))

    def guarded(self, name, arg, facts, dec):
        try:
            return self.run(name, arg, facts, dec)
        except Need:
            raise
        except (Undecided, A.TooBig, RecursionError, ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, IndexError) as e:
            return Undecided("%s: %s" % (type(e).__name__, e))


def describe(dec):
    out = []
    for k, v in dec.items():
        if k[0] == "scalar":
            out.append("scalar argument" if v else "array argument")
        else:
            out.append("%s %s" % (A.show(k[1]), ("= 0" if v else "!= 0") if k[0] == "zero" else ("> 0" if v else "< 0")))
    return ", ".join(sorted(out)) or "all arguments"


def check_family(ctx, prog, fam):
    r = Runner(prog, fam, ctx.tier == "thorough")
    cls = r.cls
    if cls is None:
        ctx.note("%s is gone" % fam.qual)
        return
    own = {n: cls.find(n) for n in ("prob", "ln_prob", "cdf", "rescale")}
    if any(f is None for f in own.values()):
        ctx.note("%s lacks one of prob, ln_prob, cdf, rescale" % fam.qual)
        return
    base = prog.classes.get("bilby.core.prior.base.Prior")
    has = {n: f for n, f in own.items() if base is None or f.cls is not base and getattr(f.cls, "qual", None) != base.qual or n == "ln_prob"}
    short = cls.name

    def where(n):
        return loc(own[n].module, own[n].node)

    def undecided(rule, what, v):
        ctx.undec(rule, "%s %s" % (short, what), str(v))

    inside, outside = REGIONS[fam.support]
    for reg in inside:
        facts = facts_for(fam, reg)
        for dec, res in cases(lambda d: tuple(r.guarded(n, VAL, facts, d) if n in has else None for n in ("prob", "ln_prob", "cdf"))):
            if isinstance(res, Undecided):
                undecided("log-density", reg, res)
                continue
            subs = substitutions(dec)
            p, lp, c = (apply_subs(x, subs) for x in res)
            txt = describe(dec)
            if p is not None and lp is not None and not (fam.skip & {"log"}):
                if isinstance(p, Undecided) or isinstance(lp, Undecided):
                    undecided("log-density", "%s (%s)" % (reg, txt), p if isinstance(p, Undecided) else lp)
                else:
                    same = isinstance(p, A.E) and bool(p) and isinstance(lp, A.E) and r.same(A.log(p), lp, facts, dec)
                    if same is None:
                        undecided("log-density", "%s (%s)" % (reg, txt), "no admissible valuation")
                        continue
                    ctx.ok("log-density", "%s: log(prob) = ln_prob; %s" % (short, txt))
                    if not same:
                        ctx.bad("log-density", "%s.ln_prob" % cls.qual, "ln_prob of %s is not log(prob) for %s: prob = %s, ln_prob = %s"
                                % (short, txt, str(p)[:160], str(lp)[:160]), where("ln_prob"))
            if p is not None and c is not None and not (fam.skip & {"cdf"}):
                if isinstance(p, Undecided) or isinstance(c, Undecided):
                    undecided("cumulative", "%s (%s)" % (reg, txt), p if isinstance(p, Undecided) else c)
                else:
                    try:
                        d = A.diff(c, "val") if isinstance(c, A.E) else None
                        same = d is not None and isinstance(p, A.E) and r.same(apply_subs(d, subs), p, facts, dec)
                    except (A.NoDerivative, A.TooBig) as e:
                        undecided("cumulative", "%s (%s)" % (reg, txt), "no derivative of %s" % e)
                        continue
                    if same is None:
                        undecided("cumulative", "%s (%s)" % (reg, txt), "no admissible valuation")
                        continue
                    ctx.ok("cumulative", "%s: d cdf / d val = prob; %s" % (short, txt))
                    if not same:
                        ctx.bad("cumulative", "%s.cdf" % cls.qual, "the derivative of cdf of %s is not prob for %s: cdf = %s, prob = %s"
                                % (short, txt, str(c)[:200], str(p)[:200]), where("cdf"))
    for reg in outside:
        facts = facts_for(fam, reg)
        want = {"prob": ZERO, "ln_prob": NINF, "cdf": {"below": ZERO, "above": ONE, "gap": None}[reg]}
        for n in ("prob", "ln_prob", "cdf"):
            if n not in has or want[n] is None or n == "cdf" and "cdf-outside" in fam.skip:
                continue
            for dec, v in cases(lambda d: r.guarded(n, VAL, facts, d)):
                txt = describe(dec)
                if isinstance(v, Undecided):
                    undecided("support", "%s %s (%s)" % (n, reg, txt), v)
                    continue
                v = apply_subs(v, substitutions(dec))
                ctx.ok("support", "%s.%s %s the support is %s; %s" % (short, n, reg, want[n], txt))
                if v != want[n]:
                    ctx.bad("support", "%s.%s %s" % (cls.qual, n, reg), "%s of %s is %s instead of %s %s its support (%s)"
                            % (n, short, str(v)[:160], want[n], reg if reg != "gap" else "in the gap of", txt), where(n))
    if "cdf" in has and "rescale" in has and "rescale" not in fam.skip:
        facts = [sym(p) for p in fam.positive] + [sym(a) - sym(b) for a, b in fam.facts] + [U, ONE - U]
        if fam.support in ("bounded", "symmetric"):
            facts.append(MAX - MIN)
        for d1, x in cases(lambda d: r.guarded("rescale", U, facts, d)):
            txt = describe(d1)
            if isinstance(x, Undecided):
                undecided("quantile", txt, x)
                continue
            groups = {}
            for d2, c in cases(lambda d: r.guarded("cdf", x, facts, {**d1, **d})):
                d2 = {**d1, **d2}
                key = tuple(sorted((str(k), v) for k, v in d2.items() if k[0] == "scalar" or "u" not in A.symbols(k[1]) or k in d1))
                groups.setdefault(key, []).append((d2, c))
            for key, rs in groups.items():
                good, und, shown = False, None, None
                for d2, c in rs:
                    subs = substitutions(d2)
                    if isinstance(c, Undecided):
                        und = c
                        continue
                    c = apply_subs(c, subs)
                    if isinstance(c, A.E):
                        shown = c if shown is None or A.is_const(shown) else shown
                        k = r.same(c, U, facts, d2)
                        if k:
                            good = True
                        elif k is None:
                            und = "no admissible valuation"
                if not good and und is not None:
                    undecided("quantile", txt, und)
                    continue
                ctx.ok("quantile", "%s: cdf(rescale(u)) = u; %s" % (short, describe(rs[0][0])))
                if not good:
                    ctx.bad("quantile", "%s.rescale" % cls.qual, "cdf(rescale(u)) of %s is %s rather than u (%s)"
                            % (short, str(shown)[:200], describe(rs[0][0])), where("rescale"))


def check(ctx):
    prog = ctx.prog
    z = 0 if ctx.tier == "selftest" else 1
    ctx.rule("log-density", "log(prob) and ln_prob have the same normal form on the support", floor=10 * z)
    ctx.rule("cumulative", "the derivative of cdf has the normal form of prob", floor=8 * z)
    ctx.rule("quantile", "cdf composed with rescale is the identity", floor=8 * z)
    ctx.rule("support", "outside the support: prob 0, ln_prob -inf, cdf 0 or 1", floor=12 * z)
    for fam in FAMILIES:
        if z or fam.qual in prog.classes:
            check_family(ctx, prog, fam)


BASE = """
import numpy as np
class Prior(object):
    def __init__(self, minimum=-np.inf, maximum=np.inf):
        self.minimum = minimum
        self.maximum = maximum
    def is_in_prior_range(self, val):
        return (val >= self.minimum) & (val <= self.maximum)
    def ln_prob(self, val):
        with np.errstate(divide='ignore'):
            return np.log(self.prob(val))
"""


def _uni(prob="self.is_in_prior_range(val) / (self.maximum - self.minimum)", rescale="self.minimum + val * (self.maximum - self.minimum)",
         cdf="np.clip((val - self.minimum) / (self.maximum - self.minimum), 0, 1)", extra=""):
    src = """
import numpy as np
from .base import Prior
class Uniform(Prior):
    def prob(self, val):
        return %s
    def rescale(self, val):
        return %s
    def cdf(self, val):
        return %s
""" % (prob, rescale, cdf)
    if extra:
        src += "    def ln_prob(self, val):\n        return %s\n" % extra
    return {"bilby/core/prior/base.py": BASE, "bilby/core/prior/analytical.py": src}


SELFTESTS = [
    ("as is", _uni(), None),
    ("equivalent rescale", _uni(rescale="val * self.maximum + (1 - val) * self.minimum"), None),
    ("equivalent clip", _uni(cdf="np.where(val < self.minimum, 0., np.minimum(1., (val - self.minimum) / (self.maximum - self.minimum)))"), None),
    ("width missing", _uni(prob="self.is_in_prior_range(val) / self.maximum"), "cumulative"),
    ("range missing", _uni(prob="1 / (self.maximum - self.minimum)"), "support"),
    ("quantile off", _uni(rescale="self.maximum + val * (self.minimum - self.maximum)"), "quantile"),
    ("log off", _uni(extra="np.log(1. * self.is_in_prior_range(val)) + np.log(self.maximum - self.minimum)"), "log-density"),
    ("cdf unclipped", _uni(cdf="(val - self.minimum) / (self.maximum - self.minimum)"), "support"),
]
