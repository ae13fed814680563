"""U01: prior distributions are equivariant under a change of units / origin of the parameter."""
from fractions import Fraction

from ..absint import TOP, Env, Interp, K
from ..report import loc
from ..unithooks import UnitHooks
from ..units import DIMLESS, Num, Poly, UnitDomain, dim

TITLE = "prior densities are consistent under a change of units and origin"
EXPLANATION = (
    "Dimensional type inference by abstract interpretation of every prior class: constructor arguments are typed with the "
    "unit X of the parameter (and, for location families, with their weight under a translation of the origin); __init__ and "
    "properties are inlined, and every return of prob / ln_prob / cdf / rescale must have type X^-1 / log X^-1 / 1 / X and "
    "translation weight 0 / 0 / 0 / 1. Any addition, comparison, exponential, logarithm or array store that mixes units or "
    "mixes absolute positions with differences is a violation, reported at that expression.")
ASSUMPTIONS = ["a wrong dimensionless factor is not visible to a unit type system",
               "exponent-like hyperparameters are instantiated with generic values (PowerLaw alpha = -1 and 37/10, "
               "Gamma k = 37/10, Beta alpha, beta = 37/10, 23/10); functions using unmodelled library calls are listed as undecided"]
X = dim("X")
PT, SC, ONE = Num(X, Fraction(1)), Num(X, Fraction(0)), Num(DIMLESS, Fraction(0))
NOSHIFT = Num(X, None)
GENERIC = {"minimum": PT, "maximum": PT, "peak": PT, "mode": PT, "loc": PT, "mu": PT, "sigma": SC, "scale": SC, "theta": SC,
           "name": K("x"), "latex_label": K("x"), "unit": K(None), "boundary": K(None), "check_range_nonzero": K(False)}
#: class -> list of {ctor argument: type}; only what differs from GENERIC
B = "bilby.core.prior.analytical."
FAMILIES = {
    B + "DeltaFunction": [{}],
    B + "PowerLaw": [{"minimum": NOSHIFT, "maximum": NOSHIFT, "alpha": K(-1)},
                     {"minimum": NOSHIFT, "maximum": NOSHIFT, "alpha": K(3.7)}],
    B + "Uniform": [{}],
    B + "LogUniform": [{"minimum": NOSHIFT, "maximum": NOSHIFT}],
    B + "SymmetricLogUniform": [{"minimum": NOSHIFT, "maximum": NOSHIFT}],
    B + "Cosine": [{"minimum": ONE, "maximum": ONE}],
    B + "Sine": [{"minimum": ONE, "maximum": ONE}],
    B + "Gaussian": [{}],
    B + "TruncatedGaussian": [{}],
    B + "HalfGaussian": [{"sigma": NOSHIFT}],
    B + "LogNormal": [{"mu": Num(X, None, log=True), "sigma": Num(DIMLESS, None)}],
    B + "Exponential": [{"mu": NOSHIFT}],
    B + "StudentT": [{"df": K(3.7)}],
    B + "Beta": [{"alpha": K(3.7), "beta": K(2.3)}],
    B + "Logistic": [{}],
    B + "Cauchy": [{"alpha": PT, "beta": SC}],
    B + "Gamma": [{"k": K(3.7), "theta": NOSHIFT}],
    B + "ChiSquared": [{"nu": K(4)}],
    B + "FermiDirac": [{"sigma": NOSHIFT, "mu": NOSHIFT, "r": K(None)}, {"sigma": NOSHIFT, "mu": K(None), "r": Num(DIMLESS, None)}],
    B + "Triangular": [{}],
    B + "Categorical": [{"ncategories": K(5)}],
}
ANGULAR = {B + "Cosine", B + "Sine", B + "ChiSquared", B + "Categorical"}
METHODS = ("prob", "ln_prob", "cdf", "rescale")
#: methods inherited from the numerical base class (interpolated cdf, log of prob) are not formulas of the family
BASE = "bilby.core.prior.base.Prior"


class PriorHooks(UnitHooks):
    def call(self, f, args, kwargs, node, env, recv):
        from ..absint import Fn
        if isinstance(f, Fn) and f.func.qual == BASE + ".is_in_prior_range":
            # inline it: both comparisons are obligations
            return None
        return None


def families(prog):
    """(class, declared ctor types) for FAMILIES and for subclasses that inherit one"""
    out = []
    prior = prog.classes.get(BASE)
    if prior is None:
        return out
    for c in prog.classes.values():
        if prior not in c.mro() or c is prior:
            continue
        for k in c.mro():
            if k.qual in FAMILIES:
                for decl in FAMILIES[k.qual]:
                    out.append((c, k, decl))
                break
    return out


def check(ctx):
    prog = ctx.prog
    quiet = ctx.tier == "selftest"
    ctx.rule("unit-mix", "no expression combines incompatible units or weights", floor=0)
    ctx.rule("return-type", "each return of prob/ln_prob/cdf/rescale has the declared unit type", floor=0 if quiet else 60)
    for cls, fam, decl in families(prog):
        for meth in METHODS:
            func = cls.find(meth)
            if func is None or func.cls is None:
                continue
            if func.cls.qual == BASE and meth != "ln_prob":
                continue
            run_one(ctx, prog, cls, fam, decl, meth, func)


def run_one(ctx, prog, cls, fam, decl, meth, func):
    reported = []

    def report(node, msg):
        f = interp.stack[-1] if interp.stack else func
        reported.append((f, node, msg))

    dom = UnitDomain(report, shift=True)
    hooks = PriorHooks()
    interp = Interp(prog, dom, hooks)
    init = cls.find("__init__")
    kwargs = {}
    for p in init.params[1:]:
        if p in decl:
            kwargs[p] = decl[p]
        elif p in GENERIC:
            kwargs[p] = GENERIC[p]
    env = Env(None, cls.module, 0)
    obj = interp.instantiate(cls, [], kwargs, env)
    angular = fam.qual in ANGULAR
    unit = DIMLESS if angular else X
    noshift = any(v in (NOSHIFT, ONE) or (isinstance(v, Num) and v.w is None) for v in decl.values()) or angular
    val = {"rescale": ONE}.get(meth, Num(unit, None if noshift else Fraction(1)))
    r = interp.call_func(func, [val], {}, env, self_val=obj)
    rets = list(interp.last_returns)
    tag = "%s.%s" % (cls.qual, meth)
    for f, node, msg in reported:
        ctx.bad("unit-mix", "%s: %s" % (f.qual, msg), "%s (while evaluating %s)" % (msg, tag), loc(f.module, node))
    ctx.ok("unit-mix", tag)
    want = {"prob": Num(mul1(unit), 0), "ln_prob": Num(mul1(unit), 0, log=bool(unit)), "cdf": Num(DIMLESS, 0),
            "rescale": Num(unit, None if noshift else 1)}[meth]
    for v, node in rets:
        x = dom.lift(v) if not isinstance(v, K) or v.v is not None else None
        if x is None:
            if v is TOP:
                ctx.undec("return-type", tag, "uses an unmodelled operation")
            continue
        if isinstance(x, Poly) or x.d is None:
            if isinstance(x, Num):
                ctx.undec("return-type", tag, "type not inferred")
            continue
        if meth == "cdf" and x.masked:
            pass
        ctx.ok("return-type", "%s: %r at %s" % (tag, x, loc(func.module, node)))
        if isinstance(v, K) and not want.d:
            continue
        if x.d != want.d or (x.log and bool(x.d)) != want.log:
            if isinstance(v, K) and v.v in (0, 1) and meth == "cdf":
                continue
            ctx.bad("return-type", "%s: %r" % (func.qual, x), "%s returns %r, expected %r" % (tag, x, want),
                    loc(func.module, node))
        elif not noshift and x.w is not None and x.w != want.w:
            ctx.bad("return-type", "%s: weight %s" % (func.qual, x.w),
                    "%s does not move with the origin of the parameter as it must: translation weight %s, expected %s"
                    % (tag, x.w, want.w), loc(func.module, node))


def mul1(u):
    from ..units import power
    return power(u, -1)


_BASE = '''
import numpy as np
class Prior(object):
    def __init__(self, name=None, latex_label=None, minimum=-np.inf, maximum=np.inf, unit=None, boundary=None):
        self.minimum = minimum
        self.maximum = maximum
    def ln_prob(self, val):
        return np.log(self.prob(val))
    def is_in_prior_range(self, val):
        return (val >= self.minimum) & (val <= self.maximum)
'''
_UNI = '''
import numpy as np
from bilby.core.prior.base import Prior
class Uniform(Prior):
    def __init__(self, minimum, maximum, name=None, latex_label=None, unit=None, boundary=None):
        super(Uniform, self).__init__(name=name, minimum=minimum, maximum=maximum)
    def rescale(self, val):
        return %s
    def prob(self, val):
        return %s
    def cdf(self, val):
        return (val - self.minimum) / (self.maximum - self.minimum)
'''


def _st(rescale, prob):
    return {"bilby/core/prior/base.py": _BASE, "bilby/core/prior/analytical.py": _UNI % (rescale, prob)}


_GOODR, _GOODP = "self.minimum + val * (self.maximum - self.minimum)", \
    "((val >= self.minimum) & (val <= self.maximum)) / (self.maximum - self.minimum)"
SELFTESTS = [
    ("good", _st(_GOODR, _GOODP), None),
    ("not normalised", _st(_GOODR, "1.0 * self.is_in_prior_range(val)"), "return-type"),
    ("origin dropped", _st("val * (self.maximum - self.minimum)", _GOODP), "return-type"),
    ("weighted sum of positions", _st("self.minimum + val * self.maximum", _GOODP), "return-type"),
    ("mixed", _st("self.minimum + val", _GOODP), "unit-mix"),
]
