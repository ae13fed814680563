"""V01: parameter conversions describe the same binary, whichever parameters they start from."""
import itertools
from fractions import Fraction

from .. import algebra as A
from .. import randint as R
from ..algebra import E, ONE, const, sym, power
from ..recval import RecEval, PyExc
from ..report import loc
from ..valnum import World, Undecided, Need, cases, admissible, Sp

TITLE = "parameter conversions preserve the system they describe"
EXPLANATION = (
    "Value numbering: each conversion function is reduced to algebraic normal forms for every combination of input keys from which the "
    "result is determined, with the inputs set to the textbook definitions in terms of the component parameters. The resulting forms must be "
    "identical to those of the component parameters and of every derived one.")
ASSUMPTIONS = ["mass_1 > mass_2 > 0, positive redshift; cosmology and lalsimulation calls are uninterpreted functions of their arguments"]

C = "bilby.gw.conversion."
m1, m2, l1, l2, z = sym("m1"), sym("m2"), sym("l1"), sym("l2"), sym("z")
F = Fraction
MT = m1 + m2
Q = m2 / m1
ETA = m1 * m2 / (MT * MT)
MC = power(m1 * m2, const(F(3, 5))) * power(MT, const(F(-1, 5)))
X1, X2 = m1 / MT, m2 / MT
SQ = (m1 - m2) / MT                     # sqrt(1 - 4 eta)
LT = const(F(16, 13)) * ((m1 + m2 * const(12)) * power(m1, const(4)) * l1 + (m2 + m1 * const(12)) * power(m2, const(4)) * l2) / power(MT, const(5))
DLT = const(F(1, 2)) * (SQ * (ONE - const(F(13272, 1319)) * ETA + const(F(8944, 1319)) * ETA * ETA) * (l1 + l2)
                        + (ONE - const(F(15910, 1319)) * ETA + const(F(32850, 1319)) * ETA * ETA + const(F(3380, 1319)) * ETA * ETA * ETA) * (l1 - l2))
MASS = {"mass_1": m1, "mass_2": m2, "total_mass": MT, "chirp_mass": MC, "mass_ratio": Q, "symmetric_mass_ratio": ETA}
TIDES = {"lambda_1": l1, "lambda_2": l2, "lambda_tilde": LT, "delta_lambda_tilde": DLT, "lambda_symmetric": (l1 + l2) * const(F(1, 2)),
         "lambda_antisymmetric": (l2 - l1) * const(F(1, 2))}
# the single-parameter tidal conversion assumes lambda_i proportional to mass_i**-5
L2S = l1 * power(m1 / m2, const(5))

# name -> (arguments, expected results)
FORMULAS = [
    ("total_mass_and_mass_ratio_to_component_masses", ["mass_1", "mass_2"]),
    ("chirp_mass_and_mass_ratio_to_component_masses", ["mass_1", "mass_2"]),
    ("symmetric_mass_ratio_to_mass_ratio", ["mass_ratio"]),
    ("chirp_mass_and_total_mass_to_symmetric_mass_ratio", ["symmetric_mass_ratio"]),
    ("chirp_mass_and_primary_mass_to_mass_ratio", ["mass_ratio"]),
    ("chirp_mass_and_mass_ratio_to_total_mass", ["total_mass"]),
    ("component_masses_to_chirp_mass", ["chirp_mass"]),
    ("component_masses_to_total_mass", ["total_mass"]),
    ("component_masses_to_symmetric_mass_ratio", ["symmetric_mass_ratio"]),
    ("component_masses_to_mass_ratio", ["mass_ratio"]),
    ("mass_1_and_chirp_mass_to_mass_ratio", ["mass_ratio"]),
    ("mass_2_and_chirp_mass_to_mass_ratio", ["mass_ratio"]),
    ("lambda_1_lambda_2_to_lambda_tilde", ["lambda_tilde"]),
    ("lambda_1_lambda_2_to_delta_lambda_tilde", ["delta_lambda_tilde"]),
    ("lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2", ["lambda_1", "lambda_2"]),
    ("lambda_1_lambda_2_to_lambda_symmetric", ["lambda_symmetric"]),
    ("lambda_1_lambda_2_to_lambda_antisymmetric", ["lambda_antisymmetric"]),
    ("lambda_symmetric_lambda_antisymmetric_to_lambda_1", ["lambda_1"]),
    ("lambda_symmetric_lambda_antisymmetric_to_lambda_2", ["lambda_2"]),
    ("lambda_symmetric_lambda_antisymmetric_to_lambda_1_lambda_2", ["lambda_1", "lambda_2"]),
]
FACTS = [m1, m2, m1 - m2, l1, l2, z, sym("dl"), sym("a")]
RANGES = {"m1": (1, 60), "m2": (1, 60), "l1": (0.5, 9), "l2": (0.5, 9), "z": (0.05, 2), "dl": (1, 50)}


def determined(keys):
    """do these mass parameters fix both masses"""
    k = set(keys)
    dimensionful = k & {"mass_1", "mass_2", "total_mass", "chirp_mass"}
    return len(k) >= 2 and bool(dimensionful)


class V:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.samples = {}
        self.want = 160 if ctx.tier == "thorough" else 24

    def envs(self, facts, dec):
        key = tuple(facts)
        if key not in self.samples:
            names = set()
            for f in facts:
                A.symbols(f, names)
            self.samples[key] = R.Samples(names - {"e", "pi"}, facts, want=self.want, ranges=RANGES)
        return self.samples[key], admissible(self.samples[key], facts, dec)

    def evaluate(self, func, args, facts):
        """[(decisions, result)]"""
        import copy
        samples, _ = self.envs(facts, {})

        def thunk(dec):
            w = World(facts, dec, samples=samples)
            w.complex = False
            ev = RecEval(self.prog, w)
            ev.func = func
            r = ev.call(func, copy.deepcopy(args))
            return r, w.complex
        out = []
        for dec, r in cases(lambda d: self.guard(thunk, d)):
            if isinstance(r, Undecided):
                out.append((dec, r, False))
            else:
                out.append((dec, r[0], r[1]))
        return out

    def guard(self, thunk, d):
        try:
            return thunk(d)
        except Need:
            raise
        except PyExc as e:
            return PyExc(e.name), False
        except (Undecided, A.TooBig, RecursionError, ZeroDivisionError, OverflowError, TypeError, AttributeError, IndexError, KeyError, ValueError) as e:
            return Undecided("%s: %s" % (type(e).__name__, e))

    def same(self, got, want, facts, dec, cplx):
        if not isinstance(got, E):
            return None if not isinstance(got, Sp) else False
        _, envs = self.envs(facts, dec)
        if got == want:
            return True
        n = 0
        for env in envs:
            try:
                w = R.real(R.value(want, env))
            except (R.NoValue, OverflowError, ZeroDivisionError, ValueError):
                continue
            try:
                g = R.value(got, env)
            except (R.NoValue, OverflowError, ZeroDivisionError, ValueError):
                return False            # defined where the result is not
            if isinstance(g, complex):
                if not cplx and abs(g.imag) > 1e-9 * (1 + abs(g.real)):
                    return False        # square root of a negative number
                g = g.real if abs(g.imag) < 1e-6 * (1 + abs(g.real)) else g
            n += 1
            if abs(g - w) > 1e-6 * (abs(g) + abs(w)) + 1e-12:
                return False
        return True if n >= 4 else None

    def compare(self, rule, what, func, res, wants, facts):
        """wants: list of (name, getter(result), expected) or dict name -> expected for records"""
        ctx = self.ctx
        for dec, r, cplx in res:
            if dec and not self.envs(facts, dec)[1]:
                continue
            if isinstance(r, Undecided):
                ctx.undec(rule, what, str(r))
                continue
            if isinstance(r, PyExc):
                ctx.ok(rule, what)
                ctx.bad(rule, what, "%s raises %s for %s" % (func.name, r.name, what), loc(func.module, func.node))
                continue
            for name, get, want in wants:
                try:
                    got = get(r)
                except (KeyError, TypeError, IndexError):
                    ctx.ok(rule, "%s: %s" % (what, name))
                    ctx.bad(rule, "%s: %s" % (what, name), "%s leaves %s undetermined" % (what, name), loc(func.module, func.node))
                    continue
                k = self.same(got, want, facts, dec, cplx)
                if k is None:
                    ctx.undec(rule, "%s: %s" % (what, name), "form not comparable: %s" % str(got)[:80])
                    continue
                ctx.ok(rule, "%s: %s" % (what, name))
                if not k:
                    ctx.bad(rule, "%s: %s" % (what, name), "%s gives %s = %s, which is not %s" % (what, name, str(got)[:160], str(want)[:80]),
                            loc(func.module, func.node))


def item(name, first=False):
    return lambda r: (r[0] if first else r)[name]


def reference(v, func, x, facts):
    """what the repository's own helper gives for x (an uninterpreted cosmology call)"""
    res = v.evaluate(func, [x], facts)
    if len(res) == 1 and isinstance(res[0][1], Undecided):
        return A.fn("@" + func.qual, x)
    return res[0][1] if len(res) == 1 and isinstance(res[0][1], E) else None


def check(ctx):
    prog = ctx.prog
    v = V(ctx)
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("formula", "a conversion function applied to the definitions of its arguments gives the definition of its result", floor=15 * k)
    ctx.rule("masses", "component and derived masses are recovered from every determining combination", floor=60 * k)
    ctx.rule("source", "source-frame masses differ from detector-frame masses by one plus the redshift", floor=4 * k)
    ctx.rule("spins", "spin magnitudes, tilts and effective spins agree with the spin components", floor=4 * k)
    ctx.rule("tides", "tidal deformabilities are recovered from every combination", floor=4 * k)
    truth = {**MASS, **TIDES}

    def fn(name):
        return prog.by_qual.get(C + name)

    def missing(name):
        if k:
            ctx.note("%s is gone" % name)

    facts = FACTS
    # single formulas
    for name, wants in FORMULAS:
        f = fn(name)
        if f is None:
            missing(name)
            continue
        if any(p not in truth for p in f.params):
            ctx.undec("formula", name, "unknown parameter")
            continue
        res = v.evaluate(f, [truth[p] for p in f.params], facts)
        if len(wants) == 1:
            w = [(wants[0], lambda r: r, truth[wants[0]])]
        else:
            w = [(n, (lambda i: lambda r: r[i] if not isinstance(r, E) else None)(i), truth[n]) for i, n in enumerate(wants)]
        v.compare("formula", name, f, res, w, facts)
    f = fn("lambda_tilde_to_lambda_1_lambda_2")
    if f is not None:
        sub = A.subst(LT, "l2", L2S)
        args = {"lambda_tilde": sub, "mass_1": m1, "mass_2": m2}
        if all(p in args for p in f.params):
            v.compare("formula", f.name, f, v.evaluate(f, [args[p] for p in f.params], facts),
                      [("lambda_1", lambda r: r[0], l1), ("lambda_2", lambda r: r[1], L2S)], facts)
    for a, b, args, wants in (("ra_dec_to_theta_phi", "theta_phi_to_ra_dec", ["ra", "dec", "gmst"], ["ra", "dec"]),):
        fa, fb = (prog.by_qual.get("bilby.core.utils.conversion." + n) for n in (a, b))
        if fa is None or fb is None or len(fa.params) != 3 or len(fb.params) != 3:
            continue
        syms = [sym(x) for x in args]
        for dec, r, cx in v.evaluate(fa, syms, facts):
            if isinstance(r, tuple) and not isinstance(r, E) and len(r) == 2:
                v.compare("formula", "%s after %s" % (b, a), fb, v.evaluate(fb, [r[0], r[1], syms[2]], facts),
                          [(n, (lambda i: lambda t: t[i])(i), syms[i]) for i, n in enumerate(wants)], facts)
            else:
                ctx.undec("formula", a, str(r)[:80])
    # records of masses
    combos = [c for n in (2, 3, 4) for c in itertools.combinations(sorted(MASS), n) if determined(c)]
    if not ctx.tier == "thorough":
        combos = [c for c in combos if len(c) <= 3]
    for src in (False, True):
        suf = "_source" if src else ""

        def key(n):
            return n + suf if n not in ("mass_ratio", "symmetric_mass_ratio") else n
        for name in ("generate_component_masses", "generate_mass_parameters"):
            f = fn(name)
            if f is None:
                missing(name)
                continue
            outs = ["mass_1", "mass_2"] if name == "generate_component_masses" else sorted(MASS)
            for c in combos:
                rec = {key(n): MASS[n] for n in c}
                args = [rec, False, src] if name == "generate_component_masses" else [rec, src]
                if len(f.params) < len(args):
                    ctx.undec("masses", name, "signature")
                    continue
                what = "%s from %s" % (name, ", ".join(key(n) for n in c))
                v.compare("masses", what, f, v.evaluate(f, args, facts), [(key(n), item(key(n)), MASS[n]) for n in outs], facts)
        # a single mass (or only dimensionless ratios) determines nothing: the sample comes back as it was
        f = fn("generate_component_masses")
        if f is not None and len(f.params) >= 3:
            for n in sorted(MASS):
                res = v.evaluate(f, [{key(n): MASS[n]}, False, src], facts)
                what = "%s from %s alone" % (f.name, key(n))
                v.compare("masses", what, f, res, [(key(n), item(key(n)), MASS[n])], facts)
                for dec, r, cx in res:
                    if isinstance(r, dict) and (not dec or v.envs(facts, dec)[1]):
                        extra = sorted(kk for kk in r if kk in {key(x) for x in MASS} - {key(n)})
                        if extra:
                            ctx.bad("masses", what, "%s invents %s" % (what, ", ".join(extra)), loc(f.module, f.node))
    conv = [fn("convert_to_lal_binary_black_hole_parameters"), fn("convert_to_lal_binary_neutron_star_parameters")]
    for f in conv:
        if f is None:
            missing("conversion")
            continue
        for c in combos:
            if len(c) > 2:
                continue
            rec = {n: MASS[n] for n in c}
            v.compare("masses", "%s from %s" % (f.name, ", ".join(c)), f, v.evaluate(f, [dict(rec, lambda_1=l1, lambda_2=l2)], facts),
                      [(n, item(n, True), MASS[n]) for n in ("mass_1", "mass_2")], facts)
    # source frame
    f = fn("convert_to_lal_binary_black_hole_parameters")
    if f is not None:
        for c in combos:
            if len(c) > 2:
                continue
            keys = [n + "_source" if n not in ("mass_ratio", "symmetric_mass_ratio") else n for n in c]
            rec = {kk: MASS[n] for kk, n in zip(keys, c)}
            rec["redshift"] = z
            v.compare("source", "%s from %s, redshift" % (f.name, ", ".join(keys)), f, v.evaluate(f, [rec], facts),
                      [(n, item(n, True), MASS[n] * (ONE + z)) for n in ("mass_1", "mass_2")], facts)
    f = fn("generate_source_frame_parameters")
    if f is not None:
        rec = {n: MASS[n] for n in ("mass_1", "mass_2", "chirp_mass", "total_mass")}
        rec["luminosity_distance"] = sym("dl")
        for dec, r, cx in v.evaluate(f, [rec], facts):
            if isinstance(r, dict) and isinstance(r.get("redshift"), E):
                zz = r["redshift"]
                for n in ("mass_1", "mass_2", "chirp_mass", "total_mass"):
                    v.compare("source", f.name, f, [(dec, r, cx)], [(n + "_source", item(n + "_source"), MASS[n] / (ONE + zz))], facts)
            else:
                ctx.undec("source", f.name, str(r)[:80])
    f = fn("convert_to_lal_binary_black_hole_parameters")
    if f is not None:
        for have, want in (("redshift", "redshift_to_luminosity_distance"), ("comoving_distance", "comoving_distance_to_luminosity_distance")):
            g = fn(want)
            if g is not None:
                rec = {"mass_1": m1, "mass_2": m2, have: sym("dl")}
                ref = reference(v, g, sym("dl"), facts)
                if ref is None:
                    ctx.undec("source", "%s from %s" % (f.name, have), "no reference value")
                    continue
                v.compare("source", "%s from %s" % (f.name, have), f, v.evaluate(f, [rec], facts),
                          [("luminosity_distance", item("luminosity_distance", True), ref)], facts)
        g = fn("luminosity_distance_to_redshift")
        if g is not None:
            rec = {"mass_1_source": m1, "mass_2_source": m2, "luminosity_distance": sym("dl")}
            zz = reference(v, g, sym("dl"), facts)
            if zz is not None:
                v.compare("source", "%s from source-frame masses, luminosity_distance" % f.name, f, v.evaluate(f, [rec], facts),
                          [("mass_1", item("mass_1", True), m1 * (ONE + zz)), ("mass_2", item("mass_2", True), m2 * (ONE + zz))], facts)
        rec = {"mass_1": m1, "mass_2": m2, "delta_phase": sym("dp"), "theta_jn": sym("tj"), "psi": sym("psi")}
        two_pi = const(2) * A.PI
        v.compare("spins", "%s from delta_phase" % f.name, f, v.evaluate(f, [rec], facts),
                  [("phase", item("phase", True), A.fn("mod", sym("dp") - A.fn("sign", A.fn("cos", sym("tj"))) * sym("psi"), two_pi))], facts)
    # spins
    for f in conv:
        if f is None:
            continue
        base = {"mass_1": m1, "mass_2": m2, "lambda_1": l1, "lambda_2": l2}
        for i in "12":
            s, p, a = sym("s"), sym("p"), sym("a")
            rec = dict(base, **{"chi_" + i: s})
            sfacts = facts + [ONE - s * s]
            v.compare("spins", "%s from chi_%s" % (f.name, i), f, v.evaluate(f, [rec], sfacts),
                      [("a cos tilt", lambda r, i=i: r[0]["a_" + i] * r[0]["cos_tilt_" + i], s),
                       ("a**2", lambda r, i=i: r[0]["a_" + i] * r[0]["a_" + i], s * s),
                       ("tilt", lambda r, i=i: A.fn("cos", r[0]["tilt_" + i]) - r[0]["cos_tilt_" + i], A.ZERO)], sfacts)
            rec = dict(base, **{"chi_" + i: s, "chi_%s_in_plane" % i: p})
            pfacts = facts + [p, ONE - s * s - p * p]
            v.compare("spins", "%s from chi_%s, chi_%s_in_plane" % (f.name, i, i), f, v.evaluate(f, [rec], pfacts),
                      [("a cos tilt", lambda r, i=i: r[0]["a_" + i] * r[0]["cos_tilt_" + i], s),
                       ("a**2", lambda r, i=i: r[0]["a_" + i] * r[0]["a_" + i], s * s + p * p)], pfacts)
            rec = dict(base, **{"chi_" + i: s, "a_" + i: a})
            afacts = facts + [a - s, a + s]
            v.compare("spins", "%s from chi_%s, a_%s" % (f.name, i, i), f, v.evaluate(f, [rec], afacts),
                      [("a cos tilt", lambda r, i=i: r[0]["a_" + i] * r[0]["cos_tilt_" + i], s)], afacts)
        for ang in ("tilt_1", "tilt_2", "theta_jn"):
            c = sym("c")
            rec = dict(base, **{"cos_" + ang: c})
            cf = facts + [ONE - c, ONE + c]
            v.compare("spins", "%s from cos_%s" % (f.name, ang), f, v.evaluate(f, [rec], cf),
                      [(ang, lambda r, ang=ang: A.fn("cos", r[0][ang]), c)], cf)
    f = fn("generate_spin_parameters")
    if f is not None:
        s1, s2 = sym("s1"), sym("s2")
        rec = dict(MASS, chi_1=s1, chi_2=s2)
        v.compare("spins", "%s from chi_1, chi_2" % f.name, f, v.evaluate(f, [rec], facts),
                  [("chi_eff", item("chi_eff"), (m1 * s1 + m2 * s2) / MT)], facts)
        names = ["theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "reference_frequency", "phase"]
        rec = dict(MASS, **{n: sym(n) for n in names})
        for dec, r, cx in v.evaluate(f, [rec], facts):
            if not (isinstance(r, dict) and all(isinstance(r.get("spin_%s%s" % (i, x)), E) for i in "12" for x in "xyz")):
                ctx.undec("spins", f.name, str(r)[:80])
                continue
            if dec and not v.envs(facts, dec)[1]:
                continue
            g = {kk: r[kk] for kk in r}
            p1, p2 = (power(g["spin_%sx" % i] * g["spin_%sx" % i] + g["spin_%sy" % i] * g["spin_%sy" % i], const(F(1, 2))) for i in "12")
            b = Q * (const(4) * Q + const(3)) / (const(3) * Q + const(4)) * p2
            wants = [("chi_eff", item("chi_eff"), (m1 * g["spin_1z"] + m2 * g["spin_2z"]) / MT),
                     ("phi_1", item("phi_1"), A.fn("mod", const(2) * A.PI + A.fn("arctan2", g["spin_1y"], g["spin_1x"]), const(2) * A.PI)),
                     ("phi_2", item("phi_2"), A.fn("mod", const(2) * A.PI + A.fn("arctan2", g["spin_2y"], g["spin_2x"]), const(2) * A.PI)),
                     ("chi_1_in_plane", item("chi_1_in_plane"), p1), ("chi_2_in_plane", item("chi_2_in_plane"), p2),
                     ("chi_p", item("chi_p"), A.fn("max", p1, b))]
            v.compare("spins", f.name, f, [(dec, r, cx)], wants, facts)
    # tides
    f = fn("convert_to_lal_binary_neutron_star_parameters")
    if f is not None:
        base = {"mass_1": m1, "mass_2": m2}
        for keys in (["lambda_1", "lambda_2"], ["lambda_tilde", "delta_lambda_tilde"], ["lambda_symmetric", "lambda_antisymmetric"]):
            rec = dict(base, **{n: TIDES[n] for n in keys})
            v.compare("tides", "%s from %s" % (f.name, ", ".join(keys)), f, v.evaluate(f, [rec], facts),
                      [("lambda_1", item("lambda_1", True), l1), ("lambda_2", item("lambda_2", True), l2)], facts)
        rec = dict(base, lambda_tilde=A.subst(LT, "l2", L2S))
        v.compare("tides", "%s from lambda_tilde" % f.name, f, v.evaluate(f, [rec], facts),
                  [("lambda_1", item("lambda_1", True), l1), ("lambda_2", item("lambda_2", True), L2S)], facts)
        rec = dict(base, lambda_1=l1)
        v.compare("tides", "%s from lambda_1" % f.name, f, v.evaluate(f, [rec], facts),
                  [("lambda_1", item("lambda_1", True), l1), ("lambda_2", item("lambda_2", True), L2S)], facts)
        v.compare("tides", "%s without tides" % f.name, f, v.evaluate(f, [dict(base)], facts),
                  [("lambda_1", item("lambda_1", True), A.ZERO), ("lambda_2", item("lambda_2", True), A.ZERO)], facts)
    f = fn("generate_tidal_parameters")
    if f is not None:
        rec = dict(MASS, lambda_1=l1, lambda_2=l2)
        v.compare("tides", f.name, f, v.evaluate(f, [rec], facts),
                  [(n, item(n), TIDES[n]) for n in ("lambda_tilde", "delta_lambda_tilde")], facts)


def _c(t):
    return {"bilby/gw/conversion.py": "import numpy as np\n" + t}


SELFTESTS = [
    ("chirp mass", _c("def component_masses_to_chirp_mass(mass_1, mass_2):\n"
                      "    eta = mass_1 * mass_2 / (mass_1 + mass_2) ** 2\n"
                      "    return (mass_1 + mass_2) * eta ** 0.6\n"), None),
    ("chirp mass exponent", _c("def component_masses_to_chirp_mass(mass_1, mass_2):\n"
                               "    return (mass_1 * mass_2) ** 0.6 / (mass_1 + mass_2) ** 0.4\n"), "formula"),
    ("branches", _c("def symmetric_mass_ratio_to_mass_ratio(symmetric_mass_ratio):\n"
                    "    t = 1 / symmetric_mass_ratio / 2 - 1\n    return t - np.sqrt(t ** 2 - 1)\n"
                    "def generate_component_masses(sample, require_add=False, source=False):\n    out = dict(sample)\n"
                    "    for k in ['mass_1', 'total_mass']:\n        if k in out and 'symmetric_mass_ratio' in out:\n"
                    "            out['mass_ratio'] = symmetric_mass_ratio_to_mass_ratio(out['symmetric_mass_ratio'])\n"
                    "            m = out['total_mass'] / (1 + out['mass_ratio']) if k == 'total_mass' else out[k]\n"
                    "            out['mass_1'] = m\n            out['mass_2'] = m / out['mass_ratio']\n"
                    "    return out\n"), "masses"),
]

