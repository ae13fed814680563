"""L03: parameters marginalised by the transient likelihood are drawn from their conditional posterior."""
import itertools

from .. import algebra as A
from ..algebra import ZERO, ONE, sym, const
from ..interp import Obj
from ..oblig import Rule
from ..valnum import World, Undecided
from .l02_gwlike import Lab, B, HALF, NCAL, MASKS, NB, base_params, re, ssum, curve_ratio, point_ratio

TITLE = "marginalised parameters are drawn from their conditional posterior"
EXPLANATION = (
    "Abstract evaluation: generate_posterior_sample_from_marginalized_likelihood is evaluated on two detectors with uninterpreted complex data, spectra and responses. "
    "The tabulated densities and probabilities handed to the random draws are captured as algebraic forms and compared, up to normalisation, with likelihood times prior "
    "given the parameters reconstructed before, for every combination of marginalised parameters.")
ASSUMPTIONS = ["grids of five frequencies and eight upsampled times stand for larger ones", "grid points cut because their density is below a thousandth of the maximum are not modelled"]

F16 = const(16384)
DT = ONE / F16


class Keep(World):
    """comparisons of a table entry with a fraction of the table's maximum keep the entry"""

    def sign(self, d):
        for m, c in d:
            if len(m) == 1 and m[0][0][0] == "sym" and m[0][0][1].startswith("@max") and m[0][1] == ONE and len(d) > 1:
                return -1 if c > 0 else 1
        return super().sign(d)


def lab_for(prog, dec, time, dist):
    pre = dict(dur=const(8) / F16, fs=F16, pmin=const(10) + DT * const(3) / const(2), pmax=const(10) + DT * const(13) / const(2),
               jit=DT / const(4), unit=const(8192)) if time else {}
    lab = Lab(prog, dec, world=Keep, **pre)
    if dist:
        lab.D = A.fn("@q_luminosity_distance", HALF)
    seen = {}
    lab.it.extremum = lambda small, xs: seen.setdefault((small, tuple(xs)), sym("@%s%d" % ("min" if small else "max", len(seen))))
    lab.drawn = []

    def interped(it, a, k):
        k = dict(k)
        for n, v in zip(("xx", "yy"), a):
            k[n] = v

        def sample(it, a2, k2):
            v = sym("new%d" % len(lab.drawn))
            lab.drawn.append((v, list(it.iterate(k["xx"])), list(it.iterate(k["yy"]))))
            return v
        return Obj("interped", {}, {"sample": sample})

    def choice(it, a, k):
        xs = it.iterate(a[0]) if not is_number(a[0]) else [const(i) for i in range(int(A.const_of(a[0])))]
        p = k.get("p", a[3] if len(a) > 3 else None)
        if p is None:
            raise Undecided("choice")
        lab.drawn.append((xs[-1], list(xs), list(it.iterate(p))))
        return xs[-1]
    lab.it.ext["bilby.core.prior.interpolated.Interped"] = interped
    lab.it.ext["bilby.core.utils.random.rng"] = Obj("rng", {}, {"choice": choice})
    return lab


def is_number(v):
    return isinstance(v, A.E) and A.is_const(v)


def proportional(r, what, got, want, dec):
    """tabulated values are a common multiple of the reference"""
    if len(got) != len(want):
        return "%s table has %d entries instead of %d" % (what, len(got), len(want))
    for g, w in zip(got[1:], want[1:]):
        if not r.equal(g * want[0], got[0] * w, dec):
            return "%s is not drawn from likelihood times prior" % what


def steps(t, lo, dt):
    q = (t - lo) / dt
    if not A.is_const(q):
        raise Undecided("time grid")
    return int(A.const_of(q)) if A.const_of(q).denominator == 1 else None


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("draw", "each marginalised parameter is drawn from likelihood times prior given the parameters drawn before", floor=6 * k)
    cls = prog.classes.get(B + "base.GravitationalWaveTransient")
    f = cls.find("generate_posterior_sample_from_marginalized_likelihood") if cls is not None else None
    if f is None:
        return
    r = Rule(ctx, [sym("S_%s%d" % (n, i)) for n in MASKS for i in range(NB)] + [sym("hp"), sym("D"), sym("dmin"), sym("dmax") - sym("dmin")])
    for time, dist, phase, cal in itertools.product((False, True), repeat=4) if k else ((False, False, True, False),):
        for jitter in ((True, False) if time else (False,)):
            names = [n for n, v in (("calibration", cal), ("time", time), ("distance", dist), ("phase", phase)) if v]
            label = "marginalised over %s%s" % (", ".join(names) or "nothing", ", no jitter" if time and not jitter else "")
            hold = {}

            def thunk(dec):
                lab = hold["lab"] = lab_for(prog, dec, time, dist)
                o = lab.like(cls, time_marginalization=time, distance_marginalization=dist, phase_marginalization=phase, calibration_marginalization=cal,
                             number_of_response_curves=const(NCAL), jitter_time=jitter)
                p = base_params(lab, lab.t0 if time else None, lab.jit if jitter else None)
                if phase:
                    p["phase"] = ZERO
                lab.setp(o, **p)
                return dict(lab.it.method(o, "generate_posterior_sample_from_marginalized_likelihood"))

            def judge(got, dec):
                lab = hold["lab"]
                if len(lab.drawn) != len(names):
                    return "%d draws for %d marginalised parameters" % (len(lab.drawn), len(names))
                return judge_draws(r, lab, got, dec, time, dist, phase, cal, jitter)
            r.report("draw", label, f, r.run(thunk), judge)


def judge_draws(r, lab, got, dec, time, dist, phase, cal, jitter):
    draws = list(lab.drawn)
    c, t, scale = None, sym("tc"), ONE
    if cal:
        v, xs, ps = draws.pop(0)
        m = proportional(r, "response curve", ps, [A.exp(curve_ratio(lab, time, dist, phase, jitter, i)) for i in range(NCAL)], dec)
        if m or got.get("recalib_index") != v:
            return m or "the response curve drawn is not returned"
        c = int(A.const_of(v))
    if time:
        v, xs, ys = draws.pop(0)
        lo = lab.t0 + (lab.jit if jitter else ZERO)
        inside = [j for j in range(8) if A.const_of(lab.pmin) <= A.const_of(lo + const(j) * DT) <= A.const_of(lab.pmax)]
        js = [steps(x, lo, DT) for x in xs]
        if None in js:
            return "the times tabulated are not those at which the data are matched to the signal"
        if sorted(js) != inside:
            return "the times tabulated do not cover the prior"
        hh = ssum(lab.hh(n, lo, c) for n in MASKS)
        want = [A.fn("@p_geocent_time", x) * A.exp(point_ratio(lab, dist, phase, ssum(lab.dh(n, lo, c, j, size=8) for n in MASKS), hh)) for x, j in zip(xs, js)]
        m = proportional(r, "time", ys, want, dec)
        if m or got.get("geocent_time") != v:
            return m or "the time drawn is not returned"
        t = v
    d, hh = ssum(lab.dh(n, t, c) for n in MASKS), ssum(lab.hh(n, t, c) for n in MASKS)
    if dist:
        v, xs, ys = draws.pop(0)
        lo, hi = sym("dmin"), sym("dmax")
        if not r.equal(xs[0], lo, dec) or not r.equal(xs[-1], hi, dec):
            return "the distances tabulated do not cover the prior"
        want = [A.fn("@p_luminosity_distance", x) * A.exp(point_ratio(lab, False, phase, d * lab.D / x, hh * lab.D * lab.D / x / x)) for x in xs]
        m = proportional(r, "distance", ys, want, dec)
        if m or got.get("luminosity_distance") != v:
            return m or "the distance drawn is not returned"
        scale = lab.D / v
    if phase:
        v, xs, ys = draws.pop(0)
        if xs[0] != ZERO or xs[-1] != const(2) * A.PI:
            return "the phases tabulated do not cover a turn"
        pick = sorted({0, 1, len(xs) // 8, len(xs) // 3, len(xs) // 2, len(xs) - 2})
        want = [A.exp(re(d * scale * A.exp(const(2) * A.I * xs[i]))) for i in pick]
        m = proportional(r, "phase", [ys[i] for i in pick], want, dec)
        if m or got.get("phase") != v:
            return m or "the phase drawn is not returned"


_LIKE = """
import numpy as np
from ...core.prior.interpolated import Interped
class GravitationalWaveTransient:
    def __init__(self, interferometers, waveform_generator, priors=None, **kwargs):
        self.parameters = dict()
        self.interferometers, self.waveform_generator = interferometers, waveform_generator
    def generate_posterior_sample_from_marginalized_likelihood(self):
        h = self.waveform_generator.frequency_domain_strain(self.parameters)
        d = 0
        for i in self.interferometers:
            m = i.strain_data.frequency_mask
            d += 4 / i.strain_data.duration * np.sum((np.conj(i.get_detector_response(h, self.parameters)) * i.strain_data.frequency_domain_strain /
                                                      i.power_spectral_density.get_power_spectral_density_array())[m])
        phases = np.linspace(0, 2 * np.pi, 101)
        x = (d * np.exp(%s * phases)).real
        self.parameters['phase'] = Interped(phases, np.exp(x - max(x))).sample()
        return self.parameters.copy()
"""


def _g(a):
    return {"bilby/gw/likelihood/base.py": _LIKE % a, "bilby/core/prior/interpolated.py": "class Interped:\n    pass\n",
            "bilby/core/prior/base.py": "class Prior:\n    pass\n", "bilby/gw/detector/interferometer.py": "class Interferometer:\n    pass\n"}


SELFTESTS = [
    ("phase drawn", _g("-2j"), None),
    ("wrong harmonic", _g("-1j"), "draw"),
]
