"""L02: the gravitational-wave transient likelihood combines the detectors' inner products as documented."""
import itertools

from .. import algebra as A
from .. import randint as R
from ..algebra import E, ZERO, ONE, sym, const, power
from ..interp import Interp, Obj, PyExc, Arr, T, integer, ndim, root
from ..oblig import Rule
from ..valnum import World, Undecided, NINF, Sp

TITLE = "transient likelihood combines detector inner products as documented"
EXPLANATION = (
    "Abstract evaluation: the likelihood classes are constructed on two detectors whose data, noise spectra and responses are uninterpreted complex values "
    "on a short frequency grid, one per frequency, and log_likelihood_ratio, noise_log_likelihood and the per-detector values are computed as algebraic forms. "
    "They are compared with the reference sums over unmasked frequencies for every combination of time, distance, phase and calibration marginalisation.")
ASSUMPTIONS = ["grids of five frequencies, two calibration curves and three distances stand for larger ones", "the distance look-up interpolation is uninterpreted; "
               "its table is compared entry by entry with the marginal over the distance grid"]

B = "bilby.gw.likelihood."
HALF = const(1) / const(2)
DUR, FS, T0 = const(8), const(1), const(10)          # 4 / duration differs from the duration
NB = 5
MASKS = {"H1": [False, True, True, True, False], "L1": [False, False, True, True, True]}
JIT = const(1) / const(8)
NCAL = 2
PMIN, PMAX = const(62) / const(5), const(84) / const(5)      # 12.4, 16.8
BIG = 100


def re(z):
    return A.real_part(z)


def ab(z):
    return A.fn1("abs", z) if A.is_complex(z) else A.fn("abs", z)


def ssum(xs):
    t = ZERO
    for x in xs:
        t = t + x
    return t


def cplx(name, *args):
    if args:
        return A.fn("@r" + name, *args) + A.I * A.fn("@i" + name, *args)
    return sym("r" + name) + A.I * sym("i" + name)


def ln_i0(z):
    a = ab(z)
    return A.fn("log", A.fn1("i0e", a)) + a


class Lab:
    def __init__(self, prog, dec, facts=(), grid=3, dur=DUR, fs=FS, masks=MASKS, t0=T0, pmin=PMIN, pmax=PMAX, jit=JIT, unit=ONE, world=World):
        self.prog, self.grid = prog, grid
        self.dur, self.fs, self.t0, self.masks = dur, fs, t0, masks
        self.pmin, self.pmax, self.jit, self.unit = pmin, pmax, jit, unit
        self.nb = len(masks["H1"])
        self.w = world([sym("S_%s%d" % (n, k)) for n in masks for k in range(self.nb)] + [sym("D"), sym("dmin"), sym("dmax") - sym("dmin")] +
                       [A.fn("@p_luminosity_distance", sym("dmin") + const(i) * (sym("dmax") - sym("dmin")) / const(grid - 1)) for i in range(grid)] + list(facts),
                       dec, scalar=True)
        self.tables = []
        self.D = sym("D")
        self.saved = []
        self.loaded = None
        nets = "bilby.gw.detector.networks."
        self.it = it = Interp(prog, self.w, limit=400000, externals={
            nets + "InterferometerList": lambda i, a, k: self.network,
            nets + "get_empty_interferometer": lambda i, a, k: self.reference(a),
            "numpy.linspace": self.linspace, "numpy.zeros": self.zeros, "tqdm.auto.tqdm": lambda i, a, k: a[0], "tqdm.tqdm": lambda i, a, k: a[0],
            "bilby.core.utils.calculus.BoundedRectBivariateSpline": self.spline,
            "os.path.exists": lambda i, a, k: self.loaded is not None, "numpy.load": lambda i, a, k: self.loaded,
            "os.path.isfile": lambda i, a, k: self.loaded is not None,
            "numpy.savez": lambda i, a, k: self.saved.append(k), "numpy.allclose": self.allclose,
            "bilby.gw.detector.calibration.build_calibration_lookup": self.calibration})
        del it
        self.ifos = [self.detector(n) for n in masks]
        self.network = Obj("network", {"duration": self.dur, "sampling_frequency": self.fs, "start_time": self.t0,
                                       "meta_data": {}}, {"__iter__": lambda i, a, k: list(self.ifos), "__len__": lambda i, a, k: const(len(self.ifos)),
                                                          "__getitem__": lambda i, a, k: self.ifos[integer(a[0])]})
        self.asked = []
        self.wfg = Obj("waveform_generator", {"duration": None, "sampling_frequency": None, "start_time": None}, {"frequency_domain_strain": self.waveform})
        self.none = False

    # stand-ins -------------------------------------------------------------------------------
    def linspace(self, it, a, k):
        if len(a) == 3 and integer(a[2]) is not None and integer(a[2]) > BIG:
            a = [a[0], a[1], const(self.grid)] if integer(a[2]) > 1000 else a
        del it.ext["numpy.linspace"]
        try:
            return it.external("numpy.linspace", a, k)
        finally:
            it.ext["numpy.linspace"] = self.linspace

    def zeros(self, it, a, k):
        if a and isinstance(a[0], T) and all(integer(x) is not None for x in a[0]) and max(integer(x) for x in a[0]) > BIG:
            a = [T(const(max(integer(x) // 40, 1)) for x in a[0])] + list(a[1:])
        del it.ext["numpy.zeros"]
        try:
            return it.external("numpy.zeros", a, k)
        finally:
            it.ext["numpy.zeros"] = self.zeros

    def allclose(self, it, a, k):
        x, y = it.flatten(a[0]), it.flatten(a[1])
        return len(x) == len(y) and all(it.equal(p, q) for p, q in zip(x, y))

    def spline(self, it, a, k):
        if len(a) != 3 or ndim(a[2]) != 2 or len(a[0]) != len(a[2]) or len(a[1]) != len(a[2][0]):
            raise PyExc("ValueError")
        self.tables.append(a)

        def ev(it, a2, k2):
            if len(a2) != 2:
                raise PyExc("TypeError")
            if any(isinstance(q, E) and A.is_complex(q) for x in a2 for q in it.flatten(x)):
                raise PyExc("TypeError")
            return it.arrmap(lambda x, y: A.fn("@table", x, y), *a2)
        return Obj("spline", {}, {"__call__": ev})

    def calibration(self, it, a, k):
        return T(({n: Arr(Arr(self.cal(n, c, j) for j, b in enumerate(m) if b) for c in range(NCAL)) for n, m in self.masks.items()},
                  {n: None for n in self.masks}))

    def cal(self, n, c, j):
        return cplx("C_%s%d%d" % (n, c, j))

    def reference(self, a):
        return Obj("reference", {}, {"time_delay_from_geocenter": lambda i, x, k: A.fn("@delay", *[k[q] for q in ("ra", "dec", "time")])
                                     if set(k) == {"ra", "dec", "time"} else A.fn("@delay", *x)})

    def waveform(self, it, a, k):
        p = a[0] if a else k.get("parameters")
        self.asked.append(dict(p))
        return None if self.none else {"plus": sym("hp")}

    def detector(self, n):
        cls = self.prog.classes.get("bilby.gw.detector.interferometer.Interferometer")
        nb = self.nb
        data = Arr(cplx("d_%s%d" % (n, k)) for k in range(nb))
        psd = Arr(self.S(n, k) for k in range(nb))
        strain = Obj("strain_data", {"frequency_domain_strain": data, "frequency_mask": Arr(self.masks[n]), "duration": self.dur, "sampling_frequency": self.fs,
                                     "frequency_array": Arr(const(k) / self.dur for k in range(nb)), "start_time": self.t0, "window_factor": ONE})

        def response(it, a, k):
            pols = k.get("waveform_polarizations", a[0] if a else None)
            par = k.get("parameters", a[1] if len(a) > 1 else None)
            if not isinstance(pols, dict) or not isinstance(par, dict):
                raise Undecided("response")
            args = [par[q] for q in ("geocent_time", "ra", "dec")]
            return Arr(pols["plus"] * cplx("h_%s%d" % (n, k), *args) if self.masks[n][k] else ZERO for k in range(nb))
        if cls is None:
            return Obj("interferometer", {"name": n}, {"get_detector_response": response})
        return Obj(cls, {"name": n, "_name": n, "strain_data": strain, "_strain_data": strain,
                         "power_spectral_density": Obj("psd", {}, {"get_power_spectral_density_array": lambda i, a, k: Arr(psd)})},
                   {"get_detector_response": response}, label=n)

    # reference forms -------------------------------------------------------------------------
    def h(self, n, k, t, scale=ONE):
        return scale * sym("hp") * cplx("h_%s%d" % (n, k), t, sym("ra"), sym("dec")) if self.masks[n][k] else ZERO

    def d(self, n, k):
        return cplx("d_%s%d" % (n, k))

    def S(self, n, k):
        return sym("S_%s%d" % (n, k)) * self.unit

    def dh(self, n, t, c=None, j=0, scale=ONE, size=None):
        """4/T sum conj(d) h / S, shifted by j steps of the inverse transform grid, with calibration curve c"""
        f = const(4) / self.dur
        out = ZERO
        for k in range(self.nb):
            if not self.masks[n][k] or size is not None and k >= size:
                continue
            x = A.conj(self.d(n, k)) * self.h(n, k, t, scale) / self.S(n, k)
            if c is not None:
                x = x * self.cal(n, c, k)
            if size is not None:
                x = x * root(j * k, size, False)
            out = out + f * x
        return out

    def hh(self, n, t, c=None, scale=ONE):
        f = const(4) / self.dur
        out = ZERO
        for k in range(self.nb):
            if self.masks[n][k]:
                x = f * ab(self.h(n, k, t, scale)) * ab(self.h(n, k, t, scale)) / self.S(n, k)
                if c is not None:
                    x = x * ab(self.cal(n, c, k)) * ab(self.cal(n, c, k))
                out = out + x
        return out

    def priors(self, **marg):
        pc = self.prog.classes["bilby.core.prior.base.Prior"]

        def mk(name, lo, hi):
            return Obj(pc, {"_is_fixed": False, "name": name, "_minimum": lo, "_maximum": hi}, {
                "prob": lambda i, a, k: i.arrmap(lambda x: A.fn("@p_" + name, x), a[0]),
                "rescale": lambda i, a, k: A.fn("@q_" + name, a[0])}, label="prior " + name)
        return {"geocent_time": mk("geocent_time", self.pmin, self.pmax), "luminosity_distance": mk("luminosity_distance", sym("dmin"), sym("dmax")),
                "phase": mk("phase", ZERO, const(2) * A.PI)}

    def like(self, cls, **kw):
        self.given = self.priors()
        return self.it.new(cls, [self.network, self.wfg], dict(priors=self.given, **kw))

    def setp(self, o, **kw):
        p = self.it.getattr(o, "parameters")
        self.it.dictmethod(p, "update", [kw], {}, None)
        return p


def base_params(lab, time=None, jitter=None):
    p = {"geocent_time": time if time is not None else sym("tc"), "ra": sym("ra"), "dec": sym("dec"), "luminosity_distance": lab.D, "phase": sym("ph")}
    if jitter is not None:
        p["time_jitter"] = jitter
    return p


def judge(r, want):
    def j(got, dec):
        return None if r.equal(got, want, dec) else "gives %s instead of %s" % (str(got)[:160], str(want)[:160])
    return j


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("ratio", "log_likelihood_ratio is the documented combination of <d,h> and <h,h> summed over detectors, marginalised as requested", floor=6 * k)
    ctx.rule("noise", "noise and absolute log likelihoods follow from the same inner products", floor=1 * k)
    ctx.rule("table", "the distance look-up table holds the marginal over the distance prior and is rebuilt when it does not match", floor=1 * k)
    r = Rule(ctx, [sym("S_%s%d" % (n, i)) for n in MASKS for i in range(NB)] + [sym("hp"), sym("D"), sym("dmin"), sym("dmax") - sym("dmin")])
    cls = prog.classes.get(B + "base.GravitationalWaveTransient")
    if cls is not None and cls.find("log_likelihood_ratio") is not None:
        transient(ctx, r, prog, cls)
    cls = prog.classes.get(B + "basic.BasicGravitationalWaveTransient")
    if cls is not None:
        basic(ctx, r, prog, cls)


def point_ratio(lab, dist, phase, d, hh):
    """log likelihood ratio at inner products for the template of the current distance"""
    if dist:
        ref = A.fn("@q_luminosity_distance", HALF)
        d = d * lab.D / ref
        hh = hh * lab.D * lab.D / ref / ref
        return A.fn("@table", ab(d) if phase else re(d), hh)
    return (ln_i0(d) if phase else re(d)) - hh / const(2)


def curve_ratio(lab, time, dist, phase, jitter, c, ifos=("H1", "L1")):
    t = lab.t0 + (lab.jit if jitter else ZERO) if time else sym("tc")
    hh = ssum(lab.hh(n, t, c) for n in ifos)
    if not time:
        return point_ratio(lab, dist, phase, ssum(lab.dh(n, t, c) for n in ifos), hh)
    n = lab.nb - 1
    dt = lab.dur / const(n)
    tot = ZERO
    for j in range(n):
        tj = t + const(j) * dt
        if A.const_of(lab.pmin) <= A.const_of(tj) <= A.const_of(lab.pmax):
            tot = tot + A.exp(point_ratio(lab, dist, phase, ssum(lab.dh(m, t, c, j, size=n) for m in ifos), hh)) * A.fn("@p_geocent_time", tj) * dt
    return A.fn("log", tot)


def reference_ratio(lab, time, dist, phase, cal, jitter, ifos=("H1", "L1")):
    """documented log likelihood ratio"""
    if not cal:
        return curve_ratio(lab, time, dist, phase, jitter, None, ifos)
    return A.fn("log", ssum(A.exp(curve_ratio(lab, time, dist, phase, jitter, c, ifos)) for c in range(NCAL))) - A.fn("log", const(NCAL))


def transient(ctx, r, prog, cls):
    f = cls.find("log_likelihood_ratio")
    for time, dist, phase, cal in itertools.product((False, True), repeat=4):
        for jitter in ((True, False) if time else (False,)):
            label = "log_likelihood_ratio (%s)" % (", ".join([n for n, v in (("time", time), ("distance", dist), ("phase", phase), ("calibration", cal)) if v] +
                                                            (["no jitter"] if time and not jitter else [])) or "no marginalization")
            for mode in ("first", "again"):
                hold = {}

                def thunk(dec, mode=mode):
                    lab = hold["lab"] = Lab(prog, dec)
                    o = lab.like(cls, time_marginalization=time, distance_marginalization=dist, phase_marginalization=phase, calibration_marginalization=cal,
                                 number_of_response_curves=const(NCAL), jitter_time=jitter)
                    p = base_params(lab, lab.t0 if time else None, JIT if time and jitter else None)
                    if mode == "again":
                        q = dict(p, ra=sym("ra2"), dec=sym("dec2"), luminosity_distance=lab.D)
                        lab.setp(o, **q)
                        lab.it.method(o, "log_likelihood_ratio")
                    par = lab.setp(o, **p)
                    v = lab.it.method(o, "log_likelihood_ratio")
                    left = lab.it.getattr(o, "parameters")
                    if left.get("geocent_time") != p["geocent_time"]:
                        return "leaves the time parameter changed"
                    del par
                    return v

                def jd(got, dec):
                    if isinstance(got, str):
                        return got
                    return judge(r, reference_ratio(hold["lab"], time, dist, phase, cal, jitter))(got, dec)
                r.report("ratio", label + (" after another evaluation" if mode == "again" else ""), f, r.run(thunk), jd)
    # waveform failure
    def fail(dec):
        lab = Lab(prog, dec)
        o = lab.like(cls)
        lab.none = True
        lab.setp(o, **base_params(lab))
        return lab.it.method(o, "log_likelihood_ratio")
    r.report("ratio", "log_likelihood_ratio without a waveform", f, r.run(fail),
             lambda got, dec: None if got == NINF or isinstance(got, E) and A.is_const(got) and A.const_of(got) < -10 ** 300 else "gives %s" % (got,))

    def noise(lab, n):
        return ssum(-const(2) / lab.dur * ab(lab.d(n, k)) * ab(lab.d(n, k)) / lab.S(n, k) for k in range(NB) if MASKS[n][k])
    hold = {}

    def absolute(dec):
        lab = hold["lab"] = Lab(prog, dec)
        o = lab.like(cls)
        lab.setp(o, **base_params(lab))
        return [lab.it.method(o, m) for m in ("noise_log_likelihood", "log_likelihood", "noise_log_likelihood")]

    def jabs(got, dec):
        lab = hold["lab"]
        n = noise(lab, "H1") + noise(lab, "L1")
        return judge(r, n)(got[0], dec) or judge(r, n + reference_ratio(lab, False, False, False, False, False))(got[1], dec) or judge(r, n)(got[2], dec)
    r.report("noise", "noise_log_likelihood and log_likelihood", cls.find("noise_log_likelihood"), r.run(absolute), jabs)
    per = cls.find("compute_per_detector_log_likelihood")
    if per is not None:
        for time, phase in ((False, False), (False, True), (True, False)):
            def each(dec):
                lab = hold["lab"] = Lab(prog, dec)
                o = lab.like(cls, time_marginalization=time, phase_marginalization=phase)
                lab.setp(o, **base_params(lab, lab.t0 if time else None, JIT if time else None))
                return lab.it.method(o, "compute_per_detector_log_likelihood")

            def jeach(got, dec):
                for n in MASKS:
                    m = judge(r, reference_ratio(hold["lab"], time, False, phase, False, True, ifos=(n,)))(got[n + "_log_likelihood"], dec)
                    if m:
                        return "%s %s" % (n, m)
            r.report("noise", "per-detector log likelihoods%s%s" % (" (time)" if time else "", " (phase)" if phase else ""), per, r.run(each), jeach)
    snrs = cls.find("calculate_snrs")
    if snrs is not None:
        def matched(dec):
            lab = hold["lab"] = Lab(prog, dec)
            o = lab.like(cls)
            p = lab.setp(o, **base_params(lab))
            v = lab.it.method(o, "calculate_snrs", lab.wfg.hooks["frequency_domain_strain"](lab.it, [p], {}), lab.ifos[1])
            return [lab.it.getattr(v, q) for q in ("d_inner_h", "optimal_snr_squared", "complex_matched_filter_snr")]

        def jm(got, dec):
            lab = hold["lab"]
            d, hh = lab.dh("L1", sym("tc")), lab.hh("L1", sym("tc"))
            return judge(r, re(d))(re(got[0]), dec) or judge(r, hh)(got[1], dec) or judge(r, re(d) / power(hh, HALF))(re(got[2]), dec) or \
                judge(r, ab(d))(ab(got[0]), dec)
        r.report("noise", "calculate_snrs", snrs, r.run(matched), jm)
    # time referenced to a detector
    def reference(dec):
        lab = hold["lab"] = Lab(prog, dec)
        o = lab.like(cls, time_reference="H1")
        p = base_params(lab)
        del p["geocent_time"]
        lab.setp(o, H1_time=sym("th"), **p)
        return lab.it.method(o, "log_likelihood_ratio")

    def jref(got, dec):
        lab = hold["lab"]
        t = sym("th") - A.fn("@delay", sym("ra"), sym("dec"), sym("th"))
        return judge(r, ssum(re(lab.dh(n, t)) - lab.hh(n, t) / const(2) for n in MASKS))(got, dec)
    r.report("ratio", "log_likelihood_ratio with the time measured at a detector", f, r.run(reference), jref)
    table(ctx, r, prog, cls)


def table(ctx, r, prog, cls):
    f = cls.find("_setup_distance_marginalization") or cls.find("log_likelihood_ratio")
    for phase in (False, True):
        for mode in ("built", "loaded", "other prior", "other phase", "given", "given other"):
            hold = {}

            def thunk(dec, mode=mode, phase=phase):
                lab = Lab(prog, dec)
                lab.like(cls, distance_marginalization=True, phase_marginalization=phase)
                good = dict(lab.saved[-1]) if lab.saved else None
                if mode == "built":
                    hold["lab"] = lab
                    return lab.tables[-1]
                if good is None:
                    raise Undecided("no table saved")
                if mode in ("other prior", "given other"):
                    good["prior_array"] = Arr(x * const(2) for x in good["prior_array"])
                    good["lookup_table"] = Arr(Arr(x + ONE for x in row) for row in good["lookup_table"])
                if mode == "other phase":
                    good["phase_marginalization"] = not phase
                    good["lookup_table"] = Arr(Arr(x + ONE for x in row) for row in good["lookup_table"])
                lab2 = hold["lab"] = Lab(prog, dec)
                if mode.startswith("given"):
                    lab2.like(cls, distance_marginalization=True, phase_marginalization=phase, distance_marginalization_lookup_table=good)
                else:
                    lab2.loaded = good
                    lab2.like(cls, distance_marginalization=True, phase_marginalization=phase, distance_marginalization_lookup_table="table.npz")
                return lab2.tables[-1]

            def jd(got, dec, phase=phase):
                lab = hold["lab"]
                xs, ys, tab = got
                n = lab.grid
                step = (sym("dmax") - sym("dmin")) / const(n - 1)
                ds = [sym("dmin") + const(i) * step for i in range(n)]
                pr = [A.fn("@p_luminosity_distance", d) * step for d in ds]
                ref = A.fn("@q_luminosity_distance", HALF)
                norm = A.fn("log", ssum(pr))
                near = [(i, j) for i, x in enumerate(xs) for j, y in enumerate(ys) if max(abs(R.value(x, {})), abs(R.value(y, {}))) < 10]
                if len(xs) < 2 or len(ys) < 2 or not near:
                    raise Undecided("table grid")
                for i, j in near[::max(len(near) // 8, 1)]:
                    if True:
                        x, y = xs[i], ys[j]
                        want = A.fn("log", ssum(p * A.exp((ln_i0(x * ref / d) if phase else x * ref / d) - y * ref * ref / d / d / const(2)) for p, d in zip(pr, ds)))
                        if not r.equal(tab[i][j], want - norm, dec):
                            return "entry %d, %d is not the marginal over distance" % (i, j)
            r.report("table", "distance look-up table (%s%s)" % (mode, ", phase" if phase else ""), f, r.run(thunk), jd)


def basic(ctx, r, prog, cls):
    hold = {}

    def thunk(dec):
        lab = hold["lab"] = Lab(prog, dec)
        lab.wfg.attrs.update(duration=lab.dur, sampling_frequency=lab.fs, start_time=lab.t0)
        o = lab.it.new(cls, [lab.network, lab.wfg], {})
        lab.setp(o, **base_params(lab))
        return [lab.it.method(o, m) for m in ("log_likelihood", "noise_log_likelihood")]

    def jd(got, dec):
        lab = hold["lab"]

        def tot(f):
            return ssum(-const(2) / lab.dur * ab(f(n, k)) * ab(f(n, k)) / lab.S(n, k) for n in MASKS for k in range(NB))
        return judge(r, tot(lambda n, k: lab.d(n, k) - lab.h(n, k, sym("tc"))))(got[0], dec) or judge(r, tot(lab.d))(got[1], dec)
    r.report("ratio", "BasicGravitationalWaveTransient", cls.find("log_likelihood"), r.run(thunk), jd)


_BASIC = """
import numpy as np
class BasicGravitationalWaveTransient:
    def __init__(self, interferometers, waveform_generator):
        self.parameters = dict()
        self.interferometers = interferometers
        self.waveform_generator = waveform_generator
    def noise_log_likelihood(self):
        return sum(- 2. / self.waveform_generator.duration * np.sum(abs(i.frequency_domain_strain) ** 2 / i.power_spectral_density_array)
                   for i in self.interferometers)
    def log_likelihood(self):
        h = self.waveform_generator.frequency_domain_strain(self.parameters.copy())
        log_l = 0
        for i in self.interferometers:
            r = i.frequency_domain_strain - i.get_detector_response(h, self.parameters)
            log_l += - %s / self.waveform_generator.duration * np.vdot(r, r / i.power_spectral_density_array)
        return log_l%s
"""
_IFO = """
class Interferometer:
    @property
    def frequency_domain_strain(self):
        return self.strain_data.frequency_domain_strain
    @property
    def power_spectral_density_array(self):
        return self.power_spectral_density.get_power_spectral_density_array()
"""


def _b(*a):
    return {"bilby/gw/likelihood/basic.py": _BASIC % a, "bilby/gw/detector/interferometer.py": _IFO}


SELFTESTS = [
    ("basic likelihood", _b("2.", ".real"), None),
    ("factor", _b("4.", ".real"), "ratio"),
    ("imaginary part", _b("2.", ".imag"), "ratio"),
]
