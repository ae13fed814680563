"""F01: detector responses, inner products, whitening and injections follow their definitions."""
from .. import algebra as A
from ..algebra import ZERO, ONE, const, sym
from ..interp import Interp, Obj, Arr, PyExc
from ..oblig import Rule
from ..valnum import Undecided, World
from .l02_gwlike import cplx, re, ab, ssum

TITLE = "detector responses, inner products, whitening and injections follow their definitions"
EXPLANATION = (
    "Abstract evaluation: Interferometer and InterferometerList objects are constructed with uninterpreted antenna patterns, delays, calibration factors, "
    "noise spectra and data on a short frequency grid with excluded bins, and their projected signals, inner products, signal-to-noise ratios, whitened "
    "series and injected data are computed as complex algebraic forms and compared, bin by bin, with the documented definitions.")
ASSUMPTIONS = ["grids of five frequencies stand for larger ones", "antenna pattern, time delay and window functions of the compiled and scipy libraries are uninterpreted"]

D = "bilby.gw.detector."
T, FS, T0 = const(8), const(1), const(10)
NB, NT = 5, 8
LO, HI = const(1) / const(10), const(2) / const(5)
MASK = [False, True, True, True, False]
MODES = ("plus", "cross", "x", "y", "breathing", "longitudinal")
PAR = ("ra", "dec", "psi", "geocent_time")


def freq(k):
    return const(k) / T


def exact(a, k, names):
    """positional and keyword arguments in order"""
    return list(a) + [k[n] for n in names[len(a):]]


class Net:
    """detectors of the analysed program with uninterpreted physics"""

    def __init__(self, prog, dec, facts=(), externals=None, real_psd=False):
        self.prog = prog
        self.w = World([sym("S_%s%d" % (n, k)) for n in ("H1", "L1") for k in range(NB)] + [sym("w%d" % i) for i in range(NT)] + list(facts), dec, scalar=True)
        self.alphas = []
        e = {
            "bilby_cython.geometry.get_polarization_tensor": self.tensor, "bilby_cython.geometry.three_by_three_matrix_contraction": self.contract,
            "bilby_cython.geometry.time_delay_from_geocenter": lambda i, a, k: A.fn("@delay", *exact(a, k, ("vertex", "ra", "dec", "time"))),
            D + "geometry.InterferometerGeometry": lambda i, a, k: Obj("geometry", {"vertex": sym("vertex_" + self.naming), "detector_tensor": sym("tensor_" + self.naming)}),
            "scipy.signal.windows.tukey": self.tukey, "scipy.signal.tukey": self.tukey,
            "bilby.gw.conversion.generate_all_bbh_parameters": lambda i, a, k: a[0],
        }
        e.update(externals or {})
        self.it = Interp(prog, self.w, limit=200000, externals=e)
        self.naming = "?"

    def tensor(self, it, a, k):
        a = exact(a, k, ("ra", "dec", "time", "psi", "mode"))
        if not isinstance(a[4], str):
            raise Undecided("mode")
        return A.fn("@tensor_" + a[4], *a[:4])

    def contract(self, it, a, k):
        if len(a) != 2:
            raise Undecided("contraction")
        return A.fn("@antenna", *a)

    def tukey(self, it, a, k):
        a = exact(a, k, ("M", "alpha"))
        self.alphas.append(a[1])
        return Arr(sym("w%d" % i) for i in range(int(A.const_of(a[0]))))

    def antenna(self, name, mode, at=None):
        p = [sym(x) for x in ("ra", "dec", "geocent_time", "psi")]
        return A.fn("@antenna", sym("tensor_" + name), A.fn("@tensor_" + mode, *p))

    def psd(self, name):
        def psd(i, a, k):
            f = exact(a, k, ("frequency_array",))[0]
            return Arr(self.S(name, int(A.const_of(x * T))) for x in f)
        return Obj("psd", {}, {"get_power_spectral_density_array": psd, "power_spectral_density_interpolated": psd,
                               "get_amplitude_spectral_density_array": lambda i, a, k: Arr(A.power(x, const(1) / const(2)) for x in psd(i, a, k))})

    def S(self, name, k):
        return sym("S_%s%d" % (name, k))

    def calibration(self, name, count=None):
        def factor(i, a, k):
            f = a[0] if a else k["frequency_array"]
            for q in PAR + ("recalib_%s_a" % name,):
                if q in self.pars() and not i.equal(k.get(q), self.pars()[q]):
                    raise PyExc("TypeError")
            return Arr(self.C(name, x) for x in f)
        return Obj("calibration", {}, {"get_calibration_factor": factor})

    def C(self, name, f):
        c = A.const_of(f)
        return cplx("C_%s_%d_%d" % (name, c.numerator, c.denominator))

    def pars(self):
        return {q: sym(q) for q in PAR} | {"recalib_H1_a": sym("ca"), "recalib_L1_a": sym("cb")}

    def ifo(self, name, cls, data="frequency", calibrated=True, notch=None):
        self.naming = name
        kw = dict(name=name, power_spectral_density=self.psd(name), minimum_frequency=LO, maximum_frequency=HI, length=ONE, latitude=ONE, longitude=ONE,
                  elevation=ONE, xarm_azimuth=ONE, yarm_azimuth=ONE)
        if calibrated:
            kw["calibration_model"] = self.calibration(name)
        o = self.it.new(cls, [], kw)
        how = dict(sampling_frequency=FS, duration=T, start_time=T0)
        if data == "frequency":
            self.it.method(o, "set_strain_data_from_frequency_domain_strain", Arr(self.d(name, k) for k in range(NB)), **how)
        elif data == "time":
            self.it.method(self.it.getattr(o, "strain_data"), "set_from_time_domain_strain", Arr(sym("x_%s%d" % (name, i)) for i in range(NT)), **how)
        elif data == "zero":
            self.it.method(o, "set_strain_data_from_zero_noise", **how)
        return o

    def d(self, name, k):
        return cplx("d_%s%d" % (name, k))

    def h(self, mode, k):
        return cplx("h_%s%d" % (mode, k))

    def wave(self, modes, bins=range(NB)):
        return {m: Arr(self.h(m, k) for k in bins) for m in modes}

    def response(self, name, modes, k, f=None, calibrated=True, pattern=None):
        f = freq(k) if f is None else f
        h = ssum(self.h(m, k) * (pattern or self.antenna)(name, m) for m in modes)
        delay = A.fn("@delay", sym("vertex_" + name), sym("ra"), sym("dec"), sym("geocent_time"))
        dt = sym("geocent_time") - T0 + delay
        out = h * A.exp(-A.I * const(2) * A.PI * dt * f)
        return out * self.C(name, f) if calibrated else out


def compare(r, got, want, dec):
    if not isinstance(got, Arr):
        if isinstance(want, list):
            return "does not give an array"
        return None if r.equal(got, want, dec) else "gives %s instead of %s" % (str(got)[:150], str(want)[:150])
    if not isinstance(want, list) or len(got) != len(want):
        return "gives %d values" % len(got)
    for k, (x, y) in enumerate(zip(got, want)):
        if not r.equal(x, y, dec):
            return "value %d is %s instead of %s" % (k, str(x)[:150], str(y)[:150])
    return None


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("response", "projected signals sum polarisations times antenna response, delayed to the detector and calibrated, zero outside the analysed band", floor=4 * k)
    ctx.rule("product", "inner products and signal-to-noise ratios are the noise weighted sums over the analysed band", floor=4 * k)
    ctx.rule("whiten", "whitened series divide by the amplitude spectral density of the windowed data", floor=1 * k)
    ctx.rule("inject", "injection adds the projected signal to the data of every detector and records its signal-to-noise ratios", floor=2 * k)
    cls = prog.classes.get(D + "interferometer.Interferometer")
    if cls is None:
        return
    r = Rule(ctx, [sym("S_%s%d" % (n, i)) for n in ("H1", "L1") for i in range(NB)])
    responses(ctx, r, prog, cls)
    products(ctx, r, prog, cls)
    whitening(ctx, r, prog, cls)
    injection(ctx, r, prog, cls)


def responses(ctx, r, prog, cls):
    f = cls.find("antenna_response")
    for mode in MODES if f else ():
        def thunk(dec, mode=mode):
            n = Net(prog, dec)
            o = n.ifo("H1", cls)
            return n.it.method(o, "antenna_response", sym("ra"), sym("dec"), sym("geocent_time"), sym("psi"), mode), n.antenna("H1", mode)
        r.report("response", "antenna response, %s" % mode, f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))
    f = cls.find("get_detector_response")
    if f is None:
        return

    def foreign(name, mode):
        return ONE if mode == name else ZERO
    for modes, cal, own in ((("plus", "cross"), True, None), (("cross",), False, None), (MODES, True, None), (("plus",), False, "real"),
                            (("H1", "L1"), True, "named")):
        def thunk(dec, modes=modes, cal=cal, own=own):
            n = Net(prog, dec)
            o = n.ifo("H1", cls, calibrated=cal)
            w = n.wave(modes)
            got = n.it.method(o, "get_detector_response", w, n.pars())
            if any(x != y for m in modes for x, y in zip(w[m], n.wave(modes)[m])):
                return "alters the polarisations", None
            pat = foreign if own == "named" else None
            return got, [n.response("H1", modes, k, calibrated=cal, pattern=pat) if MASK[k] else ZERO for k in range(NB)]
        r.report("response", "projected signal, %s%s" % (", ".join(modes), ", calibrated" if cal else ""), f, r.run(thunk),
                 lambda got, dec: got[0] if isinstance(got[0], str) else compare(r, got[0], got[1], dec))

    def thunk(dec):
        n = Net(prog, dec)
        o = n.ifo("H1", cls)
        fs = [const(1) / const(16), const(3) / const(8), const(7) / const(16)]
        got = n.it.method(o, "get_detector_response", n.wave(("plus", "cross"), range(3)), n.pars(), Arr(fs))
        return got, [n.response("H1", ("plus", "cross"), k, f=fs[k]) for k in range(3)]
    r.report("response", "projected signal at given frequencies", f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))


def window(n):
    """mean square of the window"""
    return ssum(sym("w%d" % i) * sym("w%d" % i) for i in range(NT)) / const(NT)


def strain(n, name, data):
    if data == "frequency":
        return [n.d(name, k) if MASK[k] else ZERO for k in range(NB)]
    if data == "zero":
        return [ZERO] * NB
    x = n.it.fft(Arr(sym("x_%s%d" % (name, i)) * sym("w%d" % i) for i in range(NT)), False)[:NB]
    return [y / FS if MASK[k] else ZERO for k, y in enumerate(x)]


def factor(n, data):
    return window(n) if data == "time" else ONE


def product(n, name, a, b, data):
    s = ZERO
    for k in range(NB):
        if MASK[k]:
            s = s + A.conj(a[k]) * b[k] / (n.S(name, k) * factor(n, data))
    return const(4) / T * s


def products(ctx, r, prog, cls):
    for data in ("frequency", "time"):
        def mk(n, name="H1"):
            return [n.h("plus", k) for k in range(NB)], [n.h("cross", k) for k in range(NB)]
        cases = {
            "inner_product": (lambda n, o, a, b: n.it.method(o, "inner_product", Arr(a)), lambda n, a, b, d: product(n, "H1", a, d, data)),
            "template_template_inner_product": (lambda n, o, a, b: n.it.method(o, "template_template_inner_product", Arr(a), Arr(b)),
                                                lambda n, a, b, d: product(n, "H1", a, b, data)),
            "optimal_snr_squared": (lambda n, o, a, b: n.it.method(o, "optimal_snr_squared", Arr(a)), lambda n, a, b, d: product(n, "H1", a, a, data)),
            "matched_filter_snr": (lambda n, o, a, b: n.it.method(o, "matched_filter_snr", Arr(a)),
                                   lambda n, a, b, d: product(n, "H1", a, d, data) / A.power(product(n, "H1", a, a, data), const(1) / const(2))),
            "power_spectral_density_array": (lambda n, o, a, b: n.it.getattr(o, "power_spectral_density_array"),
                                             lambda n, a, b, d: [n.S("H1", k) * factor(n, data) for k in range(NB)]),
            "amplitude_spectral_density_array": (lambda n, o, a, b: n.it.getattr(o, "amplitude_spectral_density_array"),
                                                 lambda n, a, b, d: [A.power(n.S("H1", k) * factor(n, data), const(1) / const(2)) for k in range(NB)]),
        }
        for what, (call, want) in cases.items():
            f = cls.find(what)
            if f is None:
                continue

            def thunk(dec, call=call, want=want):
                n = Net(prog, dec)
                o = n.ifo("H1", cls, data=data)
                a, b = mk(n)
                return call(n, o, a, b), want(n, a, b, strain(n, "H1", data))
            r.report("product", "%s, %s domain data" % (what, data), f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))
    u = "bilby.gw.utils."
    a, b = [cplx("a%d" % k) for k in range(3)], [cplx("b%d" % k) for k in range(3)]
    S = [sym("S_H1%d" % k) for k in range(3)]
    tot = ssum(A.conj(x) * y / s for x, y, s in zip(a, b, S))
    opt = ssum(A.conj(x) * x / s for x, s in zip(a, S))
    four = const(4) / sym("tau")
    fns = {
        "noise_weighted_inner_product": ([Arr(a), Arr(b), Arr(S), sym("tau")], four * tot),
        "optimal_snr_squared": ([Arr(a), Arr(S), sym("tau")], four * opt),
        "matched_filter_snr": ([Arr(a), Arr(b), Arr(S), sym("tau")], four * tot / A.power(four * opt, const(1) / const(2))),
        "inner_product": ([Arr(a), Arr(b), Arr(freq(k) for k in range(3)), "psd"], const(4) / T * re(tot)),
    }
    for name, (args, want) in fns.items():
        f = prog.by_qual.get(u + name)
        if f is None:
            continue

        def thunk(dec, args=args, want=want, f=f):
            n = Net(prog, dec, facts=[sym("tau")])
            xs = [n.psd("H1") if x == "psd" else x for x in args]
            return n.it.callf(f, xs, {}), want
        r.report("product", "gw.utils." + name, f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))


def whitening(ctx, r, prog, cls):
    half = const(1) / const(2)

    def white(n, data, x):
        return [y / A.power(n.S("H1", k) * factor(n, data) * T / const(4), half) for k, y in enumerate(x)]
    for data in ("frequency", "time"):
        f = cls.find("whiten_frequency_series")
        if f is not None:
            def thunk(dec):
                n = Net(prog, dec)
                o = n.ifo("H1", cls, data=data)
                x = [n.h("plus", k) for k in range(NB)]
                return n.it.method(o, "whiten_frequency_series", Arr(x)), white(n, data, x)
            r.report("whiten", "whitened frequency series, %s domain data" % data, f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))
        f = cls.find("whitened_frequency_domain_strain")
        if f is not None:
            def thunk(dec):
                n = Net(prog, dec)
                o = n.ifo("H1", cls, data=data)
                return n.it.getattr(o, "whitened_frequency_domain_strain"), white(n, data, strain(n, "H1", data))
            r.report("whiten", "whitened strain, %s domain data" % data, f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))
    f = cls.find("whitened_time_domain_strain")
    if f is not None:
        def thunk(dec):
            n = Net(prog, dec)
            o = n.ifo("H1", cls)
            x = n.it.numeric("irfft", [Arr(white(n, "frequency", strain(n, "H1", "frequency")))], {}, "numpy.fft.irfft")
            m = sum(MASK)
            return n.it.getattr(o, "whitened_time_domain_strain"), [y * A.power(const(m), half) * const(NB) / const(m) for y in x]
        r.report("whiten", "whitened time series", f, r.run(thunk), lambda got, dec: compare(r, got[0], got[1], dec))


def injection(ctx, r, prog, cls):
    f = cls.find("inject_signal")
    half = const(1) / const(2)
    modes = ("plus", "cross")

    def gen(n, asked):
        return Obj("waveform_generator", {}, {"frequency_domain_strain": lambda i, a, k: asked.append(1) or n.wave(modes)})

    def verify(n, o, name, data):
        it = n.it
        s = it.getattr(o, "frequency_domain_strain")
        h = [n.response(name, modes, k) if MASK[k] else ZERO for k in range(NB)]
        new = [x + y for x, y in zip(strain(n, name, data), h)]
        meta = it.getattr(o, "meta_data")
        opt = A.power(product(n, name, h, h, data), half)
        return [("data of %s" % name, s, new), ("optimal SNR of %s" % name, meta.get("optimal_SNR"), re(opt)),
                ("matched filter SNR of %s" % name, meta.get("matched_filter_SNR"), product(n, name, h, new, data) / opt)]

    def judge(got, dec):
        if isinstance(got, str):
            return got
        for what, x, y in got:
            m = compare(r, x, y, dec)
            if m:
                return "%s: %s" % (what, m)
        return None
    for how in ("polarisations", "generator"):
        for data in ("frequency", "time", "zero"):
            if f is None:
                continue

            def thunk(dec):
                n = Net(prog, dec)
                o = n.ifo("H1", cls, data=data)
                kw = {"waveform_generator": gen(n, [])} if how == "generator" else {"injection_polarizations": n.wave(modes)}
                got = n.it.method(o, "inject_signal", parameters=n.pars(), raise_error=False, **kw)
                if not isinstance(got, dict) or any(compare(r, got.get(m), n.wave(modes)[m], dec) for m in modes):
                    return "does not return the polarisations injected"
                return verify(n, o, "H1", data)
            r.report("inject", "injection into one detector from %s, %s domain data" % (how, data), f, r.run(thunk), judge)
    net = prog.classes.get(D + "networks.InterferometerList")
    f = net and net.find("inject_signal")
    if not f:
        return
    for how in ("polarisations", "generator"):
        def thunk(dec):
            n = Net(prog, dec)
            asked = []
            os = [n.ifo(name, cls) for name in ("H1", "L1")]
            o = n.it.new(net, [list(os)], {})
            kw = {"waveform_generator": gen(n, asked)} if how == "generator" else {"injection_polarizations": n.wave(modes)}
            n.it.method(o, "inject_signal", parameters=n.pars(), raise_error=False, **kw)
            return [x for q, name in zip(os, ("H1", "L1")) for x in verify(n, q, name, "frequency")]
        r.report("inject", "injection into a network from %s" % how, f, r.run(thunk), judge)


_UTILS = """
import numpy as np
def noise_weighted_inner_product(aa, bb, power_spectral_density, duration):
    integrand = %s * bb / power_spectral_density
    return 4 / duration * np.sum(integrand)
"""


def _g(a):
    return {"bilby/gw/utils.py": _UTILS % a, "bilby/gw/detector/interferometer.py": "class Interferometer:\n    pass\n"}


SELFTESTS = [
    ("inner product", _g("np.conj(aa)"), None),
    ("no conjugate", _g("aa"), "product"),
]
