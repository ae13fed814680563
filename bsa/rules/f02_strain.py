"""F02: strain data, Fourier conventions and noise realisations follow their definitions."""
from .. import algebra as A
from ..algebra import ZERO, ONE, const, sym
from ..interp import Interp, Obj, Arr, PyExc, integer
from ..oblig import Rule
from ..valnum import Undecided, World, INF
from .f01_response import compare, exact
from .l02_gwlike import cplx

TITLE = "strain data, Fourier conventions and noise realisations follow their definitions"
EXPLANATION = (
    "Abstract evaluation: strain data, coupled time and frequency series and power spectral density objects are constructed from uninterpreted samples on short "
    "grids through each documented entry point, and their masks, domain conversions, window factors, arrays and noise realisations are computed as algebraic "
    "forms and compared, sample by sample, with the documented definitions; inconsistent inputs must raise.")
ASSUMPTIONS = ["grids of eight samples and five frequencies stand for larger even ones", "window functions and random draws are uninterpreted"]

S = "bilby.gw.detector.strain_data."
U = "bilby.core.utils.series."
T, FS, T0 = const(4), const(2), const(10)
NB, NT = 5, 8
HALF = const(1) / const(2)


class Bench:
    def __init__(self, prog, dec, facts=()):
        self.prog = prog
        self.w = World([sym("w%d" % i) for i in range(NT)] + [sym("outside")] + [sym("P%d" % i) for i in range(8)] + list(facts), dec, scalar=True)
        self.alphas, self.draws, self.psds, self.reads = [], [], [], []
        rng = Obj("rng", {}, {"normal": self.normal, "standard_normal": lambda i, a, k: self.normal(i, [ZERO, ONE] + list(exact(a, k, ("size",))), {})})
        self.it = Interp(prog, self.w, limit=200000, externals={
            "scipy.signal.windows.tukey": self.tukey, "scipy.signal.tukey": self.tukey, "scipy.interpolate.interp1d": self.interp1d,
            "bilby.core.utils.random.rng": rng, "gwpy.timeseries.TimeSeries": self.series, "os.path.isfile": lambda i, a, k: a[0] in self.files,
            "numpy.genfromtxt": self.table, "numpy.loadtxt": self.table, "bilby.gw.utils.read_frame_file": self.frame})
        self.files = {}

    def tukey(self, it, a, k):
        a = exact(a, k, ("M", "alpha"))
        self.alphas.append(a[1])
        return Arr(sym("w%d" % i) for i in range(integer(a[0])))

    def normal(self, it, a, k):
        loc, scale, size = exact(a, k, ("loc", "scale", "size"))
        size = [integer(x) for x in (size if isinstance(size, (list, tuple)) and not isinstance(size, A.E) else [size])]
        tag = len(self.draws)
        self.draws.append(size)

        def build(ds, pre):
            return Arr(build(ds[1:], pre + [i]) for i in range(ds[0])) if ds else loc + scale * sym("n_" + "_".join(map(str, [tag] + pre)))
        return build(size, [])

    def interp1d(self, it, a, k):
        x, y = exact(a, k, ("x", "y"))[:2]
        if len(x) != len(y):
            raise PyExc("ValueError")
        if "kind" in k and k["kind"] != "linear":
            raise Undecided("interpolation kind")
        fill = k.get("fill_value")
        fill = sym("outside") if fill == INF else fill
        xs = [A.const_of(q) for q in x]

        def at(f):
            f = A.const_of(f)
            if not xs[0] <= f <= xs[-1]:
                if k.get("bounds_error") is not False:
                    raise PyExc("ValueError")
                return fill
            for i in range(len(xs) - 1):
                if xs[i] <= f <= xs[i + 1]:
                    t = const((f - xs[i]) / (xs[i + 1] - xs[i]))
                    return y[i] + t * (y[i + 1] - y[i])
        return Obj("interp1d", {}, {"__call__": lambda i, b, kw: it.arrmap(at, exact(b, kw, ("x",))[0])})

    def table(self, it, a, k):
        return Arr(Arr(row) for row in zip(*self.files[a[0]]))

    def frame(self, it, a, k):
        a = dict(zip(("file_name", "start_time", "end_time", "channel", "buffer_time"), a), **k)
        self.reads.append(a)
        val = lambda v: Obj("quantity", {"value": v})       # noqa: E731
        return Obj("gwpy.timeseries.TimeSeries", {"duration": val(T), "sample_rate": val(FS), "epoch": val(T0), "value": self.x(), "channel": None}, {"psd": self.psd_of(self.x())})

    def psd_of(self, data):
        def psd(i, b, kw):
            self.psds.append((data, kw))
            return Obj("frequencyseries", {"frequencies": Obj("q", {"value": Arr(const(j) for j in range(3))}), "value": Arr(sym("P%d" % j) for j in range(3))})
        return psd

    def series(self, it, a, k):
        data = exact(a, k, ("data",))[0]
        return Obj("gwpy", {"value": data}, {"psd": self.psd_of(data)})

    def strain(self, **kw):
        return self.it.new(self.prog.classes[S + "InterferometerStrainData"], [], kw)

    def x(self):
        return Arr(sym("x%d" % i) for i in range(NT))

    def X(self):
        return Arr(cplx("X%d" % k) for k in range(NB))

    def full(self, vals):
        """inverse transform of a one sided spectrum, times the sampling frequency"""
        return [v * FS for v in self.it.numeric("irfft", [Arr(vals)], {}, "numpy.fft.irfft")]

    def fwd(self, x):
        return [v / FS for v in self.it.numeric("rfft", [Arr(x)], {}, "numpy.fft.rfft")]


HOW = dict(sampling_frequency=FS, duration=T, start_time=T0)
FREQ = [const(k) / T for k in range(NB)]
TIME = [T0 + const(i) / FS for i in range(NT)]


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("mask", "the analysed band is minimum to maximum frequency inclusive without the open notch intervals", floor=3 * k)
    ctx.rule("domain", "frequency and time domain strain are Fourier transforms of one another in bilby's convention, windowed and masked as documented", floor=4 * k)
    ctx.rule("series", "time and frequency arrays follow duration, sampling frequency and start time", floor=4 * k)
    ctx.rule("reject", "inconsistent data are rejected", floor=3 * k)
    ctx.rule("noise", "noise realisations and spectral densities agree", floor=4 * k)
    r = Rule(ctx, [sym("w%d" % i) for i in range(NT)] + [sym("P%d" % i) for i in range(8)] + [sym("outside")])
    series(ctx, r, prog)
    transforms(r, prog)
    if S + "InterferometerStrainData" in prog.classes:
        masks(ctx, r, prog)
        domains(ctx, r, prog)
        rejects(ctx, r, prog)
        estimates(ctx, r, prog)
    if "bilby.gw.detector.psd.PowerSpectralDensity" in prog.classes:
        spectra(ctx, r, prog)


def several(r):
    def judge(got, dec):
        for what, x, y in got:
            if isinstance(y, bool) or y is None or isinstance(x, bool) or x is None:
                if x is not y:
                    return "%s is %s instead of %s" % (what, x, y)
                continue
            m = compare(r, Arr(x) if isinstance(x, list) and not isinstance(x, Arr) else x, y, dec)
            if m:
                return "%s: %s" % (what, m)
        return None
    return judge


def cls_method(prog, cls, name):
    c = prog.classes.get(cls)
    return c.find(name) if c else None


def series(ctx, r, prog):
    f = prog.by_qual.get(U + "create_time_series")
    grids = [(const(2), const(4), ZERO), (const(4), const(2), T0), (const(1) / const(2), const(6), const(-3)), (const(16), const(3), const(7))]
    for fs, dur, t0 in grids:
        n = int(A.const_of(fs * dur))
        lab = "sampling frequency %s, duration %s" % (A.const_of(fs), A.const_of(dur))
        f = prog.by_qual.get(U + "create_time_series")
        if f is not None:
            r.report("series", "create_time_series, %s" % lab, f,
                     r.run(lambda dec: [("times", Bench(prog, dec).it.callf(f, [fs, dur, t0], {}), [t0 + const(i) / fs for i in range(n)])]), several(r))
        g = prog.by_qual.get(U + "create_frequency_series")
        if g is not None and n % 2 == 0:
            r.report("series", "create_frequency_series, %s" % lab, g,
                     r.run(lambda dec: [("frequencies", Bench(prog, dec).it.callf(g, [fs, dur], {}), [const(k) / dur for k in range(n // 2 + 1)])]), several(r))
        for name, arr in (("time", [t0 + const(i) / fs for i in range(n)]), ("frequency", [const(k) / dur for k in range(n // 2 + 1)])):
            g = prog.by_qual.get(U + "get_sampling_frequency_and_duration_from_%s_array" % name)
            if g is not None and n % 2 == 0:
                r.report("series", "%s, %s" % (g.name, lab), g, r.run(lambda dec: list(zip(("sampling frequency", "duration"), Bench(prog, dec).it.callf(g, [Arr(arr)], {}), (fs, dur)))),
                         several(r))
    cs = prog.classes.get("bilby.core.series.CoupledTimeAndFrequencySeries")
    if cs is not None:
        def whole(b, o, fs, dur, t0):
            n = int(A.const_of(fs * dur))
            g = b.it.getattr
            return [("sampling_frequency", g(o, "sampling_frequency"), fs), ("duration", g(o, "duration"), dur), ("start_time", g(o, "start_time"), t0),
                    ("frequency_array", g(o, "frequency_array"), [const(k) / dur for k in range(n // 2 + 1)]),
                    ("time_array", g(o, "time_array"), [t0 + const(i) / fs for i in range(n)])]

        def hist(*ops):
            def thunk(dec):
                b = Bench(prog, dec)
                o = b.it.new(cs, [], dict(HOW))
                fs, dur, t0 = FS, T, T0
                b.it.getattr(o, "frequency_array"), b.it.getattr(o, "time_array")
                for name, v in ops:
                    b.it.setattr(o, name, v)
                    if name == "sampling_frequency":
                        fs = v
                    elif name == "duration":
                        dur = v
                    elif name == "start_time":
                        t0 = v
                    elif name == "time_array":
                        t0, fs = v[0], ONE / (v[1] - v[0])
                        dur = const(len(v)) / fs
                    elif name == "frequency_array":
                        dur = ONE / (v[1] - v[0])
                        fs = const(2) * v[-1]
                return whole(b, o, fs, dur, t0)
            return thunk
        tt, ff = Arr(const(5) + const(i) / const(4) for i in range(8)), Arr(const(k) / const(3) for k in range(4))
        opts = [("sampling_frequency", const(4)), ("duration", const(6)), ("start_time", const(-2)), ("time_array", tt), ("frequency_array", ff)]
        for a in opts:
            for c in [None] + [o for o in opts if o[0] != a[0]]:
                ops = [a] + ([c] if c else [])
                r.report("series", "coupled series after setting %s" % ", ".join(o[0] for o in ops), cs.methods.get("__init__"), r.run(hist(*ops)), several(r))


def in_band(f, lo, hi, notches):
    c = A.const_of
    return c(lo) <= c(f) and (hi is None or c(f) <= c(hi)) and not any(c(a) < c(f) < c(b) for a, b in notches)


def masks(ctx, r, prog):
    f = cls_method(prog, S + "InterferometerStrainData", "frequency_mask")
    q = const(1) / const(4)
    for lo, hi, notches in ((ZERO, None, []), (q, const(3) * q, []), (const(1) / const(3), ONE, []), (ZERO, const(2), [(q, const(3) * q)]),
                            (q, ONE, [(const(3) / const(10), const(6) / const(10)), (const(7) / const(10), const(8) / const(10))]),
                            (ZERO, const(9) / const(10), [(const(1) / const(10), const(1) / const(5))])):
        from ..interp import T as Tup

        def thunk(dec):
            b = Bench(prog, dec)
            kw = {"minimum_frequency": lo, "notch_list": [Tup(n) for n in notches] or None}
            if hi is not None:
                kw["maximum_frequency"] = hi
            o = b.strain(**kw)
            b.it.method(o, "set_from_frequency_domain_strain", b.X(), **HOW)
            m = b.it.getattr(o, "frequency_mask")
            want = [in_band(x, lo, hi, notches) for x in FREQ]
            out = [("bin %d" % k, bool(x) if isinstance(x, bool) else x, y) for k, (x, y) in enumerate(zip(m, want))]
            out.append(("strain", b.it.getattr(o, "frequency_domain_strain"), [cplx("X%d" % k) if y else ZERO for k, y in enumerate(want)]))
            lim = b.it.getattr(o, "maximum_frequency")
            out.append(("maximum frequency", lim, FS / const(2) if hi is None or A.const_of(hi) > A.const_of(FS) / 2 else hi))
            return out
        r.report("mask", "band %s to %s, notches %s" % (lo, hi, [(str(a), str(b)) for a, b in notches]), f, r.run(thunk), several(r))

    def thunk(dec):
        b = Bench(prog, dec)
        o = b.strain(minimum_frequency=ZERO, maximum_frequency=ONE)
        b.it.method(o, "set_from_frequency_domain_strain", b.X(), **HOW)
        m = Arr([True, False, True, True, False])
        b.it.setattr(o, "frequency_mask", m)
        return [("strain", b.it.getattr(o, "frequency_domain_strain"), [cplx("X%d" % k) if y else ZERO for k, y in enumerate(m)])]
    r.report("mask", "given mask", f, r.run(thunk), several(r))
    mask_histories(r, prog)
    f = cls_method(prog, S + "InterferometerStrainData", "time_within_data")
    if f is not None:
        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain()
            b.it.method(o, "set_from_zero_noise", **HOW)
            return [("time %s" % A.const_of(t), b.it.truth(b.it.method(o, "time_within_data", t)), T0 - t == ZERO or A.const_of(T0) <= A.const_of(t) <= A.const_of(T0 + T))
                    for t in (T0 - HALF, T0, T0 + ONE, T0 + T, T0 + T + HALF)]
        r.report("mask", "time_within_data", f, r.run(thunk), several(r))


def mask_histories(r, prog):
    from ..interp import T as Tup
    q = const(1) / const(4)
    lo, hi, notches = q, const(4) * q, [(const(3) / const(10), const(6) / const(10))]
    other = [(const(6) / const(10), const(9) / const(10))]
    given = [True, False, True, False, True]
    F2 = [const(k) / const(5) for k in range(NB)]
    nl = prog.classes.get(S + "NotchList")

    def strain(b):
        o = b.strain(minimum_frequency=lo, maximum_frequency=hi, notch_list=[Tup(n) for n in notches])
        b.it.method(o, "set_from_frequency_domain_strain", b.X(), **HOW)
        return o
    lists = lambda b: b.it.new(nl, [[Tup(n) for n in other]], {})         # noqa: E731
    acts = {
        "minimum frequency": (lambda b, o: b.it.setattr(o, "minimum_frequency", ZERO), FREQ, ZERO, hi, notches),
        "maximum frequency": (lambda b, o: b.it.setattr(o, "maximum_frequency", HALF + q), FREQ, lo, HALF + q, notches),
        "notches": (lambda b, o: b.it.setattr(o, "notch_list", [Tup(n) for n in other]), FREQ, lo, hi, other),
        "notch list object": (lambda b, o: b.it.setattr(o, "notch_list", lists(b)), FREQ, lo, hi, other),
        "no notches": (lambda b, o: b.it.setattr(o, "notch_list", None), FREQ, lo, hi, []),
        "frequency data on another grid": (lambda b, o: b.it.method(o, "set_from_frequency_domain_strain", b.X(), frequency_array=Arr(F2)), F2, lo, const(4) / const(5), notches),
        "data of another duration": (lambda b, o: b.it.method(o, "set_from_frequency_domain_strain", b.X(), sampling_frequency=const(8) / const(5), duration=const(5)), F2, lo,
                                     const(4) / const(5), notches),
        "zero noise of another duration": (lambda b, o: (b.it.method(o, "set_from_zero_noise", sampling_frequency=const(8) / const(5), duration=const(5)),
                                                         b.it.setattr(o, "frequency_domain_strain", b.X())), F2, lo, const(4) / const(5), notches),
    }
    f = cls_method(prog, S + "InterferometerStrainData", "frequency_mask")
    for what, (act, grid, a, z, cut) in acts.items():
        for before in ("", " after a first use", " after an assigned mask"):
            if before == " after an assigned mask" and "grid" not in what and "frequency" not in what and "notch" not in what:
                pass

            def thunk(dec):
                b = Bench(prog, dec)
                o = strain(b)
                if before:
                    b.it.getattr(o, "frequency_mask"), b.it.getattr(o, "frequency_domain_strain")
                if before == " after an assigned mask":
                    b.it.setattr(o, "frequency_mask", Arr(given))
                act(b, o)
                want = [in_band(x, a, z, cut) for x in grid]
                if before == " after an assigned mask" and grid is F2:
                    want = given        # an assigned mask stays until the band is changed
                m = b.it.getattr(o, "frequency_mask")
                out = [("bin %d" % k, bool(x) if isinstance(x, bool) else x, y) for k, (x, y) in enumerate(zip(m, want))]
                return out + [("strain", b.it.getattr(o, "frequency_domain_strain"), [cplx("X%d" % k) if y else ZERO for k, y in enumerate(want)])]
            r.report("mask", "%s changed%s" % (what, before), f, r.run(thunk), several(r))
    c = prog.classes.get(S + "Notch")
    for name in ("check_frequency",):
        for cls in (S + "Notch", S + "NotchList"):
            f = cls_method(prog, cls, name)
            if f is None:
                continue

            def thunk(dec):
                b = Bench(prog, dec)
                o = b.it.new(c, [q, HALF], {}) if cls.endswith("Notch") else b.it.new(prog.classes[cls], [[Tup((q, HALF)), Tup((ONE, const(2)))]], {})
                cut = [(q, HALF)] + ([(ONE, const(2))] if cls.endswith("List") else [])
                return [("frequency %s" % A.const_of(x), b.it.truth(b.it.method(o, name, x)), any(A.const_of(s) < A.const_of(x) < A.const_of(e) for s, e in cut))
                        for x in (ZERO, q, q + q / const(2), HALF, ONE, ONE + q, const(2), const(3))]
            r.report("mask", "%s of %s" % (name, cls.split(".")[-1]), f, r.run(thunk), several(r))


def window():
    t = ZERO
    for i in range(NT):
        t = t + sym("w%d" % i) * sym("w%d" % i)
    return t / const(NT)


def domains(ctx, r, prog):
    from ..interp import T as Tup
    cls = S + "InterferometerStrainData"
    lo, hi = const(1) / const(4), const(3) / const(4)
    band = [in_band(x, lo, hi, []) for x in FREQ]
    grid = [("sampling_frequency", FS), ("duration", T), ("start_time", T0), ("frequency_array", FREQ), ("time_array", TIME)]

    def sample(b, o, X=None, x=None, win=ONE):
        g = b.it.getattr
        out = [(n, g(o, n), v) for n, v in grid]
        if X is not None:
            out.append(("frequency domain strain", g(o, "frequency_domain_strain"), [v if m else ZERO for v, m in zip(X, band)]))
        if x is not None:
            out.append(("time domain strain", g(o, "time_domain_strain"), x))
        out.append(("window factor", g(o, "window_factor"), win))
        return out
    entries = {
        "frequency domain strain": lambda b, o: b.it.method(o, "set_from_frequency_domain_strain", b.X(), **HOW),
        "frequency domain strain with an array": lambda b, o: b.it.method(o, "set_from_frequency_domain_strain", b.X(), frequency_array=Arr(FREQ), start_time=T0),
        "time domain strain": lambda b, o: b.it.method(o, "set_from_time_domain_strain", b.x(), **HOW),
        "time domain strain with an array": lambda b, o: b.it.method(o, "set_from_time_domain_strain", b.x(), time_array=Arr(TIME)),
        "a gwpy series": lambda b, o: b.it.method(o, "set_from_gwpy_timeseries", gwpy(b)),
        "zero noise": lambda b, o: b.it.method(o, "set_from_zero_noise", **HOW),
        "spectral density": lambda b, o: b.it.method(o, "set_from_power_spectral_density", noisy(b), **HOW),
    }

    def noisy(b):
        return Obj("psd", {}, {"get_noise_realisation": lambda i, a, k: Tup((Arr(cplx("Y%d" % j) for j in range(NB)), Arr(FREQ)))
                               if exact(a, k, ("sampling_frequency", "duration")) == [FS, T] else Tup((Arr([ZERO]), Arr([ZERO])))})

    def gwpy(b):
        val = lambda v: Obj("quantity", {"value": v})       # noqa: E731
        return Obj("gwpy.timeseries.TimeSeries", {"duration": val(T), "sample_rate": val(FS), "epoch": val(T0), "value": b.x(), "channel": None})

    def expected(b, name, roll=const(1) / const(5)):
        if name == "zero noise":
            return [ZERO] * NB, [ZERO] * NT, ONE
        if name == "spectral density":
            Y = [cplx("Y%d" % j) for j in range(NB)]
            return Y, b.full([v if m else ZERO for v, m in zip(Y, band)]), ONE
        if name.startswith("frequency"):
            X = list(b.X())
            return X, b.full([v if m else ZERO for v, m in zip(X, band)]), ONE
        x = list(b.x())
        return b.fwd([v * sym("w%d" % i) for i, v in enumerate(x)]), x, window()
    for name, put in entries.items():
        meth = {"f": "set_from_frequency_domain_strain", "t": "set_from_time_domain_strain", "a": "set_from_gwpy_timeseries", "z": "set_from_zero_noise", "s": "set_from_power_spectral_density"}[name[0]]
        f = cls_method(prog, cls, meth)
        if f is None:
            continue

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain(minimum_frequency=lo, maximum_frequency=hi)
            put(b, o)
            X, x, w = expected(b, name)
            out = sample(b, o, X, x, w)
            for a in b.alphas:
                out.append(("window parameter", a, const(2) * (const(1) / const(5)) / T))
            return out
        r.report("domain", "data from %s" % name, f, r.run(thunk), several(r))
        for prev, first in entries.items():
            if "array" in prev or "gwpy" in prev:
                continue

            def thunk(dec):
                b = Bench(prog, dec)
                o = b.strain(minimum_frequency=lo, maximum_frequency=hi)
                first(b, o)
                b.it.getattr(o, "frequency_domain_strain"), b.it.getattr(o, "time_domain_strain")
                if prev == "zero noise":
                    b.it.setattr(o, "frequency_domain_strain", Arr(sym("z%d" % k) for k in range(NB)))
                    b.it.getattr(o, "time_domain_strain")
                put(b, o)
                return sample(b, o, *expected(b, name))
            r.report("domain", "data from %s after %s" % (name, prev), f, r.run(thunk), several(r))
    f = cls_method(prog, cls, "frequency_domain_strain")

    def thunk(dec):
        b = Bench(prog, dec)
        o = b.strain(minimum_frequency=lo, maximum_frequency=hi)
        b.it.method(o, "set_from_time_domain_strain", b.x(), **HOW)
        b.it.getattr(o, "frequency_domain_strain"), b.it.getattr(o, "time_domain_strain")
        b.it.setattr(o, "frequency_domain_strain", b.X())
        return sample(b, o, list(b.X()), b.full([v if m else ZERO for v, m in zip(b.X(), band)]), window())
    r.report("domain", "frequency domain strain assigned", f, r.run(thunk), several(r))
    for opt, val in (("roll_off", const(1) / const(2)), ("alpha", const(1) / const(3))):
        f = cls_method(prog, cls, "time_domain_window")

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain()
            b.it.method(o, "set_from_time_domain_strain", b.x(), **HOW)
            del b.alphas[:]
            w = b.it.method(o, "time_domain_window", **{opt: val})
            b.it.getattr(o, "frequency_domain_strain")
            alpha = const(2) * val / T if opt == "roll_off" else val
            return [("window", w, [sym("w%d" % i) for i in range(NT)]), ("window factor", b.it.getattr(o, "window_factor"), window())] + [("alpha", a, alpha) for a in b.alphas]
        if f is not None:
            r.report("domain", "window with given %s" % opt, f, r.run(thunk), several(r))
    for meth, rest in (("set_from_zero_noise", lambda b: []), ("set_from_power_spectral_density", lambda b: [noisy(b)]), ("set_from_time_domain_strain", lambda b: [b.x()]),
                       ("set_from_frequency_domain_strain", lambda b: [b.X()])):
        f = cls_method(prog, cls, meth)

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain()
            b.it.method(o, "set_from_zero_noise", start_time=const(3), duration=T, sampling_frequency=FS)
            b.it.getattr(o, "time_array")
            b.it.method(o, meth, *rest(b), duration=T, sampling_frequency=FS)
            return [("start time", b.it.getattr(o, "start_time"), ZERO), ("times", b.it.getattr(o, "time_array"), [x - T0 for x in TIME])]
        if f is not None:
            r.report("domain", "default start time of %s" % meth, f, r.run(thunk), several(r))
    f = cls_method(prog, cls, "__eq__")
    if f is not None:
        def variant(b, **over):
            how = dict(HOW, **{k: v for k, v in over.items() if k in HOW})
            o = b.strain(**{k: v for k, v in {**dict(minimum_frequency=lo, maximum_frequency=hi, roll_off=HALF), **over}.items() if k not in HOW and k not in ("X", "window_factor")})
            b.it.method(o, "set_from_frequency_domain_strain", over.get("X", b.X()), **how)
            if "window_factor" in over:
                b.it.setattr(o, "window_factor", over["window_factor"])
            return o
        for what, over, same in (("the same settings", {}, True), ("another minimum frequency", {"minimum_frequency": lo / const(2)}, False),
                                 ("another maximum frequency", {"maximum_frequency": hi + const(1) / const(8)}, False), ("another roll off", {"roll_off": ONE}, False),
                                 ("another start time", {"start_time": T0 + ONE}, False), ("another window factor", {"window_factor": HALF}, False)):
            def thunk(dec):
                b = Bench(prog, dec)
                return [("equality", b.it.truth(b.it.method(variant(b), "__eq__", variant(b, **over))), same),
                        ("equality, exchanged", b.it.truth(b.it.method(variant(b, **over), "__eq__", variant(b))), same)]
            r.report("domain", "comparison with data with %s" % what, f, r.run(thunk), several(r))


def transforms(r, prog):
    n, i = prog.by_qual.get(U + "nfft"), prog.by_qual.get(U + "infft")
    if n is not None and i is not None:
        def thunk(dec):
            b = Bench(prog, dec)
            X, f = b.it.callf(n, [b.x(), FS], {})
            back = b.it.callf(i, [Arr(X), FS], {})
            return [("transform", X, b.fwd(list(b.x()))), ("frequencies", f, FREQ), ("inverse of the transform", back, list(b.x()))]
        r.report("domain", "nfft and infft", n, r.run(thunk), several(r))


def rejects(ctx, r, prog):
    cls = S + "InterferometerStrainData"
    from ..interp import T as Tup

    def case(name, meth, act):
        f = cls_method(prog, cls, meth)
        if f is None:
            return

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain()
            try:
                act(b, o)
            except PyExc as e:
                return e.name
            return None
        r.report("reject", name, f, r.run(thunk), lambda got, dec: None if got and got.split(".")[-1] == "ValueError" else
                 "is accepted" if got is None else "raises %s" % got)
    m = "set_from_frequency_domain_strain"
    short = lambda b: Arr(cplx("X%d" % k) for k in range(NB - 1))     # noqa: E731
    case("frequency domain strain of another length", m, lambda b, o: b.it.method(o, m, short(b), **HOW))
    case("frequency domain strain with duration, sampling frequency and array", m, lambda b, o: b.it.method(o, m, b.X(), frequency_array=Arr(FREQ), **HOW))
    case("frequency domain strain without a grid", m, lambda b, o: b.it.method(o, m, b.X(), sampling_frequency=FS))
    t = "set_from_time_domain_strain"
    case("time domain strain of another length", t, lambda b, o: b.it.method(o, t, Arr(list(b.x())[:-1]), **HOW))
    case("time domain strain with duration, sampling frequency and array", t, lambda b, o: b.it.method(o, t, b.x(), time_array=Arr(TIME), sampling_frequency=FS, duration=T))
    case("time domain strain without a grid", t, lambda b, o: b.it.method(o, t, b.x(), duration=T))

    def assign(b, o):
        b.it.method(o, "set_from_zero_noise", **HOW)
        b.it.setattr(o, "frequency_domain_strain", short(b))
    case("assigned strain of another length", "set_from_zero_noise", assign)
    def unset(name):
        return lambda b, o: b.it.getattr(o, name)
    case("frequency domain strain of no data", "frequency_domain_strain", unset("frequency_domain_strain"))
    case("time domain strain of no data", "time_domain_strain", unset("time_domain_strain"))
    case("times of no data", "time_domain_strain", unset("time_array"))
    case("frequencies of no data", "frequency_domain_strain", unset("frequency_array"))
    gap = lambda xs: Arr(list(xs[:2]) + [x + const(1) / const(10) for x in xs[2:]])      # noqa: E731
    case("unevenly spaced frequencies", m, lambda b, o: b.it.method(o, m, b.X(), frequency_array=gap(FREQ)))
    case("unevenly spaced times", t, lambda b, o: b.it.method(o, t, b.x(), time_array=gap(TIME)))
    case("notches given as a number", "notch_list", lambda b, o: b.it.setattr(o, "notch_list", ONE))
    psd = prog.classes.get("bilby.gw.detector.psd.PowerSpectralDensity")
    if psd is not None:
        for arr in ("psd_array", "asd_array"):
            for nvals in (2, 4):
                case("%s of %d values for three frequencies" % (arr, nvals), "notch_list", lambda b, o: b.it.new(
                    psd, [], {"frequency_array": Arr([ONE, const(2), const(3)]), arr: Arr(sym("P%d" % i) for i in range(nvals))}))
        case("spectral density file that does not exist", "notch_list", lambda b, o: b.it.new(psd, [], {"psd_file": "nowhere.txt"}))
        case("amplitude spectral density file that does not exist", "notch_list", lambda b, o: b.it.new(psd, [], {"asd_file": "nowhere.txt"}))
    for name in ("create_time_series", "create_frequency_series"):
        f = prog.by_qual.get(U + name)
        if f is None:
            continue

        def thunk(dec):
            try:
                Bench(prog, dec).it.callf(f, [const(3), HALF], {})
            except PyExc as e:
                return e.name
        r.report("reject", "%s with a non-integer number of samples" % name, f, r.run(thunk), lambda got, dec: None if got else "is accepted")
    for k, pair in (("reversed", (ONE, HALF)), ("negative", (const(-1), ONE)), ("empty", (ONE, ONE)), ("unbounded", (ONE, INF))):
        case("%s notch" % k, "notch_list", lambda b, o: b.it.setattr(o, "notch_list", [Tup(pair)]))
    case("notch of three values", "notch_list", lambda b, o: b.it.setattr(o, "notch_list", [Tup((ONE, const(2), const(3)))]))


def estimates(ctx, r, prog):
    f = cls_method(prog, S + "InterferometerStrainData", "create_power_spectral_density")
    if f is None:
        return
    for what, seg in (("no segment", None), ("segment inside", T0 + ONE), ("segment before", T0 - const(8)), ("segment after", T0 + const(8)), ("segment over the start", T0 - HALF),
                      ("segment over the end", T0 + const(3))):
        def thunk(dec):
            b = Bench(prog, dec)
            o = b.strain(roll_off=const(1) / const(5))
            b.it.method(o, "set_from_time_domain_strain", b.x(), **HOW)
            fft = const(2)
            b.it.method(o, "create_power_spectral_density", fft, **({"analysis_segment_start_time": seg} if seg is not None else {}))
            data, kw = b.psds[-1]
            cut = what == "segment inside"
            keep = [x for x, t in zip(b.x(), TIME) if not (cut and A.const_of(seg) <= A.const_of(t) <= A.const_of(seg + fft))]
            win = kw.get("window")
            return [("data", data, keep), ("segment length", kw.get("fftlength"), fft), ("window parameter", win[1], const(2) * (const(1) / const(5)) / fft)]
        r.report("noise", "spectral density estimate, %s" % what, f, r.run(thunk), several(r))


def spectra(ctx, r, prog):
    cls = prog.classes["bilby.gw.detector.psd.PowerSpectralDensity"]
    fs = [const(1) / const(4), HALF, ONE]          # tabulated
    P = [sym("P%d" % i) for i in range(3)]
    lin = (P[1] + P[2]) / const(2)
    psd = [sym("outside"), P[0], P[1], lin, P[2]]
    half = [A.power(x, HALF) for x in psd]

    def make(b, how):
        amp = [A.power(x, HALF) for x in P]
        b.files["psd.txt"], b.files["asd.txt"] = (fs, P), (fs, amp)
        if how == "psd constructor":
            return b.it.callf(cls.find("from_power_spectral_density_array"), [Arr(fs), Arr(P)], {})
        if how == "asd constructor":
            return b.it.callf(cls.find("from_amplitude_spectral_density_array"), [Arr(fs), Arr(amp)], {})
        if how == "psd file constructor":
            return b.it.callf(cls.find("from_power_spectral_density_file"), ["psd.txt"], {})
        if how == "asd file constructor":
            return b.it.callf(cls.find("from_amplitude_spectral_density_file"), ["asd.txt"], {})
        if how.endswith("file"):
            return b.it.new(cls, [], {how.replace(" ", "_"): how[:3] + ".txt"})
        if how == "psd":
            return b.it.new(cls, [], dict(frequency_array=Arr(fs), psd_array=Arr(P)))
        return b.it.new(cls, [], dict(frequency_array=Arr(fs), asd_array=Arr(A.power(x, HALF) for x in P)))
    hows = ["psd", "asd", "psd file", "asd file", "psd constructor", "asd constructor", "psd file constructor", "asd file constructor"]
    for how in hows:
        def thunk(dec):
            b = Bench(prog, dec)
            o = make(b, how)
            g = lambda n, f: b.it.method(o, n, frequency_array=Arr(f))        # noqa: E731
            out = [("psd_array", b.it.getattr(o, "psd_array"), P), ("asd_array", b.it.getattr(o, "asd_array"), [A.power(x, HALF) for x in P])]
            out += [("amplitude spectral density", g("get_amplitude_spectral_density_array", FREQ), half),
                    ("power spectral density", g("get_power_spectral_density_array", FREQ), psd),
                    ("power spectral density on its own grid", g("get_power_spectral_density_array", fs), P),
                    ("amplitude spectral density on its own grid", g("get_amplitude_spectral_density_array", fs), [A.power(x, HALF) for x in P])]
            b.it.setattr(o, "psd_array", Arr(sym("P%d" % (i + 3)) for i in range(3)))
            new = [sym("P%d" % (i + 3)) for i in range(3)]
            out += [("replaced spectrum", g("get_power_spectral_density_array", fs), new),
                    ("replaced amplitude spectrum", g("get_amplitude_spectral_density_array", fs), [A.power(x, HALF) for x in new])]
            b.it.setattr(o, "asd_array", Arr(A.power(x, HALF) for x in P))
            out += [("spectrum replaced by amplitudes", g("get_power_spectral_density_array", FREQ), psd)]
            return out
        r.report("noise", "spectral density given as %s" % how, cls.find("get_power_spectral_density_array"), r.run(thunk), several(r))

    def white(k, d=0):
        return ZERO if k in (0, NB - 1) else HALF * A.power(T, HALF) * (sym("n_%d_0_%d" % (d, k)) + A.I * sym("n_%d_1_%d" % (d, k)))
    f = cls.find("get_noise_realisation")
    if f is not None:
        def thunk(dec):
            b = Bench(prog, dec)
            out, freqs = b.it.method(make(b, "psd"), "get_noise_realisation", FS, T)
            return [("frequencies", freqs, FREQ), ("noise", out, [ZERO if k == 0 else half[k] * white(k) for k in range(NB)])]
        r.report("noise", "noise realisation", f, r.run(thunk), several(r))
        inner = [const(4) / const(10), HALF, const(6) / const(10)]

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.it.new(cls, [], dict(frequency_array=Arr(inner), psd_array=Arr(P)))
            out, freqs = b.it.method(o, "get_noise_realisation", FS, T)
            return [("frequencies", freqs, FREQ), ("noise", out, [A.power(P[1], HALF) * white(2) if k == 2 else ZERO for k in range(NB)])]
        r.report("noise", "noise realisation outside the tabulated frequencies", f, r.run(thunk), several(r))
        wide = [const(1) / const(4), HALF, const(3) / const(4)]

        def thunk(dec):
            b = Bench(prog, dec)
            o = b.it.new(cls, [], dict(frequency_array=Arr(wide), psd_array=Arr(P)))
            s = b.strain()
            b.it.method(s, "set_from_power_spectral_density", o, **HOW)
            want = [A.power(P[k - 1], HALF) * white(k) if 0 < k < 4 else ZERO for k in range(NB)]
            return [("strain", b.it.getattr(s, "frequency_domain_strain"), want), ("window factor", b.it.getattr(s, "window_factor"), ONE),
                    ("start time", b.it.getattr(s, "start_time"), T0)]
        r.report("noise", "strain drawn from a spectral density", f, r.run(thunk), several(r))
    g = prog.by_qual.get(U + "create_white_noise")
    if g is not None:
        r.report("noise", "white noise", g, r.run(lambda dec: list(zip(("noise", "frequencies"), Bench(prog, dec).it.callf(g, [FS, T], {}), ([white(k) for k in range(NB)], FREQ)))),
                 several(r))

        def thunk(dec):
            fs, dur = const(2) / const(3), const(9)
            nb = 4
            got = Bench(prog, dec).it.callf(g, [fs, dur], {})
            return list(zip(("noise", "frequencies"), got, ([ZERO if k in (0, nb - 1) else HALF * A.power(dur, HALF) * (sym("n_0_0_%d" % k) + A.I * sym("n_0_1_%d" % k)) for k in range(nb)],
                                                            [const(k) / dur for k in range(nb)])))
        r.report("noise", "white noise of six samples", g, r.run(thunk), several(r))
    f = cls.find("from_frame_file")
    if f is not None and S + "InterferometerStrainData" in prog.classes:
        def thunk(dec):
            b = Bench(prog, dec)
            o = b.it.callf(f, ["frame.gwf"], dict(psd_start_time=T0, psd_duration=T, fft_length=const(2), sampling_frequency=FS, roll_off=const(1) / const(5), overlap=const(1), channel="X:Y",
                                                  analysis_segment_start_time=T0 + ONE))
            rd, (data, kw) = b.reads[-1], b.psds[-1]
            keep = [x for x, t in zip(b.x(), TIME) if not A.const_of(T0 + ONE) <= A.const_of(t) <= A.const_of(T0 + const(3))]
            return [("start read", rd["start_time"], T0), ("end read", rd["end_time"], T0 + T), ("resampling", rd["resample"], FS), ("channel", rd["channel"] == "X:Y", True),
                    ("data", data, keep), ("segment length", kw.get("fftlength"), const(2)), ("overlap", kw.get("overlap"), ONE), ("window parameter", kw["window"][1], const(1) / const(5)),
                    ("frequencies", b.it.getattr(o, "frequency_array"), [ZERO, ONE, const(2)]), ("psd", b.it.getattr(o, "psd_array"), P)]
        r.report("noise", "spectral density from a frame file", f, r.run(thunk), several(r))


_SERIES = """
import numpy as np
def nfft(x, fs):
    X = np.fft.rfft(x)
    X %s fs
    return X, np.linspace(0, fs / 2, len(X))
def infft(X, fs):
    return np.fft.irfft(X) * fs
"""


def _g(a):
    return {"bilby/core/utils/series.py": _SERIES % a}


SELFTESTS = [
    ("transform pair", _g("/="), None),
    ("wrong scale", _g("*="), "domain"),
]
