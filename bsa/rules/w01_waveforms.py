"""W01: waveform generators and source models hand the documented quantities to the waveform library and keep its frequencies."""
from fractions import Fraction

from .. import algebra as A
from .. import randint as R
from ..algebra import ZERO, ONE, E, const, sym
from ..interp import Interp, Obj, Arr, Py, PyExc, Ext, T, integer
from ..oblig import Rule
from ..valnum import Undecided
from .h01_walk import Guide, q

TITLE = "waveform generators and source models pass and keep the documented quantities"
EXPLANATION = (
    "Abstract evaluation: every source model is run with uninterpreted parameters against stand-ins for the waveform library that record their arguments and return "
    "uninterpreted series; arguments (order, units, spins), options, frequency bounds, time shifts, padding and failures are compared with the documented ones. The "
    "waveform generator is run with stand-in models in each domain.")
ASSUMPTIONS = ["the waveform library is represented by its documented signature", "short frequency grids stand for longer ones"]

S = "bilby.gw.source."
W = "bilby.gw.waveform_generator.WaveformGenerator"
L = "lalsimulation."
SUN, MPC = 1.98841e30, 3.0856775814913674e22
SPINS = ("a_1", "tilt_1", "phi_12", "a_2", "tilt_2", "phi_jl")
BASE = ("mass_1", "mass_2", "luminosity_distance", "theta_jn", "phase")
ENV = {"mass_1": 36.0, "mass_2": 29.0, "luminosity_distance": 400.0, "theta_jn": 0.4, "phase": 1.3, "a_1": 0.4, "a_2": 0.3, "tilt_1": 0.5, "tilt_2": 1.1, "phi_12": 1.7, "phi_jl": 0.3,
       "lambda_1": 450.0, "lambda_2": 800.0, "eccentricity": 0.1, "e": 2.718281828459045, "pi": 3.141592653589793, "fstart": 4.0, "epoch_s": 3.0, "epoch_ns": 5.0, "hdf": 4.0,
       "iota_out": 0.2, "hrss": 1e-22, "Q": 3.0, "frequency": 10.0}
OPTIONS = {"waveform_approximant": "Approx", "reference_frequency": q(50), "minimum_frequency": q(8), "maximum_frequency": q(24)}
DF = 4
GRID = [q(DF * i) for i in range(9)]
INSERTS = ("TidalLambda1", "TidalLambda2", "NumRelData", "PNSpinOrder", "PNTidalOrder", "PNPhaseOrder", "PNAmplitudeOrder", "ModeArray", "PhenomXHMReleaseVersion")

FD = [("lal_binary_black_hole", SPINS, {}), ("lal_binary_neutron_star", SPINS + ("lambda_1", "lambda_2"), {}), ("lal_eccentric_binary_black_hole_no_spins", ("eccentricity",), {}),
      ("lal_binary_black_hole_relative_binning", SPINS, {"fiducial": ONE, "frequency_bin_edges": Arr(GRID[2:5])}),
      ("lal_binary_neutron_star_relative_binning", SPINS + ("lambda_1", "lambda_2"), {"fiducial": ONE, "frequency_bin_edges": Arr(GRID[2:5])})]
SEQ = [("binary_black_hole_frequency_sequence", SPINS, "frequencies"), ("binary_neutron_star_frequency_sequence", SPINS + ("lambda_1", "lambda_2"), "frequencies"),
       ("lal_binary_black_hole_relative_binning", SPINS, "frequency_bin_edges"), ("lal_binary_neutron_star_relative_binning", SPINS + ("lambda_1", "lambda_2"), "frequency_bin_edges"),
       ("binary_black_hole_roq", SPINS, "frequency_nodes"), ("binary_neutron_star_roq", SPINS + ("lambda_1", "lambda_2"), "frequency_nodes")]


class Bench:
    def __init__(self, prog, implemented=True, length=9, fail=None):
        self.prog, self.fail, self.length = prog, fail, length
        self.w = Guide(dict(ENV))
        self.calls, self.inserted, self.modes, self.spins, self.lows = [], {}, [], [], []
        ext = {L + "GetApproximantFromString": lambda i, a, k: q(77) if a[0] == "Approx" else q(5), L + "SimInspiralImplementedFDApproximants": lambda i, a, k: implemented,
               L + "SimInspiralChooseFDWaveform": self.called("choose"), L + "SimInspiralFD": self.called("condition"), L + "SimInspiralChooseFDWaveformSequence": self.called("sequence"),
               L + "SimInspiralfLow2fStart": self.low, L + "SimInspiralTransformPrecessingNewInitialConditions": self.transform,
               L + "SimInspiralCreateModeArray": lambda i, a, k: Obj("modes"), L + "SimInspiralModeArrayActivateMode": lambda i, a, k: self.modes.append((integer(a[1]), integer(a[2]))),
               L + "SimInspiralGetSpinFreqFromApproximant": lambda i, a, k: ZERO,
               "lal.CreateDict": lambda i, a, k: Obj("LALDict"), "lal.CreateREAL8Vector": lambda i, a, k: Obj("lal.REAL8Vector", {"data": None, "length": a[0]}), "lal.REAL8Vector": Ext("lal.REAL8Vector"),
               L + "gwsignal.GenerateFDWaveform": self.signal, L + "gwsignal.models.gwsignal_get_waveform_generator": lambda i, a, k: Obj(
                   "generator", {"metadata": {"implemented_domain": "frequency" if implemented else "time"}, "name": a[0]})}
        for n in INSERTS:
            ext[L + "SimInspiralWaveformParamsInsert" + n] = self.insert(n)
        self.it = Interp(prog, self.w, limit=400000, externals=ext)
        self.it.closed = {"lalsimulation"}
        self.it.ext["bilby.gw.utils._get_lalsim_approximant"] = lambda i, a, k: a[0]
        self.it.ext["bilby.core.utils.log.logger"] = Obj("logger", {}, {n: lambda i, a, k: None for n in ("info", "debug", "warning", "error")})
        for n in ("solMass", "dimensionless_unscaled", "Hz", "rad", "Mpc", "s", "yr"):
            self.it.ext["astropy.units." + n] = ONE if n == "dimensionless_unscaled" else sym("unit_" + n)
            self.w.env["unit_" + n] = 1.0

    def low(self, it, a, k):
        self.lows.append(tuple(a))
        return sym("fstart")

    def insert(self, n):
        def go(it, a, k):
            self.inserted[n] = (a[0], a[1])
        return go

    def transform(self, it, a, k):
        self.spins.append(list(a))
        return T([sym("iota_out")] + [sym("s%d%s" % (i, x)) for i in (1, 2) for x in "xyz"])

    def series(self, tag):
        data = Arr(sym("%s_%d" % (tag, j)) for j in range(self.length))
        return Obj("series", {"data": Obj("vector", {"data": data}), "deltaF": sym("hdf"), "epoch": Obj("epoch", {"gpsSeconds": sym("epoch_s"), "gpsNanoSeconds": sym("epoch_ns")})})

    def called(self, kind):
        def go(it, a, k):
            if k:
                raise Undecided("keywords of the waveform library")
            self.calls.append((kind, list(a)))
            if self.fail:
                raise failure(it, self.fail)
            if kind == "sequence":
                self.length = len(list(it.iterate(it.getattr(a[-1], "data"))))
            return T([self.series("hp"), self.series("hc")])
        return go

    def signal(self, it, a, k):
        self.calls.append(("signal", [dict(a[0]), a[1]]))
        if self.fail:
            raise failure(it, self.fail)
        ser = [Arr(sym("%s_%d" % (t, j)) for j in range(self.length)) for t in ("hp", "hc")]
        val = lambda s: Obj("quantity", {"value": sym(s)})      # noqa: E731
        ser = [Obj("gwpy.series", {"df": val("hdf"), "epoch": val("epoch_s"), "value": x}, {"__len__": lambda i, b, c, x=x: q(len(x)), "__getitem__": lambda i, b, c, x=x: i.getitem(x, b[0]),
                                  "__array__": lambda i, b, c, x=x: x}) for x in ser]
        return Obj("polarisations", {"hp": ser[0], "hc": ser[1]})

    def run(self, name, extra, options, given=None):
        f = self.prog.by_qual.get(S + name)
        kw = {k: sym(k) for k in BASE + extra}
        kw.update(given or {})
        kw.update(options)
        return self.it.callf(f, [Arr(GRID)], kw), kw


def failure(it, text):
    return PyExc("RuntimeError", (text,))


def constant(lab, got, base, want, what):
    """got is a fixed multiple of base, the factor being the wanted one to a relative precision of a thousandth"""
    try:
        r = got / base
    except (ZeroDivisionError, TypeError):
        r = None
    v = None
    if isinstance(r, E):
        names = set()
        A.symbols(r, names)
        if not names & set(ENV) - {"e", "pi"}:
            v = R.real(R.value(r, lab.w.env))
    if v is None or abs(v / want - 1) > 1e-3:
        return "%s is passed as %s" % (what, A.show(got)[:80] if isinstance(got, E) else got)
    return None


def eq(a, b):
    if isinstance(a, bool) or a is None or isinstance(a, str) or not isinstance(a, E) or not isinstance(b, E):
        return a == b
    return a == b or A.is_zero(a - b) or A.is_zero(A.simplify(a - b) if hasattr(A, "simplify") else a - b)


def intrinsic(lab, args, extra, aligned):
    """masses, spins, distance and inclination of a call in the library's order"""
    m = constant(lab, args["m1"], sym("mass_1"), SUN, "mass 1 (kg)") or constant(lab, args["m2"], sym("mass_2"), SUN, "mass 2 (kg)")
    m = m or constant(lab, args["distance"], sym("luminosity_distance"), MPC, "the distance (m)")
    if m:
        return m
    spinning = "a_1" in extra
    if not spinning or aligned:
        want = {"s1x": ZERO, "s1y": ZERO, "s2x": ZERO, "s2y": ZERO, "s1z": aligned[0] if aligned else ZERO, "s2z": aligned[1] if aligned else ZERO, "iota": sym("theta_jn")}
    else:
        want = {n: sym(n) for n in ("s1x", "s1y", "s1z", "s2x", "s2y", "s2z")}
        want["iota"] = sym("iota_out")
        if len(lab.spins) != 1:
            return "spins are transformed %d times" % len(lab.spins)
        a = lab.spins[0]
        names = ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", None, None, None, "phase")
        for n, v in zip(names, a):
            if n is not None and v != sym(n):
                return "the spin transformation is given %s for %s" % (A.show(v) if isinstance(v, E) else v, n)
        m = constant(lab, a[7], sym("mass_1"), SUN, "mass 1 (kg) of the spin transformation") or constant(lab, a[8], sym("mass_2"), SUN, "mass 2 (kg) of the spin transformation")
        if m:
            return m
        if a[9] != OPTIONS["reference_frequency"]:
            return "the spin transformation is given reference frequency %s" % (a[9],)
    for n, v in want.items():
        if not eq(args[n], v):
            return "%s is passed as %s instead of %s" % (n, args[n], v)
    if args["phase"] != sym("phase"):
        return "the phase is passed as %s" % (args["phase"],)
    return None


ORDER_FD = ("m1", "m2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "distance", "iota", "phase", "longAscNodes", "eccentricity", "meanPerAno", "deltaF", "f_min", "f_max", "f_ref", "dict", "approximant")
ORDER_SEQ = ("phase", "m1", "m2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "f_ref", "distance", "iota", "dict", "approximant", "frequencies")


def dictionary(lab, d, extra, orders, modes=None, nr=None):
    want = {"TidalLambda1": sym("lambda_1") if "lambda_1" in extra else ZERO, "TidalLambda2": sym("lambda_2") if "lambda_1" in extra else ZERO}
    want.update({"PN%sOrder" % n: orders.get(n.lower(), q(-1 if n != "Amplitude" else 0)) for n in ("Spin", "Tidal", "Phase", "Amplitude")})
    if nr:
        want["NumRelData"] = nr
    for n, v in want.items():
        got = lab.inserted.get(n)
        if got is None or got[0] is not d or got[1] != v:
            return "option %s of the waveform is %s instead of %s" % (n, got and got[1], v)
    if set(lab.inserted) - set(want) - ({"ModeArray"} if modes else set()):
        return "options %s are set" % (set(lab.inserted) - set(want),)
    if (modes or []) != lab.modes or bool(modes) != ("ModeArray" in lab.inserted) or modes and lab.inserted["ModeArray"][0] is not d:
        return "modes %s are active, %s were asked for" % (lab.modes, modes)
    return None


def series_of(lab, r, shift, facts=()):
    """each polarisation inside the band, at its own frequency, zero elsewhere"""
    if not isinstance(r, dict) or set(r) != {"plus", "cross"}:
        return "the model returns %s" % (sorted(r) if isinstance(r, dict) else r)
    for k, t in (("plus", "hp"), ("cross", "hc")):
        got = list(lab.it.iterate(r[k]))
        if len(got) != len(GRID):
            return "%s has %d values for %d frequencies" % (k, len(got), len(GRID))
        for j, f in enumerate(GRID):
            inside = 8 <= A.const_of(f) <= 24 and j < lab.length
            want = sym("%s_%d" % (t, j)) if inside else ZERO
            if inside and shift is not None:
                want = want * A.exp(-q(2) * sym("pi") * sym("1j") * f * shift)
            if not (got[j] == want or same_series(lab, got[j], want)):
                return "%s at %s Hz is %s instead of %s" % (k, f, A.show(got[j])[:80] if isinstance(got[j], E) else got[j], A.show(want)[:80])
    return None


def same_series(lab, a, b):
    if isinstance(a, bool) or not isinstance(a, E):
        return False
    return Rule(lab, [sym(n) for n in ("hrss", "Q", "frequency", "luminosity_distance", "hdf")]).equal(a, b, {})


def fd(prog, name, extra, more):
    """the frequency-domain entry points of the library"""
    cases = [dict(), dict(implemented=False), dict(length=6), dict(length=12), dict(aligned=True), dict(amplitude=2), dict(modes=True), dict(unused=True)]
    for c in cases:
        lab = Bench(prog, c.get("implemented", True), c.get("length", 9))
        opts = dict(OPTIONS, **more)
        orders = {}
        given = {}
        aligned = None
        if c.get("aligned"):
            if "a_1" not in extra:
                continue
            given = {"tilt_1": ZERO, "a_2": ZERO}
            aligned = (sym("a_1"), ZERO)
        if c.get("amplitude"):
            opts["pn_amplitude_order"] = orders["amplitude"] = q(2)
            opts["pn_spin_order"] = orders["spin"] = q(5)
            opts["pn_tidal_order"] = orders["tidal"] = q(6)
            opts["pn_phase_order"] = orders["phase"] = q(7)
        modes = None
        if c.get("modes"):
            opts["mode_array"] = [[q(2), q(2)], [q(3), q(-3)]]
            modes = [(2, 2), (3, -3)]
            opts["numerical_relativity_data"] = "file"
        if c.get("unused"):
            opts["something_else"] = ONE
        r, kw = lab.run(name, extra, opts, given)
        yield judge_fd(lab, r, extra, aligned, orders, modes, c), name


def judge_fd(lab, r, extra, aligned, orders, modes, c):
    if len(lab.calls) != 1:
        return "the waveform library is called %d times" % len(lab.calls)
    kind, a = lab.calls[0]
    if kind != ("choose" if c.get("implemented", True) else "condition"):
        return "a %s-domain model is generated by %s" % ("frequency" if c.get("implemented", True) else "time", kind)
    if len(a) != len(ORDER_FD):
        return "%d arguments are passed" % len(a)
    g = dict(zip(ORDER_FD, a))
    m = intrinsic(lab, g, extra, aligned)
    if m:
        return m
    low = c.get("amplitude")
    want = {"longAscNodes": ZERO, "eccentricity": sym("eccentricity") if "eccentricity" in extra else ZERO, "meanPerAno": ZERO, "deltaF": q(DF), "f_min": sym("fstart") if low else q(8), "f_max": q(24), "f_ref": q(50)}
    for n, v in want.items():
        if not eq(g[n], v):
            return "%s is passed as %s instead of %s" % (n, g[n], v)
    if g["approximant"] != q(77):
        return "the approximant passed is %s" % (g["approximant"],)
    if low and (len(lab.lows) != 1 or lab.lows[0][:2] != (q(8), q(2)) or lab.lows[0][2] != q(77)):
        return "the start frequency is computed from %s" % (lab.lows,)
    m = dictionary(lab, g["dict"], extra, orders, modes, "file" if c.get("modes") else None)
    if m:
        return m
    shift = None
    if not c.get("implemented", True):
        shift = ONE / sym("hdf") + sym("epoch_s") + sym("epoch_ns") * const(Fraction(1, 10 ** 9))
    return series_of(lab, r, shift)


def sequence(prog, name, extra, key):
    for c in (dict(), dict(aligned=True), dict(nodes=True)):
        if c.get("nodes") and "roq" not in name:
            continue
        lab = Bench(prog)
        opts = {"waveform_approximant": "Approx", "reference_frequency": q(50)}
        nodes = [q(8), q(11), q(13), q(20)]
        opts[key] = Arr(nodes)
        if "relative" in name:
            opts["fiducial"] = ZERO
            opts.update(minimum_frequency=q(8), maximum_frequency=q(24))
        if "roq" in name:
            opts.update(linear_indices=Arr([ZERO, q(2)]), quadratic_indices=Arr([ONE, q(2), q(3)]))
        if c.get("nodes"):
            for n in (key, "linear_indices", "quadratic_indices"):
                del opts[n]
            opts.update(frequency_nodes_linear=Arr([q(8), q(13)]), frequency_nodes_quadratic=Arr([q(11), q(13), q(20)]))
            lab.it.ext["numpy.unique"] = unique
        given, aligned = {}, None
        if c.get("aligned"):
            given, aligned = {"a_1": ZERO, "tilt_2": ZERO}, (ZERO, sym("a_2"))
        r, kw = lab.run(name, extra, opts, given)
        yield judge_seq(lab, r, extra, aligned, nodes, name), name


def unique(it, a, k):
    vals = sorted({A.const_of(x) for x in a[0]})
    out = [Arr(const(v) for v in vals)]
    if k.get("return_inverse"):
        out.append(Arr(const(vals.index(A.const_of(x))) for x in a[0]))
    return T(out) if len(out) > 1 else out[0]


def judge_seq(lab, r, extra, aligned, nodes, name):
    if len(lab.calls) != 1 or lab.calls[0][0] != "sequence":
        return "the library's frequency sequence is not used once"
    a = lab.calls[0][1]
    if len(a) != len(ORDER_SEQ):
        return "%d arguments are passed" % len(a)
    g = dict(zip(ORDER_SEQ, a))
    m = intrinsic(lab, g, extra, aligned)
    if m:
        return m
    if g["f_ref"] != q(50) or g["approximant"] != q(77):
        return "reference frequency and approximant are passed as %s, %s" % (g["f_ref"], g["approximant"])
    if list(lab.it.iterate(lab.it.getattr(g["frequencies"], "data"))) != nodes:
        return "the frequencies evaluated are %s" % (lab.it.getattr(g["frequencies"], "data"),)
    m = dictionary(lab, g["dict"], extra, {})
    if m:
        return m
    want = {k: [sym("%s_%d" % (t, j)) for j in range(len(nodes))] for k, t in (("plus", "hp"), ("cross", "hc"))}
    if "roq" in name:
        pick = {"linear": (0, 2), "quadratic": (1, 2, 3)}
        if not isinstance(r, dict) or set(r) != set(pick):
            return "the model returns %s" % (r,)
        for n, idx in pick.items():
            for k in want:
                if list(lab.it.iterate(r[n][k])) != [want[k][i] for i in idx]:
                    return "%s values of %s are %s" % (n, k, [str(x) for x in r[n][k]])
        return None
    if not isinstance(r, dict) or set(r) != set(want):
        return "the model returns %s" % (r,)
    for k in want:
        if list(lab.it.iterate(r[k])) != want[k]:
            return "%s is %s" % (k, [str(x) for x in r[k]])
    return None


EDOM = "Internal function call failed: Input domain error"


def failures(prog, name, extra, options):
    for text, catch in ((EDOM, True), (EDOM, False), ("something else", True)):
        lab = Bench(prog, fail=text)
        m = None
        try:
            r, kw = lab.run(name, extra, dict(options, catch_waveform_errors=catch))
            if not (text == EDOM and catch):
                m = "an error of the waveform library (%s) is swallowed%s" % (text, "" if catch else " although errors are not to be caught")
            elif r is not None:
                m = "after a caught error the model returns %s" % (r,)
        except PyExc as e:
            if text == EDOM and catch:
                m = "a domain error of the waveform library is not caught (%s)" % e.name
            elif e.name != "RuntimeError":
                m = "an error of the waveform library turns into %s" % e.name
        except Undecided as e:
            if str(e) != "subscript of None":
                raise
            m = "a caught waveform failure raises TypeError, its result is taken apart"
        yield m, name


def gwsignal(prog):
    name = "gwsignal_binary_black_hole"
    for implemented, length, amp, approx in ((True, 9, 0, "SEOBNRv5PHM"), (False, 12, 0, "SEOBNRv5HM"), (False, 6, 2, "SEOBNRv5PHM"), (True, 9, -1, "SEOBNRv5PHM")):
        lab = Bench(prog, implemented, length)
        opts = dict(OPTIONS, waveform_approximant=approx, pn_amplitude_order=q(amp), other=q(7))
        if length == 9:
            opts["mode_array"] = [[q(2), q(2)]]
        r, kw = lab.run(name, SPINS, opts)
        yield judge_signal(lab, r, implemented, amp, approx, opts), name


def judge_signal(lab, r, implemented, amp, approx, opts):
    if len(lab.calls) != 1:
        return "the waveform library is called %d times" % len(lab.calls)
    d, gen = lab.calls[0][1]
    if lab.it.getattr(gen, "name") != approx:
        return "the generator is that of %s" % lab.it.getattr(gen, "name")
    u = lambda n: sym("unit_" + n)      # noqa: E731
    want = {"mass1": sym("mass_1") * u("solMass"), "mass2": sym("mass_2") * u("solMass"), "deltaF": q(DF) * u("Hz"), "f22_start": q(8) * u("Hz") * (q(2, (6 if amp == -1 else amp) + 2) if amp else ONE),
            "f_max": q(24) * u("Hz"), "f22_ref": q(50) * u("Hz"), "phi_ref": sym("phase") * u("rad"), "distance": sym("luminosity_distance") * u("Mpc"), "inclination": sym("iota_out") * u("rad"),
            "eccentricity": ZERO, "longAscNodes": ZERO, "meanPerAno": ZERO, "condition": ZERO if implemented else ONE, "other": q(7)}
    want.update({"spin%d%s" % (i, x): sym("s%d%s" % (i, x)) for i in (1, 2) for x in "xyz"})
    for n, v in want.items():
        if n not in d or not eq(d[n], v):
            return "%s is passed as %s instead of %s" % (n, d.get(n), v)
    if d.get("ModeArray") != opts.get("mode_array"):
        return "the mode array passed is %s" % (d.get("ModeArray"),)
    extra = set(d) - set(want) - {"ModeArray"}
    if extra - {"lambda1", "lambda2"} and extra & set(opts):
        return "bilby's own options %s are passed on" % sorted(extra)
    a = lab.spins[0] if lab.spins else [None] * 11
    for n, v in zip(("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", None, None, None, "phase"), a):
        if n is not None and v != sym(n):
            return "the spin transformation is given %s for %s" % (v, n)
    return series_of(lab, r, None if implemented else ONE / sym("hdf") + sym("epoch_s"))


def bursts(prog):
    lab = Bench(prog)
    pi, i1, one = sym("pi"), sym("1j"), ONE
    f = prog.by_qual.get(S + "sinegaussian")
    if f is not None:
        fs = [q(3), q(10), q(17)]
        r = lab.it.callf(f, [Arr(fs)], {"hrss": sym("hrss"), "Q": sym("Q"), "frequency": sym("frequency"), "other": ONE})
        Q, f0 = sym("Q"), sym("frequency")
        tau = Q / (A.power(q(2), q(1, 2)) * pi * f0)
        al = Q / (q(4) * A.power(pi, q(1, 2)) * f0)
        m = None
        for k, sg in (("plus", 1), ("cross", -1)):
            amp = sym("hrss") * A.power(pi, q(1, 2)) * tau / (q(2) * A.power(al * (one + q(sg) * A.exp(-Q * Q)), q(1, 2)))
            for x, v in zip(fs, lab.it.iterate(r[k])):
                e = [A.exp(-pi * pi * tau * tau * (x + z * f0) * (x + z * f0)) for z in (ONE, -ONE)]
                want = amp * (e[0] + e[1]) if sg == 1 else i1 * amp * (e[0] - e[1])
                if not same_series(lab, v, want):
                    m = m or "%s is %s instead of %s" % (k, A.show(v)[:120], A.show(want)[:120])
        yield m, "sinegaussian"
    f = prog.by_qual.get(S + "supernova")
    if f is not None:
        data = Arr(Arr(sym("d%d_%d" % (i, j)) for j in range(4)) for i in range(3))
        read = []
        lab.it.ext["numpy.genfromtxt"] = lab.it.ext["numpy.loadtxt"] = lambda i, a, k: (read.append(a[0]), data)[1]
        r = lab.it.callf(f, [Arr(GRID[:3])], {"luminosity_distance": sym("luminosity_distance"), "file_path": "file"})
        m = None if read == ["file"] else "the file read is %s" % (read,)
        for k, j in (("plus", 0), ("cross", 2)):
            for i, v in enumerate(lab.it.iterate(r[k])):
                if not any(same_series(lab, v, c * (data[i][j] + i1 * data[i][j + 1]) / sym("luminosity_distance")) for c in (q(1, 100), q(10))):
                    m = m or "%s is %s" % (k, A.show(v)[:100])
        yield m, "supernova"
    f = prog.by_qual.get(S + "supernova_pca_model")
    if f is not None:
        re, im = [Arr(Arr(sym("%s%d_%d" % (t, i, j)) for j in range(5)) for i in range(2)) for t in ("re", "im")]
        kw = {"pc_coeff%d" % (j + 1): sym("c%d" % j) for j in range(5)}
        r = lab.it.callf(f, [Arr(GRID[:2])], dict(kw, luminosity_distance=sym("luminosity_distance"), realPCs=re, imagPCs=im))
        m = None
        for k in ("plus", "cross"):
            for i, v in enumerate(lab.it.iterate(r[k])):
                want = sum((sym("c%d" % j) * (re[i][j] + i1 * im[i][j]) for j in range(5)), ZERO) * const(Fraction(1, 10 ** 22)) / sym("luminosity_distance")
                if not same_series(lab, v, want):
                    m = m or "%s is %s" % (k, A.show(v)[:100])
        yield m, "supernova_pca_model"


# -- the generator --------------------------------------------------------------------------------------------------------
def generators(prog):
    nt = 8
    for fdm, tdm, ask in ((True, False, "f"), (False, True, "t"), (True, False, "t"), (False, True, "f"), (True, True, "f"), (True, True, "t")):
        for array in (False, True):
            yield generator(prog, fdm, tdm, ask, array, nt), "generator with %s model, strain in the %s domain" % (
                "both domains'" if fdm and tdm else "a frequency-domain" if fdm else "a time-domain", "frequency" if ask == "f" else "time")


def generator(prog, fdm, tdm, ask, array, nt):
    lab = Bench(prog)
    it = lab.it
    seen = []

    def model(tag, n):
        def go(i, a, k):
            seen.append((tag, list(a), dict(k)))
            vals = [sym("%s%s%d" % (p, tag, j)) for p in ("p", "c") for j in range(n)]
            if array:
                return Arr(vals[:n])
            return {"plus": Arr(vals[:n]), "cross": Arr(vals[n:])}
        return Obj("model", {"__name__": "m" + tag, "__module__": "m"}, {"__call__": go})
    f, t = model("f", nt // 2 + 1), model("t", nt)
    it.ext["bilby.core.utils.introspection.infer_parameters_from_function"] = lambda i, a, k: ["x", "y"]
    it.ext["bilby.core.utils.infer_parameters_from_function"] = lambda i, a, k: ["x", "y"]
    it.ext["bilby.core.utils.get_function_path"] = it.ext["bilby.core.utils.introspection.get_function_path"] = lambda i, a, k: "path"

    def conv(i, a, k):
        out = dict(a[0])
        out["y"] = out.pop("z") * q(2)
        out["extra"] = ONE
        return T([out, ["y"]])
    opts = {"option": q(3), "more": "text"}
    g = it.new(prog.classes[W], [], {"duration": q(4), "sampling_frequency": q(2), "start_time": q(100), "frequency_domain_source_model": f if fdm else None, "time_domain_source_model": t if tdm else None,
                                     "parameter_conversion": Py(conv), "waveform_arguments": opts})
    given = {"x": sym("x"), "z": sym("z"), "unused": sym("u")}
    keep = dict(given)
    r = it.method(g, "frequency_domain_strain" if ask == "f" else "time_domain_strain", given)
    if given != keep:
        return "the parameters given are changed"
    if opts != {"option": q(3), "more": "text"}:
        return "the waveform arguments given are changed"
    own = fdm if ask == "f" else tdm
    tag = ask if own else ("t" if ask == "f" else "f")
    if len(seen) != 1 or seen[0][0] != tag:
        return "the models called are %s" % ([s[0] for s in seen],)
    _, a, k = seen[0]
    if len(a) != 1 or k != {"x": sym("x"), "y": sym("z") * q(2), "option": q(3), "more": "text"}:
        return "the source model is called with %s" % ({n: str(v) for n, v in k.items()},)
    grid = [q(i, 4) for i in range(nt // 2 + 1)] if tag == "f" else [q(100) + q(i, 2) for i in range(nt)]
    if list(it.iterate(a[0])) != grid:
        return "the source model is evaluated at %s" % ([str(x) for x in it.iterate(a[0])],)
    pol = {"plus": [sym("p%s%d" % (tag, j)) for j in range(nt // 2 + 1 if tag == "f" else nt)], "cross": [sym("c%s%d" % (tag, j)) for j in range(nt // 2 + 1 if tag == "f" else nt)]}
    if array and not own and ask == "f":
        return None             # nfft of a bare array returns the frequencies too
    got = {"plus": r} if array else r
    if not isinstance(got, dict) or set(got) != ({"plus"} if array else set(pol)):
        return "the strain returned is %s" % (r,)
    for n in got:
        x = list(it.iterate(got[n]))
        if own:
            want = pol[n]
        elif ask == "f":
            want = [v / q(2) for v in it.numeric("rfft", [Arr(pol[n])], {}, "numpy.fft.rfft")]
        else:
            want = [v * q(2) for v in it.numeric("irfft", [Arr(pol[n])], {}, "numpy.fft.irfft")]
        if len(x) != len(want) or not all(y == z or same_series(lab, y, z) for y, z in zip(x, want)):
            return "%s is not the %s of the model's values" % (n, "series" if own else "transform")
    return None


def missing(prog):
    """a waveform that could not be generated is passed on as None in the model's own domain"""
    lab = Bench(prog)
    it = lab.it
    it.ext["bilby.core.utils.introspection.infer_parameters_from_function"] = it.ext["bilby.core.utils.infer_parameters_from_function"] = lambda i, a, k: ["x"]
    it.ext["bilby.core.utils.get_function_path"] = it.ext["bilby.core.utils.introspection.get_function_path"] = lambda i, a, k: "path"
    f = Obj("model", {"__name__": "m", "__module__": "m"}, {"__call__": lambda i, a, k: None})
    g = it.new(prog.classes[W], [], {"duration": q(4), "sampling_frequency": q(2), "frequency_domain_source_model": f, "parameter_conversion": Py(lambda i, a, k: T([dict(a[0]), []]))})
    r = it.method(g, "frequency_domain_strain", {"x": sym("x")})
    yield ("a waveform that failed is returned as %s" % (r,)) if r is not None else None, "generator"


def check(ctx):
    prog = ctx.prog
    rule = Rule(ctx)
    for name, (text, floor) in RULES.items():
        ctx.rule(name, text, floor=0 if ctx.tier == "selftest" else floor)

    def table(name, what, gen, func):
        def first():
            for m, w in gen():
                if m:
                    return "%s: %s" % (w, m) if w != what else m
            return None
        res = rule.run(lambda dec: first())
        rule.report(name, what, func, res, lambda r, dec: r)
    for n, extra, more in FD:
        f = prog.by_qual.get(S + n)
        if f is not None:
            table("frequency domain", n, lambda: fd(prog, n, extra, more), f)
            table("failures", n, lambda: failures(prog, n, extra, dict(OPTIONS, **more)), f)
    for n, extra, key in SEQ:
        f = prog.by_qual.get(S + n)
        if f is not None:
            table("frequency sequence", n, lambda: sequence(prog, n, extra, key), f)
            o = {"waveform_approximant": "Approx", "reference_frequency": q(50), key: Arr([q(8), q(11)])}
            if "relative" in n:
                o["fiducial"] = ZERO
            if "roq" in n:
                o.update(linear_indices=Arr([ZERO]), quadratic_indices=Arr([ONE]))
            table("failures of sequences", n, lambda: failures(prog, n, extra, o), f)
    f = prog.by_qual.get(S + "gwsignal_binary_black_hole")
    if f is not None:
        table("gwsignal", "gwsignal_binary_black_hole", lambda: gwsignal(prog), f)
        table("failures", "gwsignal_binary_black_hole", lambda: failures(prog, "gwsignal_binary_black_hole", SPINS, dict(OPTIONS, waveform_approximant="SEOBNRv5PHM")), f)
    f = prog.by_qual.get(S + "sinegaussian") or prog.by_qual.get(S + "supernova")
    if f is not None:
        table("bursts", "burst models", lambda: bursts(prog), f)
    c = prog.classes.get(W)
    if c is not None:
        table("generator", "WaveformGenerator", lambda: generators(prog), c.find("frequency_domain_strain"))
        table("generator", "WaveformGenerator without waveform", lambda: missing(prog), c.find("frequency_domain_strain"))


RULES = {
    "frequency domain": ("the library receives the documented arguments and options, and both polarisations come back inside the band at the model's frequencies, shifted when the model is a time-domain one", 4),
    "frequency sequence": ("the library is called at the nodes or bin edges given, and its polarisations are returned unchanged", 4),
    "failures": ("a domain error is tolerated only when asked, any other error passes through", 4),
    "failures of sequences": ("a domain error is tolerated only when asked, any other error passes through", 3),
    "gwsignal": ("the generator receives the documented quantities with their units, and the same band and epoch rules hold", 1),
    "bursts": ("burst models follow their documented formulas and options", 1),
    "generator": ("the model is called with converted parameters and waveform arguments on the generator's own grid, transformed between domains, with the caller's inputs untouched", 1),
}
