"""T01: calibration models multiply the strain by the documented correction and the tabulated curves belong to their parameters."""
from fractions import Fraction

from .. import algebra as A
from ..algebra import ZERO, ONE, E, const, sym
from ..frame import EXTERNALS, Table
from ..interp import Interp, Obj, Arr, Py, PyExc, T, Fn, Cls, integer
from ..oblig import Rule
from ..valnum import Undecided, World

TITLE = "calibration corrections and tables follow the documented model"
EXPLANATION = (
    "Abstract evaluation: calibration models are constructed with uninterpreted node values and evaluated at frequencies given by their logarithm, the spline "
    "coefficients are solved for exactly, and the factor is compared with the cubic through the nodes. Tables of curves are built, written and read with the "
    "file library replaced by a store, and every curve is compared with the model evaluated at the parameters in the same row.")
ASSUMPTIONS = ["four to six nodes and two or three curves stand for larger numbers", "interpolation of stored curves is exact at the stored frequencies and uninterpreted elsewhere",
               "envelope interpolation (scipy splines) is uninterpreted"]

M = "bilby.gw.detector.calibration."
LN10 = sym("ln10")


class Lab:
    def __init__(self, prog, dec, logs=None, externals=None):
        self.prog = prog
        self.w = World([LN10], dec, scalar=True)
        self.logs = {}
        for f, v in (logs or {}).items():
            self.logs[f] = v
        self.store = {}
        e = dict(EXTERNALS)
        if logs:
            e.update({"numpy.log10": self.log(ONE), "numpy.log": self.log(LN10), "math.log10": self.log(ONE), "math.log": self.log(LN10)})
        e.update({"numpy.linalg.solve": solve, "numpy.linalg.inv": inverse, "numpy.abs": polar(0), "numpy.absolute": polar(0), "numpy.angle": polar(1),
                  "tables.open_file": self.open, "pandas.read_hdf": self.read, "scipy.interpolate.interp1d": self.interp1d,
                  "os.path.exists": lambda i, a, k: a[0] in self.store, "os.path.isfile": lambda i, a, k: a[0] in self.store})
        e.update(externals or {})
        self.it = Interp(prog, self.w, limit=400000, externals=e)
        self.interps = []

    def log(self, unit):
        def f(it, a, k):
            def one(x):
                if isinstance(x, E) and x in self.logs:
                    return self.logs[x] * unit
                if isinstance(x, E) and len(x) == 1:
                    (mono, c), = x
                    out = ZERO if c == 1 else A.fn("log", const(c)) * unit / LN10
                    for at, ex in mono:
                        b = A.atom(at)
                        out = out + ex * (self.logs[b] * unit if b in self.logs else A.fn("log", b) * unit / LN10)
                    return out
                if isinstance(x, E):
                    return A.fn("log", x) * unit / LN10
                raise Undecided("log")
            x = a[0]
            return it.arrmap(one, it.arr(x)) if isinstance(x, (list, T)) and not isinstance(x, E) else one(x)
        return f

    # -- stored tables ---------------------------------------------------------
    def open(self, it, a, k):
        name = a[0] if a else k["filename"]
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if mode == "w":
            self.store[name] = {}
        if name not in self.store:
            raise PyExc("OSError")
        d = self.store[name]

        def carray(it, a, k):
            group, key = a[0], a[1]
            d[group.label + "/" + key if isinstance(group, Obj) else key] = k["obj"] if "obj" in k else a[-1]
            return None

        class Group(Obj):
            pass

        def group(path):
            g = Obj("group", {}, {})
            g.label = path
            for q in {x[len(path) + 1 if path else 0:].split("/")[0] for x in d if x.startswith(path)}:
                full = path + "/" + q if path else q
                if full in d:
                    g.attrs[q] = d[full] if not isinstance(d[full], Arr) else Arr(d[full])
                else:
                    g.attrs[q] = group(full)
            return g

        def create(it, a, k):
            g = Obj("group", {}, {})
            g.label = a[1]
            return g
        root = group("")
        for q in list(root.attrs):
            if isinstance(root.attrs[q], Arr):
                raise Undecided("file layout")
        return Obj("file", {"root": root}, {"create_group": create, "create_carray": carray, "create_array": carray, "close": lambda i, a, k: None,
                                             "__enter__": lambda i, a, k: None, "__exit__": lambda i, a, k: None})

    def read(self, it, a, k):
        name = a[0]
        key = a[1] if len(a) > 1 else k["key"]
        t = self.store.get(name, {}).get("hdf " + key)
        if t is None:
            raise PyExc("KeyError")
        return t.clone()

    def interp1d(self, it, a, k):
        b = dict(zip(("x", "y", "kind"), a))
        b.update(k)
        x, y = list(b["x"]), b["y"]
        two = isinstance(y[0], Arr)
        self.interps.append(b)

        def call(it, a2, k2):
            def row(ys):
                out = []
                for f in a2[0]:
                    if f in x:
                        out.append(ys[x.index(f)])
                    elif A.is_const(f) and all(A.is_const(q) for q in x) and not A.const_of(x[0]) <= A.const_of(f) <= A.const_of(x[-1]):
                        if b.get("bounds_error") is not False or "fill_value" not in b:
                            raise PyExc("ValueError")
                        out.append(b["fill_value"])
                    else:
                        out.append(A.fn("@interp", f, *ys))
                return Arr(out)
            return Arr(row(ys) for ys in y) if two else row(y)
        return Py(call)


def solve(it, a, k):
    """exact solution of a linear system with constant coefficients"""
    m = [[A.const_of(x) if A.is_const(x) else None for x in r] for r in a[0]]
    if any(x is None for r in m for x in r):
        raise Undecided("solve")
    b = [list(r) if isinstance(r, Arr) else [r] for r in a[1]]
    flat = not isinstance(a[1][0], Arr)
    n = len(m)
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c]), None)
        if p is None:
            raise PyExc("LinAlgError")
        m[c], m[p], b[c], b[p] = m[p], m[c], b[p], b[c]
        for r in range(n):
            if r != c and m[r][c]:
                q = m[r][c] / m[c][c]
                m[r] = [x - q * y for x, y in zip(m[r], m[c])]
                b[r] = [x - y * const(q) for x, y in zip(b[r], b[c])]
    out = [[x / const(m[r][r]) for x in b[r]] for r in range(n)]
    return Arr(x[0] for x in out) if flat else Arr(Arr(r) for r in out)


def inverse(it, a, k):
    n = len(a[0])
    return solve(it, [a[0], Arr(Arr(ONE if i == j else ZERO for j in range(n)) for i in range(n))], {})


def polar(which):
    """modulus and argument of values given as r * exp(i phi)"""
    def one(x):
        if A.is_const(x):
            c = A.const_of(x)
            if which == 0:
                return const(abs(c))
            return ZERO if c >= 0 else A.PI
        for i in range(9):
            for j in range(9):
                r, p = sym("r%d%d" % (i, j)), sym("p%d%d" % (i, j))
                if x == r * A.exp(A.I * p):
                    return p if which else r
        raise Undecided("modulus")

    def f(it, a, k):
        return it.arrmap(one, a[0]) if isinstance(a[0], Arr) else one(a[0])
    return f


def spline(values, x):
    """not-a-knot cubic through (j, values[j]) at the rational x, by direct solution for the cubics' coefficients"""
    n = len(values)
    rows, rhs = [], []

    def row(seg, coefs, seg2=None, coefs2=None):
        r = [Fraction(0)] * (4 * (n - 1))
        for i, c in enumerate(coefs):
            r[4 * seg + i] += c
        for i, c in enumerate(coefs2 or ()):
            r[4 * seg2 + i] -= c
        return Arr(const(c) for c in r)
    for s in range(n - 1):               # cubic s: sum c_i (x - s)**i
        rows += [row(s, [1]), row(s, [1, 1, 1, 1])]
        rhs += [values[s], values[s + 1]]
    for s in range(n - 2):
        rows += [row(s, [0, 1, 2, 3], s + 1, [0, 1]), row(s, [0, 0, 2, 6], s + 1, [0, 0, 2])]
        rhs += [ZERO, ZERO]
    for s in (0, n - 3):
        rows.append(row(s, [0, 0, 0, 1], s + 1, [0, 0, 0, 1]))
        rhs.append(ZERO)
    c = solve(None, [rows, Arr(rhs)], {})
    s = min(max(int(x // 1), 0), n - 2)
    t = const(Fraction(x) - s)
    out = ZERO
    for i in range(3, -1, -1):
        out = out * t + c[4 * s + i]
    return out


def factor(n, x, amp, ph):
    a, p = spline([amp(j) for j in range(n)], x), spline([ph(j) for j in range(n)], x)
    return (ONE + a) * (const(2) + A.I * p) / (const(2) - A.I * p)


def rows(r, got, want, dec):
    if not isinstance(got, (Arr, list)) or len(got) != len(want):
        return "gives %s values instead of %d" % (len(got) if isinstance(got, (Arr, list)) else "no", len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, list):
            m = rows(r, g, w, dec)
            if m:
                return "curve %d: %s" % (i, m)
        elif not r.equal(g, w, dec):
            return "value %d is %s instead of %s" % (i, str(g)[:120], str(w)[:120])
    return None


LO, HI = sym("fmin"), sym("fmax")
POINTS = [Fraction(0), Fraction(1, 3), Fraction(1), Fraction(7, 5), Fraction(5, 2), Fraction(3)]


def grid(n, points):
    """frequencies at given positions between the nodes of a spline of n nodes, with their logarithms"""
    l0, step = const(Fraction(13, 10)), const(Fraction(2, 7))
    logs = {LO: l0, HI: l0 + step * const(n - 1)}
    fs = []
    for x in points:
        f = LO if x == 0 else HI if x == n - 1 else sym("f_%d_%d_%d" % (n, x.numerator, x.denominator))
        logs[f] = l0 + step * const(x)
        fs.append(f)
    return fs, logs


def node(kind, j, tag=""):
    return sym("%s%s%d" % (kind[0], tag, j))


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("spline", "the spline factor is (1 + dA)(2 + i dphi)/(2 - i dphi) with cubics through the node values, logarithmically spaced in frequency", floor=4 * k)
    ctx.rule("curves", "tabulated curves are selected by their index, on the frequencies they were made for", floor=3 * k)
    ctx.rule("table", "response curves of each detector are those of its model at the parameters in the same row, also when stored and read back", floor=4 * k)
    ctx.rule("priors", "calibration priors describe the nodes of the spline and the given uncertainty", floor=2 * k)
    ctx.rule("equal", "calibration models are equal when their settings are", floor=2 * k)
    r = Rule(ctx, [LN10])
    splines(ctx, r, prog)
    curves(ctx, r, prog)
    tables(ctx, r, prog)
    priors(ctx, r, prog)
    equality(ctx, r, prog)


def splines(ctx, r, prog):
    c = prog.classes.get(M + "CubicSpline")
    if c is None:
        return
    f = c.find("get_calibration_factor")
    init = c.find("__init__")
    for n in (4, 5, 6) if ctx.tier != "selftest" else (4,):
        pts = [p for p in POINTS if p <= n - 1] + ([Fraction(n - 1), Fraction(2 * n - 3, 2)] if n > 4 else [])
        for mode in ("first", "new values", "other frequencies", "other spline between", "stored parameters"):
            fs, logs = grid(n, pts)

            def thunk(dec, n=n, mode=mode):
                lab = Lab(prog, dec, logs)
                o = lab.it.new(c, ["recalib_H1_", LO, HI, const(n)], {})

                def values(tag="", det="H1"):
                    d = {"recalib_%s_%s_%d" % (det, q, j): node(q, j, tag) for q in ("amplitude", "phase") for j in range(n)}
                    return d
                extra = dict(values("z", "L1"), geocent_time=sym("tc"))
                if mode == "new values":
                    lab.it.method(o, "get_calibration_factor", Arr(fs), **dict(values("y"), **extra))
                if mode == "other frequencies":
                    lab.it.method(o, "get_calibration_factor", Arr(list(reversed(fs))), **dict(values(), **extra))
                if mode == "other spline between":
                    p = lab.it.new(c, ["recalib_L1_", logs and LO, HI, const(n + 1)], {})
                    lab.it.method(p, "get_calibration_factor", Arr(fs[:2]), **{"recalib_L1_%s_%d" % (q, j): node(q, j, "z") for q in ("amplitude", "phase") for j in range(n + 1)})
                if mode == "stored parameters":
                    lab.it.method(o, "set_calibration_parameters", **dict(values(), **extra))
                    return lab.it.method(o, "get_calibration_factor", Arr(fs))
                return lab.it.method(o, "get_calibration_factor", Arr(fs), **dict(values(), **extra))
            want = [factor(n, x, lambda j: node("amplitude", j), lambda j: node("phase", j)) for x in pts]
            r.report("spline", "%d nodes, %s" % (n, mode), f, r.run(thunk), lambda got, dec, w=want: rows(r, got, w, dec))
    if ctx.tier != "selftest" and init is not None:
        for n in (2, 3, 4):
            def thunk(dec, n=n):
                lab = Lab(prog, dec, grid(4, POINTS[:1])[1])
                try:
                    lab.it.new(c, ["recalib_H1_", LO, HI, const(n)], {})
                except PyExc as e:
                    return e.name
                return "none"
            r.report("spline", "a spline of %d nodes" % n, init, r.run(thunk),
                     lambda got, dec, n=n: None if (got.split(".")[-1] == "ValueError") == (n < 4) and (got != "none") == (n < 4) else "raises %s" % got)
    b = prog.classes.get(M + "Recalibrate")
    if b is not None and ctx.tier != "selftest":
        def thunk(dec):
            lab = Lab(prog, dec)
            return lab.it.method(lab.it.new(b, [], {}), "get_calibration_factor", Arr([sym("f0"), sym("f1")]), recalib_x=sym("x"))
        r.report("curves", "no calibration", b.find("get_calibration_factor"), r.run(thunk), lambda got, dec: rows(r, got, [ONE, ONE], dec))


def precomputed(lab, c, label="H1", nfreq=2, ncurves=3, params=None):
    fs = Arr(const(20 + i) for i in range(nfreq))
    cv = Arr(Arr(curve(label, i, j) for j in range(nfreq)) for i in range(ncurves))
    return lab.it.new(c, [], dict(label=label, curves=cv, frequency_array=fs, parameters=params)), fs


def curve(label, i, j):
    return sym("c_%s_%d_%d" % (label, i, j))


def curves(ctx, r, prog):
    c = prog.classes.get(M + "Precomputed")
    if c is None:
        return
    f = c.find("get_calibration_factor")
    for i in range(3):
        def thunk(dec, i=i):
            lab = Lab(prog, dec)
            o, fs = precomputed(lab, c)
            other, _ = precomputed(lab, c, "L1")
            lab.it.method(other, "get_calibration_factor", fs, recalib_index_L1=const((i + 1) % 3), recalib_index_H1=const(i))
            return lab.it.method(o, "get_calibration_factor", Arr(fs), recalib_index_L1=const((i + 1) % 3), recalib_index_H1=const(i))
        r.report("curves", "curve %d" % i, f, r.run(thunk), lambda got, dec, i=i: rows(r, got, [curve("H1", i, j) for j in range(2)], dec))
    for what, fs, par, exc in (("other frequencies", [21, 22], {"recalib_index_H1": ONE}, "ValueError"), ("fewer frequencies", [20], {"recalib_index_H1": ONE}, "ValueError"),
                               ("no index", [20, 21], {"recalib_index_L1": ONE}, "KeyError")):
        def thunk(dec, fs=fs, par=par):
            lab = Lab(prog, dec)
            o, _ = precomputed(lab, c)
            try:
                lab.it.method(o, "get_calibration_factor", Arr(const(x) for x in fs), **par)
            except PyExc as e:
                return e.name.split(".")[-1]
            return "nothing"
        r.report("curves", what, f, r.run(thunk), lambda got, dec, exc=exc: None if got == exc else "raises %s instead of %s" % (got, exc))


def prior(name, log):
    """a prior of one parameter: draw i is an uninterpreted value"""
    def sample(it, a, k):
        n = k.get("size", a[0] if a else None)
        log.append(name)
        return Arr(sym("%s:%d" % (name, i)) for i in range(integer(n)))
    return Obj("prior", {"name": name}, {"sample": sample})


def detector(lab, name, model, fs, mask):
    return Obj("ifo", {"name": name, "frequency_array": Arr(fs), "frequency_mask": Arr(mask), "calibration_model": model,
                       "minimum_frequency": sym("ifo_fmin"), "maximum_frequency": sym("ifo_fmax")})


NODES = 4


def setting(prog, dec, how, start=0, n=2):
    """two detectors with spline models narrower or wider than the analysed band"""
    pts = [Fraction(-1, 2), Fraction(0), Fraction(4, 3), Fraction(5, 2), Fraction(3)]
    fs, logs = grid(NODES, pts)
    mask = [False, True, True, True, False] if how == "narrow" else [False, False, True, True, False]
    drawn = []

    def pd(it, a, k):
        d = {}
        src = a[0] if a else k.get("dictionary")
        if src:
            d.update(src)

        def sample(it, a, k):
            m = integer(a[0] if a else k["size"])
            drawn.append(list(d))
            return {key: Arr(sym("%s:%d" % (v.attrs["name"], i)) for i in range(m)) for key, v in d.items()}
        return Obj("priordict", {}, {"sample": sample}, d)
    lab = Lab(prog, dec, logs, externals={"bilby.core.prior.dict.PriorDict": pd})
    cs = prog.classes[M + "CubicSpline"]
    ifos, pri = [], {}
    for d in ("H1", "L1"):
        model = lab.it.new(cs, ["recalib_%s_" % d, LO, HI, const(NODES)], {})
        ifos.append(detector(lab, d, model, fs, mask))
        for q in ("amplitude", "phase"):
            for j in range(NODES):
                key = "recalib_%s_%s_%d" % (d, q, j)
                pri[key] = prior(key, drawn)
    pri["mass_1"] = prior("mass_1", drawn)
    keep = [x for x, m in zip(pts, mask) if m]
    return lab, ifos, pri, [f for f, m in zip(fs, mask) if m], keep


def tables(ctx, r, prog):
    f = prog.by_qual.get(M + "build_calibration_lookup")
    rec = prog.classes.get(M + "Recalibrate")
    pre = prog.classes.get(M + "Precomputed")
    gen = prog.by_qual.get(M + "_generate_calibration_draws")
    if f is None or rec is None or pre is None:
        return

    def blank(lab):
        """file writing is another obligation"""
        lab.it.ext[M + "write_calibration_file"] = lambda i, a, k: lab.written.append((a, k))
        lab.written = []

    def same_table(got, want):
        """the parameters table holds the rows wanted"""
        if not isinstance(got, Table):
            return "the parameters are not returned as a table"
        for key, col in want.items():
            if key not in got.items:
                return "the table of parameters lacks %s" % key
            if list(got.items[key]) != list(col):
                return "row %d of %s is another draw's" % ([a == b for a, b in zip(list(got.items[key]) + [None] * len(col), col)].index(False), key)
        return None

    for how in ("narrow", "wide"):
        for n in (1, 2):
            hold = {}

            def thunk(dec, how=how, n=n):
                lab, ifos, pri, fs, keep = setting(prog, dec, how)
                blank(lab)
                hold.update(lab=lab, ifos=ifos, keep=keep, fs=fs)
                return lab.it.apply(Fn(f), [ifos], dict(priors=pri, number_of_response_curves=const(n), starting_index=ZERO))

            def judge(got, dec, n=n):
                draws, params = got
                for ifo in hold["ifos"]:
                    d = ifo.attrs["name"]
                    m = same_table(params[d], {"recalib_%s_%s_%d" % (d, q, j): [sym("recalib_%s_%s_%d:%d" % (d, q, j, i)) for i in range(n)] for q in ("amplitude", "phase") for j in range(NODES)})
                    if not m and set(params[d].items) - {"recalib_%s_%s_%d" % (d, q, j) for q in ("amplitude", "phase") for j in range(NODES)}:
                        m = "the table of %s holds parameters of another detector" % d
                    want = [[factor(NODES, x, lambda j: sym("recalib_%s_amplitude_%d:%d" % (d, j, i)), lambda j: sym("recalib_%s_phase_%d:%d" % (d, j, i)))
                             for x in hold["keep"]] for i in range(n)]
                    m = m or rows(r, draws[d], want, dec)
                    if m:
                        return "%s: %s" % (d, m)
                    model = ifo.attrs["calibration_model"]
                    if hold["lab"].it.method(model, "get_calibration_factor", Arr([sym("f")])) != [ONE]:
                        return "%s: the tabulated correction is applied on top of the detector's own" % d
                if len(hold["lab"].written) != 2:
                    return "the curves of %d detectors are stored" % len(hold["lab"].written)
                return None
            r.report("table", "%d curves drawn, %s band" % (n, how), f, r.run(thunk), judge)
    # precomputed curves
    for start, n in ((0, 2), (1, 2)):
        hold = {}

        def thunk(dec, start=start, n=n):
            lab = Lab(prog, dec)
            blank(lab)
            par = Table({"recalib_H1_a": [sym("a%d" % i) for i in range(3)]})
            o, fs = precomputed(lab, pre, params=par)
            ifo = detector(lab, "H1", o, list(fs), [True, True])
            hold.update(par=par)
            return lab.it.apply(Fn(f), [[ifo]], dict(priors={}, number_of_response_curves=const(n), starting_index=const(start)))

        def judge(got, dec, start=start, n=n):
            draws, params = got
            return same_table(params["H1"], {"recalib_H1_a": [sym("a%d" % i) for i in range(start, start + n)], "recalib_index_H1": [const(i) for i in range(start, start + n)]}) \
                or rows(r, draws["H1"], [[curve("H1", i, j) for j in range(2)] for i in range(start, start + n)], dec) \
                or (None if set(hold["par"].items) == {"recalib_H1_a"} else "the model's own parameters are changed")
        r.report("table", "precomputed curves from %d" % start, f, r.run(thunk), judge)
    # write and read
    wr, rd = prog.by_qual.get(M + "write_calibration_file"), prog.by_qual.get(M + "read_calibration_file")
    if wr is not None and rd is not None:
        def stored(lab, with_par):
            cv = Arr(Arr(sym("r%d%d" % (i, j)) * A.exp(A.I * sym("p%d%d" % (i, j))) for j in range(3)) for i in range(4))
            par = Table({"recalib_H1_a": [sym("a%d" % i) for i in range(4)]})

            def to_hdf(it, a, k):
                name, key = (a[0], a[1] if len(a) > 1 else k["key"])
                lab.store.setdefault(name, {})["hdf " + key] = par
            par.hooks["to_hdf"] = to_hdf
            lab.it.apply(Fn(wr), ["file.h5", Arr(const(20 + 5 * j) for j in range(3)), cv] + ([par] if with_par else []), {})
            return cv

        for start, n, with_par, fs in ((0, 4, True, (20, 25, 30)), (0, 2, True, (20, 30)), (1, 2, True, (20, 25, 30)), (2, 2, False, (25, 30)), (1, 3, True, (15, 20, 35))):
            want = [[ONE if not 20 <= x <= 30 else sym("r%d%d" % (i, (x - 20) // 5)) * A.exp(A.I * sym("p%d%d" % (i, (x - 20) // 5))) for x in fs] for i in range(start, start + n)]

            def thunk(dec, start=start, n=n, with_par=with_par, fs=fs):
                lab = Lab(prog, dec)
                stored(lab, with_par)
                return lab.it.apply(Fn(rd), ["file.h5", Arr(const(x) for x in fs), const(n), const(start)], {})

            def judge(got, dec, start=start, n=n, with_par=with_par, want=want):
                draws, par = got
                m = rows(r, draws, want, dec)
                if m:
                    return m
                if not with_par:
                    return None if par is None else "parameters which are not in the file are returned"
                if isinstance(par, Table) and par.size() != n:
                    return "%d rows of parameters are returned for %d curves" % (par.size(), n)
                return same_table(par, {"recalib_H1_a": [sym("a%d" % i) for i in range(start, start + n)]})
            r.report("table", "file of curves%s, %d from %d at %s" % ("" if with_par else " without parameters", n, start, fs), rd, r.run(thunk), judge)

        def thunk(dec):
            lab, ifos, pri, fs, keep = setting(prog, dec, "narrow")
            for ifo in ifos:
                lab.store["%s.h5" % ifo.attrs["name"]] = {}
            lab.it.ext[M + "read_calibration_file"] = lambda i, a, k: T((("read",) + tuple(a[:1]) + tuple(list(a[1])) + tuple(a[2:]) + tuple(k.values()), sym("par")))
            ifos[1].attrs["name"] = "V1"
            lab.store["V1_calibration_file.h5"] = {}
            got = lab.it.apply(Fn(f), [ifos], dict(lookup_files={"H1": "H1.h5"}, priors=pri, number_of_response_curves=const(2), starting_index=const(5)))
            return [(got[0][d], ("read", name) + tuple(fs) + (const(2), const(5))) for d, name in (("H1", "H1.h5"), ("V1", "V1_calibration_file.h5"))]
        r.report("table", "curves looked up in files", f, r.run(thunk), lambda got, dec: next(("reads %s" % (g,) for g, w in got if tuple(g) != tuple(w)), None))
    # a model made from a prior
    for name in ("constant_uncertainty_spline", "from_envelope_file"):
        g = pre.find(name)
        if g is None:
            continue

        def thunk(dec, name=name):
            pts = [Fraction(0), Fraction(4, 3), Fraction(3)]
            fs, logs = grid(NODES, pts)
            args = {}

            def make(it, a, k):
                args.update(k)
                keys = ["recalib_H1_%s_%d" % (q, j) for q in ("amplitude", "phase") for j in range(NODES)]
                return Obj("pd", {}, {"sample": lambda i, a, k: {q: Arr(sym("%s:%d" % (q, i)) for i in range(integer(a[0] if a else k["size"]))) for q in keys}})
            lab = Lab(prog, dec, logs, externals={"bilby.gw.prior.CalibrationPriorDict." + name: make})
            first = dict(amplitude_sigma=sym("sa"), phase_sigma=sym("sp")) if name.startswith("const") else dict(envelope="env.txt")
            o = lab.it.apply(lab.it.getattr(Cls(pre), name), [], dict(first, frequency_array=Arr(fs), n_nodes=const(NODES), label="H1", n_curves=const(2)))
            want = {"minimum_frequency": LO, "maximum_frequency": HI, "n_nodes": const(NODES), "label": "H1"}
            want.update(first if name.startswith("const") else {"envelope_file": "env.txt"})
            out = [("argument " + q, args.get(q), w) for q, w in want.items()]
            for i in range(2):
                got = lab.it.method(o, "get_calibration_factor", Arr(fs), recalib_index_H1=const(i))
                par = lab.it.getattr(o, "parameters")
                for g1, x in zip(got, pts):
                    out.append(("curve %d" % i, g1, factor(NODES, x, lambda j: par.items["recalib_H1_amplitude_%d" % j][i], lambda j: par.items["recalib_H1_phase_%d" % j][i])))
            return out
        r.report("table", "curves made by %s" % name, g, r.run(thunk),
                 lambda got, dec: next(("%s is %s instead of %s" % (n, str(g)[:80], str(w)[:80]) for n, g, w in got
                                        if not (r.equal(g, w, dec) if isinstance(w, E) else g == w)), None))


def priors(ctx, r, prog):
    c = prog.classes.get("bilby.gw.prior.CalibrationPriorDict")
    if c is None:
        return
    for name in ("constant_uncertainty_spline", "from_envelope_file"):
        f = c.find(name)
        if f is None:
            continue
        for n in (2, 5):
            def thunk(dec, name=name, n=n):
                def family(q):
                    return lambda it, a, k: Obj(q, dict(zip({"Gaussian": ("mu", "sigma", "name"), "DeltaFunction": ("peak", "name")}[q], a), **k))
                splined = []

                def ius(it, a, k):
                    b = dict(zip(("x", "y"), a), **k)
                    x, y = list(b["x"]), list(b["y"])
                    return Py(lambda it, a, k: Arr(A.fn("@ius", *(x + y + [q])) for q in a[0]))
                lab = Lab(prog, dec, externals={
                    "bilby.core.prior.analytical.Gaussian": family("Gaussian"), "bilby.core.prior.analytical.DeltaFunction": family("DeltaFunction"),
                    "bilby.gw.prior.CalibrationPriorDict": lambda it, a, k: Obj("pd", {}, {}, {}),
                    "scipy.interpolate.InterpolatedUnivariateSpline": ius, "os.path.abspath": lambda it, a, k: a[0],
                    "numpy.genfromtxt": lambda it, a, k: Arr(Arr(sym("env%d_%d" % (i, j)) for j in range(7)) for i in range(3))})
                first = dict(amplitude_sigma=sym("sa"), phase_sigma=sym("sp")) if name.startswith("const") else dict(envelope_file="env.txt")
                got = lab.it.apply(Fn(f), [], dict(first, minimum_frequency=sym("fa"), maximum_frequency=sym("fb"), n_nodes=const(n), label="H1"))
                return {q: dict(v.attrs, kind=v.cls if isinstance(v.cls, str) else v.label) for q, v in got.items.items()}

            def judge(got, dec, name=name, n=n):
                la, lb = A.fn("log", sym("fa")), A.fn("log", sym("fb"))
                col = [[sym("env%d_%d" % (i, j)) for i in range(3)] for j in range(7)]
                half = const(Fraction(1, 2))
                want = {}
                for j in range(n):
                    t = const(Fraction(j, n - 1))
                    x = la + (lb - la) * t
                    if name.startswith("const"):
                        am, asig, pm, psig = ZERO, sym("sa"), ZERO, sym("sp")
                    else:
                        xs = [A.fn("log", q) for q in col[0]]

                        def sp(ys):
                            return A.fn("@ius", *(xs + ys + [x]))
                        am, pm = sp([q - ONE for q in col[1]]), sp(col[2])
                        asig, psig = sp([(b - a) * half for a, b in zip(col[3], col[5])]), sp([(b - a) * half for a, b in zip(col[4], col[6])])
                    want["recalib_H1_amplitude_%d" % j] = dict(mu=am, sigma=asig)
                    want["recalib_H1_phase_%d" % j] = dict(mu=pm, sigma=psig)
                    want["recalib_H1_frequency_%d" % j] = dict(peak=A.exp(x))
                if set(got) != set(want):
                    return "priors of %s" % ", ".join(sorted(set(got) ^ set(want)))[:100]
                for key, w in want.items():
                    for q, v in w.items():
                        if q not in got[key] or not r.equal(got[key][q], v, dec):
                            return "%s of %s is %s instead of %s" % (q, key, str(got[key].get(q))[:100], str(v)[:100])
                    if got[key].get("name") != key:
                        return "the prior of %s is called %s" % (key, got[key].get("name"))
                return None
            r.report("priors", "%s, %d nodes" % (name, n), f, r.run(thunk), judge)


def equality(ctx, r, prog):
    c, b, p = (prog.classes.get(M + x) for x in ("CubicSpline", "Recalibrate", "Precomputed"))
    if c is None or b is None or p is None:
        return
    _, logs = grid(4, POINTS[:1])
    logs[sym("fother")] = const(9)
    spl = lambda lab, pre="recalib_H1_", lo=LO, hi=HI, n=4: lab.it.new(c, [pre, lo, hi, const(n)], {})
    cases = [("equal splines", lambda lab: (spl(lab), spl(lab)), True), ("splines of other detectors", lambda lab: (spl(lab), spl(lab, "recalib_L1_")), False),
             ("splines over other frequencies", lambda lab: (spl(lab), spl(lab, hi=sym("fother"))), False), ("splines of more nodes", lambda lab: (spl(lab), spl(lab, n=5)), False),
             ("no calibration", lambda lab: (lab.it.new(b, [], {}), lab.it.new(b, [], {})), True),
             ("equal curves", lambda lab: (precomputed(lab, p)[0], precomputed(lab, p)[0]), True),
             ("fewer curves", lambda lab: (precomputed(lab, p)[0], precomputed(lab, p, ncurves=2)[0]), False)]
    for what, make, want in cases:
        def thunk(dec, make=make):
            lab = Lab(prog, dec, logs)
            x, y = make(lab)
            return [lab.it.truth(lab.it.equal(x, y)), lab.it.truth(lab.it.equal(y, x))]
        r.report("equal", what, b.find("__eq__") or b.find("__init__"), r.run(thunk),
                 lambda got, dec, want=want: None if got == [want, want] else "are %s" % ("different" if want else "equal"))


_CAL = """
import numpy as np
class Recalibrate(object):
    def __init__(self, prefix='recalib_'):
        self.params = dict()
        self.prefix = prefix
class CubicSpline(Recalibrate):
    def __init__(self, prefix, minimum_frequency, maximum_frequency, n_points):
        super(CubicSpline, self).__init__(prefix=prefix)
        self.n = n_points
        self.x = np.linspace(np.log10(minimum_frequency), np.log10(maximum_frequency), n_points)
        m, s = np.zeros((self.n, self.n)), np.zeros((self.n, self.n))
        m[0, 0], m[0, 1], m[0, 2] = -1, 2, -1
        m[-1, -3], m[-1, -2], m[-1, -1] = -1, 2, -1
        for i in range(1, self.n - 1):
            m[i, i - 1], m[i, i], m[i, i + 1] = 1 / 6, 2 / 3, 1 / 6
            s[i, i - 1], s[i, i], s[i, i + 1] = 1, -2, 1
        self.c = np.linalg.solve(m, s)
    def set_calibration_parameters(self, **params):
        self.params.update({key[len(self.prefix):]: params[key] for key in params if self.prefix in key})
    def spline(self, kind, t):
        v = np.array([self.params[kind + '_' + str(i)] for i in range(self.n)])
        w = self.c.dot(v)
        j = np.clip(np.floor(t).astype(int), 0, self.n - 2)
        b = t - j
        a = 1 - b
        return a * v[j] + b * v[j + 1] + (a ** 3 - a) / 6 * w[j] + (b ** 3 - b) / 6 * w[j + 1]
    def get_calibration_factor(self, frequency_array, **params):
        self.set_calibration_parameters(**params)
        t = (np.log10(frequency_array) - self.x[0]) / (self.x[1] - self.x[0])
        return (1 + self.spline('amplitude', t)) * (2 + 1j * self.spline('phase', t)) / (2 %s 1j * self.spline('phase', t))
"""

SELFTESTS = [
    ("spline", {"bilby/gw/detector/calibration.py": _CAL % "-"}, None),
    ("conjugate", {"bilby/gw/detector/calibration.py": _CAL % "+"}, "spline"),
]
