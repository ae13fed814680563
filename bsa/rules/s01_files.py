"""S01: a result or prior dictionary read back from a file is the one that was saved."""
import ast
import re
from fractions import Fraction

from .. import algebra as A
from ..algebra import E, const, sym
from ..frame import Table, Ser, EXTERNALS
from ..interp import Interp, Obj, Arr, T, Fn, Lam, Cls, Ext, PyExc, Frame, integer, unhash
from ..oblig import Rule
from ..program import Class
from ..store import Store, Scalar, Complex, Span, Text
from ..valnum import Undecided, World, NAN, INF, NINF, Sp

TITLE = "a result or prior dictionary read back from a file is the one that was saved"
EXPLANATION = (
    "Abstract evaluation of writer and reader together: Result objects with every field set (uninterpreted numbers, arrays, data frames, nested dictionaries, priors of several "
    "kinds) are written with save_to_file to files kept in memory and read with read_in_result and the from_ constructors in every format; each constructor field, column, prior class, prior argument "
    "and the sharing of joint distributions is compared. The JSON encoder and decoder and the HDF5 encoder and decoder are also composed value kind by value kind, and "
    "PriorDict.to_json with from_json, and lines of prior files of every documented form are read and compared with the priors they describe.")
ASSUMPTIONS = ["json, gzip, h5py, dill and pandas store what they are given (JSON knows no tuples; HDF5 lists keys alphabetically and holds no empty groups)",
               "posteriors of three rows and two sampled parameters stand for larger ones"]

R = "bilby.core.result."
P = "bilby.core.prior."
IO = "bilby.core.utils.io."


class Lab:
    def __init__(self, prog, dec):
        self.prog, self.w = prog, World([], dec, scalar=True)
        e = dict(EXTERNALS)
        e.update({"inspect.getfullargspec": self.spec, "os.path.abspath": lambda i, a, k: a[0],
                  "bilby.core.utils.log.get_version_information": lambda i, a, k: "v", "bilby.core.utils.get_version_information": lambda i, a, k: "v",
                  "bilby.core.utils.io.check_directory_exists_and_if_not_mkdir": lambda i, a, k: None,
                  "numpy.asarray": self.asarray, "numpy.array": self.asarray})
        self.it = Interp(prog, self.w, limit=400000, externals=e)
        self.store = Store(self.it, lambda v: self.it.deepcopy(v, {}))
        self.it.text = self.text
        self.it.ext.update({"builtins.repr": lambda i, a, k: self.rep(a[0]), "builtins.eval": self.eval, "re.sub": lambda i, a, k: re.sub(*self.strs(a)), "re.match": self.match,
                            "numpy.arange": lambda i, a, k: Arr(const(x) for x in range(*[integer(y) for y in a])) if all(integer(y) is not None for y in a) else sym("grid"),
                            "re.findall": lambda i, a, k: [T(x) if isinstance(x, tuple) else x for x in re.findall(*self.strs(a))], "scipy.special.hyp2f1": lambda i, a, k: sym("hyp"),
                            "numpy.nanmax": lambda i, a, k: i.numeric("max", a, k, "numpy.max"), "numpy.nanmin": lambda i, a, k: i.numeric("min", a, k, "numpy.min"),
                            "scipy.interpolate.interp1d": lambda i, a, k: Obj("interp"), "scipy.integrate.cumulative_trapezoid": lambda i, a, k: Arr(a[0]),
                            "bilby.core.utils.interpolate.interp1d": lambda i, a, k: Obj("interp"),
                            "bilby.core.prior.interpolated.Interped._update_instance": lambda i, a, k: None, "bilby.core.prior.interpolated.Interped._initialize_attributes": lambda i, a, k: None})

    # -- text of values and back ---------------------------------------------------------
    def strs(self, a):
        if not all(isinstance(x, str) for x in a):
            raise Undecided("text")
        return a

    def match(self, it, a, k):
        m = re.match(*self.strs(a))
        return None if m is None else Obj("match", {}, {"__getitem__": lambda i, x, y: m[x[0]], "group": lambda i, x, y: m[x[0]]})

    def text(self, v):
        return v if isinstance(v, str) else "?" if isinstance(v, Ext) else self.rep(v)

    def rep(self, v):
        if isinstance(v, E):
            if not A.is_const(v):
                raise Undecided("text of a number")
            c = A.const_of(v)
            if Fraction(repr(float(c))) != c:
                raise Undecided("text of a number")
            return str(int(c)) if c.denominator == 1 else repr(float(c))
        if isinstance(v, Sp):
            return {INF: "inf", NINF: "-inf", NAN: "nan"}[v]
        if v is None or isinstance(v, (str, bool, bytes)):
            return repr(v)
        if isinstance(v, Arr):
            return "array(%s)" % self.rep(list(v))
        if isinstance(v, list):
            return "[%s]" % ", ".join(self.rep(x) for x in v)
        if isinstance(v, T):
            return "(%s%s)" % (", ".join(self.rep(x) for x in v), "," if len(v) == 1 else "")
        if isinstance(v, dict):
            return "{%s}" % ", ".join("%s: %s" % (self.rep(unhash(k)), self.rep(x)) for k, x in v.items())
        if isinstance(v, Obj) and not isinstance(v.cls, str) and (v.cls.find("__repr__") is not None or v.cls.find("__str__") is not None):
            return self.it.method(v, "__repr__" if v.cls.find("__repr__") is not None else "__str__")
        raise Undecided("text of %s" % show(v))

    def eval(self, it, a, k):
        try:
            tree = ast.parse(a[0], mode="eval")
        except SyntaxError:
            raise PyExc("SyntaxError")
        env = {}
        for d in a[1:]:
            env.update(d)
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id not in env and n.id not in ("True", "False", "None", "dict", "list"):
                raise PyExc("NameError")
        return Frame(it, None, self.prog.modules[P + "base"], None).expr(tree.body, env)

    def asarray(self, it, a, k):
        v = a[0]
        dt = k.get("dtype", a[1] if len(a) > 1 else None)
        if isinstance(v, (list, T)) and not isinstance(v, E) and all(isinstance(x, (str, bytes, bool)) or x is None for x in v):
            v = Arr(v)
            if dt == "S":
                return Arr(x.encode() if isinstance(x, str) else x for x in v)
            return v
        if dt is not None:
            raise Undecided("dtype")
        return it.arr(v)

    def spec(self, it, a, k):
        f = a[0]
        if isinstance(f, Cls):
            f = it.getattr(f, "__init__")
        if isinstance(f, Fn):
            return Obj("spec", {"args": list(f.func.params)})
        if isinstance(f, Lam):
            return Obj("spec", {"args": [x.arg for x in f.node.args.args]})
        raise Undecided("signature")

    def make(self, qual, *a, **k):
        c = self.prog.classes.get(qual)
        if c is None:
            raise Undecided("no class %s" % qual)
        return self.it.new(c, a, k)

    def call(self, qual, *a, **k):
        mod, _, name = qual.rpartition(".")
        s = self.prog.modules[mod].symbols.get(name) if mod in self.prog.modules else None
        if s is None or s[0] != "func":
            raise Undecided("no function %s" % qual)
        return self.it.apply(Fn(s[1]), list(a), k)


# -- comparison -------------------------------------------------------------------------------
SKIP = {"least_recently_sampled", "_cached_normalizations", "_kde", "_resolved", "_unconditional_keys", "_conditional_keys", "_rescale_keys", "_rescale_indexes", "_least_recently_rescaled_keys"}


class Compare:
    """differences between what was saved and what was read; `loose`: JSON or HDF5 (no tuples, arrays for number lists in HDF5)"""

    def __init__(self, it, fmt):
        self.it, self.fmt, self.shared = it, fmt, {}

    def diff(self, a, b, at):
        if isinstance(a, Scalar):
            a = a.value
        if isinstance(b, Scalar):
            b = b.value
        if isinstance(a, bool) or isinstance(b, bool):
            return None if a is b else "%s: %s is read as %s" % (at, a, show(b))
        if a is None or isinstance(a, (str, bytes, E, Sp)) and not isinstance(a, (Arr,)):
            return None if type(a) is type(b) and a == b else "%s: %s is read as %s" % (at, show(a), show(b))
        if isinstance(a, Complex):
            if isinstance(b, Complex):
                return self.diff(T(a.pair), T(b.pair), at)
            return "%s: a complex number is read as %s" % (at, show(b))
        if isinstance(a, Span):
            return self.diff(a.v, b.v, at) if isinstance(b, Span) else "%s: a time span is read as %s" % (at, show(b))
        if isinstance(a, Table):
            if not isinstance(b, Table):
                return "%s: a data frame is read as %s" % (at, show(b))
            la, lb = list(a.items), list(b.items)
            if (sorted(la) != sorted(lb)) if self.fmt == "hdf5" else la != lb:
                return "%s: columns %s are read as %s" % (at, la, lb)
            for n in la:
                d = self.diff(Arr(a.items[n]), Arr(b.items[n]), "%s column %s" % (at, n))
                if d:
                    return d
            return None
        if isinstance(a, Ser):
            return self.diff(Arr(a), Arr(b), at) if isinstance(b, Ser) else "%s: a series is read as %s" % (at, show(b))
        if isinstance(a, (list, T)):
            kinds = (Arr,) if isinstance(a, Arr) else (list, T)
            if self.fmt == "json" and isinstance(b, Arr) != isinstance(a, Arr) or not isinstance(b, kinds + ((Arr, list) if self.fmt == "hdf5" else ())):
                return "%s: %s is read as %s" % (at, show(a), show(b))
            if self.fmt == "pkl" and type(a) is not type(b):
                return "%s: %s is read as %s" % (at, show(a), show(b))
            if len(a) != len(b):
                return "%s: %d elements are read as %d" % (at, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                d = self.diff(x, y, "%s element %d" % (at, i))
                if d:
                    return d
            return None
        if isinstance(a, dict):
            if not isinstance(b, dict):
                return "%s: a dictionary is read as %s" % (at, show(b))
            if set(a) != set(b):
                return "%s: keys %s are read as %s" % (at, sorted(map(str, a)), sorted(map(str, b)))
            for n in a:
                d = self.diff(a[n], b[n], "%s[%s]" % (at, n))
                if d:
                    return d
            return None
        if isinstance(a, (Fn, Cls)):
            x, y = (v.func if isinstance(v, Fn) else v.cls if isinstance(v, Cls) else v for v in (a, b))
            return None if x is y else "%s: %s is read as %s" % (at, show(a), show(b))
        if isinstance(a, Obj) and not isinstance(a.cls, str):
            if not isinstance(b, Obj):
                return "%s: %s is read as %s" % (at, show(a), show(b))
            if a.cls is not b.cls:
                return "%s: a %s is read as a %s" % (at, a.cls.name, getattr(b.cls, "name", b.cls))
            if self.shared.setdefault(id(a), b) is not b:
                return "%s: one shared %s is read as separate objects" % (at, a.cls.name)
            if (id(a), id(b)) in self.shared:
                return None
            self.shared[(id(a), id(b))] = b
            if isinstance(a.items, dict):
                d = self.diff(a.items, b.items, at)
                if d:
                    return d
            for n in self.fields(a):
                d = self.diff(self.value(a, n), self.value(b, n), "%s.%s" % (at, n))
                if d:
                    return d
            return None
        if isinstance(a, Lam) and isinstance(b, Lam):
            return None
        raise Undecided("comparison of %s with %s" % (show(a), show(b)))

    def fields(self, o):
        """the constructor arguments an object keeps, and its plain attributes"""
        f = o.cls.find("__init__")
        out = [p for p in (f.params[1:] if f is not None else []) if p in o.attrs or "_" + p in o.attrs or o.cls.is_property(p)]
        return out + [n for n in o.attrs if n not in SKIP and n not in out and n.lstrip("_") not in out]

    def value(self, o, n):
        return o.attrs[n] if n in o.attrs else self.it.getattr(o, n)


def show(v):
    if isinstance(v, Obj) and not isinstance(v.cls, str):
        return "a " + v.cls.name
    return {Arr: "an array", dict: "a dictionary", Table: "a data frame", Ser: "a series", Text: "text", Fn: "a function", Cls: "a class"}.get(type(v)) or str(v)[:60]


# -- priors ---------------------------------------------------------------------------------------
def priors(lab, kind):
    pd, an, jo, co = P + "dict.", P + "analytical.", P + "joint.", P + "conditional."
    if kind == "plain":
        return lab.make(pd + "PriorDict", {
            "a": lab.make(an + "Uniform", minimum=const(Fraction("-2.5")), maximum=const(Fraction("7")), name="a", latex_label="$a$", unit="m", boundary="periodic"),
            "b": lab.make(an + "Gaussian", mu=const(Fraction("3")), sigma=const(Fraction("4.25")), name="b"),
            "c": lab.make(an + "DeltaFunction", peak=const(Fraction("9.5")), name="c"),
            "d": lab.make(P + "base.Constraint", minimum=const(Fraction("-1")), maximum=const(Fraction("1")), name="d")})
    if kind == "conditional":
        return lab.make(pd + "ConditionalPriorDict", {
            "a": lab.make(an + "Uniform", minimum=const(Fraction("-2.5")), maximum=const(Fraction("7")), name="a"), "b": lab.make(an + "Gaussian", mu=const(Fraction("3")), sigma=const(Fraction("4.25")), name="b")})
    if kind == "conditioned":
        f = lab.prog.by_qual.get("bilby.gw.conversion.chirp_mass_and_mass_ratio_to_total_mass")
        if f is None:
            raise Undecided("no condition function")
        return lab.make(pd + "ConditionalPriorDict", {
            "a": lab.make(an + "Uniform", minimum=const(Fraction("-2.5")), maximum=const(Fraction("7")), name="a"),
            "b": conditional(lab, "Uniform", condition_func=Fn(f), minimum=const(Fraction("3")), maximum=const(Fraction("4.25")), name="b")})
    if kind == "joint":
        dist = lab.make(jo + "BaseJointPriorDist", names=["a", "b"], bounds=[T([const(Fraction("-2.5")), const(Fraction("7"))]), T([const(Fraction("3")), const(Fraction("4.25"))])])
        return lab.make(pd + "PriorDict", {n: lab.make(jo + "JointPrior", dist=dist, name=n) for n in ("a", "b")})
    if kind == "binary":
        return lab.make("bilby.gw.prior.BBHPriorDict", {
            "a": lab.make(an + "Uniform", minimum=const(Fraction("-2.5")), maximum=const(Fraction("7")), name="a"), "b": lab.make(an + "Gaussian", mu=const(Fraction("3")), sigma=const(Fraction("4.25")), name="b")})
    if kind == "dirichlet":
        return lab.make(pd + "DirichletPriorDict", n_dim=const(3), label="x_")
    raise KeyError(kind)


def conditional(lab, family, **kw):
    """an instance of the conditional class the factory makes of a family"""
    orig = next((c for q, c in lab.prog.classes.items() if q.startswith(P + "conditional.") and q.endswith(".ConditionalPrior")), None)
    base = lab.prog.classes.get(P + "analytical." + family)
    if orig is None or base is None:
        raise Undecided("no conditional priors")
    name = "Conditional" + family
    c = Class(orig.module, orig.node, name, P + "conditional." + name, None)
    c._mro = [c, orig] + base.mro()
    for n in ("conditional." + name, name):
        lab.it.ext[P + n] = Cls(c)
    return lab.it.new(c, (), kw)


KINDS = ("plain", "conditional", "joint", "binary", "conditioned")


# -- results ------------------------------------------------------------------------------------------
def table(tag, cols):
    return Table({c: Arr(sym("%s_%s%d" % (tag, c, i)) for i in range(3)) for c in cols})


def fields(lab, kind, full=True):
    pri = priors(lab, kind)
    out = dict(label="lab", outdir="out", sampler="nestle", search_parameter_keys=["b", "a"], fixed_parameter_keys=["c"], constraint_parameter_keys=["d"], priors=pri,
               sampler_kwargs={"nlive": const(500), "sample": "rwalk", "bound": None, "verbose": True}, injection_parameters={"a": sym("ia"), "b": sym("ib")},
               meta_data={"likelihood": {"type": "x", "numbers": Arr(sym("m%d" % i) for i in range(3)), "deep": {"none": None, "flag": False}}, "seed": const(7)},
               posterior=table("p", ("b", "a", "log_likelihood")), log_evidence=sym("lz"), log_evidence_err=sym("lze"), log_noise_evidence=sym("lzn"), log_bayes_factor=sym("lbf"),
               sampling_time=sym("time"), use_ratio=True, version="bilby=1", parameter_labels=["$b$", "$a$"], parameter_labels_with_unit=["$b$", "$a$ [m]"])
    if full:
        out.update(samples=Arr(Arr([sym("s%d" % i), sym("t%d" % i)]) for i in range(3)), nested_samples=table("n", ("b", "a", "weights")),
                   walkers=Arr(Arr(Arr([sym("w%d%d" % (i, j)), sym("v%d%d" % (i, j))]) for j in range(2)) for i in range(3)), nburn=const(4), max_autocorrelation_time=sym("act"),
                   log_likelihood_evaluations=Arr(sym("l%d" % i) for i in range(3)), log_prior_evaluations=Arr(sym("q%d" % i) for i in range(3)), num_likelihood_evaluations=const(99),
                   information_gain=sym("gain"))
    else:
        out.update(log_noise_evidence=NAN, log_bayes_factor=NAN, use_ratio=False, injection_parameters=None, sampling_time=None, parameter_labels=[None, "x"])
    return out


def results(r, ctx, prog):
    cls = prog.classes.get(R + "Result")
    save, read = cls and cls.methods.get("save_to_file"), prog.modules[R[:-1]].symbols.get("read_in_result")
    if save is None or read is None or cls.find("__init__") is None:
        ctx.undecided("results", "save_to_file", "not found")
        return
    init = cls.find("__init__")
    for kind in KINDS:
        for fmt, gz in (("json", False), ("json", True), ("hdf5", False), ("pkl", False)):
            if gz and kind != "plain":
                continue
            for how in (("label", "class", "named") if kind == "plain" else ("label",)):
                for full in ((True, False) if kind == "plain" and how == "label" else (True,)):
                    def thunk(dec, kind=kind, fmt=fmt, gz=gz, how=how, full=full):
                        lab = Lab(prog, dec)
                        res = lab.it.new(cls, (), fields(lab, kind, full))
                        orig = lab.it.deepcopy(res, {})
                        name = "there/other." + fmt + (".gz" if gz else "")
                        if how == "named":
                            lab.it.apply(Fn(save, res, cls), [], {"filename": name, "extension": fmt, "gzip": gz})
                        else:
                            lab.it.apply(Fn(save, res, cls), [], {"extension": fmt, "gzip": gz})
                        if how == "named":
                            got = lab.call(R + "read_in_result", filename=name)
                        elif how == "class":
                            kw = {"outdir": "out", "label": "lab"}
                            if gz:
                                kw["gzip"] = True
                            got = lab.it.apply(lab.it.getattr(Cls(cls), {"json": "from_json", "hdf5": "from_hdf5", "pkl": "from_pickle"}[fmt]), [], kw)
                        else:
                            got = lab.call(R + "read_in_result", outdir="out", label="lab", extension=fmt, gzip=gz)
                        return lab, orig, res, got

                    def judge(got, dec, fmt=fmt):
                        lab, orig, res, back = got
                        if not isinstance(back, Obj) or back.cls is not cls:
                            return "reading gives %s" % show(back)
                        before, after = Compare(lab.it, "pkl"), Compare(lab.it, fmt)
                        for n in init.params[1:]:
                            d = before.diff(field(lab, orig, n), field(lab, res, n), n)
                            if d:
                                return "saving changes the result: " + d
                            d = after.diff(field(lab, orig, n), field(lab, back, n), n)
                            if d:
                                return d
                        return None
                    r.report("results", "%s priors, %s%s, read by %s%s" % (kind, fmt, ".gz" if gz else "", how, "" if full else ", optional fields missing"), save, r.run(thunk), judge)
    others(r, prog, cls, save, init)


def others(r, prog, base, save, init):
    """results of a derived class, files already there and values that cannot be stored"""
    derived = prog.classes.get("bilby.gw.result.CompactBinaryCoalescenceResult")

    def same(lab, orig, back, fmt, want):
        if not isinstance(back, Obj) or back.cls is not want:
            return "reading gives %s" % show(back)
        comp = Compare(lab.it, fmt)
        for n in init.params[1:]:
            d = comp.diff(field(lab, orig, n), field(lab, back, n), n)
            if d:
                return d
        return None

    for fmt in ("json", "hdf5", "pkl"):
        if derived is not None:
            def thunk(dec, fmt=fmt):
                lab = Lab(prog, dec)
                res = lab.it.new(derived, (), fields(lab, "plain"))
                lab.it.apply(Fn(save, res, derived), [], {"extension": fmt})
                return lab, res, lab.call(R + "read_in_result", outdir="out", label="lab", extension=fmt, result_class=Cls(derived) if fmt == "json" else None)
            r.report("results", "compact binary result, " + fmt, save, r.run(thunk), lambda got, dec, fmt=fmt: same(got[0], got[1], got[2], fmt, derived))
        for overwrite in (False, True):
            def again(dec, fmt=fmt, overwrite=overwrite):
                lab = Lab(prog, dec)
                res, new = lab.it.new(base, (), fields(lab, "plain")), lab.it.new(base, (), fields(lab, "plain", False))
                lab.it.apply(Fn(save, res, base), [], {"extension": fmt})
                first = set(lab.store.files)
                lab.it.apply(Fn(save, new, base), [], {"extension": fmt, "overwrite": overwrite})
                back = lab.call(R + "read_in_result", outdir="out", label="lab", extension=fmt)
                left = [n for n in lab.store.files if n not in first]
                old = None
                if not overwrite and len(left) == 1:
                    lab.it.ext["shutil.move"](lab.it, [left[0], "before." + fmt], {})
                    old = lab.call(R + "read_in_result", filename="before." + fmt)
                return lab, res, new, back, old

            def kept(got, dec, fmt=fmt, overwrite=overwrite):
                lab, res, new, back, old = got
                d = same(lab, new, back, fmt, base)
                if d is None and not overwrite:
                    d = "the file that was there is gone" if old is None else same(lab, res, old, fmt, base)
                    d = d and "the earlier file: " + d
                return d
            r.report("results", "%s where a file exists%s" % (fmt, ", overwriting" if overwrite else ""), save, r.run(again), kept)
        if fmt == "pkl":
            continue

        def odd(dec, fmt=fmt):
            lab = Lab(prog, dec)
            kw = fields(lab, "plain")
            kw["meta_data"] = {"likelihood": Obj("thing")}
            res = lab.it.new(base, (), kw)
            lab.it.apply(Fn(save, res, base), [], {"extension": fmt})
            return lab, res, lab.call(R + "read_in_result", outdir="out", label="lab", extension="pkl")
        r.report("results", "%s with a value it cannot hold" % fmt, save, r.run(odd), lambda got, dec: None if isinstance(got[2], Obj) and got[2].cls is base else "the pickle is not readable")


def field(lab, o, n):
    try:
        return lab.it.getattr(o, n)
    except PyExc as e:
        if e.name == "ValueError":
            return None         # not stored
        raise



# -- prior files ------------------------------------------------------------------------------------
def prior_files(r, ctx, prog):
    cls = prog.classes.get(P + "dict.PriorDict")
    f, g = (cls.methods.get("to_json"), cls.methods.get("from_json")) if cls else (None, None)
    if f is None or g is None:
        ctx.undecided("priors", "PriorDict.to_json", "not found")
        return
    for kind in KINDS + ("dirichlet",):
        def thunk(dec, kind=kind):
            lab = Lab(prog, dec)
            pri = priors(lab, kind)
            orig = lab.it.deepcopy(pri, {})
            lab.it.method(pri, "to_json", outdir="out", label="lab")
            if set(lab.store.files) != {"out/lab_prior.json"}:
                return "files " + str(sorted(lab.store.files)), lab, None, None
            back = lab.it.apply(lab.it.getattr(Cls(pri.cls), "from_json"), [], {"filename": "out/lab_prior.json"})
            return None, lab, orig, back

        def judge(got, dec):
            why, lab, orig, back = got
            return why or Compare(lab.it, "json").diff(orig, back, "priors")
        r.report("priors", "%s priors through to_json and from_json" % kind, f, r.run(thunk), judge)


# -- every prior class ------------------------------------------------------------------------------
ARGS = {"minimum": "1.5", "maximum": "4.25", "peak": "2.5", "mu": "2.125", "sigma": "0.5", "alpha": "2.75", "beta": "3.5", "df": "4.5", "scale": "0.75", "k": "1.25", "theta": "0.375", "nu": "3",
        "r": "10.5", "ncategories": "5", "mode": "2", "spike_location": "2", "spike_height": "0.25"}
ODD = {"Sine": {"minimum": "0.25", "maximum": "2.5"}, "Cosine": {"minimum": "-0.25", "maximum": "0.5"}, "Beta": {}, "UniformInComponentsMassRatio": {"minimum": "0.125", "maximum": "0.75"},
       "Categorical": {}, "EOSCheck": {}}


def arguments(lab, c, which):
    init = c.find("__init__")
    if init is None:
        raise Undecided("no constructor")
    out = {}
    for p in init.params[1:]:
        if p in ARGS:
            out[p] = const(Fraction(ODD.get(c.name, {}).get(p, ARGS[p])))
        elif p == "name":
            out[p] = "mass_1"
        elif p == "latex_label" and which == "all":
            out[p] = "$\\alpha_{1}$"
        elif p == "unit" and which == "all":
            out[p] = "$M_{\\odot}$"
        elif p == "boundary" and which == "all":
            out[p] = "reflective"
        elif p in ("xx", "yy"):
            out[p] = Arr(const(Fraction(x)) for x in (("1.5", "2", "3", "4.25") if p == "xx" else ("0.5", "1", "2", "0.25")))
        elif p == "slab":
            out[p] = lab.make(P + "analytical.Uniform", minimum=const(1), maximum=const(3), name="mass_1")
        elif p in ("latex_label", "unit", "boundary"):
            continue
        elif p in ("equal_mass", "check_range_nonzero"):
            out[p] = which == "all" and p == "equal_mass"
        else:
            raise Undecided("argument %s" % p)
    return out


SKIPPED = {"JointPrior", "MultivariateGaussian", "MultivariateNormal", "HealPixPrior", "Cosmological", "UniformComovingVolume", "UniformSourceFrame", "FromFile", "AlignedSpin"}


def classes(r, ctx, prog):
    pd = prog.classes.get(P + "dict.PriorDict")
    if pd is None:
        ctx.undecided("classes", "PriorDict", "not found")
        return
    for q, c in sorted(prog.classes.items()):
        if P + "base.Prior" not in [getattr(x, "qual", "") for x in c.mro()] or c.name in SKIPPED or not q.startswith((P, "bilby.gw.prior.")) or c.find("__init__") is None:
            continue
        if any(x.endswith("Factory") or "<" in x for x in q.split(".")) or q.count(".") != (4 if q.startswith("bilby.core") else 3) - (0 if q.startswith("bilby.core") else 0):
            continue
        for which in ("all", "required"):
            for how in ("json", "prior file"):
                if how == "prior file" and c.name in ("Interped", "SlabSpikePrior"):
                    continue
                def thunk(dec, c=c, which=which, how=how):
                    lab = Lab(prog, dec)
                    p = lab.it.new(c, (), arguments(lab, c, which))
                    d = lab.make(P + "dict.PriorDict", {"mass_1": p})
                    keep = lab.it.deepcopy(p, {})
                    if how == "json":
                        lab.it.method(d, "to_json", outdir="out", label="lab")
                        back = lab.it.apply(lab.it.getattr(Cls(pd), "from_json"), [], {"filename": "out/lab_prior.json"})
                    else:
                        lab.it.method(d, "to_file", outdir="out", label="lab")
                        back = lab.make(P + "dict.PriorDict", filename="out/lab.prior")
                    return lab, keep, back

                def judge(got, dec, c=c):
                    lab, keep, back = got
                    if not isinstance(back, Obj) or not isinstance(back.items, dict) or list(back.items) != ["mass_1"]:
                        return "reading gives %s" % show(back)
                    new = back.items["mass_1"]
                    if not isinstance(new, Obj) or new.cls is not c:
                        return "a %s is read as %s" % (c.name, show(new))
                    comp = Compare(lab.it, "json")
                    for n in c.find("__init__").params[1:]:
                        d = comp.diff(lab.it.getattr(keep, n), lab.it.getattr(new, n), n)
                        if d:
                            return d
                r.report("classes", "%s with %s arguments through %s" % (q, which, how), c.find("__init__"), r.run(thunk), judge)
    for kind in ("plain", "conditioned", "joint"):
        def thunk(dec, kind=kind):
            lab = Lab(prog, dec)
            pri = priors(lab, kind)
            orig = lab.it.deepcopy(pri, {})
            lab.it.method(pri, "to_file", outdir="out", label="lab")
            return lab, orig, lab.it.new(pri.cls, (), {"filename": "out/lab.prior"})

        def judge(got, dec):
            lab, orig, back = got
            return Compare(lab.it, "json").diff(orig, back, "priors")
        r.report("classes", "%s priors through a prior file" % kind, pd.methods.get("to_file"), r.run(thunk), judge)


# -- prior files as users write them -----------------------------------------------------------------------
def texts(r, ctx, prog):
    pd, base = prog.classes.get(P + "dict.PriorDict"), prog.classes.get(P + "base.Prior")
    f = base and base.find("from_repr")
    if pd is None or f is None:
        ctx.undecided("texts", "prior files", "not found")
        return
    c = lambda x: const(Fraction(x))
    an = P + "analytical."
    fn = "bilby.gw.conversion.chirp_mass_and_mass_ratio_to_total_mass"
    uni = lambda lab, **k: lab.make(an + "Uniform", **k)
    cases = {
        "keywords": ("Uniform(minimum=-1, maximum=10.5, name='x', latex_label='$x_1$', unit='m', boundary='periodic')", lambda l: uni(l, minimum=c("-1"), maximum=c("10.5"), name="x", latex_label="$x_1$", unit="m", boundary="periodic")),
        "keywords without names": ("Uniform(minimum=-1, maximum=10.5)", lambda l: uni(l, minimum=c("-1"), maximum=c("10.5"))),
        "positional arguments": ("Uniform(-1, 10.5, 'x')", lambda l: uni(l, minimum=c("-1"), maximum=c("10.5"), name="x")),
        "positional and keyword arguments": ("Gaussian(2, sigma=3, name='g')", lambda l: l.make(an + "Gaussian", mu=c(2), sigma=c(3), name="g")),
        "arithmetic": ("Uniform(minimum=2 * 3 - 1, maximum=11 / 2)", lambda l: uni(l, minimum=c(5), maximum=c("5.5"))),
        "a raw label": ("Uniform(minimum=0, maximum=1, latex_label=r'$b$')", lambda l: uni(l, minimum=c(0), maximum=c(1), latex_label="$b$")),
        "None": ("Uniform(minimum=0, maximum=1, name=None, boundary=None)", lambda l: uni(l, minimum=c(0), maximum=c(1))),
        "a class of another module": (an + "Uniform(minimum=0, maximum=1)", lambda l: uni(l, minimum=c(0), maximum=c(1))),
        "a number": ("3.5", lambda l: l.make(an + "DeltaFunction", peak=c("3.5"))),
        "a constraint": ("Constraint(minimum=-1, maximum=2)", lambda l: l.make(P + "base.Constraint", minimum=c(-1), maximum=c(2))),
        "a prior inside a prior": ("SlabSpikePrior(slab=Uniform(minimum=-1, maximum=3), spike_location=0.5, spike_height=0.25)",
                                   lambda l: l.make(P + "slabspike.SlabSpikePrior", slab=uni(l, minimum=c(-1), maximum=c(3)), spike_location=c("0.5"), spike_height=c("0.25"))),
        "a prior of another module inside a prior": ("SlabSpikePrior(slab=%sUniform(minimum=-1, maximum=3, name='s'), spike_location=0.5, spike_height=0.25)" % an,
                                                     lambda l: l.make(P + "slabspike.SlabSpikePrior", slab=uni(l, minimum=c(-1), maximum=c(3), name="s"), spike_location=c("0.5"), spike_height=c("0.25"))),
        "a function": ("ConditionalUniform(condition_func=%s, minimum=0, maximum=1)" % fn, lambda l: conditional(l, "Uniform", condition_func=Fn(l.prog.by_qual[fn]), minimum=c(0), maximum=c(1))),
        "a quoted function": ("ConditionalUniform(condition_func='%s', minimum=0, maximum=1)" % fn, lambda l: conditional(l, "Uniform", condition_func=Fn(l.prog.by_qual[fn]), minimum=c(0), maximum=c(1))),
    }
    for what, (text, make) in cases.items():
        for kind in ("PriorDict", "ConditionalPriorDict") if "function" in what else ("PriorDict",):
            def thunk(dec, text=text, make=make, kind=kind):
                lab = Lab(prog, dec)
                if "Conditional" in text:
                    conditional(lab, "Uniform", condition_func=Fn(prog.by_qual[fn]), minimum=c(0), maximum=c(1))
                want = make(lab)
                lab.store.files["some.prior"] = "# a comment = Uniform(0, 1)\n\n  first = Uniform(minimum=2, maximum=4)\nx = %s\n\n#last = 3\n" % text
                return lab, want, lab.make(P + "dict." + kind, filename="some.prior")

            def judge(got, dec):
                lab, want, back = got
                if not isinstance(back, Obj) or not isinstance(back.items, dict) or list(back.items) != ["first", "x"]:
                    return "the file is read as %s" % (list(back.items) if isinstance(getattr(back, "items", None), dict) else show(back))
                new = back.items["x"]
                if not isinstance(new, Obj) or new.cls is not want.cls:
                    return "it is read as %s" % show(new)
                comp = Compare(lab.it, "json")
                for n in want.cls.find("__init__").params[1:]:
                    d = comp.diff(lab.it.getattr(want, n), lab.it.getattr(new, n), n)
                    if d:
                        return d
            r.report("texts", "%s%s" % (what, "" if kind == "PriorDict" else " for conditional priors"), f, r.run(thunk), judge)


# -- single values --------------------------------------------------------------------------------------
def values(lab):
    fn = lab.prog.by_qual.get("bilby.gw.conversion.chirp_mass_and_mass_ratio_to_total_mass")
    cls = lab.prog.classes.get("bilby.gw.detector.interferometer.Interferometer")
    a, b, c = sym("va"), sym("vb"), sym("vc")
    out = {
        "an integer": const(3), "a number": a, "infinity": INF, "minus infinity": NINF, "not a number": NAN, "text": "some text", "the empty text": "", "True": True, "False": False, "None": None,
        "a numpy integer": Scalar("int64", const(4)), "a numpy number": Scalar("float64", b), "numpy True": Scalar("bool_", True), "numpy False": Scalar("bool_", False),
        "an array": Arr([a, b, c]), "an array of rows": Arr([Arr([a, b]), Arr([c, a]), Arr([b, b])]), "a list of numbers": [a, b, c], "a list of text": ["x", "yy", ""],
        "an empty list": [], "a list of text with None": ["x", None, "z"], "an empty array": Arr(),
    }
    json = {
        "a numpy 32-bit integer": Scalar("int32", const(4)), "a numpy 32-bit number": Scalar("float32", b),
        "a complex number": Complex(a, b), "a data frame": Table({"x": [a, b], "y": [b, c]}), "a series": Ser([a, b]), "a time span": Span(a), "a dictionary": {"x": a, "y": {"z": Arr([b, c])}},
        "a list of mixed values": [a, "x", None, Arr([b]), {"u": c}], "a list of lists": [[a, b], [c]],
    }
    hdf5 = {"a dictionary": {"x": a, "y": {"z": Arr([b, c]), "none": None}}, "a data frame": {"x": Arr([a, b]), "y": Arr([b, c])}, "an array of text": Arr(["x", "yy"]), "a complex number": Complex(a, b)}
    if fn is not None:
        json["a function"] = Fn(fn)
    if cls is not None:
        json["a class"] = Cls(cls)
    return out, json, hdf5


def kinds(r, ctx, prog):
    io = prog.modules.get(IO[:-1])
    enc = prog.classes.get(IO + "BilbyJsonEncoder")
    names = ("decode_bilby_json", "recursively_save_dict_contents_to_group", "recursively_load_dict_contents_from_group")
    fs = [io.symbols.get(n) if io else None for n in names]
    if enc is None or None in fs:
        ctx.undecided("values", "encoders", "not found")
        return
    probe = Lab(prog, {})
    common, json, hdf5 = values(probe)

    def case(fmt, what):
        def thunk(dec):
            lab = Lab(prog, dec)
            c, j, h = values(lab)
            v = {**c, **(j if fmt == "json" else h)}[what]
            keep = lab.it.deepcopy(v, {})
            box = {"first": const(1), "value": v, "last": "end"}
            if fmt == "json":
                text = lab.it.ext["json.dumps"](lab.it, [box], {"cls": Cls(enc)})
                back = lab.it.ext["json.loads"](lab.it, [text], {"object_hook": Fn(fs[0][1])})
            else:
                h5 = lab.it.ext["h5py.File"](lab.it, ["f", "w"], {})
                lab.it.apply(Fn(fs[1][1]), [h5, "/", box], {})
                h5 = lab.it.ext["h5py.File"](lab.it, ["f", "r"], {})
                back = lab.it.apply(Fn(fs[2][1]), [h5, "/"], {})
            return lab, keep, back

        def judge(got, dec):
            lab, keep, back = got
            return Compare(lab.it, fmt).diff({"first": const(1), "value": keep, "last": "end"}, back, "file")
        r.report("values", "%s through %s" % (what, fmt), fs[0][1] if fmt == "json" else fs[1][1], r.run(thunk), judge)
    for what in list(common) + list(json):
        case("json", what)
    for what in list(common) + list(hdf5):
        case("hdf5", what)


def check(ctx):
    r = Rule(ctx)
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("results", "a result read back has the fields, posterior, priors and types that were saved, and saving changes nothing", floor=6 * k)
    ctx.rule("priors", "a prior dictionary read from JSON has the class, priors and shared distributions that were saved", floor=2 * k)
    ctx.rule("values", "every supported kind of value is read back as the kind and value that was stored", floor=10 * k)
    ctx.rule("texts", "a line of a prior file gives the prior of that class with those arguments", floor=6 * k)
    ctx.rule("classes", "every prior class is read back from JSON and prior files with the arguments it was given", floor=20 * k)
    results(r, ctx, ctx.prog)
    prior_files(r, ctx, ctx.prog)
    kinds(r, ctx, ctx.prog)
    classes(r, ctx, ctx.prog)
    texts(r, ctx, ctx.prog)
