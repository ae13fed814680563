"""Dimensional type domain: base-unit exponents, logarithms of dimensional quantities, and (optionally)
the weight of a quantity under a translation of the parameter (point = 1, difference = 0)."""
import ast
import math
from fractions import Fraction

from .absint import BOT, TOP, Bool, Dct, K, Obj, Seq, Str

N = "nonaffine"


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(x).limit_denominator(20000)


def dim(spec):
    """'M^1 T^-1/3' -> canonical dict"""
    if spec is None:
        return None
    if isinstance(spec, frozenset):
        return spec
    d = {}
    for p in spec.split():
        u, _, e = p.partition("^")
        if u == "1":
            continue
        d[u] = d.get(u, Fraction(0)) + (Fraction(e) if e else 1)
    return frozenset((u, e) for u, e in d.items() if e)


DIMLESS = frozenset()


def mul(a, b):
    if a is None or b is None:
        return None
    d = dict(a)
    for u, e in b:
        d[u] = d.get(u, Fraction(0)) + e
    return frozenset((u, e) for u, e in d.items() if e)


def power(a, k):
    if a is None:
        return None
    k = frac(k)
    return frozenset((u, e * k) for u, e in a if e * k)


def show(d):
    if d is None:
        return "?"
    if not d:
        return "dimensionless"
    return " ".join("%s^%s" % (u, e) if e != 1 else u for u, e in sorted(d))


class Num:
    __slots__ = ("d", "w", "masked", "log")

    def __init__(self, d, w=None, masked=False, log=False):
        self.d, self.w, self.masked, self.log = d, w, masked, log

    def __eq__(self, o):
        return isinstance(o, Num) and (self.d, self.w, self.masked, self.log) == (o.d, o.w, o.masked, o.log)

    def __hash__(self):
        return hash((self.d, self.w, self.masked, self.log))

    def __repr__(self):
        return ("Log(%s)" if self.log else "Num(%s)") % show(self.d) + ("" if self.w is None else "/w=%s" % self.w)


class Poly:
    """0, inf, nan: any dimension"""
    def __eq__(self, o):
        return isinstance(o, Poly)

    def __hash__(self):
        return 3

    def __repr__(self):
        return "Poly"


POLY = Poly()


def num(spec, w=None):
    return Num(dim(spec), w)


def lg(spec, w=None):
    d = dim(spec)
    return Num(d, w, log=True) if d else Num(DIMLESS, w)


SAME = set("""abs absolute fabs atleast_1d atleast_2d atleast_3d array asarray asanyarray squeeze copy nan_to_num ravel
reshape transpose sort unique cumsum nansum mean median nanmean nanmedian average max min amax amin nanmax nanmin real imag conj
conjugate flip fliplr flipud roll tile repeat broadcast_to percentile quantile rollaxis swapaxes expand_dims float64 float32
complex128 round around floor ceil trim_zeros pad resample meshgrid column_stack take compress float_ ascontiguousarray
to_numpy astype flatten values tolist item dropna fillna reset_index sort_values to_list nancumsum delete choose full_like_
ffill bfill rint fix copysign view getfield real_if_close head tail sample quantile_ choice trace diagonal diag mod remainder
lower_bound cummax cummin ptp_ interp_ float int complex""".split())
JOINF = set("maximum minimum fmax fmin concatenate hstack vstack append stack dstack r_ c_ linspace arange "
            "clip union1d intersect1d insert nextafter logaddexp logaddexp2 geomspace".split())
DIMLESS_FN = set("""sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh exp2 expm1 log1p
erf erfc erfinv erfcinv gamma gammaln gammainc gammaincinv gammaincc beta betaln betainc btdtr btdtri stdtr stdtrit
norm_cdf ndtr ndtri log_ndtr i0 i0e ive iv jn factorial comb sinc hyp2f1 logit expit spence zeta j0 j1 poch loggamma
multigammaln digamma lambertw""".split())
BOOLF = set("isfinite isnan isinf logical_and logical_or logical_not logical_xor isclose allclose any all isin in1d "
            "array_equal iscomplexobj isreal signbit".split())
COUNTF = set("size shape len argmin argmax argsort searchsorted digitize count_nonzero ndim bincount rank lexsort "
             "nonzero argwhere nanargmax nanargmin histogram flatnonzero random integers uniform".split())


class UnitDomain:
    def __init__(self, report, shift=False):
        self.report = report      # callable(node, message)
        self.shift = shift
        self.decided = 0

    # -- classification -----------------------------------------------------
    def is_num(self, v):
        return isinstance(v, (Num, Poly)) or (isinstance(v, K) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool))

    def const(self, v):
        return None

    def lift(self, v):
        """K/Bool/Seq -> Num; None when it is not numeric"""
        if isinstance(v, (Num, Poly)):
            return v
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return Num(DIMLESS, Fraction(0), masked=True)
            if isinstance(v.v, (int, float)):
                if v.v == 0 or math.isinf(v.v) or math.isnan(v.v):
                    return POLY
                return Num(DIMLESS, Fraction(0))
            if isinstance(v.v, complex):
                return Num(DIMLESS, Fraction(0)) if v.v != 0 else POLY
            return None
        if isinstance(v, Bool):
            return Num(DIMLESS, Fraction(0), masked=True)
        if isinstance(v, Seq):
            return self.lift(v.any(self))
        if v is BOT:
            return POLY
        return None

    def element(self, v):
        return self.lift(v) or TOP

    def count(self, v):
        return Num(DIMLESS, Fraction(0))

    # -- lattice ---------------------------------------------------------------
    def join(self, a, b):
        if a is BOT:
            return b
        if b is BOT:
            return a
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, (Num, Poly)):
            return b
        if isinstance(b, Poly) and isinstance(a, Num):
            return a
        if a is TOP or b is TOP:
            return TOP
        if type(a) is type(b) and isinstance(a, (K, Num, Str, Bool)) and a == b:
            return a
        if self.is_num(a) and self.is_num(b):
            x, y = self.lift(a), self.lift(b)
            if isinstance(x, Poly):
                return y
            if isinstance(y, Poly):
                return x
            if x.log != y.log and x.d is not None and y.d is not None and (x.d or y.d):
                return TOP
            if x.d != y.d:
                return TOP
            w = x.w if x.w == y.w else N if N in (x.w, y.w) else None
            return Num(x.d, w, x.masked and y.masked, x.log)
        if isinstance(a, Bool) and isinstance(b, (Bool, K)) or isinstance(b, Bool) and isinstance(a, K):
            return Bool()
        if isinstance(a, (K, Str)) and isinstance(b, (K, Str)):
            if (isinstance(a, Str) or isinstance(a.v, str)) and (isinstance(b, Str) or isinstance(b.v, str)):
                return Str()
            return TOP
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
                return Seq(elems=[self.join(x, y) for x, y in zip(a.elems, b.elems)])
            if a.elems == []:
                return b if b.elems is None else Seq(elem=b.any(self))
            if b.elems == []:
                return a if a.elems is None else Seq(elem=a.any(self))
            return Seq(elem=self.join(a.any(self), b.any(self)))
        if isinstance(a, Dct) and isinstance(b, Dct):
            r = Dct(table=a.table if a.table == b.table else None, checked=a.checked and b.checked)
            for k in set(a.items) | set(b.items):
                if k in a.items and k in b.items:
                    r.items[k] = self.join(a.items[k], b.items[k])
                else:
                    x = a if k in a.items else b
                    y = b if x is a else a
                    r.items[k] = x.items[k] if y.table is None else self.join(x.items[k], y.get(k))
            r.other = self.join(a.other, b.other)
            return r
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        return TOP

    def weak_update(self, base, v, node):
        b = self.lift(base)
        x = self.lift(v)
        if x is None:
            return TOP
        if isinstance(b, Poly) or b is None:
            return x
        if isinstance(x, Poly):
            return b
        if b.d is None or x.d is None:
            return Num(None)
        if (b.d, b.log and bool(b.d)) != (x.d, x.log and bool(x.d)):
            if b.masked or not b.d and not b.log:
                # np.ones() style initialisation overwritten by dimensional data
                return Num(x.d, x.w, log=x.log)
            self.report(node, "array of %r has elements overwritten with %r" % (b, x))
            return TOP
        return Num(b.d, b.w if b.w == x.w else N if N in (b.w, x.w) else None, log=b.log)

    # -- arithmetic -----------------------------------------------------------------
    def neg(self, v, node):
        if isinstance(v, Poly):
            return v
        x = self.lift(v)
        if x is None:
            return TOP
        if isinstance(x, Poly):
            return x
        w = x.w if x.w in (None, N) else -x.w
        if x.log:
            return Num(power(x.d, -1), w, x.masked, True)
        return Num(x.d, w, x.masked)

    def with_top(self, op, a, b, node):
        return TOP

    def wmul(self, x, y, kx, ky):
        if x.w is None or y.w is None:
            return None
        if x.w == 0 and y.w == 0:
            return Fraction(0)
        if kx is not None and y.w != N:
            return frac(kx) * y.w
        if ky is not None and x.w != N:
            return frac(ky) * x.w
        if x.masked and y.w != N:
            return y.w
        if y.masked and x.w != N:
            return x.w
        return N

    def wadd(self, x, y, s):
        if x.w is None or y.w is None:
            return None
        if x.w == N or y.w == N:
            return N
        if x.masked and y.masked:
            return x.w if (x.w == y.w) else None
        return x.w + s * y.w

    def binop(self, op, a, b, node):
        ka = a.v if isinstance(a, K) and isinstance(a.v, (int, float)) and not isinstance(a.v, bool) else None
        kb = b.v if isinstance(b, K) and isinstance(b.v, (int, float)) and not isinstance(b.v, bool) else None
        x, y = self.lift(a), self.lift(b)
        if x is None or y is None:
            return TOP
        if isinstance(op, (ast.Add, ast.Sub)):
            return self.add(x, y, 1 if isinstance(op, ast.Add) else -1, node)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if isinstance(x, Poly) or isinstance(y, Poly):
                return POLY
            if x.log or y.log:
                if x.log and y.log:
                    return Num(None)
                lo, other, k = (x, y, kb) if x.log else (y, x, ka)
                if k is not None:
                    w = lo.w if lo.w in (None, N) else frac(k) * lo.w
                    return self.mklog(power(lo.d, k), w)
                if other.masked:
                    return lo
                if other.d == DIMLESS:
                    return Num(None, None, log=True)
                return Num(None)
            return Num(mul(x.d, y.d), self.wmul(x, y, ka, kb), x.masked or y.masked)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if isinstance(y, Poly) or isinstance(x, Poly):
                return POLY
            if x.log or y.log:
                if x.log and kb is not None:
                    return self.mklog(power(x.d, Fraction(1) / frac(kb)) if kb else None, x.w)
                if x.log and y.log and x.d == y.d:
                    return Num(None)
                return Num(None)
            w = None
            if x.w is not None and y.w is not None:
                if y.w == 0:
                    w = x.w / frac(kb) if (kb and x.w != N) else (Fraction(0) if x.w == 0 else N)
                    if w == N and y.masked:
                        w = x.w
                else:
                    w = N
            return Num(mul(x.d, power(y.d, -1)), w, x.masked)
        if isinstance(op, ast.Pow):
            if kb == 0:
                return K(1)         # x ** 0 broadcasts the constant 1
            if isinstance(x, Poly):
                return POLY
            if isinstance(y, Poly):
                return Num(DIMLESS, Fraction(0)) if kb == 0 else POLY
            if x.log:
                return Num(None)
            if kb is not None:
                w = x.w if (x.w == 0 or x.w is None or kb == 1) else (Fraction(0) if kb == 0 else N)
                return Num(power(x.d, kb), w, x.masked)
            if y.log and y.d:
                if ka == 10:
                    return Num(y.d, y.w)
                return Num(None)
            if y.d:
                self.report(node, "exponent %r is not dimensionless" % (y,))
                return TOP
            if x.d == DIMLESS:
                w = Fraction(0) if (x.w == 0 and y.w == 0) else None if (x.w is None or y.w is None) else N
                return Num(DIMLESS, w)
            return Num(None)
        if isinstance(op, ast.Mod):
            return x
        return TOP

    def mklog(self, d, w):
        if d is not None and not d:
            return Num(DIMLESS, w)
        return Num(d, w, log=True)

    def add(self, x, y, s, node):
        if isinstance(x, Poly):
            if isinstance(y, Poly):
                return POLY
            return y if s > 0 else self.neg(y, node)
        if isinstance(y, Poly):
            return x
        w = self.wadd(x, y, s)
        if x.log or y.log:
            dx = x.d if x.log else (DIMLESS if x.d == DIMLESS else x.d)
            if not x.log and x.d or not y.log and y.d:
                self.report(node, "adds %r and %r" % (x, y))
                return TOP
            dy = y.d
            if dx is None or dy is None:
                return Num(None, w, log=True)
            return self.mklog(mul(dx, power(dy, s)), w)
        if x.d is None or y.d is None:
            return Num(None, w)
        if x.d != y.d:
            # masks act as selectors: mask + number is dimensionless
            self.report(node, "%s %s and %s" % ("adds" if s > 0 else "subtracts", show(x.d), show(y.d)))
            return TOP
        return Num(x.d, w, x.masked and y.masked)

    def compare(self, op, a, b, node):
        x, y = self.lift(a), self.lift(b)
        if x is None or y is None or isinstance(x, Poly) or isinstance(y, Poly):
            return None
        if x.d is None or y.d is None:
            return None
        if x.log or y.log:
            if x.log and y.log and x.d != y.d:
                self.report(node, "compares %r with %r" % (x, y))
            return None
        if x.d != y.d:
            self.report(node, "compares %s with %s" % (show(x.d), show(y.d)))
        elif self.shift and x.w is not None and y.w is not None and N not in (x.w, y.w) and x.w != y.w:
            self.report(node, "compares a quantity that shifts with the parameter (weight %s) with one of weight %s"
                        % (x.w, y.w))
        return None

    # -- functions -----------------------------------------------------------------------
    def function(self, q, args, kwargs, node):
        mod, _, name = q.rpartition(".")
        top = q.split(".")[0]
        if top not in ("numpy", "scipy", "math", "builtins", "cmath", "pandas"):
            return TOP
        if name in ("pi", "e"):
            return TOP
        return self.fn(name, list(args), kwargs, node, q)

    def method(self, recv, name, args, kwargs, node):
        if name in ("T", "real", "imag", "values"):
            return recv
        args = [a if not isinstance(a, tuple) else TOP for a in args]
        if name in ("copy", "astype", "reshape", "flatten", "ravel", "squeeze", "transpose", "item", "tolist", "take",
                    "to_numpy", "conj", "conjugate", "sort", "mean", "median", "max", "min", "cumsum", "std", "sum", "var",
                    "any", "all", "dot", "clip", "argmax", "argmin", "argsort", "searchsorted", "round", "repeat",
                    "swapaxes", "nonzero", "quantile", "prod", "tobytes", "diagonal", "trace", "view"):
            return self.fn(name, [recv] + args, kwargs, node, "numpy." + name)
        return TOP

    def need_dimless(self, x, node, name):
        if isinstance(x, Num) and x.log and x.d:
            self.report(node, "%s of %r" % (name, x))
            return False
        if isinstance(x, Num) and x.d:
            self.report(node, "%s of a quantity with dimension %s" % (name, show(x.d)))
            return False
        return True

    def fw(self, xs):
        """weight of a non-linear function of xs"""
        ws = [x.w for x in xs if isinstance(x, Num)]
        if any(w is None for w in ws):
            return None
        return Fraction(0) if all(w == 0 for w in ws) else N

    def fn(self, name, args, kwargs, node, q):
        if any(a is TOP for a in args[:1]) and name not in ("where", "full_like", "ones_like", "zeros_like", "zeros", "ones",
                                                            "empty", "full", "empty_like"):
            return TOP
        raw = args
        xs = [self.lift(a) for a in args]
        x = xs[0] if xs else None
        if name in ("zeros", "zeros_like", "empty", "empty_like"):
            return POLY
        if name in ("ones", "ones_like", "eye", "identity"):
            return Num(DIMLESS, Fraction(0))
        if name in ("full", "full_like"):
            v = args[1] if len(args) > 1 else kwargs.get("fill_value", TOP)
            r = self.lift(v)
            return TOP if r is None else r
        if name in BOOLF:
            return Bool()
        if name in COUNTF:
            return Num(DIMLESS, Fraction(0))
        if name in ("where", "select"):
            if len(args) == 1:
                return Seq(elem=Num(DIMLESS, Fraction(0)))
            if len(args) == 3:
                return self.same([args[1], args[2]], node, "where")
            return TOP
        if name == "einsum":
            r = Num(DIMLESS, Fraction(0))
            for a in args[1:]:
                y = self.lift(a)
                if y is None or isinstance(y, Poly):
                    return TOP
                r = self.binop(ast.Mult(), r, y, node)
            return r
        if x is None and name not in JOINF:
            return TOP
        if name in ("sum", "nansum"):
            if isinstance(x, Num) and x.log and x.d:
                return Num(None, None, log=True)
            if isinstance(x, Num) and x.w not in (None, 0, N):
                return Num(x.d, None)
            return x if not (isinstance(x, Num) and x.masked) else Num(x.d, x.w)
        if name in ("std", "diff", "ptp", "ediff1d", "nanstd"):
            if isinstance(x, Num):
                return Num(x.d if not x.log else DIMLESS, Fraction(0) if x.w not in (None, N) else x.w)
            return x
        if name in ("var", "nanvar"):
            return Num(power(x.d, 2), Fraction(0) if x.w not in (None, N) else x.w) if isinstance(x, Num) else x
        if name in ("prod",):
            return x if isinstance(x, Num) and x.d == DIMLESS else TOP
        if name in ("gradient",):
            if isinstance(x, Num) and len(args) == 2 and isinstance(xs[1], Num):
                return Num(mul(x.d, power(xs[1].d, -1)) if not x.log else None)
            return x if isinstance(x, Num) else TOP
        if name in ("sqrt", "cbrt", "square"):
            if isinstance(x, Poly):
                return x
            k = {"sqrt": Fraction(1, 2), "cbrt": Fraction(1, 3), "square": 2}[name]
            if x.log:
                return Num(None)
            return Num(power(x.d, k), Fraction(0) if x.w == 0 else None if x.w is None else N, x.masked)
        if name in ("power", "float_power", "pow") and len(args) >= 2:
            return self.binop(ast.Pow(), args[0], args[1], node) if args[1] is not TOP else TOP
        if name == "exp":
            if isinstance(x, Poly):
                return Num(DIMLESS, Fraction(0)) if isinstance(raw[0], K) and raw[0].v == 0 else POLY
            if x.log:
                return Num(x.d, x.w)
            if not self.need_dimless(x, node, "exp"):
                return TOP
            return Num(x.d, self.fw([x]))
        if name in ("log", "log10", "log2"):
            if isinstance(x, Poly):
                return POLY
            if x.log:
                if x.d:
                    self.report(node, "logarithm of %r" % (x,))
                return TOP
            return self.mklog(x.d, self.fw([x])) if x.d is not None else Num(None, None, log=True)
        if name == "xlogy" and len(args) == 2:
            if args[1] is TOP or args[0] is TOP or xs[1] is None:
                return TOP
            lo = self.fn("log", [args[1]], {}, node, q)
            if lo is TOP:
                return TOP
            if isinstance(args[0], K) and args[0].v == 1:
                return lo
            return self.binop(ast.Mult(), args[0], lo, node)
        if name in DIMLESS_FN:
            ok = True
            for v in xs:
                if v is None:
                    return TOP
                ok = self.need_dimless(v, node, name) and ok
            if not ok:
                return TOP
            if any(isinstance(v, Num) and v.d is None for v in xs):
                return Num(None)
            return Num(DIMLESS, self.fw(xs))
        if name in ("arctan2", "hypot"):
            r = self.same(args[:2], node, name)
            if name == "hypot":
                return r
            if r is TOP:
                return TOP
            return Num(DIMLESS, self.fw([v for v in xs if v is not None]))
        if name in ("logsumexp",):
            r = x
            if kwargs.get("b") is not None and isinstance(x, Num):
                bb = self.lift(kwargs["b"])
                if isinstance(bb, Num) and bb.d:
                    return self.mklog(mul(x.d, bb.d), None)
            return r
        if name == "interp" and len(args) >= 3:
            self.same(args[:2], node, "interp abscissae")
            r = xs[2]
            return TOP if r is None else r
        if name in ("trapz", "trapezoid", "simpson", "simps", "cumulative_trapezoid", "cumtrapz"):
            xx = args[1] if len(args) > 1 else kwargs.get("x")
            dx = kwargs.get("dx")
            sx = self.lift(xx if xx is not None else dx) if (xx is not None or dx is not None) else Num(DIMLESS, Fraction(0))
            if sx is None or isinstance(x, Poly) or isinstance(sx, Poly):
                return TOP
            if x.log:
                return Num(None)
            return Num(mul(x.d, sx.d), None if x.w is None else Fraction(0) if x.w == 0 else N)
        if name in ("multiply", "dot", "vdot", "inner", "outer", "matmul", "cross", "convolve", "correlate", "kron", "tensordot"):
            if len(args) >= 2 and args[1] is not TOP:
                return self.binop(ast.Mult(), args[0], args[1], node)
            return TOP
        if name in ("divide", "true_divide"):
            return self.binop(ast.Div(), args[0], args[1], node) if args[1] is not TOP else TOP
        if name in ("add", "subtract"):
            return self.binop(ast.Add() if name == "add" else ast.Sub(), args[0], args[1], node) if args[1] is not TOP else TOP
        if name == "reciprocal":
            return self.binop(ast.Div(), K(1), args[0], node)
        if name == "negative":
            return self.neg(args[0], node)
        if name in ("sign", "angle", "unwrap", "heaviside"):
            return Num(DIMLESS, Fraction(0))
        if name in ("rfftfreq", "fftfreq"):
            d = args[1] if len(args) > 1 else kwargs.get("d", K(1))
            y = self.lift(d)
            return Num(power(y.d, -1)) if isinstance(y, Num) else TOP
        if name in ("rfft", "irfft", "fft", "ifft", "fftshift", "ifftshift"):
            return x
        if name in ("norm",):
            return x if not (isinstance(x, Num) and x.log) else TOP
        if name == "max" and len(args) > 1 and q.startswith("builtins") or name == "min" and len(args) > 1 and q.startswith("builtins"):
            return self.same(args, node, name)
        if name in JOINF:
            if name in ("concatenate", "hstack", "vstack", "stack", "dstack"):
                a0 = raw[0]
                if isinstance(a0, Seq) and a0.elems is not None:
                    return self.same(a0.elems, node, name)
                return TOP if x is None else x
            n = {"maximum": 2, "minimum": 2, "fmax": 2, "fmin": 2, "append": 2, "linspace": 2, "clip": 3, "arange": 3,
                 "logaddexp": 2, "logaddexp2": 2, "geomspace": 2}.get(name, 2)
            return self.same(args[:n], node, name)
        if name in SAME:
            if isinstance(x, Num) and name in ("floor", "ceil", "round", "rint", "fix", "int", "around"):
                return Num(x.d, None, log=x.log)
            if isinstance(x, Num) and name in ("abs", "absolute", "fabs"):
                return Num(x.d, x.w if x.w in (None, 0) else N, x.masked, x.log)
            return x
        if name == "tuple" or name == "list":
            return raw[0]
        if name == "Series" or name == "DataFrame":
            return x if name == "Series" else TOP
        return TOP

    def same(self, vals, node, name):
        """all values must share a dimension; returns it"""
        r = None
        for v in vals:
            if v is TOP:
                return TOP
            x = self.lift(v)
            if x is None:
                return TOP
            if r is None or isinstance(r, Poly):
                r = x
            elif isinstance(x, Poly):
                continue
            elif r.d is None or x.d is None:
                r = Num(None)
            elif (r.d, r.log and bool(r.d)) != (x.d, x.log and bool(x.d)):
                self.report(node, "%s mixes %r and %r" % (name, r, x))
                return TOP
            else:
                r = Num(r.d, r.w if r.w == x.w else (None if None in (r.w, x.w) else N), False, r.log)
        return TOP if r is None else r
