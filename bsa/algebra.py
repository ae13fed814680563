"""Algebraic normal forms for value numbering.

An expression is a sum of monomials with rational coefficients; a monomial is a product of atoms raised to exponents that are
themselves expressions.  Atoms: symbols, primes under fractional powers, function values, and sums under non-trivial powers.
Two expressions with the same normal form always compute the same number; symbols are taken to be positive where a power is split."""
from fractions import Fraction
from functools import lru_cache


class E(tuple):
    """immutable sum: tuple of (monomial, coefficient), monomial = tuple of (atom, exponent E)"""
    __slots__ = ()

    def __add__(self, o):
        return add(self, o)

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        return add(self, -o)

    def __mul__(self, o):
        return mul(self, o)

    def __truediv__(self, o):
        return mul(self, power(o, MINUS1))

    def __repr__(self):
        return show(self)


class TooBig(Exception):
    pass


def _key(x):
    return repr_key(x)


@lru_cache(maxsize=200000)
def repr_key(x):
    if isinstance(x, E):
        return "(" + "+".join("%s*%s" % (c, repr_key(m)) for m, c in x) + ")"
    if isinstance(x, tuple):
        return "[" + ",".join(repr_key(y) if isinstance(y, (tuple, E)) else str(y) for y in x) + "]"
    return str(x)


def make(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > 400:
        raise TooBig
    items.sort(key=lambda t: repr_key(t[0]))
    return E(items)


ZERO = E(())


def const(c):
    c = Fraction(c)
    return E((((), c),)) if c else ZERO


ONE, MINUS1, HALF = const(1), const(-1), const(Fraction(1, 2))


def atom(a, e=None):
    return E(((((a, e if e is not None else ONE),), Fraction(1)),))


def sym(name):
    return atom(("sym", name))


def is_const(e):
    return len(e) == 0 or len(e) == 1 and e[0][0] == ()


def const_of(e):
    return Fraction(0) if not e else e[0][1]


def add(a, b):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + c
    return make(d)


def scale(a, k):
    return E(tuple((m, c * k) for m, c in a)) if k else ZERO


def mulmono(m1, m2):
    """-> list of (atom, exponent) merged; may contain atoms whose power must be re-expanded"""
    d = {}
    for a, e in m1 + m2:
        d[a] = add(d[a], e) if a in d else e
    return d


def build(d, c):
    """product of atoms with exponents (dict) times c, as an expression"""
    res = None
    keep = []
    for a, e in d.items():
        e = canon(e)
        if not e:
            continue
        if a[0] == "int" and is_const(e) and const_of(e).denominator == 1:
            c = c * Fraction(a[1]) ** int(const_of(e))
            continue
        if a[0] == "int" and is_const(e):
            f = const_of(e)
            w = f.numerator // f.denominator
            if w:
                c = c * Fraction(a[1]) ** w
                e = const(f - w)
        if a == ("sym", "1j") and is_const(e) and const_of(e).denominator == 1:
            k = int(const_of(e)) % 4
            c = -c if k > 1 else c
            if k % 2:
                keep.append((a, ONE))
            continue
        if a == ("sym", "e") and len(e):
            e, extra = split_logs(e)
            if extra is not None:
                res = extra if res is None else mul(res, extra)
            if not e:
                continue
        if a[0] == "sum" and is_const(e) and const_of(e).denominator == 1 and 0 < const_of(e) <= 6:
            x = expand(a[1], int(const_of(e)))
            res = x if res is None else mul(res, x)
            continue
        if a[0] == "sum" and is_const(e) and const_of(e) > 1:
            f = const_of(e)
            w = f.numerator // f.denominator
            if w <= 6:
                x = expand(a[1], w)
                res = x if res is None else mul(res, x)
                e = const(f - w)
        keep.append((a, e))
    keep.sort(key=lambda t: (repr_key(t[0]), repr_key(t[1])))
    out = E(((tuple(keep), c),)) if c else ZERO
    return out if res is None else mul(out, res)


def canon(e):
    """an exponent that is a quotient of proportional sums is the number it equals"""
    if len(e) < 2:
        return e
    d = {}
    for m, c in e:
        for a, x in m:
            if a[0] == "sum" and is_const(x) and const_of(x) < 0 and (a not in d or const_of(d[a]) > const_of(x)):
                d[a] = x
    if not d:
        return e
    den = ONE
    for a, x in d.items():
        den = mul(den, power(a[1], scale(x, -1)))
    num = ZERO
    for m, c in e:
        num = add(num, build(mulmono(m, tuple((a, scale(x, -1)) for a, x in d.items())), c))
    if num and den and num[0][0] == den[0][0]:
        k = num[0][1] / den[0][1]
        if not (num - scale(den, k)):
            return const(k)
    if not num:
        return ZERO
    return e


def split_logs(e):
    """exp(k*log(A) + rest) -> rest, A**k"""
    rest, extra = {}, None
    for m, c in e:
        logs = [(a, x) for a, x in m if a[0] == "fn" and a[1] == "log" and x == ONE]
        if len(logs) == 1 and not any(a == ("sym", "e") for a, _ in m):
            others = E(((tuple(t for t in m if t != logs[0]), c),))
            p = power(logs[0][0][2], others)
            extra = p if extra is None else mul(extra, p)
        else:
            rest[m] = c
    return make(rest), extra


def expand(base, n):
    out = ONE
    for _ in range(n):
        out = mul(out, base)
    return out


def mul(a, b):
    if len(a) * len(b) > 3000:
        raise TooBig
    acc, extra = {}, []
    for m1, c1 in a:
        for m2, c2 in b:
            t = build(mulmono(m1, m2), c1 * c2)
            for m, c in t:
                acc[m] = acc.get(m, 0) + c
    return make(acc)


def primes(n):
    out, p = {}, 2
    while n > 1 and p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def intpow(c, e):
    """positive rational c to the power of expression e"""
    if is_const(e) and const_of(e).denominator == 1:
        return const(c ** int(const_of(e)))
    d = {}
    for p, k in primes(c.numerator).items():
        d[("int", p)] = scale(e, k)
    for p, k in primes(c.denominator).items():
        d[("int", p)] = add(d.get(("int", p), ZERO), scale(e, -k))
    return build(d, Fraction(1))


def content(s):
    """(coefficient, monomial dict, primitive sum): common factor of a sum with the leading coefficient made one in size"""
    lead = abs(s[0][1])
    common = None
    for m, _ in s:
        d = {a: e for a, e in m if is_const(e)}
        if common is None:
            common = d
        else:
            common = {a: (e if const_of(e) <= const_of(d[a]) else d[a]) for a, e in common.items() if a in d}
            # atoms absent from one term but with negative powers elsewhere are brought out below
    neg = {}
    for m, _ in s:
        for a, e in m:
            if is_const(e) and const_of(e) < 0 and (a not in neg or const_of(neg[a]) > const_of(e)):
                neg[a] = e
    for a, e in neg.items():
        if a not in common:
            common[a] = e
    common = {a: e for a, e in common.items() if e}
    inv = {a: scale(e, -1) for a, e in common.items()}
    acc = {}
    for m, c in s:
        for mm, cc in build(mulmono(m, tuple(inv.items())), c / lead):
            acc[mm] = acc.get(mm, 0) + cc
    return lead, common, make(acc)


def power(b, e):
    if not e:
        return ONE
    if not b:
        return ZERO
    if e == ONE:
        return b
    if len(b) == 1:
        m, c = b[0]
        d = {}
        sign = 1
        if c < 0:
            if is_const(e) and const_of(e).denominator == 1:
                sign = -1 if int(const_of(e)) % 2 else 1
            else:
                d[("sym", "-1")] = e
            c = -c
        for a, x in m:
            d[a] = add(d.get(a, ZERO), mul(x, e))
        return mul(scale(intpow(c, e), sign), build(d, Fraction(1)))
    if is_const(e) and const_of(e).denominator == 1 and 0 < const_of(e) <= 6:
        return expand(b, int(const_of(e)))
    lead, common, prim = content(b)
    out = intpow(lead, e)
    if common:
        out = mul(out, build({a: mul(x, e) for a, x in common.items()}, Fraction(1)))
    if len(prim) == 1:
        return mul(out, power(prim, e))
    return mul(out, build({("sum", prim): e}, Fraction(1)))


def log(x):
    if len(x) == 1:
        m, c = x[0]
        out = ZERO
        if c < 0:
            out = fn1("log", const(-1))
            c = -c
        for p, k in primes(c.numerator).items():
            out = add(out, scale(atom(("fn", "log", const(p))), k))
        for p, k in primes(c.denominator).items():
            out = add(out, scale(atom(("fn", "log", const(p))), -k))
        for a, e in m:
            if a == ("sym", "e"):
                out = add(out, e)
            elif a[0] == "int":
                out = add(out, mul(e, atom(("fn", "log", const(a[1])))))
            elif a[0] == "sum":
                out = add(out, mul(e, atom(("fn", "log", a[1]))))
            else:
                out = add(out, mul(e, atom(("fn", "log", atom(a)))))
        return out
    if not x:
        return fn1("log", x)
    lead, common, prim = content(x)
    out = ZERO
    if lead != 1 or common:
        out = log(build(common, lead))
    if len(prim) == 1:
        return add(out, log(prim))
    return add(out, atom(("fn", "log", prim)))


def exp(x):
    return power(sym("e"), x)


ODD = {"erf", "erfinv", "sin", "arctan", "arcsin", "sinh", "tanh", "arctanh", "sign"}
EVEN = {"cos", "abs", "cosh"}
INVERSE = {("erf", "erfinv"), ("erfinv", "erf"), ("sin", "arcsin"), ("arcsin", "sin"), ("cos", "arccos"), ("arccos", "cos"),
           ("tan", "arctan"), ("arctan", "tan")}


def fn1(name, x):
    return atom(("fn", name, x))


def lead_negative(x):
    return bool(x) and x[0][1] < 0


def sincos(x):
    """sin and cos of a sum are left alone; of zero they are known"""
    return None


def fn(name, *args):
    x = args[0]
    if name == "exp":
        return exp(x)
    if name == "log":
        return log(x)
    if name == "sqrt":
        return power(x, HALF)
    if name == "square":
        return mul(x, x)
    if name == "log1p":
        return log(add(ONE, x))
    if name == "expm1":
        return add(exp(x), MINUS1)
    if name == "log10":
        return log(x) / log(const(10))
    if name == "log2":
        return log(x) / log(const(2))
    if name == "xlogy":
        return mul(x, log(args[1]))
    if name == "logaddexp":
        return log(add(exp(x), exp(args[1])))
    if name == "power":
        return power(x, args[1])
    if name == "gamma":
        return exp(atom(("fn", "gammaln", x)))
    if name == "betaln":
        return fn("gammaln", x) + fn("gammaln", args[1]) - fn("gammaln", x + args[1])
    if name == "beta":
        return exp(fn("betaln", *args))
    if name == "erfc":
        return ONE - fn("erf", x)
    if name == "tan":
        return fn("sin", x) / fn("cos", x)
    if not x and name in ("erf", "erfinv", "sin", "arctan", "arcsin", "abs"):
        return ZERO
    if not x and name == "cos":
        return ONE
    if is_const(x) and name == "abs":
        return const(abs(const_of(x)))
    # f(g(y)) for inverse pairs
    if len(args) == 1 and len(x) == 1 and abs(x[0][1]) == 1 and len(x[0][0]) == 1:
        (a, e), s = x[0][0][0], x[0][1]
        if e == ONE and a[0] == "fn" and (name, a[1]) in INVERSE and (s == 1 or name in ODD):
            return scale(a[2], s)
    if name in INV2:
        f, g = name, INV2[name]
        y = args[-1]
        if len(y) == 1 and y[0][1] == 1 and len(y[0][0]) == 1:
            a, e = y[0][0][0]
            if e == ONE and a[0] == "fn" and a[1] == g and a[2:-1] == args[:-1]:
                return a[-1]
    if len(args) == 1 and lead_negative(x):
        if name in ODD:
            return scale(atom(("fn", name, scale(x, -1))), -1)
        if name in EVEN:
            return atom(("fn", name, scale(x, -1)))
    return atom(("fn", name) + tuple(args))


INV2 = {"btdtr": "btdtri", "btdtri": "btdtr", "betainc": "betaincinv", "betaincinv": "betainc", "gammainc": "gammaincinv",
        "gammaincinv": "gammainc", "stdtr": "stdtrit", "stdtrit": "stdtr"}


# -- substitution, derivative, zero test ---------------------------------------

def subst(e, name, val):
    out = ZERO
    for m, c in e:
        t = const(c)
        for a, x in m:
            x2 = subst(x, name, val)
            if a == ("sym", name):
                b = val
            elif a[0] == "sum":
                b = subst(a[1], name, val)
            elif a[0] == "fn":
                b = fn(a[1], *[subst(y, name, val) for y in a[2:]])
            elif a == ("sym", "e"):
                b = sym("e")
            else:
                b = atom(a)
            t = mul(t, power(b, x2))
        out = add(out, t)
    return out


I = sym("1j")
REALFN = {"abs", "re", "im", "arg", "i0e"}


def is_complex(e):
    """whether the imaginary unit occurs other than below a real-valued function"""
    for m, _ in e:
        for a, x in m:
            if a == ("sym", "1j") or is_complex(x):
                return True
            if a[0] == "sum" and is_complex(a[1]):
                return True
            if a[0] == "fn" and a[1] not in REALFN and any(is_complex(y) for y in a[2:]):
                return True
    return False


def split_complex(e):
    """(real part, imaginary part) where the imaginary unit occurs only as a factor, else None"""
    re, im = [], []
    for m, c in e:
        rest = tuple(t for t in m if t[0] != ("sym", "1j"))
        if is_complex(E(((rest, c),))):
            return None
        (re if len(rest) == len(m) else im).append((rest, c))
    return make(dict(re)), make(dict(im))


def real_part(e):
    if not is_complex(e):
        return e
    s = split_complex(e)
    return s[0] if s is not None else fn1("re", e)


def imag_part(e):
    if not is_complex(e):
        return ZERO
    s = split_complex(e)
    return s[1] if s is not None else fn1("im", e)


def conj(e):
    if not is_complex(e):
        return e
    s = split_complex(e)
    return s[0] - s[1] * I if s is not None else fn1("conj", e)


def symbols(e, acc=None):
    acc = set() if acc is None else acc
    for m, _ in e:
        for a, x in m:
            symbols(x, acc)
            if a[0] == "sym":
                acc.add(a[1])
            elif a[0] == "sum":
                symbols(a[1], acc)
            elif a[0] == "fn":
                for y in a[2:]:
                    symbols(y, acc)
    return acc


PI = sym("pi")


class NoDerivative(Exception):
    pass


def dfn(a, name):
    f, args = a[1], a[2:]
    u = args[-1]
    for y in args[:-1]:
        if name in symbols(y):
            raise NoDerivative(f)
    du = diff(u, name)
    if not du:
        return ZERO
    if f == "log":
        d = power(u, MINUS1)
    elif f == "erf":
        d = scale(power(PI, -HALF), 2) * exp(-(u * u))
    elif f == "sin":
        d = fn("cos", u)
    elif f == "cos":
        d = -fn("sin", u)
    elif f == "arctan":
        d = power(ONE + u * u, MINUS1)
    elif f in ("btdtr", "betainc"):
        p, q = args[0], args[1]
        d = power(u, p - ONE) * power(ONE - u, q - ONE) * exp(-fn("betaln", p, q))
    elif f == "gammainc":
        k = args[0]
        d = power(u, k - ONE) * exp(-u) * exp(-fn("gammaln", k))
    elif f == "stdtr":
        n = args[0]
        d = exp(fn("gammaln", (n + ONE) * HALF) - fn("gammaln", n * HALF)) * power(n * PI, -HALF) \
            * power(ONE + u * u / n, -(n + ONE) * HALF)
    else:
        raise NoDerivative(f)
    return mul(d, du)


def diff(e, name):
    out = ZERO
    for m, c in e:
        for i, (a, x) in enumerate(m):
            rest = E(((m[:i] + m[i + 1:], c),))
            here = atom_pow(a, x)
            dx = diff(x, name)
            if a == ("sym", name):
                d = mul(x, power(sym(name), x - ONE))
            elif a[0] == "sum":
                d = mul(mul(x, power(a[1], x - ONE)), diff(a[1], name))
            elif a[0] == "fn":
                d = dfn(a, name)
                if d:
                    d = mul(mul(x, power(atom(a), x - ONE)), d)
            else:
                d = ZERO
            if dx:
                d = add(d, mul(here, mul(log(base_of(a)), dx)))
            out = add(out, mul(rest, d))
    return out


def base_of(a):
    return a[1] if a[0] == "sum" else const(a[1]) if a[0] == "int" else atom(a)


def atom_pow(a, x):
    return power(base_of(a), x)


def is_zero(e, depth=6):
    """true when clearing denominators cancels everything"""
    for _ in range(depth):
        if not e:
            return True
        low = {}
        for m, c in e:
            for a, x in m:
                if is_const(x) and const_of(x) < 0:
                    if a not in low or const_of(low[a]) > const_of(x):
                        low[a] = x
        # fractional powers of a sum that appears with several powers: bring to a common one
        if not low:
            e2 = trig(e)
            if e2 == e:
                return not e
            e = e2
            continue
        out = ZERO
        f = {a: scale(x, -1) for a, x in low.items()}
        for m, c in e:
            d = mulmono(m, tuple(f.items()))
            out = add(out, build(d, c))
        e = out
    return not e


def trig(e):
    """sin(x)**2 -> 1 - cos(x)**2"""
    out, hit = ZERO, False
    for m, c in e:
        t = const(c)
        for a, x in m:
            if a[0] == "fn" and a[1] == "sin" and is_const(x) and const_of(x).denominator == 1 and const_of(x) >= 2:
                k = fn("cos", a[2])
                t = mul(t, mul(power(ONE - k * k, const(int(const_of(x)) // 2)), power(atom(a), const(int(const_of(x)) % 2))))
                hit = True
            else:
                t = mul(t, atom_pow(a, x))
        out = add(out, t)
    return out if hit else e


def equal(a, b):
    if a == b:
        return True
    try:
        return is_zero(a - b)
    except TooBig:
        return None


def show(e):
    if not e:
        return "0"
    out = []
    for m, c in e:
        fs = []
        for a, x in m:
            s = a[1] if a[0] == "sym" else str(a[1]) if a[0] == "int" else "(%s)" % show(a[1]) if a[0] == "sum" \
                else "%s(%s)" % (a[1], ", ".join(show(y) for y in a[2:]))
            fs.append(s if x == ONE else "%s**(%s)" % (s, show(x)))
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out)
