"""Random interpretation of algebraic normal forms.

The abstract state of a path is an expression; two expressions are identified, and branches whose condition no admissible valuation
satisfies are dropped, by interpreting the expressions over a fixed random set of valuations of their symbols (Gulwani & Necula,
'Global value numbering using random interpretation').  The program is never run: only the normal forms derived from its source
are interpreted."""
import cmath
import math
import random

from .algebra import sym



class NoValue(Exception):
    pass


def betacf(a, b, x):
    tiny = 1e-300
    qab, qap, qam = a + b, a + 1, a - 1
    c, d = 1.0, 1 - qab * x / qap
    d = 1 / (d if abs(d) > tiny else tiny)
    h = d
    for m in range(1, 600):
        m2 = 2 * m
        aa = m * (b - m) * x / ((qam + m2) * (a + m2))
        d = 1 + aa * d
        d = 1 / (d if abs(d) > tiny else tiny)
        c = 1 + aa / c
        c = c if abs(c) > tiny else tiny
        h *= d * c
        aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2))
        d = 1 + aa * d
        d = 1 / (d if abs(d) > tiny else tiny)
        c = 1 + aa / c
        c = c if abs(c) > tiny else tiny
        de = d * c
        h *= de
        if abs(de - 1) < 1e-15:
            break
    return h


def betainc(a, b, x):
    if x <= 0:
        return 0.0
    if x >= 1:
        return 1.0
    bt = math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + a * math.log(x) + b * math.log1p(-x))
    if x < (a + 1) / (a + b + 2):
        return bt * betacf(a, b, x) / a
    return 1 - bt * betacf(b, a, 1 - x) / b


def gammainc(k, x):
    if x <= 0:
        return 0.0
    t = s = 1.0 / k
    n = k
    for _ in range(5000):
        n += 1
        t *= x / n
        s += t
        if abs(t) < 1e-17 * abs(s):
            break
    return min(1.0, s * math.exp(-x + k * math.log(x) - math.lgamma(k)))


def stdtr(df, t):
    h = 0.5 * betainc(df / 2, 0.5, df / (df + t * t))
    return 1 - h if t > 0 else h


def invert(f, y, lo, hi):
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) < y:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def expander(f, y, lo=-1.0, hi=1.0):
    for _ in range(400):
        if f(lo) > y:
            lo *= 2
        elif f(hi) < y:
            hi *= 2
        else:
            break
    return invert(f, y, lo, hi)


def erfinv(y):
    if not -1 < y < 1:
        raise NoValue("erfinv")
    return invert(math.erf, y, -7.0, 7.0)


FUNCS = {"max": max, "min": min, "val": lambda x: x, "erf": math.erf, "erfinv": erfinv, "sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos,
         "arctan": math.atan, "abs": abs, "gammaln": math.lgamma, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
         "arctanh": math.atanh, "sign": lambda x: (x > 0) - (x < 0),
         "btdtr": betainc, "btdtri": lambda a, b, y: invert(lambda x: betainc(a, b, x), y, 0.0, 1.0),
         "stdtr": stdtr, "stdtrit": lambda n, y: expander(lambda t: stdtr(n, t), y),
         "gammainc": gammainc, "gammaincinv": lambda k, y: expander(lambda x: gammainc(k, x), y, 1e-12, 10.0),
         "floor": math.floor, "ceil": math.ceil, "arctan2": math.atan2, "hypot": math.hypot,
         "mod": lambda a, b: a % b}


COMPLEX = {"abs": abs, "re": lambda z: complex(z).real, "im": lambda z: complex(z).imag, "conj": lambda z: complex(z).conjugate(),
           "arg": cmath.phase, "i0e": lambda z: i0e(real(z))}


def i0e(x):
    x = abs(x)
    if x > 25:
        s = t = 1.0
        for k in range(1, 20):
            t *= (2 * k - 1) ** 2 / (k * 8 * x)
            s += t
        return s / math.sqrt(2 * math.pi * x)
    t = s = 1.0
    for k in range(1, 200):
        t *= (x / 2) ** 2 / k ** 2
        s += t
    return s * math.exp(-x)


def value(e, env):
    """number denoted by a normal form under a valuation"""
    out = 0.0
    for m, c in e:
        t = float(c)
        for a, x in m:
            xv = value(x, env)
            t = t * pw(atomval(a, env), xv)
        out = out + t
    return out


def pw(b, x):
    if x == 1:
        return b
    if isinstance(b, complex) or isinstance(x, complex):
        return complex(b) ** x
    if b == 0 and x < 0:
        raise NoValue("division by zero")
    if b < 0 and x != int(x):
        return complex(b) ** x
    return b ** x


def real(v):
    if isinstance(v, complex):
        if abs(v.imag) < 1e-12 * (1 + abs(v.real)):
            return v.real
        raise NoValue("complex")
    return v


def atomval(a, env):
    k = a[0]
    if k == "sym":
        n = a[1]
        if n == "e":
            return math.e
        if n == "pi":
            return math.pi
        if n == "-1":
            return -1.0
        if n == "1j":
            return 1j
        if n not in env:
            env[n] = random.Random("%s/%s" % (n, env.get("#", 0))).uniform(-2, 2)
        return env[n]
    if k == "int":
        return float(a[1])
    if k == "sum":
        return value(a[1], env)
    if k == "fn":
        args = [value(y, env) for y in a[2:]]
        if a[1] == "log":
            v = args[0]
            if v == 0:
                raise NoValue("log of zero")
            return cmath.log(v) if isinstance(v, complex) or v < 0 else math.log(v)
        if a[1] in COMPLEX:
            return COMPLEX[a[1]](args[0])
        f = FUNCS.get(a[1])
        if f is None:
            return opaque(a[1], args)
        try:
            return f(*[real(v) for v in args])
        except (ValueError, OverflowError, ZeroDivisionError) as ex:
            raise NoValue(str(ex))
    raise NoValue(k)


def opaque(name, args):
    """an unknown function is interpreted as a fixed pseudo-random smooth one"""
    r = random.Random(name)
    z = 0.0
    for v in args:
        v = real(v)
        if abs(v) > 50:
            v = math.copysign(50 + math.log(abs(v) / 50), v)
        z += 2 * math.sin(r.uniform(0.9, 2) * v + r.uniform(0, 3)) + r.uniform(0.2, 0.4) * v
    return 1.3 + math.sin(r.uniform(0.5, 1.5) * z + r.uniform(0, 1))


class Samples:
    """valuations of the given symbols that satisfy the facts (expressions > 0)"""

    def __init__(self, names, facts, want=24, tries=60000, ranges=None, seed=7):
        r = random.Random(seed)
        self.env = []
        ranges = ranges or {}
        pos = {n for n in names if sym(n) in list(facts)}
        for _ in range(tries):
            env = {"#": len(self.env)}
            for n in sorted(names):
                if n in ranges:
                    env[n] = r.uniform(*ranges[n])
                    continue
                s = r.choice((0.3, 1.0, 3.0))
                env[n] = r.uniform(1e-3 if n in pos else -s, s)
            try:
                if all(real(value(f, env)) > 1e-4 for f in facts):
                    self.env.append(env)
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                continue
            if len(self.env) >= want:
                break

    def signs(self, d, envs=None):
        """set of signs d takes (None where it has no value)"""
        out = set()
        for env in (self.env if envs is None else envs):
            try:
                v = real(value(d, env))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                out.add(None)
                continue
            out.add(1 if v > 1e-12 else -1 if v < -1e-12 else 0)
        return out


def close(a, b, envs, tol=1e-7, need=4):
    """True: equal under every valuation with a value; False: differ under one; None: too few valuations"""
    n = 0
    for env in envs:
        try:
            x, y = value(a, env), value(b, env)
        except (NoValue, OverflowError, ZeroDivisionError, ValueError):
            continue
        if x != x or y != y:
            continue
        n += 1
        if isinstance(x, complex) or isinstance(y, complex):
            d = complex(x) - complex(y)         # logarithms of negative numbers agree up to a full turn
            y = x - complex(d.real, math.remainder(d.imag, 2 * math.pi))
        if abs(x - y) > tol * (abs(x) + abs(y)) + 1e-12:
            return False
    return True if n >= need else None
