"""Value numbering of numeric functions: each result is reduced to an algebraic normal form, per combination of the comparisons
it depends on.  Arrays are treated elementwise; masks select the element under consideration."""
import ast
from fractions import Fraction

from . import algebra as A
from . import randint as R
from .algebra import E, ZERO, ONE, const, sym, fn


class Undecided(Exception):
    pass


class Need(Exception):
    def __init__(self, key):
        self.key = key


class Sp:
    """special value: inf, -inf, nan"""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k

    def __eq__(self, o):
        return isinstance(o, Sp) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


INF, NINF, NAN = Sp("inf"), Sp("-inf"), Sp("nan")


class Tok:
    """a value that carries no number (length, shape, module, None, string)"""

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return "<%r>" % (self.v,)


class Dead:
    """element not selected by the mask"""


DEAD = Dead()
IDENT = set("nan_to_num atleast_1d array asarray float squeeze copy asanyarray float64 double real flatten ravel item int_ astype "
            "atleast_2d".split())
FUNCS1 = {"log": "log", "exp": "exp", "sqrt": "sqrt", "erf": "erf", "erfinv": "erfinv", "sin": "sin", "cos": "cos", "tan": "tan",
          "arcsin": "arcsin", "arccos": "arccos", "arctan": "arctan", "abs": "abs", "fabs": "abs", "absolute": "abs", "gammaln": "gammaln",
          "log1p": "log1p", "expm1": "expm1", "log10": "log10", "square": "square", "gamma": "gamma", "erfc": "erfc", "sinh": "sinh",
          "cosh": "cosh", "tanh": "tanh", "arctanh": "arctanh", "log2": "log2"}
FUNCS2 = {"xlogy": "xlogy", "logaddexp": "logaddexp", "power": "power", "pow": "power", "betaln": "betaln", "beta": "beta",
          "stdtr": "stdtr", "stdtrit": "stdtrit", "gammainc": "gammainc", "gammaincinv": "gammaincinv"}
FUNCS3 = {"btdtr": "btdtr", "btdtri": "btdtri", "betainc": "btdtr", "betaincinv": "btdtri"}
BINF = {"multiply": ast.Mult, "add": ast.Add, "subtract": ast.Sub, "divide": ast.Div, "true_divide": ast.Div}


def as_num(v):
    if v is True:
        return ONE
    if v is False:
        return ZERO
    if isinstance(v, (E, Sp, Dead)):
        return v
    raise Undecided("not a number: %r" % (v,))


def as_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, E) and A.is_const(v):
        return A.const_of(v) != 0
    raise Undecided("undetermined truth value")


class World:
    """facts (expression > 0), decisions made so far, constructor attributes"""

    def __init__(self, facts=(), decisions=None, scalar=None, samples=None):
        self.facts = list(facts)
        self.dec = decisions if decisions is not None else {}
        self.scalar = scalar
        self.samples = samples
        self._envs = {}

    def envs(self):
        """valuations admissible under the facts and the decisions made so far"""
        if self.samples is None:
            return []
        key = len(self.dec)
        if key not in self._envs:
            self._envs[key] = admissible(self.samples, self.facts, self.dec)
        return self._envs[key]

    def sign(self, d):
        """sign of an expression: 1, -1, 0 or None"""
        if A.is_const(d):
            c = A.const_of(d)
            return (c > 0) - (c < 0)
        if A.is_zero(d):
            return 0
        s = sign_of_logs(d)
        if s is not None:
            return s
        for f in self.facts:
            for k in (1, -1):
                r = ratio(d, f)
                if r is not None:
                    return 1 if r > 0 else -1
        # a sum of facts with positive weights
        s = self.sum_of_facts(d)
        if s is not None:
            return s
        return None

    def sum_of_facts(self, d):
        for i, f in enumerate(self.facts):
            for g in self.facts[i:]:
                for k1 in (1, Fraction(1, 2), 2):
                    for k2 in (1, Fraction(1, 2), 2):
                        t = A.scale(f, k1) + A.scale(g, k2)
                        r = ratio(d, t)
                        if r is not None:
                            return 1 if r > 0 else -1
        # product of positive symbols
        if len(d) == 1 and all(a[0] in ("sym", "int") or a[0] == "fn" and a[1] == "exp" or self.known_pos(a) for a, _ in d[0][0]) \
                and all(a[0] != "sym" or a[1] in ("e", "pi") or sym(a[1]) in self.facts for a, _ in d[0][0]):
            return 1 if d[0][1] > 0 else -1
        return None

    def known_pos(self, a):
        b = A.base_of(a)
        return any(ratio(b, f) is not None and ratio(b, f) > 0 for f in self.facts)

    def compare(self, op, l, r):
        """truth of l op r"""
        if isinstance(l, Tok) or isinstance(r, Tok):
            if isinstance(l, Tok) and isinstance(r, Tok) and op in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
                return (l.v == r.v) == (op in (ast.Eq, ast.Is))
            raise Undecided("comparison of %r and %r" % (l, r))
        l, r = as_num(l), as_num(r)
        if l is DEAD or r is DEAD:
            return False
        if isinstance(l, Sp) or isinstance(r, Sp):
            rank = {"-inf": -1, "inf": 1}
            if l == NAN or r == NAN:
                return op is ast.NotEq
            a = rank[l.k] if isinstance(l, Sp) else 0
            b = rank[r.k] if isinstance(r, Sp) else 0
            s = (a > b) - (a < b)
        else:
            d = l - r
            s = self.sign(d)
            if s is None:
                if op in (ast.Eq, ast.NotEq):
                    k = self.ask(("zero", norm_sign(d)[0]))
                    return k == (op is ast.Eq)
                n, flip = norm_sign(d)
                if ("pos", n) not in self.dec:
                    seen = self.samples.signs(n, self.envs()) if self.samples is not None else set()
                    if len(seen & {1, -1}) == 1:
                        pos = 1 in seen
                    else:
                        pos = self.ask(("pos", n))
                else:
                    pos = self.ask(("pos", n))
                s = 1 if pos != flip else -1
        return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0, ast.Eq: s == 0, ast.NotEq: s != 0}[op]

    def ask(self, key):
        if key in self.dec:
            return self.dec[key]
        raise Need(key)


def substitutions(dec):
    """decisions 'expression is zero' solved for a parameter"""
    out = []
    for key, v in dec.items():
        if key[0] == "zero" and v:
            e = key[1]
            lin = [(m, c) for m, c in e if len(m) == 1 and m[0][0][0] == "sym" and m[0][1] == ONE]
            cst = A.E([t for t in e if t[0] == ()])
            if len(lin) == 1 and len(e) <= 2 and lin[0][0][0][0][1] not in ("val", "u"):
                out.append((lin[0][0][0][0][1], A.scale(cst, -1 / lin[0][1])))
    return out


def admissible(samples, facts, dec):
    subs = substitutions(dec)
    out = []
    for env in samples.env:
        if subs:
            env = dict(env)
            for n, x in subs:
                env[n] = R.value(x, env)
        try:
            if subs and not all(R.real(R.value(f, env)) > 0 for f in facts):
                continue
            if any(k[0] == "pos" and (R.real(R.value(k[1], env)) > 0) != v for k, v in dec.items()):
                continue
        except (R.NoValue, OverflowError, ZeroDivisionError, ValueError):
            continue
        out.append(env)
    return out


def sign_of_logs(d):
    """sign of a rational combination of logarithms of whole numbers: that of the logarithm of a product of their powers"""
    terms = []
    for m, c in d:
        if len(m) != 1 or m[0][1] != ONE or m[0][0][:2] != ("fn", "log") or len(m[0][0]) != 3 or not A.is_const(m[0][0][2]):
            return None
        v = A.const_of(m[0][0][2])
        if v <= 0:
            return None
        terms.append((v, c))
    den = 1
    for v, c in terms:
        den *= c.denominator
    if den > 64 or any(abs(c) > 64 for v, c in terms):
        return None
    p = Fraction(1)
    for v, c in terms:
        p *= Fraction(v) ** int(c * den)
    return (p > 1) - (p < 1)


def norm_sign(d):
    if d[0][1] < 0:
        return A.scale(d, -1), True
    return d, False


def ratio(a, b):
    """a = k*b for a number k"""
    if len(a) != len(b) or not a:
        return None
    if any(x[0] != y[0] for x, y in zip(a, b)):
        return None
    k = a[0][1] / b[0][1]
    return k if all(x[1] == k * y[1] for x, y in zip(a, b)) else None


def cases(thunk, limit=96):
    """thunk(decisions) -> result; enumerates the decisions it needs.  yields (decisions, result or Undecided)"""
    stack, n = [{}], 0
    while stack:
        d = stack.pop()
        n += 1
        if n > limit:
            yield d, Undecided("too many cases")
            return
        try:
            r = thunk(d)
        except Need as e:
            for v in (False, True):
                d2 = dict(d)
                d2[e.key] = v
                stack.append(d2)
            continue
        except (Undecided, A.TooBig, RecursionError, ZeroDivisionError, OverflowError) as e:
            r = Undecided(str(e) or type(e).__name__)
        yield d, r


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Eval:
    def __init__(self, prog, world, cls=None, attrs=None, depth=0, given=()):
        self.prog, self.w, self.cls, self.depth = prog, world, cls, depth
        self.attrs = attrs if attrs is not None else {}
        self.given = given

    # -- calling ------------------------------------------------------------
    def call(self, func, args, kwargs=None, selfval=False):
        """value of a call with evaluated arguments; methods: args exclude self"""
        if self.depth > 14:
            raise Undecided("call depth")
        ev = type(self)(self.prog, self.w, self.cls, self.attrs, self.depth + 1, self.given)
        ev.func = func
        ps = list(func.params)
        env = {}
        if func.cls is not None and func.deco_kind() != "static":
            env[ps[0]] = SELF
            ev.me = ps[0]
            ps = ps[1:]
        else:
            ev.me = None
        for p, a in zip(ps, args):
            env[p] = a
        for k, v in (kwargs or {}).items():
            env[k] = v
        a = func.node.args
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in list(ps) + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p in defaults:
                    env[p] = ev.expr(defaults[p], {})
                else:
                    env[p] = sym(p)
        try:
            ev.block(func.body, env)
        except Ret as r:
            return r.v
        return Tok(None)

    # -- constructor ----------------------------------------------------------
    def construct(self, cls):
        """attributes set by the constructor, with each parameter a symbol of its own name"""
        out = {}
        init = cls.find("__init__")
        if init is None:
            return out
        self.attrs = out
        self.cls = cls
        self._init(init, {p: sym(p) for p in init.all_params if p != init.params[0]}, cls, 0)
        return out

    def _init(self, init, env, cls, depth):
        if depth > 6:
            return
        ev = Eval(self.prog, self.w, cls, self.attrs, 1)
        ev.func, ev.me = init, init.params[0]
        env = dict(env)
        env[ev.me] = SELF
        own = self.prog.enclosing_class(init)
        self._init_block(init.body, env, ev, cls, own, depth)

    def _init_block(self, body, env, ev, cls, own, depth):
        for st in body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr == "__init__":
                mro = cls.mro()
                nxt = None
                for c in mro[mro.index(own) + 1:] if own in mro else []:
                    if "__init__" in c.methods:
                        nxt = c.methods["__init__"]
                        break
                if nxt is None:
                    continue
                call = st.value
                e2 = {}
                ps = nxt.params[1:]
                args = call.args if not (isinstance(call.func.value, ast.Name)) else call.args[1:]
                for p, a in zip(ps, args):
                    e2[p] = self._try(ev, a, env)
                for k in call.keywords:
                    if k.arg:
                        e2[k.arg] = self._try(ev, k.value, env)
                a = nxt.node.args
                allp = [x.arg for x in a.posonlyargs + a.args]
                for p, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
                    if p not in e2:
                        e2[p] = self._try(ev, d, {})
                self._init(nxt, {p: e2.get(p) for p in nxt.all_params if p in e2 and e2[p] is not None}, cls, depth + 1)
                continue
            if isinstance(st, ast.If):
                if self.raises(st.body):
                    continue
                try:
                    t = as_bool(ev.expr(st.test, env))
                except Undecided:
                    continue
                self._init_block(st.body if t else st.orelse, env, ev, cls, own, depth)
                continue
            if isinstance(st, ast.Assign):
                try:
                    v = ev.expr(st.value, env)
                except Undecided:
                    v = None
                for t in st.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == ev.me:
                        if v is not None:
                            self.attrs[t.attr] = v
                        else:
                            self.attrs.pop(t.attr, None)
                    elif isinstance(t, ast.Name):
                        if v is None:
                            env.pop(t.id, None)
                        else:
                            env[t.id] = v
            # other statements do not define attributes

    def _try(self, ev, e, env):
        try:
            return ev.expr(e, env)
        except Undecided:
            return None

    def raises(self, body):
        return bool(body) and isinstance(body[-1], ast.Raise)

    # -- statements -----------------------------------------------------------
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        if isinstance(st, ast.Return):
            raise Ret(self.expr(st.value, env) if st.value is not None else Tok(None))
        if isinstance(st, ast.If):
            if self.raises(st.body) and not st.orelse:
                return
            if self.raises(st.body):
                self.block(st.orelse, env)
                return
            if self.raises(st.orelse) and st.orelse:
                self.block(st.body, env)
                return
            self.block(st.body if as_bool(self.expr(st.test, env)) else st.orelse, env)
            return
        if isinstance(st, ast.Assign):
            v = None
            for t in st.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.store_elem(t, st.value, env, None)
                    continue
                if v is None:
                    v = self.expr(st.value, env)
                self.assign(t, v, env)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.expr(st.value, env), env)
            return
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Subscript) and isinstance(st.target.value, ast.Name):
                self.store_elem(st.target, st.value, env, type(st.op))
                return
            if isinstance(st.target, ast.Name):
                env[st.target.id] = self.binop(type(st.op), self.name(st.target.id, env), self.expr(st.value, env))
                return
            raise Undecided("augmented assignment")
        if isinstance(st, (ast.Expr,)):
            if isinstance(st.value, (ast.Constant, ast.JoinedStr)):
                return
            if isinstance(st.value, ast.Call):
                f = st.value.func
                n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if n in ("debug", "info", "warning", "warn", "print", "check_range"):
                    return
            try:
                self.expr(st.value, env)
            except Undecided:
                raise
            return
        if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Assert)):
            return
        if isinstance(st, ast.With):
            self.block(st.body, env)
            return
        if isinstance(st, ast.Try):
            self.block(st.body, env)
            self.block(st.orelse, env)
            self.block(st.finalbody, env)
            return
        if isinstance(st, (ast.FunctionDef,)):
            env[st.name] = st
            return
        raise Undecided("statement %s" % type(st).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or isinstance(v, E) or len(v) != len(t.elts):
                raise Undecided("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            raise Undecided("attribute store")
        else:
            raise Undecided("store")

    def mask(self, idx):
        """does the index select the element under consideration"""
        if isinstance(idx, bool):
            return idx
        if isinstance(idx, tuple) and not isinstance(idx, E) and len(idx) == 1 and isinstance(idx[0], bool):
            return idx[0]
        raise Undecided("index")

    def store_elem(self, t, value, env, op):
        if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
            sel = True
        else:
            idx = self.expr(t.slice, env)
            if isinstance(idx, Tok) and isinstance(idx.v, str):
                d = env.get(t.value.id)
                if isinstance(d, dict) and op is None:
                    d[idx.v] = self.expr(value, env)
                    return
                raise Undecided("dictionary store")
            sel = self.mask(idx)
        if sel:
            v = self.expr(value, env)
            env[t.value.id] = v if op is None else self.binop(op, self.name(t.value.id, env), v)

    # -- expressions ------------------------------------------------------------
    def name(self, n, env):
        if n in env:
            return env[n]
        f = getattr(self, "func", None)
        m = f.module if f is not None else None
        if n in ("True", "False"):
            return n == "True"
        if m is not None:
            q = self.prog.resolve(m, ast.Name(id=n, ctx=ast.Load()), f)
            if isinstance(q, str):
                v = self.const_of(q)
                if v is not None:
                    return v
                return Tok(q)
        return Tok(n)

    def const_of(self, q):
        """module-level numeric constants"""
        mod, _, nm = q.rpartition(".")
        m = self.prog.modules.get(mod) if isinstance(self.prog.modules, dict) else None
        if m is None:
            return None
        vs = [n.value for n in m.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets)]
        if len(vs) == 1 and isinstance(vs[0], (ast.Constant, ast.BinOp, ast.UnaryOp)):
            return sym(q)
        return None

    def expr(self, e, env):
        w = self.w
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, bool):
                return v
            if isinstance(v, int):
                return const(v)
            if isinstance(v, float):
                if v == float("inf"):
                    return INF
                return const(Fraction(repr(v)))
            return Tok(v)
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, env)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not as_bool(v)
            if isinstance(e.op, ast.Invert):
                return not as_bool(v)
            if isinstance(e.op, ast.UAdd):
                return v
            v = as_num(v)
            if v is DEAD:
                return DEAD
            return {INF: NINF, NINF: INF, NAN: NAN}[v] if isinstance(v, Sp) else -v
        if isinstance(e, ast.BinOp):
            return self.binop(type(e.op), self.expr(e.left, env), self.expr(e.right, env))
        if isinstance(e, ast.BoolOp):
            r = None
            for x in e.values:
                r = as_bool(self.expr(x, env))
                if isinstance(e.op, ast.And) and not r:
                    return False
                if isinstance(e.op, ast.Or) and r:
                    return True
            return r
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, env)
            for op, c in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    v = self.contains(l, self.expr(c, env))
                    return v if isinstance(op, ast.In) else not v
                r = self.expr(c, env)
                if isinstance(op, (ast.Is, ast.IsNot)):
                    if isinstance(r, Tok) and r.v is None:
                        v = isinstance(l, Tok) and l.v is None
                        v = v if isinstance(op, ast.Is) else not v
                    elif isinstance(r, bool) and isinstance(l, bool):
                        v = (l == r) == isinstance(op, ast.Is)
                    else:
                        raise Undecided("identity comparison")
                else:
                    v = w.compare(type(op), l, r)
                if not v:
                    return False
                l = r
            return True
        if isinstance(e, ast.IfExp):
            return self.expr(e.body if as_bool(self.expr(e.test, env)) else e.orelse, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.expr(x, env) for x in e.elts)
        if isinstance(e, ast.Call):
            return self.callexpr(e, env)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                kk = self.expr(k, env) if k is not None else None
                if not (isinstance(kk, Tok) and isinstance(kk.v, str)):
                    raise Undecided("dictionary")
                d[kk.v] = self.expr(v, env)
            return d
        if isinstance(e, ast.JoinedStr):
            return Tok("fstring")
        raise Undecided("expression %s" % type(e).__name__)

    def contains(self, l, r):
        if isinstance(l, Tok) and isinstance(r, tuple) and all(isinstance(x, Tok) for x in r):
            return any(x.v == l.v for x in r)
        if isinstance(l, Tok) and isinstance(r, dict):
            return l.v in r
        raise Undecided("membership")

    def subscript(self, e, env):
        b = self.expr(e.value, env)
        if isinstance(b, dict):
            k = self.expr(e.slice, env)
            if isinstance(k, Tok) and isinstance(k.v, str) and k.v in b:
                return b[k.v]
            raise Undecided("dictionary key")
        if isinstance(b, Tok):
            return Tok("item")
        if isinstance(e.slice, ast.Slice):
            if isinstance(b, E):
                return b
            raise Undecided("slice")
        i = self.expr(e.slice, env)
        if isinstance(b, tuple) and not isinstance(b, E):
            if isinstance(i, E) and A.is_const(i):
                k = int(A.const_of(i))
                if -len(b) <= k < len(b):
                    return b[k]
            raise Undecided("tuple index")
        if isinstance(i, bool) or isinstance(i, tuple) and not isinstance(i, E) and len(i) == 1 and isinstance(i[0], bool):
            return b if self.mask(i) else DEAD
        if isinstance(b, (bool, Sp)) or isinstance(b, E):
            if isinstance(i, E) and A.is_const(i):
                return b            # np.where(mask)[0], or an element of an array treated elementwise
        raise Undecided("subscript")

    def attribute(self, e, env):
        if isinstance(e.value, ast.Name) and env.get(e.value.id) is SELF:
            return self.selfattr(e.attr)
        v = self.expr(e.value, env)
        n = e.attr
        if isinstance(v, Tok) and isinstance(v.v, str):
            q = v.v + "." + n
            if v.v.split(".")[0] in ("numpy", "np", "math", "scipy"):
                if n == "pi":
                    return A.PI
                if n == "e":
                    return sym("e")
                if n in ("inf", "Inf"):
                    return INF
                if n == "nan":
                    return NAN
            c = self.const_of(q)
            return c if c is not None else Tok(q)
        if isinstance(v, (E, bool, Sp)) and n in ("size", "shape", "ndim", "dtype"):
            return Tok(n)
        if isinstance(v, (E, bool, Sp)) and n in ("T", "real", "values"):
            return v
        raise Undecided("attribute %s" % n)

    def selfattr(self, n):
        if n in self.attrs:
            return self.attrs[n]
        if self.cls is not None:
            f = self.cls.find(n)
            if f is not None and f.deco_kind() == "property":
                return self.call(f, [])
            if f is not None:
                return ("method", f)
            a = self.cls.find_attr(n)
            if a is not None and isinstance(a[0], ast.Constant):
                return self.expr(a[0], {})
        s = n.lstrip("_")
        if s in self.attrs:
            return self.attrs[s]
        return sym(s)

    def binop(self, op, l, r):
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            a, b = as_bool(l), as_bool(r)
            return (a and b) if op is ast.BitAnd else (a or b) if op is ast.BitOr else a != b
        l, r = as_num(l), as_num(r)
        if l is DEAD or r is DEAD:
            return DEAD
        if isinstance(l, Sp) or isinstance(r, Sp):
            return self.spop(op, l, r)
        if op is ast.Add:
            return l + r
        if op is ast.Sub:
            return l - r
        if op is ast.Mult:
            return l * r
        if op is ast.Div:
            if not r:
                if not l:
                    return NAN
                return INF
            return l / r
        if op is ast.Pow:
            return A.power(l, r)
        raise Undecided("operator %s" % op.__name__)

    def spop(self, op, l, r):
        if NAN in (l, r):
            return NAN
        if op is ast.Sub:
            r = {INF: NINF, NINF: INF}[r] if isinstance(r, Sp) else -r
            op = ast.Add
        if op is ast.Add:
            if isinstance(l, Sp) and isinstance(r, Sp):
                return l if l == r else NAN
            return l if isinstance(l, Sp) else r
        if op is ast.Mult:
            sp, o = (l, r) if isinstance(l, Sp) else (r, l)
            if isinstance(o, E):
                if not o:
                    return NAN
                s = self.w.sign(o)
                if s is None:
                    raise Undecided("sign")
                return sp if s > 0 else {INF: NINF, NINF: INF}[sp]
            return INF if l == r else NINF
        if op is ast.Div and isinstance(r, Sp) and isinstance(l, E):
            return ZERO
        if op is ast.Div and isinstance(l, Sp):
            return self.spop(ast.Mult, l, r)
        raise Undecided("operation on infinity")

    def apply(self, name, args):
        args = [as_num(a) for a in args]
        if any(a is DEAD for a in args):
            return DEAD
        x = args[-1]
        if name == "log" and isinstance(x, E) and not x:
            return NINF
        if name == "log" and x == INF:
            return INF
        if name == "exp" and isinstance(x, Sp):
            return {INF: INF, NINF: ZERO, NAN: NAN}[x]
        if name == "xlogy" and isinstance(x, E) and not x:
            return NINF if args[0] else ZERO
        if name == "abs" and isinstance(x, E):
            s = self.w.sign(x)
            if s is not None:
                return x if s >= 0 else -x
        if name in ("erf", "tanh") and isinstance(x, Sp) and x != NAN:
            return ONE if x == INF else -ONE
        if any(isinstance(a, Sp) for a in args):
            raise Undecided("%s of infinity" % name)
        return fn(name, *args)

    def minmax(self, a, b, small):
        if isinstance(a, Tok) or isinstance(b, Tok):
            raise Undecided("min/max")
        less = self.w.compare(ast.Lt, a, b)
        return a if less == small else b

    def callexpr(self, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                own = self.prog.enclosing_class(self.func)
                mro = self.cls.mro() if self.cls else []
                for c in mro[mro.index(own) + 1:] if own in mro else []:
                    if f.attr in c.methods:
                        return self.call(c.methods[f.attr], [self.expr(a, env) for a in e.args],
                                         {k.arg: self.expr(k.value, env) for k in e.keywords if k.arg})
                raise Undecided("super().%s" % f.attr)
            if isinstance(f.value, ast.Name) and env.get(f.value.id) is SELF:
                m = self.selfattr(f.attr)
                if isinstance(m, tuple) and not isinstance(m, E) and m and m[0] == "method":
                    return self.call(m[1], [self.expr(a, env) for a in e.args if not isinstance(a, ast.Starred)],
                                     {k.arg: self.expr(k.value, env) for k in e.keywords if k.arg})
                raise Undecided("self.%s(...)" % f.attr)
            n = f.attr
            q = None
            v = None
            try:
                v = self.expr(f.value, env)
            except Undecided:
                raise
            if isinstance(v, (E, bool, Sp, Dead)):
                if n in IDENT or n in ("reshape",):
                    return v
                if n in ("all", "any"):
                    return v
                raise Undecided("method %s" % n)
            if isinstance(v, dict):
                if n == "copy":
                    return dict(v)
                if n == "get" and e.args:
                    k = self.expr(e.args[0], env)
                    if isinstance(k, Tok) and k.v in v:
                        return v[k.v]
                raise Undecided("dictionary method")
            if isinstance(v, Tok) and isinstance(v.v, str):
                q = v.v + "." + n
        elif isinstance(f, ast.Name):
            n = f.id
            if isinstance(env.get(n), ast.FunctionDef):
                raise Undecided("nested function")
            t = self.name(n, env)
            q = t.v if isinstance(t, Tok) else None
            if q is None:
                raise Undecided("call of a value")
        else:
            raise Undecided("call")
        target = self.prog.by_qual.get(q) if isinstance(q, str) else None
        if target is not None and target.cls is None:
            return self.call(target, [self.expr(a, env) for a in e.args], {k.arg: self.expr(k.value, env) for k in e.keywords if k.arg})
        return self.builtin(n, e, env)

    def builtin(self, n, e, env):
        w = self.w
        if n == "isinstance":
            v = self.expr(e.args[0], env)
            names = {x.id for x in ast.walk(e.args[1]) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(e.args[1]) if isinstance(x, ast.Attribute)}
            if isinstance(v, Tok):
                if "str" in names and len(names) == 1:
                    return isinstance(v.v, str)
                raise Undecided("isinstance")
            if names & {"str", "dict"} and not names & {"float", "int", "ndarray", "list"}:
                return False
            if isinstance(v, E) and not (A.symbols(v) & VARS) or isinstance(v, bool) and False:
                return bool(names & {"float", "int", "number", "Number"})
            sc = w.ask(("scalar",)) if w.scalar is None else w.scalar
            return sc if names & {"float", "int", "number", "Number"} else (not sc) if names & {"ndarray", "list", "tuple"} else False
        if n == "isscalar" or n == "hasattr":
            v = self.expr(e.args[0], env)
            if isinstance(v, E) and not (A.symbols(v) & VARS):
                return n == "isscalar"
            sc = w.ask(("scalar",)) if w.scalar is None else w.scalar
            return sc if n == "isscalar" else not sc
        if n == "len":
            return Tok("len")
        if n == "issubclass" or n == "type":
            raise Undecided(n)
        args = [self.expr(a, env) for a in e.args if not isinstance(a, ast.Starred)]
        kw = {k.arg: k.value for k in e.keywords}
        if n in IDENT and args:
            return args[0]
        if n in ("ones_like", "ones"):
            return ONE
        if n in ("zeros_like", "zeros", "empty", "empty_like"):
            return ZERO
        if n in ("full", "full_like") and len(args) > 1:
            return args[1]
        if n in FUNCS1 and len(args) == 1:
            return self.apply(FUNCS1[n], args)
        if n in FUNCS2 and len(args) == 2:
            return self.apply(FUNCS2[n], args)
        if n in FUNCS3 and len(args) == 3:
            return self.apply(FUNCS3[n], args)
        if n in BINF and len(args) == 2:
            return self.binop(BINF[n], args[0], args[1])
        if n in ("minimum", "min", "fmin") and len(args) == 2:
            return self.minmax(args[0], args[1], True)
        if n in ("maximum", "max", "fmax") and len(args) == 2:
            return self.minmax(args[0], args[1], False)
        if n == "clip" and len(args) == 3:
            return self.minmax(self.minmax(args[0], args[1], False), args[2], True)
        if n == "where":
            c = args[0]
            if len(args) == 1:
                return (as_bool(c),)
            sel = as_bool(c)
            v = args[1] if sel else args[2]
            return v
        if n in ("logical_and", "logical_or") and len(args) == 2:
            a, b = as_bool(args[0]), as_bool(args[1])
            return (a and b) if n == "logical_and" else (a or b)
        if n in ("logical_not", "invert") and args:
            return not as_bool(args[0])
        if n in ("any", "all", "bool") and len(args) == 1:
            return as_bool(args[0])
        if n in ("isnan",) and args:
            return args[0] == NAN
        if n == "isfinite" and args:
            return isinstance(args[0], E)
        if n == "isinf" and args:
            return args[0] in (INF, NINF) if isinstance(args[0], Sp) else False
        if n == "dict":
            return {k: self.expr(v, env) for k, v in kw.items() if k}
        if n == "heaviside" and len(args) == 2:
            return ONE if w.compare(ast.Gt, args[0], ZERO) else ZERO
        raise Undecided("call of %s" % n)


class _Self:
    def __repr__(self):
        return "self"


SELF = _Self()
VARS = {"val", "u"}
