"""Value numbering of functions that work on records (dictionaries, data frames) with known keys."""
import ast
import re
from fractions import Fraction

from . import algebra as A
from .algebra import E, ZERO, const
from .valnum import Eval, Undecided, Ret, Tok, SELF, as_bool, as_num


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, name):
        self.name = name


class Loop(Exception):
    pass


class Brk(Loop):
    pass


class Cont(Loop):
    pass


def is_list(v):
    return isinstance(v, tuple) and not isinstance(v, E)


def elements(v):
    if isinstance(v, dict):
        return [Tok(k) for k in v]
    if is_list(v):
        return list(v)
    raise Undecided("iteration over %r" % (v,))


class RecEval(Eval):
    """functions matching OPAQUE that cannot be evaluated (they call outside libraries) become uninterpreted"""
    OPAQUE = re.compile("(redshift|distance)_to_|lalsim|^transform_precessing_spins|^generate_detector_response")

    def external(self, func):
        return func.cls is None and bool(self.OPAQUE.search(func.name))

    def binop(self, op, l, r):
        if isinstance(l, E) and isinstance(r, E):
            try:
                out = super().binop(op, l, r)
                if not isinstance(out, E) or len(out) <= 80:
                    return out
            except A.TooBig:
                pass
            l, r = (A.fn("val", x) if len(x) > 3 else x for x in (l, r))
        return super().binop(op, l, r)

    def call(self, func, args, kwargs=None, selfval=False):
        try:
            return super().call(func, args, kwargs, selfval)
        except (Undecided, RecursionError):
            flat = list(args) + [v for _, v in sorted((kwargs or {}).items())]
            if self.external(func) and self.depth > 0 and all(isinstance(a, (E, Tok)) for a in flat):
                names = [a for a in flat if isinstance(a, E)]
                return A.fn("@" + func.qual, *(names or [ZERO]))
            raise

    # -- statements -------------------------------------------------------------
    def stmt(self, st, env):
        if isinstance(st, ast.If):
            try:
                t = self.truth(self.expr(st.test, env))
            except Undecided:
                if self.raises(st.body) and not st.orelse:
                    return
                raise
            self.block(st.body if t else st.orelse, env)
            return
        if isinstance(st, ast.Raise):
            n = st.exc
            if isinstance(n, ast.Call):
                n = n.func
            raise PyExc(n.id if isinstance(n, ast.Name) else getattr(n, "attr", "Exception"))
        if isinstance(st, ast.For):
            try:
                for x in elements(self.iterable(st.iter, env)):
                    self.assign(st.target, x, env)
                    try:
                        self.block(st.body, env)
                    except Cont:
                        continue
            except Brk:
                return
            self.block(st.orelse, env)
            return
        if isinstance(st, ast.Break):
            raise Brk()
        if isinstance(st, ast.Continue):
            raise Cont()
        if isinstance(st, ast.Try):
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else {"Exception"}
                    if names & {e.name, "Exception", "BaseException"} or e.name == "KeyError" and "LookupError" in names:
                        if h.name:
                            env[h.name] = Tok("exception")
                        self.block(h.body, env)
                        break
                else:
                    self.block(st.finalbody, env)
                    raise
            else:
                self.block(st.orelse, env)
            self.block(st.finalbody, env)
            return
        if isinstance(st, ast.FunctionDef):
            env[st.name] = ("closure", st, env)
            return
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    d, k = self.expr(t.value, env), self.expr(t.slice, env)
                    if isinstance(d, dict) and isinstance(k, Tok):
                        if k.v not in d:
                            raise PyExc("KeyError")
                        del d[k.v]
                        continue
                raise Undecided("del")
            return
        return super().stmt(st, env)

    def truth(self, v):
        if isinstance(v, dict):
            return bool(v)
        if is_list(v):
            return bool(v)
        if isinstance(v, Tok):
            return bool(v.v)
        return as_bool(v)

    def assign(self, t, v, env):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, E) and len(v) == 1 and len(v[0][0]) == 1 and v[0][0][0][0][0] == "fn" and v[0][0][0][0][1][0] == "@":
                v = tuple(A.fn("@item", v, const(i)) for i in range(len(t.elts)))
            if not is_list(v) or len(v) != len(t.elts):
                raise Undecided("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
            return
        if isinstance(t, ast.Subscript):
            d, k = self.expr(t.value, env), self.expr(t.slice, env)
            if isinstance(d, dict) and isinstance(k, Tok) and isinstance(k.v, str):
                d[k.v] = v
                return
            raise Undecided("store")
        super().assign(t, v, env)

    def store_elem(self, t, value, env, op):
        d = env.get(t.value.id) if isinstance(t.value, ast.Name) else None
        if isinstance(d, dict):
            k = self.expr(t.slice, env)
            if not (isinstance(k, Tok) and isinstance(k.v, str)):
                raise Undecided("dictionary store")
            v = self.expr(value, env)
            if op is not None:
                if k.v not in d:
                    raise PyExc("KeyError")
                v = self.binop(op, d[k.v], v)
            d[k.v] = v
            return
        super().store_elem(t, value, env, op)

    def iterable(self, e, env):
        return self.expr(e, env)

    # -- expressions --------------------------------------------------------------
    def expr(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, complex) and not e.value:
            self.w.complex = True
            return ZERO
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return tuple(self.comp(e.generators, e.elt, dict(env)))
        if isinstance(e, ast.DictComp):
            return {k.v: v for k, v in self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), dict(env))}
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out += str(v.value)
                else:
                    x = self.expr(v.value, env)
                    out += self.text(x)
            return Tok(out)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            l = self.expr(e.left, env)
            if isinstance(l, Tok) and isinstance(l.v, str) and isinstance(e.op, ast.Add):
                return Tok(l.v + self.text(self.expr(e.right, env)))
            if is_list(l) and isinstance(e.op, ast.Add):
                return l + tuple(elements(self.expr(e.right, env)))
            if isinstance(l, Tok):
                raise Undecided("operator on %r" % l)
            r = self.expr(e.right, env)
            if isinstance(e.op, ast.Mod):
                return A.fn("mod", as_num(l), as_num(r))
            return self.binop(type(e.op), l, r)
        if isinstance(e, ast.BoolOp):
            r = None
            for x in e.values:
                r = self.expr(x, env)
                t = self.truth(r)
                if t != isinstance(e.op, ast.And):
                    return r
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.truth(self.expr(e.operand, env))
        if isinstance(e, ast.IfExp):
            return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)
        return super().expr(e, env)

    def text(self, x):
        if isinstance(x, Tok):
            return str(x.v)
        if isinstance(x, E) and A.is_const(x):
            return str(A.const_of(x))
        raise Undecided("text")

    def comp(self, gens, elt, env):
        g = gens[0]
        for x in elements(self.expr(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.truth(self.expr(c, env)) for c in g.ifs):
                if len(gens) > 1:
                    yield from self.comp(gens[1:], elt, env)
                else:
                    yield self.expr(elt, env)

    def contains(self, l, r):
        if isinstance(l, Tok) and is_list(r):
            return any(isinstance(x, Tok) and x.v == l.v for x in r)
        return super().contains(l, r)

    def subscript(self, e, env):
        b = self.expr(e.value, env)
        if isinstance(b, dict):
            k = self.expr(e.slice, env)
            if isinstance(k, Tok) and isinstance(k.v, str):
                if k.v not in b:
                    raise PyExc("KeyError")
                return b[k.v]
            if is_list(k):
                return {x.v: b[x.v] for x in k}
            raise Undecided("dictionary key")
        if isinstance(b, Tok) and isinstance(b.v, str) and isinstance(e.slice, ast.Slice):
            lo, hi = (None if x is None else int(A.const_of(self.expr(x, env))) for x in (e.slice.lower, e.slice.upper))
            return Tok(b.v[lo:hi])
        if is_list(b) and not isinstance(e.slice, ast.Slice):
            i = self.expr(e.slice, env)
            if isinstance(i, E) and A.is_const(i):
                return b[int(A.const_of(i))]
        if is_list(b) and isinstance(e.slice, ast.Slice):
            lo, hi = (None if x is None else int(A.const_of(self.expr(x, env))) for x in (e.slice.lower, e.slice.upper))
            return b[lo:hi]
        if isinstance(b, E) and isinstance(e.slice, ast.Slice):
            return b
        return super().subscript(e, env)

    def callexpr(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and is_list(env.get(f.id)) and env[f.id] and env[f.id][0] == "closure":
            _, node, outer = env[f.id]
            env2 = dict(outer)
            ps = [a.arg for a in node.args.args]
            for p, d in zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults):
                env2[p] = self.expr(d, outer)
            for p, a in zip(ps, e.args):
                env2[p] = self.expr(a, env)
            for k in e.keywords:
                env2[k.arg] = self.expr(k.value, env)
            try:
                self.block(node.body, env2)
            except Ret as r:
                return r.v
            return Tok(None)
        if isinstance(f, ast.Call) and isinstance(f.func, (ast.Attribute, ast.Name)) \
                and (f.func.attr if isinstance(f.func, ast.Attribute) else f.func.id) == "vectorize" and f.args:
            return self.callexpr(ast.copy_location(ast.Call(func=f.args[0], args=e.args, keywords=e.keywords), e), env)
        if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and env.get(f.value.id) is SELF) \
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            try:
                v = self.expr(f.value, env)
            except Undecided:
                v = None
            n = f.attr
            if isinstance(v, dict):
                if n == "keys":
                    return tuple(Tok(k) for k in v)
                if n == "values":
                    return tuple(v.values())
                if n == "items":
                    return tuple((Tok(k), x) for k, x in v.items())
                if n == "copy":
                    return dict(v)
                if n in ("get", "pop") and e.args:
                    k = self.expr(e.args[0], env)
                    if isinstance(k, Tok):
                        if k.v in v:
                            return v.pop(k.v) if n == "pop" else v[k.v]
                        if len(e.args) > 1:
                            return self.expr(e.args[1], env)
                        if n == "get":
                            return Tok(None)
                        raise PyExc("KeyError")
                if n == "update":
                    for a in e.args:
                        x = self.expr(a, env)
                        if not isinstance(x, dict):
                            raise Undecided("update")
                        v.update(x)
                    for k in e.keywords:
                        v[k.arg] = self.expr(k.value, env)
                    return Tok(None)
                raise Undecided("dictionary method %s" % n)
            if isinstance(v, Tok) and isinstance(v.v, str) and isinstance(f.value, (ast.Constant, ast.Name, ast.JoinedStr)) \
                    and n in ("format", "startswith", "endswith", "replace", "strip", "rstrip", "lower", "split"):
                args = [self.expr(a, env) for a in e.args]
                if n == "format":
                    return Tok(v.v.format(*[self.text(a) for a in args], **{k.arg: self.text(self.expr(k.value, env)) for k in e.keywords}))
                r = getattr(v.v, n)(*[a.v for a in args])
                return Tok(r) if isinstance(r, str) else r if isinstance(r, bool) else tuple(Tok(x) for x in r)
            if is_list(v) and n in ("append", "extend") and isinstance(f.value, ast.Name):
                x = self.expr(e.args[0], env)
                env[f.value.id] = v + ((x,) if n == "append" else tuple(elements(x)))
                return Tok(None)
        return super().callexpr(e, env)

    def builtin(self, n, e, env):
        if n in ("list", "tuple", "set", "sorted", "dict") and len(e.args) == 1 and not e.keywords:
            v = self.expr(e.args[0], env)
            if n == "dict":
                return dict(v) if isinstance(v, dict) else {k.v: x for k, x in elements(v)}
            out = elements(v)
            return tuple(sorted(out, key=lambda t: t.v) if n == "sorted" else out)
        if n in ("list", "tuple") and not e.args:
            return ()
        if n == "zip":
            return tuple(zip(*[elements(self.expr(a, env)) for a in e.args]))
        if n == "enumerate":
            return tuple((const(i), x) for i, x in enumerate(elements(self.expr(e.args[0], env))))
        if n in ("any", "all") and len(e.args) == 1:
            v = self.expr(e.args[0], env)
            if is_list(v):
                return (any if n == "any" else all)(self.truth(x) for x in v)
            return as_bool(v)
        if n == "str" and len(e.args) == 1:
            return Tok(self.text(self.expr(e.args[0], env)))
        if n == "len" and len(e.args) == 1:
            v = self.expr(e.args[0], env)
            if is_list(v) or isinstance(v, dict):
                return const(len(v))
            if isinstance(v, E):
                raise PyExc("TypeError")
            return Tok("len")
        if n == "getattr" and len(e.args) == 3:
            v = self.expr(e.args[0], env)
            if isinstance(v, Tok) and v.v is None:
                return self.expr(e.args[2], env)
            raise Undecided("getattr")
        if n == "isinstance":
            v = self.expr(e.args[0], env)
            names = {x.id for x in ast.walk(e.args[1]) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(e.args[1]) if isinstance(x, ast.Attribute)}
            if isinstance(v, dict):
                return "dict" in names
            if isinstance(v, Tok) and v.v is None:
                return False
            if isinstance(v, Tok) and isinstance(v.v, str):
                return "str" in names
        if n == "sign" and len(e.args) == 1:
            v = as_num(self.expr(e.args[0], env))
            if isinstance(v, E):
                s = self.w.sign(v)
                if s is None:
                    s = 1 if self.w.compare(ast.Gt, v, ZERO) else -1
                return const(s)
        if n == "abs" and len(e.args) == 1:
            v = self.expr(e.args[0], env)
            if isinstance(v, E) and self.w.sign(v) is None and getattr(self.w, "complex", False):
                return v
            if isinstance(v, E) and self.w.sign(v) is None:
                return v if self.w.compare(ast.Gt, v, ZERO) else -v
        if n == "cbrt" and len(e.args) == 1:
            return A.power(as_num(self.expr(e.args[0], env)), const(Fraction(1, 3)))
        if n in ("mod", "fmod", "remainder") and len(e.args) == 2:
            return A.fn("mod", *[as_num(self.expr(a, env)) for a in e.args])
        if n in ("arctan2", "hypot") and len(e.args) == 2:
            return A.fn(n, *[as_num(self.expr(a, env)) for a in e.args])
        if n in ("deepcopy",) and len(e.args) == 1:
            v = self.expr(e.args[0], env)
            return dict(v) if isinstance(v, dict) else v
        return super().builtin(n, e, env)
