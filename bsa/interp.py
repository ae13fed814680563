"""Abstract evaluation of code that works on objects: structure (objects, lists, dictionaries, strings) is concrete, numbers are
algebraic normal forms, arrays are treated elementwise.  Anything outside this domain is Undecided."""
import posixpath
import ast
from fractions import Fraction

from . import algebra as A
from .algebra import E, ZERO, ONE, const, sym, fn
from .valnum import (Undecided, Need, Sp, INF, NINF, NAN, World, IDENT, FUNCS1, FUNCS2, FUNCS3, BINF, cases)  # noqa: F401

NUMLIBS = ("numpy", "math", "scipy", "bilby.core.utils.xp", "array_api_compat")


INPLACE = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__", ast.Div: "__itruediv__"}
BINARY = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, name, args=()):
        self.name, self.args_ = name, args


class T(tuple):
    """a Python tuple (algebraic forms are tuples too, so these are told apart)"""


class Arr(list):
    """a numpy array of known length (nested for more dimensions); other arrays are treated elementwise as plain forms"""
    base = None         # (array, slice) this is a view of


class Obj:
    """an object of an analysed class, or (cls a string) an opaque one with hooks"""

    def __init__(self, cls, attrs=None, hooks=None, items=None, label=None):
        self.cls, self.attrs, self.hooks, self.items, self.label = cls, attrs if attrs is not None else {}, hooks or {}, items, label

    def __repr__(self):
        return "<%s>" % (self.label or getattr(self.cls, "qual", self.cls))

    def quals(self):
        if isinstance(self.cls, str):
            return {self.cls}
        return set(self.cls.all_base_names()) | {self.cls.qual}


class Fn:
    """a function, possibly bound"""

    def __init__(self, func, me=None, owner=None):
        self.func, self.me, self.owner = func, me, owner


class Lam:
    def __init__(self, node, env, interp):
        self.node, self.env, self.interp = node, env, interp


class Cls:
    def __init__(self, cls):
        self.cls = cls


class Ext:
    """something outside the program, by dotted name"""

    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return self.q


class Py:
    """a callable supplied by the rule: fn(interp, args, kwargs)"""

    def __init__(self, fn):
        self.fn = fn


class Shown:
    """the text of an abstract value; numbers that are not constants have an unknown text"""

    def __init__(self, v, it):
        self.v, self.it = v, it

    def __format__(self, spec):
        v = self.v
        if isinstance(v, E) and spec:
            if not A.is_const(v):
                return "?"
            c = A.const_of(v)
            return format(int(c) if c.denominator == 1 and spec[-1] not in "eEfFgG%" else float(c), spec)
        t = self.it.text(v)
        return t if t == "?" else format(t, spec)


class Super:
    def __init__(self, me, after):
        self.me, self.after = me, after


class Part:
    """array elements not selected by a mask"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


BUILTIN_EXC = {"Exception", "ValueError", "KeyError", "TypeError", "AttributeError", "IndexError", "NotImplementedError", "RuntimeError",
               "ImportError", "ModuleNotFoundError", "ZeroDivisionError", "FileNotFoundError", "OSError", "IOError", "StopIteration",
               "AssertionError", "NameError", "LookupError", "ArithmeticError", "UnicodeDecodeError", "EOFError"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "ModuleNotFoundError": "ImportError", "FileNotFoundError": "OSError",
              "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError", "UnicodeDecodeError": "ValueError"}
PATHFNS = {"os.path." + f.__name__: f for f in (posixpath.join, posixpath.dirname, posixpath.basename, posixpath.splitext, posixpath.split)}
QUIET = ("logging.", "warnings.", "bilby.core.utils.log.logger", "builtins.print")


def num(v):
    if v is True:
        return ONE
    if v is False:
        return ZERO
    if isinstance(v, (E, Sp)):
        return v
    raise Undecided("not a number: %r" % (v,))


def integer(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, E) and A.is_const(v) and A.const_of(v).denominator == 1:
        return int(A.const_of(v))
    return None


def hashable(v):
    """dictionary key of an abstract value"""
    if v is None or isinstance(v, (str, bool, bytes)):
        return v
    if isinstance(v, E) and A.is_const(v):
        c = A.const_of(v)
        return int(c) if c.denominator == 1 else c
    if isinstance(v, T):
        return T(hashable(x) for x in v)
    if isinstance(v, (Obj, Py, Fn, E, Cls)):
        return v
    raise Undecided("key %r" % (v,))


def unhash(k):
    if isinstance(k, bool) or k is None or isinstance(k, (str, bytes, Obj, E, Py, Fn, Cls)):
        return k
    if isinstance(k, (int, Fraction)):
        return const(k)
    if isinstance(k, T):
        return T(unhash(x) for x in k)
    return k


class Interp:
    """externals: {dotted name: fn(interp, args, kwargs)}; limit: maximum number of statements"""

    def __init__(self, prog, world, externals=None, limit=20000):
        self.prog, self.w = prog, world
        self.ext = externals or {}
        self.depth = 0
        self.left = limit
        self.extremum = None      # value of max/min of several forms, if not decided by comparison
        self.trace = []           # (kind, ...) events recorded by hooks
        self.globals = {}         # values of module variables that hold objects, dictionaries or lists
        self.closures = {}        # class defined inside a function -> the variables it sees
        self.classvars = {}       # (class, name) -> value stored on a class

    # -- entry points -------------------------------------------------------------
    def new(self, cls, args=(), kwargs=None):
        o = Obj(cls, items={} if self.is_dict(cls) else [] if self.is_list(cls) else None)
        fields = attr_fields(cls)
        if fields is not None:
            names = list(fields)
            given = dict(zip(names, args))
            given.update(kwargs or {})
            if set(given) - set(names) or len(args) > len(names):
                raise PyExc("TypeError")
            for k, call in fields.items():
                fr = Frame(self, None, cls.module, cls)
                opts = {q.arg: q.value for q in call.keywords}
                if k not in given and "default" not in opts:
                    raise PyExc("TypeError")
                v = given[k] if k in given else fr.expr(opts["default"], {})
                if "converter" in opts:
                    v = self.apply(fr.expr(opts["converter"], {}), [v])
                o.attrs[k] = v
            o.attrs["__slots__"] = T(names)
            return o
        init = cls.find("__init__")
        if init is not None and init.qual in self.ext:
            self.ext[init.qual](self, [o] + list(args), kwargs or {})
        elif init is not None:
            self.callf(init, [o] + list(args), kwargs or {}, own=self.prog.enclosing_class(init))
        elif self.is_dict(cls):
            self.dict_update(o.items, args, kwargs or {})
        elif self.is_list(cls):
            o.items.extend(self.iterate(args[0]) if args else [])
        return o

    def is_list(self, cls):
        return any(b in ("builtins.list", "list", "collections.UserList") for b in cls.all_base_names())

    def is_dict(self, cls):
        return any(b in ("builtins.dict", "dict", "collections.OrderedDict") for b in cls.all_base_names())

    def method(self, o, name, *args, **kwargs):
        return self.apply(self.getattr(o, name), list(args), kwargs)

    # -- calls -----------------------------------------------------------------
    def callf(self, func, args, kwargs, own=None, closure=None):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Undecided("call depth")
        try:
            node = func.node
            if closure is None and self.closures:
                closure = self.closures.get(self.prog.enclosing_class(func))
            env = dict(closure or {})
            fr = Frame(self, func, func.module, own if own is not None else self.prog.enclosing_class(func))
            self.bind(node.args, args, kwargs, env, fr, func.name)
            if isinstance(node, ast.Lambda):
                return fr.expr(node.body, env)
            if not hasattr(node, "_yields"):
                node._yields = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
            if node._yields:
                raise Undecided("generator")
            try:
                fr.block(node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, a, args, kwargs, env, fr, name, outer=None):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        given = {}
        for p, v in zip(pos, args):
            given[p] = v
        rest = list(args[len(pos):])
        if a.vararg:
            given[a.vararg.arg] = T(rest)
        elif rest:
            raise PyExc("TypeError")
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in kwargs:
                if p in given:
                    raise PyExc("TypeError")
                given[p] = kwargs.pop(p)
        if a.kwarg:
            given[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyExc("TypeError")
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in given:
                if p not in dflt:
                    raise PyExc("TypeError")
                given[p] = fr.expr(dflt[p], dict(outer or {}))
        env.update(given)

    def apply(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Py):
            return f.fn(self, args, kwargs)
        if isinstance(f, Fn):
            q = f.func.qual
            if q in self.ext:
                return self.ext[q](self, ([f.me] if f.me is not None else []) + args, kwargs)
            return self.callf(f.func, ([f.me] if f.me is not None else []) + args, kwargs, own=f.owner)
        if isinstance(f, Lam):
            env = dict(f.env)
            fr = f.interp
            self.bind(f.node.args, args, kwargs, env, fr, "<local>", outer=f.env)
            if isinstance(f.node, ast.Lambda):
                return fr.expr(f.node.body, env)
            try:
                fr.block(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, Cls):
            if f.cls.qual in self.ext and callable(self.ext[f.cls.qual]):
                return self.ext[f.cls.qual](self, args, kwargs)
            if any(b and (b.split(".")[-1] in BUILTIN_EXC or b.endswith("Warning")) for b in f.cls.all_base_names()):
                return Obj(f.cls, {"args": T(args)})
            return self.new(f.cls, args, kwargs)
        if isinstance(f, Ext):
            return self.external(f.q, args, kwargs)
        if isinstance(f, Obj):
            return self.apply(self.getattr(f, "__call__"), args, kwargs)
        raise Undecided("call of %r" % (f,))

    # -- attributes --------------------------------------------------------------
    def getattr(self, o, n):
        if n == "_fields" and isinstance(o, Py) and hasattr(o, "fields"):
            return T(o.fields)
        if hasattr(o, "frame_attr"):
            v = o.frame_attr(self, n)
            if v is not None:
                return v
        if isinstance(o, Obj):
            if n in o.hooks:
                return Py(o.hooks[n])
            if not isinstance(o.cls, str):
                f = o.cls.find(n)
                if f is not None and f.deco_kind() == "property":
                    if f.qual in self.ext:
                        return self.ext[f.qual](self, [o], {})
                    return self.callf(f, [o], {}, own=self.prog.enclosing_class(f))
            if n in o.attrs:
                return o.attrs[n]
            if n == "__class__":
                return Cls(o.cls) if not isinstance(o.cls, str) else Ext(o.cls)
            if n == "__dict__":
                return o.attrs
            if isinstance(o.cls, str):
                raise Undecided("attribute %s of %r" % (n, o))
            if n == "__module__":
                return o.cls.module.name
            if f is not None:
                k = f.deco_kind()
                own = self.prog.enclosing_class(f)
                return Fn(f, None if k == "static" else Cls(o.cls) if k == "class" else o, own)
            for c in o.cls.mro() if self.classvars else ():
                if (c, n) in self.classvars:
                    return self.classvars[(c, n)]
            a = o.cls.find_attr(n)
            if a is not None:
                v = Frame(self, None, a[1].module, a[1]).expr(a[0], {})
                if isinstance(v, (dict, list, set)):
                    self.classvars[(a[1], n)] = v
                if isinstance(v, Obj) and not isinstance(v.cls, str) and v.cls.find("__get__") is not None:
                    return self.method(v, "__get__", o, Cls(o.cls))
                return v
            for c in o.cls.mro():
                q = getattr(c, "qual", "?") + "." + n
                if q in self.prog.classes:
                    return Cls(self.prog.classes[q])
            if isinstance(o.items, list) and hasattr(list, n):
                return Py(lambda it, args, kw: it.listmethod(o.items, n, args, kw))
            if isinstance(o.items, dict) and hasattr(dict, n):
                return Py(lambda it, args, kw: it.dictmethod(o.items, n, args, kw, o))
            g = o.cls.find("__getattr__")
            if g is not None:
                return self.callf(g, [o, n], {}, own=self.prog.enclosing_class(g))
            raise PyExc("AttributeError")
        if isinstance(o, Cls):
            if n == "__name__":
                return o.cls.name
            if n == "__module__":
                return o.cls.module.name
            if n == "__mro__":
                return T(Cls(c) for c in o.cls.mro())
            f = o.cls.find(n)
            if f is not None:
                k = f.deco_kind()
                own = self.prog.enclosing_class(f)
                if k == "property":
                    s = o.cls.find_setter(n)
                    return Obj("builtins.property", {"fget": Fn(f, None, own), "fset": None if s is None else Fn(s, None, self.prog.enclosing_class(s))})
                return Fn(f, o if k == "class" else None, own)
            for c in o.cls.mro() if self.classvars else ():
                if (c, n) in self.classvars:
                    return self.classvars[(c, n)]
            a = o.cls.find_attr(n)
            if a is not None:
                v = Frame(self, None, a[1].module, a[1]).expr(a[0], {})
                if isinstance(v, (dict, list, set)):
                    self.classvars[(a[1], n)] = v
                return v
            raise Undecided("class attribute %s" % n)
        if isinstance(o, Super):
            mro = o.me.cls.mro() if isinstance(o.me, Obj) else o.me.cls.mro()
            rest = mro[mro.index(o.after) + 1:] if o.after in mro else []
            for c in rest:
                if n in c.methods:
                    f = c.methods[n]
                    k = f.deco_kind()
                    if k == "property":
                        return self.callf(f, [o.me], {}, own=c)
                    return Fn(f, o.me, c)
            if isinstance(o.me, Obj) and isinstance(o.me.items, list) and n == "__init__":
                return Py(lambda it, args, kw: o.me.items.extend(it.iterate(args[0])) if args else None)
            if isinstance(o.me, Obj) and isinstance(o.me.items, list) and hasattr(list, n):
                return Py(lambda it, args, kw: it.listmethod(o.me.items, n, args, kw))
            if isinstance(o.me, Obj) and isinstance(o.me.items, dict) and hasattr(dict, n):
                return Py(lambda it, args, kw: it.dictmethod(o.me.items, n, args, kw, None))
            if n == "__init__":
                return Py(lambda it, args, kw: None)
            raise Undecided("super().%s" % n)
        if isinstance(o, Ext):
            q = o.q + "." + n
            if q in self.ext and not callable(self.ext[q]):
                return self.ext[q]
            if o.q in getattr(self, "closed", ()) and q not in self.ext:
                raise PyExc("AttributeError")
            last = o.q.split(".")[0]
            if last in ("numpy", "math", "scipy"):
                if n == "pi":
                    return A.PI
                if n == "newaxis":
                    return None
                if n == "e":
                    return sym("e")
                if n in ("inf", "Inf"):
                    return INF
                if n == "nan":
                    return NAN
            return self.named(self.prog.lookup_dotted(q))
        if isinstance(o, Fn):
            if n == "__name__":
                return o.func.name
            if n == "__module__":
                return o.func.module.name
            raise Undecided("function attribute %s" % n)
        if isinstance(o, (E, bool, Sp)):
            if n in ("size", "shape", "ndim"):
                return Obj("shape")
            if n in ("T", "values"):
                return o
            if n in ("real", "imag") and isinstance(o, E):
                return A.real_part(o) if n == "real" else A.imag_part(o)
            if n == "real":
                return o
            return Py(lambda it, args, kw: it.nummethod(o, n, args, kw))
        if n == "__class__" and isinstance(o, (dict, list, T, str, set)):
            return self.builtin("type", [o], {})
        if isinstance(o, dict):
            return Py(lambda it, args, kw: it.dictmethod(o, n, args, kw, None))
        if isinstance(o, Arr):
            if n == "T" and ndim(o) == 2:
                return Arr(Arr(x) for x in zip(*o))
            if n == "T" and ndim(o) > 2:
                return permute(o, list(range(ndim(o)))[::-1])
            if n == "values":
                return o
            if n in ("real", "imag"):
                return self.arrmap(lambda x: self.getattr(x, n), o)
            if n == "shape":
                return shape(o)
            if n == "size":
                return const(len(self.flatten(o)))
            if n == "ndim":
                return const(ndim(o))
            if n == "dtype" and getattr(self, "dtypes", None):
                return self.dtypes(self, o)
            if n == "dtype" and getattr(self, "kind", None):
                return Obj("dtype", {"kind": self.kind})
            if n == "dtype":
                return Obj("dtype", {"names": None}, {"__len__": lambda it, a, k: ZERO})
        if isinstance(o, (list, T)):
            return Py(lambda it, args, kw: it.listmethod(o, n, args, kw))
        if isinstance(o, str):
            return Py(lambda it, args, kw: it.strmethod(o, n, args, kw))
        if isinstance(o, bytes) and n in ("decode", "startswith", "endswith"):
            return Py(lambda it, args, kw: getattr(o, n)(*args))
        if isinstance(o, set):
            return Py(lambda it, args, kw: it.setmethod(o, n, args, kw))
        if o is None:
            raise PyExc("AttributeError")
        raise Undecided("attribute %s of %r" % (n, o))

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            if "set:" + n in o.hooks:
                o.hooks["set:" + n](self, [v], {})
                return
            if not isinstance(o.cls, str):
                s = o.cls.find_setter(n)
                if s is not None:
                    self.callf(s, [o, v], {}, own=self.prog.enclosing_class(s))
                    return
                f = o.cls.find(n)
                if f is not None and f.deco_kind() == "property":
                    raise PyExc("AttributeError")
                a = o.cls.find_attr(n) if f is None else None
                if a is not None and isinstance(a[0], ast.Call):
                    try:
                        d = Frame(self, None, a[1].module, a[1]).expr(a[0], {})
                    except Undecided:
                        d = None
                    if isinstance(d, Obj) and not isinstance(d.cls, str) and d.cls.find("__set__") is not None:
                        self.method(d, "__set__", o, v)
                        return
            o.attrs[n] = v
            return
        if isinstance(o, Cls) and n in ("__name__", "__qualname__", "__doc__"):
            return
        if isinstance(o, Cls) and o.cls.find(n) is None:
            self.classvars[(o.cls, n)] = v
            return
        raise Undecided("attribute store on %r" % (o,))

    def named(self, q):
        """value of a dotted name"""
        if q in self.ext:
            x = self.ext[q]
            if callable(x):
                x = Py(x)
                x.q = q
            return x
        f = self.prog.by_qual.get(q)
        if f is not None:
            return Fn(f)
        c = self.prog.classes.get(q)
        if c is not None:
            return Cls(c)
        mod, _, nm = q.rpartition(".")
        if q in self.globals:
            return self.globals[q]
        m = self.prog.modules.get(mod)
        if m is not None and m.symbols.get(nm, (None,))[0] == "var":
            v = m.symbols[nm][1]
            try:
                x = Frame(self, None, m, None).expr(v, {})
            except Undecided:
                x = Obj("global", label=q)
            if isinstance(x, (Obj, dict, set)) or isinstance(x, list):
                self.globals[q] = x
            return x
        return Ext(q)

    # -- containers ----------------------------------------------------------------
    def iterate(self, v):
        if isinstance(v, Obj) and v.items is not None and not (not isinstance(v.cls, str) and v.cls.find("__iter__")):
            v = v.items
        if isinstance(v, dict):
            return [unhash(k) for k in v]
        if isinstance(v, (list, T)):
            return list(v)
        if isinstance(v, set):
            return [unhash(k) for k in sorted(v, key=repr)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj) and "__iter__" in v.hooks:
            return v.hooks["__iter__"](self, [], {})
        raise Undecided("iteration over %r" % (v,))

    def dict_update(self, d, args, kwargs, via=None):
        for a in args:
            if isinstance(a, Obj) and a.items is not None:
                a = a.items
            pairs = a.items() if isinstance(a, dict) else [(hashable(self.iterate(p)[0]), self.iterate(p)[1]) for p in self.iterate(a)]
            for k, v in list(pairs):
                d[k] = v
        for k, v in kwargs.items():
            d[k] = v

    def dictmethod(self, d, n, args, kw, o):
        if n == "keys":
            return [unhash(k) for k in d]
        if n == "values":
            return list(d.values())
        if n == "items":
            return [T((unhash(k), v)) for k, v in d.items()]
        if n == "copy":
            return dict(d)
        if n in ("get", "pop", "__getitem__"):
            k = hashable(args[0])
            if k in d:
                return d.pop(k) if n == "pop" else d[k]
            if len(args) > 1:
                return args[1]
            if n == "get":
                return None
            raise PyExc("KeyError")
        if n == "setdefault":
            return d.setdefault(hashable(args[0]), args[1] if len(args) > 1 else None)
        if n == "update":
            self.dict_update(d, args, kw)
            return None
        if n == "clear":
            d.clear()
            return None
        if n == "__setitem__":
            d[hashable(args[0])] = args[1]
            return None
        if n == "__delitem__":
            if hashable(args[0]) not in d:
                raise PyExc("KeyError")
            del d[hashable(args[0])]
            return None
        if n == "__contains__":
            return hashable(args[0]) in d
        if n == "__init__":
            self.dict_update(d, args, kw)
            return None
        raise Undecided("dictionary method %s" % n)

    def arr(self, v):
        """np.array of nested lists"""
        if isinstance(v, (list, T, set)) and not isinstance(v, E):
            return Arr(self.arr(x) for x in self.iterate(v))
        return v

    def arrmethod(self, v, n, args, kw):
        if n in ("flatten", "ravel"):
            return Arr(self.flatten(v))
        if n == "tolist":
            return [x if not isinstance(x, Arr) else self.arrmethod(x, n, [], {}) for x in v]
        if n in ("copy", "astype"):
            if args and isinstance(args[0], Ext) and args[0].q.split(".")[-1] in ("bool", "bool_"):
                return self.arrmap(self.truth, v)
            if args and isinstance(args[0], Ext) and args[0].q.split(".")[-1] in ("int", "int64", "int32", "intp"):
                return self.arrmap(lambda x: const(int(A.const_of(x))) if isinstance(x, E) and A.is_const(x) else ONE if x is True else ZERO if x is False else
                                   self._und("integer part"), v)
            return Arr(self.arrmethod(x, "copy", [], {}) if isinstance(x, Arr) else x for x in v)
        if n == "squeeze":
            return squeezed(v) if not args and not kw else self._und("squeeze")
        if n == "fill":
            v[:] = [args[0]] * len(v)
            return None
        if n in ("sum", "prod", "all", "any", "mean", "min", "max", "argmax", "argmin", "cumsum", "conj", "conjugate", "reshape", "nonzero", "dot", "clip",
                 "swapaxes", "transpose"):
            return self.numeric(n, [v] + args, kw, "numpy." + n)
        raise Undecided("array method %s" % n)

    def listmethod(self, v, n, args, kw):
        if isinstance(v, Arr):
            return self.arrmethod(v, n, args, kw)
        if isinstance(v, list):
            if n == "append":
                v.append(args[0])
                return None
            if n == "extend":
                v.extend(self.iterate(args[0]))
                return None
            if n == "insert" and integer(args[0]) is not None:
                v.insert(integer(args[0]), args[1])
                return None
            if n == "remove":
                v.pop(self.index(v, args[0]))
                return None
            if n == "pop":
                i = integer(args[0]) if args else -1
                if i is not None:
                    return v.pop(i)
            if n == "sort" and not kw:
                v[:] = self.sorted(v)
                return None
            if n == "reverse":
                v.reverse()
                return None
            if n == "copy":
                return list(v)
            if n == "clear":
                v.clear()
                return None
        if n == "index":
            return const(self.index(v, args[0]))
        if n == "count":
            return const(sum(1 for x in v if self.equal(x, args[0])))
        if n in ("tolist", "flatten", "ravel", "astype", "squeeze"):
            return list(v)
        raise Undecided("list method %s" % n)

    def index(self, v, x):
        for i, y in enumerate(v):
            if self.equal(y, x):
                return i
        raise PyExc("ValueError")

    def sorted(self, v):
        if all(isinstance(x, str) for x in v):
            return sorted(v)
        if all(isinstance(x, E) and A.is_const(x) for x in v):
            return sorted(v, key=A.const_of)
        raise Undecided("sorting")

    def strmethod(self, s, n, args, kw):
        if n == "encode" and not set(args) - {"utf-8", "utf8", "ascii"} and not kw:
            return s.encode()
        if n == "format":
            return s.format(*[Shown(a, self) for a in args], **{k: Shown(v, self) for k, v in kw.items()})
        if n == "join":
            return s.join(self.text(x) for x in self.iterate(args[0]))
        if n in ("startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "split", "rsplit", "find", "count",
                 "isdigit", "partition", "rpartition", "title", "zfill"):
            a = []
            for x in args:
                if isinstance(x, T):
                    x = tuple(x)
                elif isinstance(x, E) and integer(x) is not None:
                    x = integer(x)
                if not isinstance(x, (str, tuple, int)):
                    raise Undecided("string argument")
                a.append(x)
            r = getattr(s, n)(*a)
            if isinstance(r, list):
                return r
            if isinstance(r, tuple):
                return T(r)
            return const(r) if isinstance(r, int) and not isinstance(r, bool) else r
        raise Undecided("string method %s" % n)

    def setmethod(self, s, n, args, kw):
        def keys(v):
            return {hashable(x) for x in self.iterate(v)}
        if n in ("union", "intersection", "difference", "symmetric_difference"):
            out = set(s)
            for a in args:
                out = getattr(out, n)(keys(a))
            return out
        if n in ("issubset", "issuperset", "isdisjoint"):
            return getattr(s, n)(keys(args[0]))
        if n in ("add", "discard"):
            getattr(s, n)(hashable(args[0]))
            return None
        if n in ("update", "difference_update", "intersection_update"):
            getattr(s, n)(keys(args[0]))
            return None
        if n == "copy":
            return set(s)
        raise Undecided("set method %s" % n)

    def nummethod(self, v, n, args, kw):
        if n in IDENT or n in ("reshape", "tolist"):
            return v
        if n in ("all", "any"):
            return self.truth(v)
        if n in ("sum", "prod", "mean", "max", "min"):
            return self.reduce(n, [v] + args, kw)
        if n in ("conj", "conjugate"):
            return A.conj(v) if isinstance(v, E) else v
        raise Undecided("method %s" % n)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            if hasattr(o, "frame_get"):
                return o.frame_get(self, k)
            return self.arrget(o, k)
        if isinstance(o, Obj):
            if "__getitem__" in o.hooks:
                return o.hooks["__getitem__"](self, [k], {})
            f = None if isinstance(o.cls, str) else o.cls.find("__getitem__")
            if f is not None:
                return self.callf(f, [o, k], {}, own=self.prog.enclosing_class(f))
            if o.items is not None:
                o = o.items
        if isinstance(o, dict):
            h = hashable(k)
            if h not in o:
                raise PyExc("KeyError")
            return o[h]
        if isinstance(o, (list, T, str)) and not isinstance(o, E):
            if isinstance(k, slice):
                r = o[k]
                return T(r) if isinstance(o, T) else r
            i = integer(k)
            if i is None:
                raise Undecided("index")
            if not -len(o) <= i < len(o):
                raise PyExc("IndexError")
            return o[i]
        if isinstance(o, (E, Sp, bool)):
            if isinstance(k, bool):
                return o if k else Part
            if isinstance(k, slice):
                return o
            if integer(k) is not None:
                return o
        if o is Part:
            return Part
        raise Undecided("subscript of %r" % (o,))

    def arrget(self, o, k):
        if isinstance(k, slice):
            v = Arr(o[k])
            v.base = (o, k)
            return v
        if k is None:
            return Arr([o])
        if isinstance(k, (Arr, list)) and not isinstance(k, T):
            if len(k) and all(isinstance(x, bool) for x in k):
                if len(k) != len(o):
                    raise PyExc("IndexError")
                return Arr(x for x, b in zip(o, k) if b)
            if not len(k):
                return Arr()
            return Arr(self.arrget(o, x) for x in k)
        if isinstance(k, T):
            if any(x is Ellipsis for x in k):
                i = [x is Ellipsis for x in k].index(True)
                n = ndim(o) - sum(1 for x in k if x is not Ellipsis and x is not None)
                k = T(list(k[:i]) + [slice(None)] * n + list(k[i + 1:]))
            if not k:
                return o
            if k[0] is None:
                return Arr([self.arrget(o, T(k[1:]))])
            if len(k) == 1:
                return self.arrget(o, k[0])
            first = self.arrget(o, k[0])
            if sum(isinstance(x, Arr) for x in k) > 1:
                raise Undecided("index")
            if isinstance(k[0], slice) or isinstance(k[0], Arr):
                return Arr(self.arrget(x, T(k[1:])) if isinstance(x, Arr) else self.scalarget(x, k[1:]) for x in first)
            return self.arrget(first, T(k[1:])) if isinstance(first, Arr) else self._und("index")
        if isinstance(k, bool):
            raise Undecided("scalar mask")
        i = integer(k)
        if i is None:
            raise Undecided("index")
        if not -len(o) <= i < len(o):
            raise PyExc("IndexError")
        return o[i]

    def scalarget(self, x, k):
        for y in k:
            if y is not None:
                raise PyExc("IndexError")
            x = Arr([x])
        return x

    def arrset(self, o, k, v):
        self.arrstore(o, k, v)
        while getattr(o, "base", None) is not None:
            b, s = o.base
            b[s] = list(o)
            o = b

    def arrstore(self, o, k, v):
        if isinstance(k, T):
            if any(x is Ellipsis for x in k):
                i = [x is Ellipsis for x in k].index(True)
                k = T(list(k[:i]) + [slice(None)] * (ndim(o) - len(k) + 1) + list(k[i + 1:]))
            if len(k) == 1:
                self.arrstore(o, k[0], v)
                return
            if len(k) > ndim(o) or any(x is None for x in k) or sum(isinstance(x, list) for x in k) > 1:
                raise Undecided("index")
            rows = self.arrget(Arr(const(i) for i in range(len(o))), k[0])
            rest = T(k[1:]) if len(k) > 2 else k[1]
            if isinstance(rows, Arr):
                vs = self.arr(v) if isinstance(v, (list, T)) and not isinstance(v, E) else None
                full = sum(isinstance(x, (slice, list)) for x in k) + ndim(o) - len(k)
                if vs is not None and ndim(vs) > full or vs is not None and ndim(vs) == full and len(vs) not in (1, len(rows)):
                    raise PyExc("ValueError")
                for j, i in enumerate(rows):
                    x = v if vs is None else vs if ndim(vs) < full else vs[j if len(vs) > 1 else 0]
                    self.arrset(o[integer(i)], rest, x)
            else:
                self.arrset(o[integer(rows)], rest, v)
            return
        if isinstance(k, slice):
            idx = range(*k.indices(len(o)))
        elif isinstance(k, (Arr, list)) and all(isinstance(x, bool) for x in k):
            if len(k) != len(o):
                raise PyExc("IndexError")
            idx = [i for i, b in enumerate(k) if b]
        elif isinstance(k, (Arr, list)):
            idx = [integer(x) for x in k]
        elif integer(k) is not None:
            k = integer(k)
            if isinstance(o, Arr) and isinstance(o[k], Arr):
                n, row = len(o[k]), self.arr(v) if isinstance(v, (list, T)) and not isinstance(v, E) else None
                if row is None or len(row) not in (1, n) or ndim(row) > ndim(o[k]):
                    if row is not None and ndim(o[k]) == 1:
                        raise PyExc("ValueError")
                    row = Arr(v for _ in range(n)) if row is None and ndim(o[k]) == 1 else row
                    if row is None:
                        raise Undecided("row")
                o[k] = Arr(row if len(row) == n else list(row) * n)
                return
            one = isinstance(v, Arr) and len(v) == 1 and ndim(v) == 1 and not isinstance(o[k], (list, T, Obj))
            o[k] = v[0] if one else v
            return
        else:
            raise Undecided("index")
        idx = list(idx)
        if isinstance(v, (Arr, list, T)) and not isinstance(v, E):
            if len(v) == 1 and len(idx) != 1:
                v = [v[0]] * len(idx)
            if len(v) != len(idx):
                raise PyExc("ValueError")
            for i, x in zip(idx, v):
                o[i] = x
        else:
            for i in idx:
                o[i] = v

    def arrmap(self, f, *xs):
        """broadcast f over arrays of known length and scalars"""
        if not any(isinstance(x, Arr) for x in xs):
            return f(*xs)
        depth = max(ndim(x) for x in xs)
        top = [x for x in xs if ndim(x) == depth]
        n = {len(x) for x in top} - {1}
        if len(n) > 1:
            raise PyExc("ValueError")
        m = n.pop() if n else 1

        def pick(x, i):
            if ndim(x) == depth:
                return x[0] if len(x) == 1 else x[i]
            return x
        return Arr(self.arrmap(f, *[pick(x, i) for x in xs]) for i in range(m))

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            if isinstance(v, Obj) and "__array__" in v.hooks:
                v = v.hooks["__array__"](self, [], {})
            if hasattr(o, "frame_set"):
                o.frame_set(self, k, v)
                return
            self.arrset(o, k, v)
            return
        if isinstance(o, Obj):
            if "__setitem__" in o.hooks:
                o.hooks["__setitem__"](self, [k, v], {})
                return
            f = None if isinstance(o.cls, str) else o.cls.find("__setitem__")
            if f is not None:
                self.callf(f, [o, k, v], {}, own=self.prog.enclosing_class(f))
                return
            if isinstance(o.items, list):
                o = o.items
            elif o.items is not None:
                o.items[hashable(k)] = v
                return
        if isinstance(o, dict):
            o[hashable(k)] = v
            return
        if isinstance(o, list) and integer(k) is not None:
            o[integer(k)] = v
            return
        raise Undecided("store into %r" % (o,))

    def delitem(self, o, k):
        if isinstance(o, Obj):
            f = None if isinstance(o.cls, str) else o.cls.find("__delitem__")
            if f is not None:
                self.callf(f, [o, k], {}, own=self.prog.enclosing_class(f))
                return
            if o.items is not None:
                o = o.items
        if isinstance(o, dict):
            if hashable(k) not in o:
                raise PyExc("KeyError")
            del o[hashable(k)]
            return
        if isinstance(o, list) and integer(k) is not None:
            del o[integer(k)]
            return
        if isinstance(o, list) and isinstance(k, slice):
            del o[k]
            return
        raise Undecided("deletion")

    def contains(self, x, c):
        if isinstance(c, Obj):
            f = None if isinstance(c.cls, str) else c.cls.find("__contains__")
            if f is not None:
                return self.truth(self.callf(f, [c, x], {}, own=self.prog.enclosing_class(f)))
            if "__contains__" in c.hooks:
                return c.hooks["__contains__"](self, [x], {})
            if c.items is not None:
                c = c.items
        if isinstance(c, (dict, set)):
            return hashable(x) in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (list, T)):
            return any(self.equal(x, y) for y in c)
        raise Undecided("membership")

    # -- values ----------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Arr):
            if len(v) == 1:
                return self.truth(v[0])
            raise PyExc("ValueError") if v else Undecided("empty array")
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (str, list, dict, set)) or isinstance(v, T):
            return len(v) > 0
        if isinstance(v, E):
            if A.is_const(v):
                return A.const_of(v) != 0
            return self.w.compare(ast.NotEq, v, ZERO)
        if isinstance(v, Sp):
            return True
        if isinstance(v, Obj):
            if v.items is not None:
                return bool(v.items)
            if "__bool__" in v.hooks:
                return v.hooks["__bool__"](self, [], {})
            if isinstance(v.cls, str) and v.cls == "shape":
                raise Undecided("shape")
            return True
        if isinstance(v, (Fn, Cls, Lam, Py)):
            return True
        raise Undecided("truth of %r" % (v,))

    def equal(self, a, b):
        if a is b:
            return True
        numeric = (E, Sp, bool)
        if isinstance(a, numeric) and isinstance(b, numeric):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return self.w.compare(ast.Eq, num(a), num(b))
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a.cls is b.cls
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.q == b.q
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.func is b.func and a.me is b.me
        if isinstance(a, (list, T)) and isinstance(b, (list, T)) and not isinstance(a, E) and not isinstance(b, E):
            return type(a) is type(b) and len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            for k in a:
                if a[k] is not b[k] and (isinstance(a[k], Arr) and len(a[k]) > 1 or isinstance(b[k], Arr) and len(b[k]) > 1):
                    raise PyExc("ValueError")       # truth of an array of comparisons
                if not self.equal(a[k], b[k]):
                    return False
            return True
        if isinstance(a, Obj) and "__eq__" in a.hooks:
            return a.hooks["__eq__"](self, [b], {})
        if isinstance(a, Obj) and not isinstance(a.cls, str):
            f = a.cls.find("__eq__")
            if f is not None:
                return self.truth(self.callf(f, [a, b], {}, own=self.prog.enclosing_class(f)))
            if a.items is not None and isinstance(b, Obj) and b.items is not None:
                return self.equal(a.items, b.items)
            return False
        if isinstance(a, Obj) and isinstance(a.cls, str) and a.cls == "shape" or isinstance(b, Obj) and isinstance(b.cls, str) and b.cls == "shape":
            raise Undecided("shape")
        if a is None or b is None:
            return False
        if isinstance(a, Py) or isinstance(b, Py):
            raise Undecided("identity of functions")
        return type(a) is type(b) and isinstance(a, (str, set, bytes)) and a == b

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, E) and A.is_const(v):
            return str(A.const_of(v))
        if v is None or isinstance(v, bool):
            return str(v)
        return "?"

    def formatted(self, v, spec):
        if spec is None:
            return self.text(v)
        if not all(isinstance(x, ast.Constant) for x in spec.values):
            raise Undecided("format specification")
        return format(Shown(v, self), "".join(str(x.value) for x in spec.values))

    def binop(self, op, l, r):
        if isinstance(l, Obj) and not isinstance(l.cls, str) and l.cls.find(BINARY.get(op, "?")):
            return self.method(l, BINARY[op], r)
        if isinstance(l, Obj) and BINARY.get(op) in l.hooks:
            return l.hooks[BINARY[op]](self, [r], {})
        if isinstance(l, Arr) or isinstance(r, Arr):
            l, r = (self.arr(x) if isinstance(x, (list, T)) and not isinstance(x, E) else x for x in (l, r))
            if op is ast.MatMult:
                return self.numeric("matmul", [l, r], {}, "numpy.matmul")
            if op in (ast.Add, ast.Mult):     # of truth values: or, and
                return self.arrmap(lambda a, b: (a or b if op is ast.Add else a and b) if isinstance(a, bool) and isinstance(b, bool) else self.binop(op, a, b), l, r)
            return self.arrmap(lambda a, b: self.binop(op, a, b), l, r)
        if isinstance(l, str) or isinstance(r, str):
            if op is ast.Add and isinstance(l, str) and isinstance(r, str):
                return l + r
            if op is ast.Mod and isinstance(l, str):
                return "?"
            if op is ast.Mult and isinstance(l, str) and integer(r) is not None:
                return l * integer(r)
            raise Undecided("string operator")
        if isinstance(l, set) and isinstance(r, set):
            return {ast.BitAnd: l & r, ast.BitOr: l | r, ast.Sub: l - r, ast.BitXor: l ^ r}[op]
        if isinstance(l, (list, T)) and isinstance(r, (list, T)) and op is ast.Add:
            return T(list(l) + list(r)) if isinstance(l, T) else list(l) + list(r)
        if isinstance(l, list) and op is ast.Mult and integer(r) is not None:
            return l * integer(r)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            a, b = self.truth(l), self.truth(r)
            return (a and b) if op is ast.BitAnd else (a or b) if op is ast.BitOr else a != b
        if l is Part or r is Part:
            return Part
        l, r = num(l), num(r)
        if isinstance(l, Sp) or isinstance(r, Sp):
            return self.spop(op, l, r)
        if op is ast.Add:
            return l + r
        if op is ast.Sub:
            return l - r
        if op is ast.Mult:
            return l * r
        if op is ast.Div:
            if not r:
                return NAN if not l else INF
            return l / r
        if op is ast.Pow:
            return A.power(l, r)
        if op in (ast.FloorDiv, ast.Mod) and A.is_const(l) and A.is_const(r) and A.const_of(r):
            a, b = A.const_of(l), A.const_of(r)
            return const(a // b) if op is ast.FloorDiv else const(a % b)
        if op is ast.Mod:
            return fn("mod", l, r)
        raise Undecided("operator %s" % op.__name__)

    def spop(self, op, l, r):
        if NAN in (l, r):
            return NAN
        if op is ast.Sub:
            r = {INF: NINF, NINF: INF}[r] if isinstance(r, Sp) else -r
            op = ast.Add
        if op is ast.Add:
            if isinstance(l, Sp) and isinstance(r, Sp):
                return l if l == r else NAN
            return l if isinstance(l, Sp) else r
        if op is ast.Div and isinstance(r, Sp) and isinstance(l, E):
            return ZERO
        if op in (ast.Mult, ast.Div):
            sp, o = (l, r) if isinstance(l, Sp) else (r, l)
            if isinstance(o, Sp):
                return INF if l == r else NINF
            if not o:
                return NAN
            s = self.w.sign(o)
            if s is None:
                s = 1 if self.w.compare(ast.Gt, o, ZERO) else -1
            return sp if s > 0 else {INF: NINF, NINF: INF}[sp]
        raise Undecided("operation on infinity")

    def reduce(self, n, args, kw):
        """sum / prod of a list of numbers; of an array: an uninterpreted linear functional"""
        v = args[0]
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        if isinstance(v, (list, T)) and not isinstance(v, E) and any(isinstance(x, Arr) for x in v):
            v = self.arr(v)
            if axis is None:
                return self.reduce(n, [self.flatten(v)], {})
            a = integer(axis)
            if a in (0, -ndim(v)):
                rows = list(v)
                if n in ("sum", "prod", "mean"):
                    acc = rows[0]
                    for x in rows[1:]:
                        acc = self.binop(ast.Mult if n == "prod" else ast.Add, acc, x)
                    return self.binop(ast.Div, acc, const(len(rows))) if n == "mean" else acc
            if a in (-1, 1) and ndim(v) == 2:
                return Arr(self.reduce(n, [x], {}) for x in v)
            if a is not None and 0 < a % ndim(v):
                return Arr(self.reduce(n, [x], {"axis": const(a % ndim(v) - 1)}) for x in v)
            raise Undecided("axis")
        if isinstance(v, (list, T)) and not isinstance(v, E):
            if n in ("sum", "prod"):
                acc = ZERO if n == "sum" else ONE
                for x in v:
                    acc = self.binop(ast.Add if n == "sum" else ast.Mult, acc, num(x))
                return acc
            if n == "mean" and v:
                return self.binop(ast.Div, self.reduce("sum", [v], {}), const(len(v)))
        if isinstance(v, (E, Sp, bool)):
            v = num(v)
            if isinstance(v, E) and A.is_const(v):
                return v
            return self.arrayreduce(n, v)
        raise Undecided("reduction %s" % n)

    def arrayreduce(self, n, v):
        if self.w.scalar is True and n in ("sum", "prod", "mean"):
            return v
        raise Undecided("array reduction %s" % n)

    def isinstance(self, v, types):
        names = set()
        for t in types:
            names.add(t.cls.qual if isinstance(t, Cls) else t.q if isinstance(t, Ext) else t if isinstance(t, str) else getattr(t, "q", "?"))
        if "?" in names:
            raise Undecided("isinstance")
        short = {x.split(".")[-1] for x in names}
        if isinstance(v, Obj):
            if isinstance(v.cls, str) and v.cls == "shape":
                raise Undecided("shape")
            if isinstance(v.items, dict) and v.cls != "pandas.core.frame.DataFrame" and short & {"dict", "OrderedDict", "MutableMapping", "Mapping"} or isinstance(v.items, list) and "list" in short:
                return True
            return bool(v.quals() & names)
        if isinstance(v, bool):
            return bool(short & {"bool", "int"})
        if isinstance(v, str):
            return "str" in short
        if isinstance(v, bytes):
            return "bytes" in short
        if isinstance(v, dict):
            return bool(short & {"dict", "Mapping"})
        if isinstance(v, T):
            return bool(short & {"tuple", "Iterable", "Sequence"})
        if isinstance(v, Arr):
            return bool(short & {"ndarray", "Iterable"})
        if isinstance(v, list):
            return bool(short & {"list", "Iterable", "Sequence"})
        if isinstance(v, set):
            return "set" in short
        if v is None:
            return "NoneType" in short
        if isinstance(v, (E, Sp)):
            if short <= {"str", "dict", "list", "tuple", "set", "DataFrame", "Series"} or all(x in self.prog.classes for x in names):
                return False
            if isinstance(v, E) and A.is_const(v):
                i = A.const_of(v).denominator == 1
                if short & {"Number", "number", "Real"}:
                    return True
                return "int" in short if i and "float" not in short else bool(short & {"float", "float64"})
            sc = self.w.ask(("scalar",)) if self.w.scalar is None else self.w.scalar
            return sc if short & {"float", "number", "Number", "float64", "floating"} else (not sc) if short & {"ndarray", "Iterable"} else False
        if isinstance(v, (Fn, Lam, Py)):
            return bool(short & {"FunctionType", "Callable"})
        if isinstance(v, Cls):
            return "type" in short
        if short == {"property"} or isinstance(v, Ext) and short <= {"str", "dict", "list", "tuple", "set", "int", "float", "ndarray", "DataFrame", "Series"}:
            return False
        raise Undecided("isinstance of %r" % (v,))

    # -- externals -------------------------------------------------------------------------
    def external(self, q, args, kw):
        if q in self.ext:
            x = self.ext[q]
            return x(self, args, kw) if callable(x) else self.apply(x, args, kw)
        if q.startswith(QUIET):
            return None
        n = q.split(".")[-1]
        head = q.split(".")[0]
        if q.startswith("builtins.") or "." not in q:
            return self.builtin(n, args, kw)
        if q.startswith(NUMLIBS):
            return self.numeric(n, args, kw, q)
        if q in ("copy.copy", "copy.deepcopy"):
            return self.deepcopy(args[0], {}) if n == "deepcopy" else self.shallow(args[0])
        if q in ("importlib.import_module",):
            return Ext(args[0]) if isinstance(args[0], str) else self._und(q)
        if q == "collections.namedtuple" and len(args) == 2 and isinstance(args[0], str) and not kw:
            names = list(args[1]) if not isinstance(args[1], str) else args[1].replace(",", " ").split()

            def record(it, a, k):
                if len(a) + len(k) != len(names) or set(k) - set(names[len(a):]):
                    raise PyExc("TypeError")
                d = dict(zip(names, a), **k)
                return Obj(args[0], d, {"__eq__": lambda i, x, y: isinstance(x[0], Obj) and x[0].cls == args[0] and all(i.equal(d[m], x[0].attrs.get(m)) for m in names), "__iter__": lambda i, x, y: [d[m] for m in names], "_asdict": lambda i, x, y: dict(d), "__getitem__": lambda i, x, y: [d[m] for m in names][integer(x[0])]})
            out = Py(record)
            out.fields = names
            return out
        if q == "functools.partial":
            f, pre, prek = args[0], args[1:], dict(kw)
            return Py(lambda it, a, k: it.apply(f, pre + a, {**prek, **k}))
        if q in PATHFNS and all(isinstance(a, str) and not isinstance(a, E) for a in args) and not kw:
            out = PATHFNS[q](*args)
            return T(out) if isinstance(out, tuple) else out
        if q == "matplotlib.cbook.flatten":
            return self.flatten(args[0])
        raise Undecided("call of %s" % q)

    def _und(self, why):
        raise Undecided(why)

    def flatten(self, v):
        if isinstance(v, (list, T)) and not isinstance(v, E):
            return [y for x in v for y in self.flatten(x)]
        return [v]

    def shallow(self, v):
        if hasattr(v, "clone"):
            return v.clone()
        if isinstance(v, Arr):
            return Arr(v)
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, Obj):
            return Obj(v.cls, dict(v.attrs), v.hooks, type(v.items)(v.items) if v.items is not None else None, v.label)
        return v

    def deepcopy(self, v, memo):
        if hasattr(v, "clone"):
            return v.clone()
        if isinstance(v, Arr):
            return Arr(self.deepcopy(x, memo) for x in v)
        if isinstance(v, list):
            return [self.deepcopy(x, memo) for x in v]
        if isinstance(v, dict):
            return {k: self.deepcopy(x, memo) for k, x in v.items()}
        if isinstance(v, T):
            return T(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Obj):
            if id(v) not in memo:
                o = memo[id(v)] = Obj(v.cls, {}, v.hooks, None, v.label)
                o.attrs.update({k: self.deepcopy(x, memo) for k, x in v.attrs.items()})
                if v.items is not None:
                    o.items = [self.deepcopy(x, memo) for x in v.items] if isinstance(v.items, list) else \
                        {k: self.deepcopy(x, memo) for k, x in v.items.items()}
            return memo[id(v)]
        return v

    def builtin(self, n, args, kw):
        if n in BUILTIN_EXC:
            return Obj("builtins." + n, {"args": T(args)})
        if n == "isinstance":
            ts = args[1]
            return self.isinstance(args[0], list(ts) if isinstance(ts, (T, list)) else [ts])
        if n == "issubclass":
            ts = args[1] if isinstance(args[1], T) else [args[1]]
            if isinstance(args[0], Cls):
                names = set(args[0].cls.all_base_names()) | {args[0].cls.qual}
                return any((t.cls.qual if isinstance(t, Cls) else t.q) in names for t in ts)
            raise Undecided("issubclass")
        if n == "dir" and len(args) == 1 and isinstance(args[0], Cls):
            out = set()
            for c in args[0].cls.mro():
                out |= set(c.methods) | {p for p in getattr(c, "attrs", {})}
            return sorted(out)
        if n == "type" and len(args) == 1:
            v = args[0]
            if isinstance(v, Obj):
                return Cls(v.cls) if not isinstance(v.cls, str) else Ext(v.cls)
            if isinstance(v, Arr):
                return Ext("numpy.ndarray")
            if isinstance(v, E) and A.is_const(v):
                return Ext("builtins.int" if A.const_of(v).denominator == 1 else "builtins.float")
            for t, nm in ((bool, "bool"), (str, "str"), (dict, "dict"), (T, "tuple"), (list, "list"), (set, "set")):
                if isinstance(v, t):
                    return Ext("builtins." + nm)
            if v is None:
                return Ext("builtins.NoneType")
            raise Undecided("type")
        if n == "hasattr":
            if isinstance(args[0], (Obj, Cls)):
                o = args[0]
                if isinstance(o, Obj) and isinstance(o.cls, str):
                    return args[1] in o.attrs or args[1] in o.hooks
                try:
                    self.getattr(o, args[1])
                    return True
                except PyExc as e:
                    if e.name == "AttributeError":
                        return False
                    raise
            if isinstance(args[0], (str, dict, list, T)) and not isinstance(args[0], E):
                return hasattr(args[0], args[1])
            if args[0] is None:
                return False
            if isinstance(args[0], (E, Sp, bool)) and args[1] == "__call__":
                return False
            if isinstance(args[0], (Py, Fn)):
                return args[1] in ("__call__", "__name__", "__qualname__", "__module__", "__doc__")
            raise Undecided("hasattr")
        if n == "getattr":
            try:
                return self.getattr(args[0], args[1])
            except PyExc as e:
                if e.name == "AttributeError" and len(args) > 2:
                    return args[2]
                raise
        if n == "setattr":
            self.setattr(*args)
            return None
        if n == "delattr":
            if isinstance(args[0], Obj) and args[1] in args[0].attrs:
                del args[0].attrs[args[1]]
                return None
            raise PyExc("AttributeError")
        if n == "callable":
            return isinstance(args[0], (Fn, Lam, Py, Cls)) or isinstance(args[0], Obj) and ("__call__" in args[0].hooks)
        if n in ("list", "tuple", "set", "frozenset"):
            v = self.iterate(args[0]) if args else []
            return T(v) if n == "tuple" else list(v) if n == "list" else {hashable(x) for x in v}
        if n in ("dict", "OrderedDict"):
            d = {}
            self.dict_update(d, args, kw)
            return d
        if n == "fromkeys":
            return {hashable(x): args[1] if len(args) > 1 else None for x in self.iterate(args[0])}
        if n == "sorted" and not kw:
            return self.sorted(self.iterate(args[0]))
        if n == "reversed":
            return self.iterate(args[0])[::-1]
        if n == "iter":
            return self.iterate(args[0])
        if n == "zip":
            ls = [self.iterate(a) for a in args]
            if ls and len({len(x) for x in ls}) > 1 and False:
                raise PyExc("ValueError")
            return [T(x) for x in zip(*ls)]
        if n == "enumerate":
            s = integer(args[1]) if len(args) > 1 else integer(kw["start"]) if "start" in kw else 0
            return [T((const(i), x)) for i, x in enumerate(self.iterate(args[0]), s)]
        if n == "range":
            a = [integer(x) for x in args]
            if None in a:
                raise Undecided("range")
            return [const(i) for i in range(*a)]
        if n == "map":
            return [self.apply(args[0], list(x)) for x in zip(*[self.iterate(a) for a in args[1:]])]
        if n == "filter":
            return [x for x in self.iterate(args[1]) if self.truth(self.apply(args[0], [x]) if args[0] is not None else x)]
        if n == "len":
            v = args[0]
            f = v.cls.find("__len__") if isinstance(v, Obj) and not isinstance(v.cls, str) else None
            if f is not None:
                return self.callf(f, [v], {}, own=self.prog.enclosing_class(f))
            if isinstance(v, Obj) and v.items is not None and "__len__" not in v.hooks:
                v = v.items
            if isinstance(v, (list, T, dict, str, set)) and not isinstance(v, E):
                return const(len(v))
            if isinstance(v, Obj) and "__len__" in v.hooks:
                return v.hooks["__len__"](self, [], {})
            if isinstance(v, E):
                return self.length(v)
            raise Undecided("len")
        if n in ("any", "all"):
            if isinstance(args[0], (E, bool)):
                return self.truth(args[0])
            it = (self.truth(x) for x in self.iterate(args[0]))
            return any(it) if n == "any" else all(it)
        if n == "sum":
            if isinstance(args[0], (list, T, dict, set)) and not isinstance(args[0], E):
                acc = args[1] if len(args) > 1 else kw.get("start", ZERO)
                for x in self.iterate(args[0]):
                    acc = self.binop(ast.Add, acc, x)
                return acc
            return self.reduce("sum", args, kw)
        if n in ("min", "max") and len(args) == 1 and self.extremum is not None and not kw:
            return self.numeric(n, args, kw, n)
        if n in ("min", "max") and len(args) == 2 and not kw:
            return self.minmax(num(args[0]), num(args[1]), n == "min")
        if n in ("min", "max") and len(args) > 2 and not kw:
            acc = num(args[0])
            for x in args[1:]:
                acc = self.minmax(acc, num(x), n == "min")
            return acc
        if n in ("min", "max") and len(args) == 1 and not kw and isinstance(args[0], (list, T)) and not isinstance(args[0], E) and args[0]:
            return self.numeric(n, args, {}, "builtins." + n)
        if n == "abs":
            if isinstance(args[0], (list, T)) and not isinstance(args[0], E):
                return self.arrmap(lambda x: self.func1("abs", [x]), self.arr(args[0]))
            return self.func1("abs", [num(args[0])])
        if n in ("float", "int", "complex", "bool") and len(args) == 1 and isinstance(args[0], Obj) and "__%s__" % n in args[0].hooks:
            return args[0].hooks["__%s__" % n](self, [], {})
        if n in ("float", "int", "complex"):
            if isinstance(args[0], str):
                try:
                    return const(Fraction(args[0].strip()))
                except ValueError:
                    v = {"inf": INF, "+inf": INF, "infinity": INF, "-inf": NINF, "-infinity": NINF, "nan": NAN}.get(args[0].strip().lower())
                    if v is None or n == "int":
                        raise PyExc("ValueError")
                    return v
            if n == "float" and isinstance(args[0], Arr) and len(args[0]) == 1:
                return num(args[0][0])
            if n == "float":
                return num(args[0])
            if isinstance(args[0], Arr) and len(args[0]) == 1:
                return self.builtin(n, [args[0][0]], kw)
            if n == "complex" and len(args) == 1:
                return num(args[0])
            if integer(args[0]) is not None:
                return args[0]
            if n == "int" and isinstance(args[0], E) and A.is_const(args[0]):
                return const(int(A.const_of(args[0])))
            if n == "int" and args[0] in (INF, NINF):
                raise PyExc("OverflowError")
            if n == "int" and args[0] == NAN:
                raise PyExc("ValueError")
            if args and args[0] is None:
                raise PyExc("TypeError")
            raise Undecided(n)
        if n == "bool":
            return self.truth(args[0]) if args else False
        if n in ("str", "repr"):
            if isinstance(args[0], str) and n == "str":
                return args[0]
            if isinstance(args[0], Obj) and "__str__" in args[0].hooks:
                return args[0].hooks["__str__"](self, [], {})
            t = self.text(args[0])
            if t == "?":
                raise Undecided("text")
            return t
        if n == "print":
            return None
        if n == "id":
            return Obj("id")
        if n == "object":
            return Obj("object")
        raise Undecided("call of %s" % n)

    def length(self, v):
        raise Undecided("len")

    def close(self, args, kw):
        """numpy.isclose of numbers or arrays whose difference is a rational number"""
        o = dict(zip(("rtol", "atol", "equal_nan"), args[2:]))
        o.update(kw)
        rtol, atol = (num(o.get(n, const(d))) for n, d in (("rtol", Fraction(1, 10 ** 5)), ("atol", Fraction(1, 10 ** 8))))
        if not all(isinstance(x, E) and A.is_const(x) for x in (rtol, atol)) or set(o) - {"rtol", "atol", "equal_nan"}:
            raise Undecided("tolerances")

        def one(a, b):
            a, b = num(a), num(b)
            if NAN in (a, b):
                return a == b and o.get("equal_nan") is True
            if isinstance(a, Sp) or isinstance(b, Sp):
                return a == b
            d = a - b
            if d == ZERO:
                return True
            if A.is_const(d) and A.is_const(b):
                return abs(A.const_of(d)) <= A.const_of(atol) + A.const_of(rtol) * abs(A.const_of(b))
            if A.is_const(d) and rtol == ZERO:
                return abs(A.const_of(d)) <= A.const_of(atol)
            raise Undecided("closeness of %r and %r" % (a, b))
        a, b = (self.arr(x) if isinstance(x, (list, T)) and not isinstance(x, E) else x for x in args[:2])
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            return one(a, b)
        return self.arrmap(one, a, b)

    def minmax(self, a, b, small):
        return a if self.w.compare(ast.Lt, a, b) == small else b

    def func1(self, name, args):
        if any(a is Part for a in args):
            return Part
        x = args[-1]
        if name == "log" and isinstance(x, E) and not x:
            return NINF
        if name == "log" and x == INF:
            return INF
        if name == "exp" and isinstance(x, Sp):
            return {INF: INF, NINF: ZERO, NAN: NAN}[x]
        if name == "erf" and isinstance(x, Sp):
            return {INF: ONE, NINF: -ONE, NAN: NAN}[x]
        if name == "xlogy" and isinstance(x, E) and not x:
            return NINF if args[0] else ZERO
        if name == "abs" and isinstance(x, Sp):
            return NAN if x == NAN else INF
        if name == "abs" and isinstance(x, E) and A.is_complex(x):
            return A.fn1("abs", x)
        if name == "abs" and isinstance(x, E):
            s = self.w.sign(x)
            if s is not None:
                return x if s >= 0 else -x
        if any(a == NAN for a in args) and name in ("log", "log10", "log1p", "log2", "exp", "expm1", "sqrt", "sin", "cos", "tan"):
            return NAN
        if any(isinstance(a, Sp) for a in args):
            raise Undecided("%s of infinity" % name)
        return fn(name, *args)

    def numeric(self, n, args, kw, q):
        r = self.arrnumeric(n, args, kw)
        if r is not NotImplemented:
            return r
        if n in ("sum", "prod", "mean", "nansum", "cumsum", "max", "min", "amax", "amin") and (len(args) == 1 or "axis" in kw) and args:
            v = args[0]
            if n in ("max", "min", "amax", "amin"):
                if self.extremum is not None and isinstance(v, (list, T)) and not isinstance(v, E) and len(v) > 1:
                    return self.extremum("min" in n, [num(x) for x in self.flatten(self.arr(v))])
                v = [num(x) for x in self.iterate(v)] if isinstance(v, (list, T)) and not isinstance(v, E) else None
                if v is None and isinstance(args[0], (E, Sp)):
                    return args[0]
                if not v:
                    raise Undecided(n)
                acc = v[0]
                for x in v[1:]:
                    acc = self.minmax(acc, x, "min" in n)
                return acc
            return self.reduce({"nansum": "sum"}.get(n, n), args, kw)
        if n == "real" and len(args) == 1 and isinstance(args[0], E):
            return A.real_part(args[0])
        if n == "squeeze" and args and isinstance(args[0], Arr) and not kw:
            return squeezed(args[0])
        if n in IDENT and args:
            v = args[0]
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            if isinstance(dt, Ext) and dt.q.split(".")[-1] in ("bool", "bool_") and not isinstance(v, (list, T, Obj)) or isinstance(v, bool):
                return self.truth(v)
            return v
        if n in ("ones_like", "ones"):
            return ONE
        if n in ("zeros_like", "zeros", "empty", "empty_like"):
            return ZERO
        if n in ("full", "full_like") and len(args) + len(kw) > 1:
            args = list(args) + [kw[q] for q in ("shape" if n == "full" else "a", "fill_value")[len(args):] if q in kw]
            if len(args) < 2:
                raise Undecided(n)
            if n == "full_like" and isinstance(args[0], Arr):
                return self.arrmap(lambda x: args[1], args[0])
            dims = [integer(x) for x in (args[0] if isinstance(args[0], (T, list)) and not isinstance(args[0], E) else [args[0]])] if n == "full" else [None]
            if all(d is not None for d in dims) and not isinstance(args[1], (list, T)):
                if any(d > 5000 for d in dims):
                    raise Undecided("array size")

                def fill(ds):
                    return Arr(fill(ds[1:]) for _ in range(ds[0])) if ds else args[1]
                return fill(dims)
            return args[1]
        if n == "ndim" and len(args) == 1 and (isinstance(args[0], Arr) or self.w.scalar is True and isinstance(args[0], (E, Sp, bool))):
            return const(ndim(args[0]) if isinstance(args[0], Arr) else 0)
        if n == "shape" and len(args) == 1:
            if isinstance(args[0], Arr) or isinstance(args[0], (E, Sp, bool)) and self.w.scalar is True:
                return shape(args[0]) if isinstance(args[0], Arr) else T()
            if isinstance(args[0], (list, T)) and not isinstance(args[0], E):
                return shape(self.arr(args[0]))
        if n == "array_equal" and len(args) == 2 and not kw and all(isinstance(x, (dict, str, bool, type(None), Obj)) for x in args):
            return self.truth(self.equal(args[0], args[1]))
        if n == "array_equal" and len(args) == 2 and not kw and sum(isinstance(x, (dict, str, type(None))) for x in args) == 1:
            return False
        if n == "array_equal" and len(args) == 2 and not kw and all(isinstance(x, E) for x in args):
            return self.truth(self.equal(args[0], args[1]))
        if n == "array_equal" and len(args) == 2 and not kw and all(isinstance(x, (list, T)) and not isinstance(x, E) for x in args):
            a, b = self.arr(args[0]), self.arr(args[1])
            return shape(a) == shape(b) and all(self.equal(x, y) for x, y in zip(self.flatten(a), self.flatten(b)))
        if n in ("isclose", "allclose") and len(args) >= 2:
            out = self.close(args, kw)
            return out if n == "isclose" else all(self.flatten(out)) if isinstance(out, Arr) else out
        if n in ("mod", "remainder") and len(args) == 2:
            return self.binop(ast.Mod, args[0], args[1])
        if n in ("trapz", "trapezoid") and 1 <= len(args) <= 2 and isinstance(args[0], Arr) and ndim(args[0]) == 1 and set(kw) <= {"x", "dx"}:
            y, x = args[0], args[1] if len(args) > 1 else kw.get("x")
            if x is not None and (not isinstance(x, Arr) or len(x) != len(y)):
                raise PyExc("ValueError")
            out = ZERO
            for i in range(len(y) - 1):
                out = out + (x[i + 1] - x[i] if x is not None else num(kw.get("dx", ONE))) * (num(y[i]) + num(y[i + 1])) * const(Fraction(1, 2))
            return out
        if n == "transpose" and len(args) == 1 and isinstance(args[0], Arr):
            return args[0] if ndim(args[0]) == 1 else self.getattr(args[0], "T")
        if n == "isscalar":
            if isinstance(args[0], E):
                return self.w.ask(("scalar",)) if self.w.scalar is None else self.w.scalar
            return isinstance(args[0], (str, bool))
        if n in FUNCS1 and len(args) == 1:
            return self.elementwise(lambda *a: self.func1(FUNCS1[n], list(a)), args)
        if n in FUNCS2 and len(args) == 2:
            return self.elementwise(lambda *a: self.func1(FUNCS2[n], list(a)), args)
        if n in FUNCS3 and len(args) == 3:
            return self.elementwise(lambda *a: self.func1(FUNCS3[n], list(a)), args)
        if n in ("real", "imag", "conj", "conjugate") and len(args) == 1 and isinstance(args[0], E):
            return A.real_part(args[0]) if n == "real" else A.imag_part(args[0]) if n == "imag" else A.conj(args[0])
        if n in ("real", "conj", "conjugate") and len(args) == 1:
            return num(args[0])
        if n in ("i0e", "i0") and len(args) == 1 and isinstance(args[0], (list, T)) and not isinstance(args[0], E):
            return self.arrmap(lambda x: self.numeric(n, [x], {}, q), self.arr(args[0]))
        if n in ("i0e", "i0") and len(args) == 1:
            z = A.fn1("i0e", num(args[0]))
            return z if n == "i0e" else z * A.exp(self.func1("abs", [num(args[0])]))
        if n == "logsumexp" and len(args) == 1 and isinstance(args[0], E) and not set(kw) - {"b", "axis"}:
            return self.func1("log", [self.binop(ast.Mult, A.exp(args[0]), kw.get("b", ONE))])
        if n in BINF and len(args) == 2:
            return self.binop(BINF[n], args[0], args[1])
        if n in ("minimum", "fmin") and len(args) == 2:
            return self.minmax(num(args[0]), num(args[1]), True)
        if n in ("maximum", "fmax") and len(args) == 2:
            return self.minmax(num(args[0]), num(args[1]), False)
        if n == "clip" and len(args) == 3:
            return self.minmax(self.minmax(num(args[0]), num(args[1]), False), num(args[2]), True)
        if n == "where" and len(args) == 3:
            return args[1] if self.truth(args[0]) else args[2]
        if n in ("logical_and", "logical_or") and len(args) == 2:
            a, b = self.truth(args[0]), self.truth(args[1])
            return (a and b) if n == "logical_and" else (a or b)
        if n in ("logical_not", "invert") and args:
            return not self.truth(args[0])
        if n == "insert" and len(args) in (3, 4) and isinstance(args[0], (Arr, list)) and integer(args[1]) is not None and not isinstance(args[2], (Arr, list)) and not set(kw) - {"axis"}:
            v, ax, i = self.arr(args[0]), integer(kw.get("axis", args[3] if len(args) > 3 else None)), integer(args[1])
            if ax is None and ndim(v) > 1 or ax is not None and ax not in (ndim(v) - 1, -1):
                raise Undecided("insert")
            if ndim(v) > 1:
                return Arr(self.numeric(n, [x, args[1], args[2]], {}, q) for x in v)
            if not -len(v) <= i <= len(v):
                raise PyExc("IndexError")
            out = Arr(v)
            list.insert(out, i, args[2])
            return out
        if n in ("any", "all") and kw.get("axis", args[1] if len(args) > 1 else None) is not None and isinstance(args[0], (Arr, list)) and not set(kw) - {"axis"}:
            v, ax = self.arr(args[0]), integer(kw.get("axis", args[1] if len(args) > 1 else None))
            if ax is None or not -ndim(v) <= ax < ndim(v):
                raise Undecided("axis")
            if ax in (0, -ndim(v)):
                return self.arrmap(lambda *xs: (any if n == "any" else all)(self.truth(x) for x in xs), *v)
            return Arr(self.numeric(n, [x], {"axis": const(ax % ndim(v) - 1)}, q) for x in v)
        if n in ("any", "all") and len(args) == 1:
            if isinstance(args[0], (list, T)) and not isinstance(args[0], E):
                return (any if n == "any" else all)(self.truth(x) for x in args[0])
            return self.truth(args[0])
        if n == "isnan" and args:
            return args[0] == NAN
        if n == "isfinite" and args:
            return isinstance(num(args[0]), E)
        if n in ("isinf", "isneginf") and args:
            return isinstance(args[0], Sp) and args[0] in (INF, NINF)
        if n in ("round", "rint") and args and isinstance(args[0], E) and A.is_const(args[0]) and not set(kw) - {"decimals"}:
            return const(round(A.const_of(args[0]), integer(kw.get("decimals", args[1] if len(args) > 1 else ZERO)) or 0))
        if n == "floor" and isinstance(args[0], E) and A.is_const(args[0]):
            return const(A.const_of(args[0]).__floor__())
        if n == "arange" and all(integer(x) is not None for x in args) and not set(kw) - {"dtype"}:
            return Arr(const(i) for i in range(*[integer(x) for x in args]))
        if n in ("errstate", "seterr"):
            return None
        if n == "squeeze" and len(args) == 1 and not kw:
            return squeezed(self.arr(args[0])) if isinstance(args[0], (list, T)) and not isinstance(args[0], E) else args[0]
        raise Undecided("call of %s" % q)

    def arrnumeric(self, n, args, kw):
        """functions of arrays of known length"""
        if n in ("zeros", "ones", "empty") and not args and "shape" in kw:
            args, kw = [kw["shape"]], {q: v for q, v in kw.items() if q != "shape"}
        if n in ("eye", "identity") and len(args) == 1 and integer(args[0]) is not None and not kw:
            return Arr(Arr(ONE if i == j else ZERO for j in range(integer(args[0]))) for i in range(integer(args[0])))
        seq = [isinstance(a, (list, T)) and not isinstance(a, E) for a in args]
        dt = kw.get("dtype")
        if n in ("array", "asarray", "asanyarray", "atleast_1d", "copy") and args and seq[0]:
            v = self.arr(args[0])
            dt = dt if dt is not None else args[1] if len(args) > 1 else None
            if isinstance(dt, Ext) and dt.q.split(".")[-1] in ("bool", "bool_"):
                return self.arrmap(self.truth, v)
            return v
        if n == "atleast_2d" and len(args) == 1 and seq[0]:
            v = self.arr(args[0])
            return v if ndim(v) > 1 else Arr([v])
        if n == "diag" and len(args) == 1 and seq[0] and ndim(self.arr(args[0])) == 2:
            return Arr(x[i] for i, x in enumerate(self.arr(args[0])))
        if n in ("zeros", "ones", "empty") and args and not (seq[0] and not isinstance(args[0], T) and ndim(self.arr(args[0])) > 1):
            dims = [integer(x) for x in (args[0] if seq[0] else [args[0]])]
            if all(d is not None for d in dims):
                size = 1
                for d in dims:
                    size *= d
                if size > 5000:
                    raise Undecided("array size")

                dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                one = isinstance(dt, Ext) and dt.q.split(".")[-1] in ("bool", "bool_")
                fill = (n == "ones") if one else ONE if n == "ones" else ZERO

                def build(ds):
                    return Arr(build(ds[1:]) for _ in range(ds[0])) if ds else fill
                return build(dims)
        if n in ("linspace", "logspace") and len(args) + len(kw) >= 3:
            args = list(args) + [kw[q] for q in ("start", "stop")[len(args):] if q in kw]
            kw = {q: v for q, v in kw.items() if q not in ("start", "stop")}
            if len(args) < 2:
                raise Undecided(n)
            k = integer(kw.get("num", args[2] if len(args) > 2 else None))
            if k is None or k > 5000 or set(kw) - {"num", "endpoint"}:
                raise Undecided(n)
            ep = self.truth(kw.get("endpoint", True))
            lo, hi = num(args[0]), num(args[1])
            step = (hi - lo) / const(max(k - 1 if ep else k, 1))
            pts = [lo + const(i) * step for i in range(k)]
            return Arr(pts if n == "linspace" else [A.power(const(10), p) for p in pts])
        if n == "tile" and len(args) == 2 and seq[0] and isinstance(args[1], T) and len(args[1]) == 2 and integer(args[1][1]) == 1:
            v = self.arr(args[0])
            if ndim(v) == 1:
                return Arr(Arr(v) for _ in range(integer(args[1][0])))
        if n in ("fft", "ifft") and args and seq[0] and not set(kw) - {"axis"}:
            v = self.arr(args[0])
            ax = integer(kw.get("axis", const(-1)))
            if ndim(v) == 2 and ax == 0:
                return self.getattr(Arr(self.fft(Arr(c), n == "ifft") for c in zip(*v)), "T")
            if ndim(v) == 2 and ax in (1, -1):
                return Arr(self.fft(x, n == "ifft") for x in v)
            if ndim(v) == 1:
                return self.fft(v, n == "ifft")
        if n in ("rfft", "irfft") and len(args) == 1 and not kw and seq[0] and ndim(self.arr(args[0])) == 1:
            v = [num(x) for x in self.arr(args[0])]
            if n == "rfft":
                if any(isinstance(x, E) and A.is_complex(x) for x in v):
                    raise Undecided("rfft of complex values")
                return Arr(self.fft(Arr(v), False)[:len(v) // 2 + 1])
            full = [A.real_part(v[0])] + v[1:-1] + [A.real_part(v[-1])] + [A.conj(x) for x in reversed(v[1:-1])]
            return Arr(A.real_part(x) for x in self.fft(Arr(full), True))
        if n == "outer" and len(args) == 2 and all(seq):
            return Arr(Arr(self.binop(ast.Mult, a, b) for b in self.flatten(args[1])) for a in self.flatten(args[0]))
        if n == "logsumexp" and args and seq[0] and not set(kw) - {"b", "axis"} and len(args) == 1:
            w, v = kw.get("b", ONE), self.arr(args[0])
            t = self.binop(ast.Mult, self.arrmap(lambda x: self.func1("exp", [x]), v), self.arr(w) if isinstance(w, (list, T)) and not isinstance(w, E) else w)
            s = self.reduce("sum", [t], {"axis": kw["axis"]} if kw.get("axis") is not None else {})
            return self.arrmap(lambda x: self.func1("log", [x]), s)
        if n in ("conj", "conjugate", "real", "imag") and args and seq[0]:
            return self.arrmap(lambda x: self.numeric(n, [x], {}, "numpy." + n), self.arr(args[0]))
        if n == "vdot" and len(args) == 2 and all(seq):
            return self.reduce("sum", [self.binop(ast.Mult, self.arrmap(lambda x: A.conj(num(x)), self.arr(args[0])), self.arr(args[1]))], {})
        if n in ("dot", "matmul") and len(args) == 2 and all(seq):
            a, b = self.arr(args[0]), self.arr(args[1])
            if ndim(a) == 1 and ndim(b) == 2:
                if len(a) != len(b):
                    raise PyExc("ValueError")
                return Arr(self.reduce("sum", [self.binop(ast.Mult, a, Arr(c))], {}) for c in zip(*b))
            if ndim(a) == 2 and ndim(b) == 1:
                return Arr(self.numeric("dot", [row, b], {}, "numpy.dot") for row in a)
            if ndim(a) == 2 and ndim(b) == 2:
                return Arr(self.numeric("dot", [row, b], {}, "numpy.dot") for row in a)
        if not any(seq):
            return NotImplemented
        if n in ("hstack", "concatenate", "append"):
            parts = self.iterate(args[0]) if n != "append" else args[:2]
            if all(isinstance(x, (list, T)) and not isinstance(x, E) for x in parts):
                parts = [self.arr(x) for x in parts]
                d = ndim(parts[0])
                if any(ndim(x) != d for x in parts):
                    raise PyExc("ValueError")
                ax = kw.get("axis", args[1] if n == "concatenate" and len(args) > 1 else args[2] if n == "append" and len(args) > 2 else None)
                ax = (1 if d > 1 else 0) if n == "hstack" else integer(ax) if ax is not None else 0 if n == "concatenate" or d == 1 else None
                if ax is None:
                    return Arr(y for x in parts for y in self.flatten(x))

                def join(xs, a):
                    if a == 0:
                        return Arr(y for x in xs for y in x)
                    if len({len(x) for x in xs}) > 1:
                        raise PyExc("ValueError")
                    return Arr(join(list(r), a - 1) for r in zip(*xs))
                return join(parts, ax % d)
            return NotImplemented
        if n == "vstack":
            parts = [self.arr(x) for x in self.iterate(args[0])]
            return Arr(r for x in parts for r in (x if ndim(x) > 1 else [x]))
        if n in ("stack",) and not kw and len(args) == 1:
            return Arr(self.arr(x) for x in self.iterate(args[0]))
        v = self.arr(args[0]) if seq[0] else args[0]
        if n in ("zeros_like", "empty_like", "ones_like") and seq[0]:
            if isinstance(dt, Ext) and dt.q.split(".")[-1] in ("bool", "bool_"):
                return self.arrmap(lambda x: n == "ones_like", v)
            return self.arrmap(lambda x: ONE if n == "ones_like" else ZERO, v)
        if n == "full_like" and seq[0]:
            return self.arrmap(lambda x: args[1], v)
        if n == "reshape" and seq[0]:
            flat = self.flatten(v)
            dims = args[1] if len(args) == 2 else T(args[1:])
            dims = [integer(x) for x in (dims if isinstance(dims, (T, list)) and not isinstance(dims, E) else [dims])]
            if kw or None in dims or dims.count(-1) > 1:
                raise Undecided("reshape")
            size = 1
            for x in dims:
                size *= abs(x)
            if -1 in dims and size and len(flat) % size == 0:
                dims[dims.index(-1)] = len(flat) // size
                size = len(flat)
            if size != len(flat) or -1 in dims:
                raise PyExc("ValueError")

            def cut(xs, ds):
                if len(ds) < 2:
                    return Arr(xs)
                m = len(xs) // ds[0] if ds[0] else 0
                return Arr(cut(xs[i * m:(i + 1) * m], ds[1:]) for i in range(ds[0]))
            return cut(list(flat), dims)
        if n in ("swapaxes", "moveaxis", "transpose") and seq[0]:
            d = ndim(v)
            order = list(range(d))
            ax = list(args[1:]) + [kw[q] for q in ("axis1", "axis2", "source", "destination", "axes") if q in kw]
            if n == "transpose":
                ax = list(ax[0]) if len(ax) == 1 and isinstance(ax[0], (T, list)) else ax
                order = [integer(x) % d for x in ax] if ax else order[::-1]
            else:
                a, b = integer(ax[0]), integer(ax[1])
                if a is None or b is None:
                    raise Undecided(n)
                a, b = a % d, b % d
                if n == "swapaxes":
                    order[a], order[b] = b, a
                else:
                    order.remove(a)
                    order.insert(b, a)
            return permute(v, order)
        if n in ("all", "any") and seq[0] and len(args) == 1 and not kw:
            return (all if n == "all" else any)(self.truth(x) for x in self.flatten(v))
        if n == "count_nonzero":
            return const(sum(1 for x in self.flatten(v) if self.truth(x)))
        if n in ("flatnonzero",) or n in ("where", "nonzero") and len(args) == 1:
            idx = Arr(const(i) for i, x in enumerate(v) if self.truth(x))
            return idx if n == "flatnonzero" else T([idx])
        if n in ("argmax", "argmin") and len(args) == 1 and v:
            best = 0
            for i in range(1, len(v)):
                if self.w.compare(ast.Gt if n == "argmax" else ast.Lt, num(v[i]), num(v[best])):
                    best = i
            return const(best)
        if n == "cumsum" and len(args) == 1:
            out, acc = Arr(), ZERO
            for x in v:
                acc = self.binop(ast.Add, acc, x)
                out.append(acc)
            return out
        if n in ("sum", "prod", "mean", "nansum"):
            return self.reduce({"nansum": "sum"}.get(n, n), [v] + args[1:], kw)
        if n == "diff" and len(args) == 1 and not kw and ndim(v) == 1:
            return Arr(self.binop(ast.Sub, y, x) for x, y in zip(v, v[1:]))
        if n == "ptp" and len(args) == 1 and not kw:
            return self.binop(ast.Sub, self.numeric("max", [v], {}, "numpy.max"), self.numeric("min", [v], {}, "numpy.min"))
        if n in ("dot", "vdot", "inner") and len(args) == 2 and all(seq) and ndim(v) == 1:
            return self.reduce("sum", [self.binop(ast.Mult, v, self.arr(args[1]))], {})
        if n in FUNCS1 or n in FUNCS2 or n in BINF or n in ("isnan", "isfinite", "isinf", "logical_and", "logical_or", "logical_not", "where",
                                                            "minimum", "maximum", "clip", "nan_to_num", "invert", "floor"):
            if n == "clip" and len(args) + len(kw) == 3 and set(kw) <= {"a_min", "a_max", "min", "max"}:
                b = {q.replace("a_", ""): x for q, x in kw.items()}
                args = args + [b[q] for q in ("min", "max")[len(args) - 1:] if q in b]
                seq = [isinstance(a, (list, T)) and not isinstance(a, E) for a in args]
                kw = {}
            if kw:
                raise Undecided("keywords of %s" % n)
            xs = [self.arr(a) if s else a for a, s in zip(args, seq)]
            return self.arrmap(lambda *a: self.numeric(n, list(a), {}, "numpy." + n), *xs)
        return NotImplemented

    def fft(self, v, inverse):
        n = len(v)
        if n > 16:
            raise Undecided("size of a Fourier transform")
        return Arr(self.reduce("sum", [Arr(num(x) * root(j * k, n, inverse) for j, x in enumerate(v))], {}) / (const(n) if inverse else ONE)
                   for k in range(n))

    def elementwise(self, f, args):
        lists = [a for a in args if isinstance(a, (list, T)) and not isinstance(a, E)]
        if not lists:
            return f(*[a if a is Part else num(a) for a in args])
        n = len(lists[0])
        if any(len(x) != n for x in lists):
            raise Undecided("shapes")
        return [self.elementwise(f, [a[i] if isinstance(a, (list, T)) and not isinstance(a, E) else a for a in args]) for i in range(n)]


def root(k, n, inverse):
    """exp(-2 pi i k / n), conjugated for the inverse transform"""
    k %= n
    a = Fraction(2 * k, n)
    if a.denominator == 1 or a.denominator == 2:
        z = [ONE, -A.I, const(-1), A.I][int(a * 2) % 4]
    elif a.denominator == 4:
        r = A.power(const(Fraction(1, 2)), const(Fraction(1, 2)))
        c = {1: (1, -1), 3: (-1, -1), 5: (-1, 1), 7: (1, 1)}[int(a * 4) % 8]
        z = r * const(c[0]) + r * const(c[1]) * A.I
    else:
        raise Undecided("size of a Fourier transform")
    return A.conj(z) if inverse else z


def permute(v, order):
    """axes of an array in another order"""
    def get(x, idx):
        for i in idx:
            x = x[i]
        return x
    dims, x = [], v
    while isinstance(x, Arr):
        dims.append(len(x))
        x = x[0] if x else None
    if len(order) != len(dims) or sorted(order) != list(range(len(dims))):
        raise PyExc("ValueError")

    def build(at):
        if len(at) == len(order):
            idx = [None] * len(order)
            for k, i in zip(order, at):
                idx[k] = i
            return get(v, idx)
        return Arr(build(at + [i]) for i in range(dims[order[len(at)]]))
    return build([])


def ndim(v):
    return 1 + (ndim(v[0]) if v else 0) if isinstance(v, Arr) else 0


def shape(v):
    out = []
    while isinstance(v, Arr):
        out.append(const(len(v)))
        v = v[0] if v else None
    return T(out)


def attr_fields(cls):
    """fields of a class made by attrs"""
    def attrs(e):
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("attr", "attrs") or \
            isinstance(e, ast.Name) and e.id in ("attrs", "define", "frozen")
    if not any(attrs(d) for d in cls.node.decorator_list):
        return None
    out = {}
    for st in cls.node.body:
        t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and isinstance(st.value, ast.Call) and attrs(st.value.func):
            out[t.id] = st.value
    return out


def own_nodes(fnode):
    stack = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Frame:
    """evaluates statements and expressions of one function"""

    def __init__(self, it, func, module, own):
        self.it, self.func, self.module, self.own = it, func, module, own

    def block(self, body, env):
        for st in body:
            self.it.left -= 1
            if self.it.left < 0:
                raise Undecided("too long")
            self.stmt(st, env)

    def stmt(self, st, env):
        it = self.it
        if isinstance(st, ast.Return):
            raise Ret(self.expr(st.value, env) if st.value is not None else None)
        if isinstance(st, ast.If):
            self.block(st.body if it.truth(self.expr(st.test, env)) else st.orelse, env)
            return
        if isinstance(st, ast.Assign):
            v = self.expr(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.expr(st.value, env), env)
            return
        if isinstance(st, ast.AugAssign):
            old = self.expr(as_load(st.target), env)
            new = self.expr(st.value, env)
            if isinstance(old, list) and not isinstance(old, Arr) and isinstance(st.op, ast.Add):
                old.extend(it.iterate(new))
                v = old
            elif isinstance(old, Arr):
                v = it.binop(type(st.op), old, new)
                if isinstance(v, Arr) and shape(v) == shape(old):
                    it.arrset(old, slice(None), v)
                    v = old
            elif isinstance(old, Obj) and not isinstance(old.cls, str) and old.cls.find(INPLACE.get(type(st.op), "?")):
                v = it.method(old, INPLACE[type(st.op)], new)
            else:
                v = it.binop(type(st.op), old, new)
            self.assign(st.target, v, env)
            return
        if isinstance(st, ast.Expr):
            if isinstance(st.value, (ast.Constant, ast.JoinedStr)):
                return
            if self.quiet(st.value):
                return
            self.expr(st.value, env)
            return
        if isinstance(st, ast.Global):
            env["__global__"] = env.get("__global__", frozenset()) | set(st.names)
            return
        if isinstance(st, (ast.Pass, ast.Nonlocal, ast.Assert)):
            return
        if isinstance(st, ast.ClassDef) and self.func is not None:
            c = it.prog.classes.get(self.func.qual + "." + st.name)
            if c is None:
                raise Undecided("local class")
            it.closures[c] = env
            env[st.name] = Cls(c)
            return
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for local, target in self.module.import_bindings(st):
                if local != "*":
                    q = it.prog.lookup_dotted(target)
                    env[local] = it.named(self.dotted(q, target))
            return
        if isinstance(st, ast.Raise):
            if st.exc is None:
                raise env.get("__exc__") or PyExc("Exception")
            raise PyExc(self.excname(st.exc, env))
        if isinstance(st, ast.For):
            try:
                for x in it.iterate(self.expr(st.iter, env)):
                    self.assign(st.target, x, env)
                    try:
                        self.block(st.body, env)
                    except Cont:
                        continue
            except Brk:
                return
            self.block(st.orelse, env)
            return
        if isinstance(st, ast.While):
            n = 0
            try:
                while it.truth(self.expr(st.test, env)):
                    n += 1
                    if n > getattr(it, "loops", 40):
                        raise Undecided("loop")
                    try:
                        self.block(st.body, env)
                    except Cont:
                        continue
            except Brk:
                return
            self.block(st.orelse, env)
            return
        if isinstance(st, ast.Break):
            raise Brk()
        if isinstance(st, ast.Continue):
            raise Cont()
        if isinstance(st, ast.Try):
            try:
                try:
                    self.block(st.body, env)
                except PyExc as e:
                    for h in st.handlers:
                        if self.handles(h, e, env):
                            if h.name:
                                env[h.name] = Obj("builtins." + e.name, {"args": T(e.args_)} if e.args_ else None)
                            saved = env.get("__exc__")
                            env["__exc__"] = e
                            self.block(h.body, env)
                            env["__exc__"] = saved
                            break
                    else:
                        raise
                else:
                    self.block(st.orelse, env)
            finally:
                self.block(st.finalbody, env)
            return
        if isinstance(st, ast.FunctionDef):
            env[st.name] = Lam(st, env, self)
            return
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    it.delitem(self.expr(t.value, env), self.key(t.slice, env))
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    o = self.expr(t.value, env)
                    if not isinstance(o, Obj) or t.attr not in o.attrs:
                        raise Undecided("del")
                    del o.attrs[t.attr]
                else:
                    raise Undecided("del")
            return
        if isinstance(st, ast.With):
            managed = []
            for i in st.items:
                try:
                    v = self.expr(i.context_expr, env)
                except Undecided:
                    if i.optional_vars is not None:
                        raise
                    v = None
                if isinstance(v, Obj) and "__enter__" in v.hooks:
                    managed.append(v)
                    v = v.hooks["__enter__"](self.it, [], {})
                elif isinstance(v, Obj) and not isinstance(v.cls, str) and v.cls.find("__enter__") is not None:
                    managed.append(v)
                    v = self.it.method(v, "__enter__")
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            try:
                self.block(st.body, env)
            except PyExc as e:
                if any(not isinstance(m.cls, str) for m in managed):
                    raise Undecided("exception inside a context manager")
                for m in reversed(managed):
                    if "__exit__" in m.hooks:
                        m.hooks["__exit__"](self.it, [Ext(e.name), None, None], {})
                raise
            except (Ret, Brk, Cont):
                for m in reversed(managed):
                    self.it.apply(self.it.getattr(m, "__exit__"), [None, None, None])
                raise
            for m in reversed(managed):
                self.it.apply(self.it.getattr(m, "__exit__"), [None, None, None])
            return
        raise Undecided("statement %s" % type(st).__name__)

    def quiet(self, e):
        """logging and printing have no effect on values"""
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "warn", "critical") \
                    and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings"):
                return True
            if isinstance(f, ast.Name) and f.id == "print":
                return True
        return False

    def dotted(self, q, target):
        if q is None:
            return target
        if isinstance(q, str):
            return q
        if isinstance(q, tuple) and len(q) == 2 and hasattr(q[1], "qual"):
            return q[1].qual
        return target

    def excname(self, e, env):
        v = self.expr(e, env) if not isinstance(e, ast.Call) else None
        if v is None:
            try:
                v = self.expr(e.func, env)
            except Undecided:
                return "Exception"
        if isinstance(v, Cls):
            return v.cls.qual
        if isinstance(v, Ext):
            return v.q.split(".")[-1]
        if isinstance(v, Obj):
            return v.cls.qual if not isinstance(v.cls, str) else v.cls.split(".")[-1]
        return "Exception"

    def handles(self, h, e, env):
        if h.type is None:
            return True
        ts = self.expr(h.type, env)
        ts = list(ts) if isinstance(ts, T) else [ts]
        have = {e.name, e.name.split(".")[-1], "Exception", "BaseException"}
        n = e.name
        c = self.it.prog.classes.get(n)
        if c is not None:
            have |= {b for b in c.all_base_names() if b} | {b.split(".")[-1] for b in c.all_base_names() if b}
        for x in list(have):
            while x in EXC_PARENT:
                x = EXC_PARENT[x]
                have.add(x)
        if have & {"OSError", "IOError"}:
            have |= {"OSError", "IOError", "EnvironmentError"}
        for t in ts:
            q = t.cls.qual if isinstance(t, Cls) else t.q if isinstance(t, Ext) else None
            if q is None:
                raise Undecided("handler")
            if q in have or q.split(".")[-1] in have:
                return True
        return False

    def assign(self, t, v, env):
        it = self.it
        if isinstance(t, ast.Name):
            if t.id in env.get("__global__", ()):
                it.globals[self.module.name + "." + t.id] = v
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = it.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Undecided("unpacking")
            if len(vs) != len(t.elts):
                raise PyExc("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            it.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.key(t.slice, env)
            if isinstance(o, (E, Sp, bool)) or o is Part:
                # element of an array held in a variable or attribute
                if isinstance(k, slice):
                    sel = True
                elif isinstance(k, bool):
                    sel = k
                else:
                    raise Undecided("array store")
                if sel:
                    if v is Part:
                        raise Undecided("partial store")
                    self.assign(t.value, v, env)
                return
            it.setitem(o, k, v)
        else:
            raise Undecided("store")

    def key(self, s, env):
        if isinstance(s, ast.Slice):
            parts = []
            for x in (s.lower, s.upper, s.step):
                if x is None:
                    parts.append(None)
                else:
                    i = integer(self.expr(x, env))
                    if i is None:
                        raise Undecided("slice")
                    parts.append(i)
            return slice(*parts)
        if isinstance(s, ast.Tuple):
            return T(self.key(x, env) for x in s.elts)
        return self.expr(s, env)

    # -- expressions -------------------------------------------------------------
    def name(self, n, env):
        if n in env:
            return env[n]
        it = self.it
        if n == "__name__":
            return self.module.name
        if n == "__file__":
            return self.module.relpath
        q = it.prog.resolve(self.module, ast.Name(id=n, ctx=ast.Load()), None)
        if q is None:
            return Ext(n)
        return it.named(q)

    def expr(self, e, env):
        it = self.it
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
                return v
            if isinstance(v, int):
                return const(v)
            if isinstance(v, float):
                return INF if v == float("inf") else const(Fraction(repr(v)))
            if isinstance(v, complex):
                return const(Fraction(repr(v.real))) + const(Fraction(repr(v.imag))) * A.I
            raise Undecided("constant")
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Attribute):
            return it.getattr(self.expr(e.value, env), e.attr)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            if isinstance(v, Arr) and not isinstance(e.op, ast.Not):
                return it.arrmap((lambda x: not it.truth(x)) if isinstance(e.op, ast.Invert) else
                                 (lambda x: x) if isinstance(e.op, ast.UAdd) else (lambda x: it.binop(ast.Sub, ZERO, x)), v)
            if isinstance(e.op, (ast.Not, ast.Invert)):
                return not it.truth(v)
            if isinstance(e.op, ast.UAdd) or v is Part:
                return v
            v = num(v)
            return {INF: NINF, NINF: INF, NAN: NAN}[v] if isinstance(v, Sp) else -v
        if isinstance(e, ast.BinOp):
            return it.binop(type(e.op), self.expr(e.left, env), self.expr(e.right, env))
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.expr(x, env)
                if it.truth(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, env)
            if len(e.ops) == 1 and not isinstance(e.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                r = self.expr(e.comparators[0], env)
                if isinstance(l, Arr) or isinstance(r, Arr):
                    return it.arrmap(lambda a, b: self.compare(e.ops[0], a, b), l, r)
                return self.compare(e.ops[0], l, r)
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.left, ast.Call) and isinstance(e.comparators[0], ast.Constant) \
                    and isinstance(e.comparators[0].value, bool) and isinstance(e.left.func, ast.Attribute):
                f = self.expr(e.left.func, env)
                if isinstance(f, Ext) and f.q in ("numpy.isinf", "numpy.isnan", "numpy.isfinite", "numpy.any", "numpy.all", "numpy.isclose"):
                    return isinstance(e.ops[0], ast.IsNot)       # a numpy boolean is never identical to True or False
            for op, c in zip(e.ops, e.comparators):
                r = self.expr(c, env)
                if not self.compare(op, l, r):
                    return False
                l = r
            return True
        if isinstance(e, ast.IfExp):
            return self.expr(e.body if it.truth(self.expr(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.Tuple):
            return T(self.elts(e.elts, env))
        if isinstance(e, ast.List):
            return list(self.elts(e.elts, env))
        if isinstance(e, ast.Set):
            return {hashable(x) for x in self.elts(e.elts, env)}
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    it.dict_update(d, [self.expr(v, env)], {})
                else:
                    d[hashable(self.expr(k, env))] = self.expr(v, env)
            return d
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return list(self.comp(e.generators, e.elt, dict(env)))
        if isinstance(e, ast.SetComp):
            return {hashable(x) for x in self.comp(e.generators, e.elt, dict(env))}
        if isinstance(e, ast.DictComp):
            return {hashable(x[0]): x[1] for x in self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), dict(env))}
        if isinstance(e, ast.Subscript):
            return it.getitem(self.expr(e.value, env), self.key(e.slice, env))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return Lam(e, env, self)
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                out += str(v.value) if isinstance(v, ast.Constant) else it.formatted(self.expr(v.value, env), v.format_spec)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            env[e.target.id] = v
            return v
        raise Undecided("expression %s" % type(e).__name__)

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.it.iterate(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def compare(self, op, l, r):
        it = self.it
        if isinstance(op, (ast.In, ast.NotIn)):
            return it.contains(l, r) == isinstance(op, ast.In)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if r is None or l is None or isinstance(r, bool) and isinstance(l, bool):
                v = l is r
            elif isinstance(l, (Obj, list, dict)) or isinstance(r, bool) and isinstance(l, (str, Fn, Lam, Cls)):
                v = l is r
            elif isinstance(l, (Cls, Ext)) and isinstance(r, (Cls, Ext)):
                v = it.equal(l, r)
            else:
                raise Undecided("identity")
            return v == isinstance(op, ast.Is)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return it.equal(l, r) == isinstance(op, ast.Eq)
        if isinstance(l, (set,)) and isinstance(r, set):
            return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[type(op)]
        if isinstance(l, str) and isinstance(r, str):
            return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[type(op)]
        if l is Part or r is Part:
            return False
        return it.w.compare(type(op), num(l), num(r))

    def comp(self, gens, elt, env):
        g = gens[0]
        out = []
        for x in self.it.iterate(self.expr(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.it.truth(self.expr(c, env)) for c in g.ifs):
                if len(gens) > 1:
                    out.extend(self.comp(gens[1:], elt, env))
                else:
                    out.append(self.expr(elt, env))
        return out

    def call(self, e, env):
        it = self.it
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in env:
            me = env.get(self.func.params[0]) if self.func is not None and self.func.params else None
            if me is None:
                raise Undecided("super")
            return Super(me, self.own)
        if isinstance(f, ast.Name) and f.id in ("locals", "globals", "vars", "eval", "exec") and "builtins." + f.id not in it.ext:
            raise Undecided(f.id)
        fv = self.expr(f, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                if isinstance(v, Obj) and v.items is not None:
                    v = v.items
                if not isinstance(v, dict):
                    raise Undecided("keyword expansion")
                kw.update(v)
            else:
                kw[k.arg] = v
        # explicit base class call: Base.method(self, ...)
        return it.apply(fv, args, kw)


def squeezed(v):
    """an array without its axes of length one"""
    if not isinstance(v, Arr):
        return v
    if len(v) == 1:
        return squeezed(v[0])
    w = [squeezed(x) for x in v]
    return v if all(a is b for a, b in zip(v, w)) else Arr(w)


def as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
