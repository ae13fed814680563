"""Flow-insensitive type inference over the repo (may-types as a set of tags).

Tags: dotted class names ('bilby.core.result.Result', 'pandas.DataFrame',
'scipy.stats.gaussian_kde', ...) and the built-in tags 'set', 'dict', 'list',
'tuple', 'str', 'num', 'none', 'dictview', 'func:<qual>', 'ext:<dotted>()' for
the result of an unknown external call.
"""
import ast

from .program import walk_func

SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
#: parameter / variable names whose meaning is fixed by bilby's public API
NAME_HINTS = {
    "priors": {"bilby.core.prior.dict.PriorDict"},
    "likelihood": {"bilby.core.likelihood.Likelihood"},
    "interferometers": {"bilby.gw.detector.networks.InterferometerList"},
}
ATTR_HINTS = {
    "posterior": {"pandas.DataFrame"},
    "_posterior": {"pandas.DataFrame"},
    "nested_samples": {"pandas.DataFrame"},
}
CTORS = {
    "builtins.set": "set", "builtins.frozenset": "set", "builtins.dict": "dict",
    "builtins.list": "list", "builtins.tuple": "tuple", "builtins.str": "str",
    "builtins.int": "num", "builtins.float": "num", "builtins.len": "num",
    "builtins.sorted": "list", "builtins.sum": "num", "builtins.min": "num", "builtins.max": "num",
    "pandas.DataFrame": "pandas.DataFrame",
    "pandas.read_csv": "pandas.DataFrame", "pandas.concat": "pandas.DataFrame",
    "pandas.read_hdf": "pandas.DataFrame", "pandas.read_json": "pandas.DataFrame",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "copy.copy": None, "copy.deepcopy": None,
}


class Infer:
    def __init__(self, prog):
        self.prog = prog
        self._attr = None
        self._ret = {}
        self._busy = set()
        self._calls = None
        self._expr = {}

    # -- call index --------------------------------------------------------
    def call_index(self):
        """qual -> list of (Call node, Func or None, Module)"""
        if self._calls is None:
            idx = {}
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        f = self.prog.enclosing_func(n)
                        for q in self.callees(n, m, f):
                            idx.setdefault(q, []).append((n, f, m))
            self._calls = idx
        return self._calls

    def callees(self, call, module, func):
        """Resolved repo callees (qualified names) of a call."""
        fn = call.func
        out = []
        if isinstance(fn, (ast.Name, ast.Attribute)):
            q = self.prog.resolve(module, fn, func)
            if q:
                if q in self.prog.classes:
                    init = self.prog.classes[q].find("__init__")
                    if init:
                        out.append(init.qual)
                    return out
                if q in self.prog.by_qual:
                    return [q]
        if isinstance(fn, ast.Attribute):
            cls = self.self_class(fn.value, func)
            if cls is not None:
                m = cls.find(fn.attr)
                if m is not None:
                    return [m.qual]
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                c = self.prog.enclosing_class(func) if func else None
                if c:
                    for k in c.mro()[1:]:
                        if fn.attr in k.methods:
                            return [k.methods[fn.attr].qual]
        return out

    def self_class(self, expr, func):
        if isinstance(expr, ast.Name) and func is not None:
            c = self.prog.enclosing_class(func)
            f = func
            while f is not None and f.cls is None:
                f = f.parent
            if c is not None and f is not None and f.params and f.params[0] == expr.id and f.deco_kind() != "static":
                return c
        return None

    # -- attributes ----------------------------------------------------------
    def attr_assigns(self):
        """class qual -> attr -> [(value expr, Func)] for self.attr = value"""
        if self._attr is None:
            res = {}
            for f in self.prog.funcs:
                c = self.prog.enclosing_class(f)
                if c is None:
                    continue
                g = f
                while g is not None and g.cls is None:
                    g = g.parent
                if g is None or not g.params or g.deco_kind() == "static":
                    continue
                me = g.params[0]
                for n in walk_func(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            self._attr_bind(t, n.value, me, c, f, res)
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        self._attr_bind(n.target, n.value, me, c, f, res)
            self._attr = res
        return self._attr

    def _attr_bind(self, t, v, me, c, f, res):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            res.setdefault(c.qual, {}).setdefault(t.attr, []).append((v, f))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self._attr_bind(a, b, me, c, f, res)

    def attr_types(self, cls, attr):
        out = set()
        aa = self.attr_assigns()
        for c in cls.mro():
            for v, f in aa.get(c.qual, {}).get(attr, []):
                out |= self.types(v, f.module, f)
            if attr in c.attrs:
                out |= self.types(c.attrs[attr], c.module, None)
        m = cls.find(attr)
        if m is not None and m.deco_kind() == "property":
            out |= self.ret_types(m)
        return out

    # -- functions ------------------------------------------------------------
    def ret_types(self, func):
        if func.qual in self._ret:
            return self._ret[func.qual]
        key = ("ret", func.qual)
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        for n in walk_func(func.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= self.types(n.value, func.module, func)
        self._busy.discard(key)
        self._ret[func.qual] = out
        return out

    # -- expressions ------------------------------------------------------------
    def types(self, e, module, func):
        key = (id(e), func.qual if func else None)
        if key in self._expr:
            return self._expr[key]
        if key in self._busy or len(self._busy) > 60:
            return set()
        self._busy.add(key)
        try:
            r = self._types(e, module, func)
        finally:
            self._busy.discard(key)
        if not self._busy:
            self._expr[key] = r
        return r

    def _types(self, e, module, func):
        T = lambda x: self.types(x, module, func)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {"set"}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {"dict"}
        if isinstance(e, (ast.List, ast.ListComp)):
            return {"list"}
        if isinstance(e, ast.Tuple):
            return {"tuple"}
        if isinstance(e, ast.Constant):
            v = e.value
            return {"none"} if v is None else {"str"} if isinstance(v, str) else {"num"}
        if isinstance(e, ast.JoinedStr):
            return {"str"}
        if isinstance(e, ast.IfExp):
            return T(e.body) | T(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= T(v)
            return out
        if isinstance(e, ast.NamedExpr):
            return T(e.value)
        if isinstance(e, ast.Lambda):
            return {"func:" + e._func.qual} if hasattr(e, "_func") else set()
        if isinstance(e, ast.BinOp):
            lt, rt = T(e.left), T(e.right)
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                if "set" in lt or "dictview" in lt or ("set" in rt and not isinstance(e.op, ast.Sub)):
                    return {"set"}
            if isinstance(e.op, ast.Add) and ("list" in lt or "list" in rt):
                return {"list"}
            return set()
        if isinstance(e, ast.Name):
            return self._name_types(e, module, func)
        if isinstance(e, ast.Attribute):
            q = self.prog.resolve(module, e, func)
            if q:
                if q in self.prog.classes:
                    return {"type:" + q}
                if q in self.prog.by_qual:
                    return {"func:" + q}
            c = self.self_class(e.value, func)
            out = set()
            if c is not None:
                out |= self.attr_types(c, e.attr)
                m = c.find(e.attr)
                if m is not None and m.deco_kind() != "property":
                    out.add("func:" + m.qual)
            else:
                for t in T(e.value):
                    k = self.prog.classes.get(t)
                    if k is not None:
                        out |= self.attr_types(k, e.attr)
                        m = k.find(e.attr)
                        if m is not None and m.deco_kind() != "property":
                            out.add("func:" + m.qual)
            if e.attr in ATTR_HINTS:
                out |= ATTR_HINTS[e.attr]
            elif e.attr in NAME_HINTS and not out:
                out |= NAME_HINTS[e.attr]
            return out
        if isinstance(e, ast.Subscript):
            bt = T(e.value)
            out = set()
            if "pandas.DataFrame" in bt:
                if isinstance(e.slice, (ast.List, ast.ListComp)):
                    out.add("pandas.DataFrame")
                elif isinstance(e.slice, ast.Constant):
                    out.add("pandas.Series")
                else:
                    out |= {"pandas.DataFrame"}
            # dict display with uniform values (e.g. PARAMETER_SETS)
            q = self.prog.resolve(module, e.value, func) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if q and "." in q:
                mod, name = q.rsplit(".", 1)
                m = self.prog.modules.get(mod)
                sym = m.symbols.get(name) if m else None
                if sym and sym[0] == "var":
                    v = sym[1]
                    vals = []
                    if isinstance(v, ast.Dict):
                        vals = v.values
                    elif isinstance(v, ast.Call):
                        vals = [k.value for k in v.keywords]
                    for x in vals:
                        if "set" in self.types(x, m, None):
                            out.add("set")
            return out
        if isinstance(e, ast.Call):
            return self._call_types(e, module, func)
        if isinstance(e, ast.Starred):
            return T(e.value)
        return set()

    def _name_types(self, e, module, func):
        f = func
        out = set()
        while f is not None:
            b = self.prog.local_bindings(f).get(e.id)
            if b:
                for k in b:
                    if k[0] == "expr":
                        out |= self.types(k[1], f.module, f)
                    elif k[0] == "param":
                        c = self.self_class(e, f)
                        if c is not None:
                            out.add(c.qual)
                        else:
                            out |= self.param_types(f, e.id)
                    elif k[0] == "import":
                        q = self.prog.lookup_dotted(k[1])
                        if q in self.prog.classes:
                            out.add("type:" + q)
                        elif q in self.prog.by_qual:
                            out.add("func:" + q)
                    elif k[0] == "func":
                        out.add("func:" + k[1].qual)
                return out
            f = f.parent
        q = self.prog.resolve_name(module, e.id, func)
        if q:
            if q in self.prog.classes:
                return {"type:" + q}
            if q in self.prog.by_qual:
                return {"func:" + q}
            if "." in q:
                mod, name = q.rsplit(".", 1)
                m = self.prog.modules.get(mod)
                sym = m.symbols.get(name) if m else None
                if sym and sym[0] == "var":
                    return self.types(sym[1], m, None)
        return out

    def param_types(self, func, name):
        key = ("param", func.qual, name)
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        try:
            if self._calls is not None:
                for call, cf, cm in self._calls.get(func.qual, []):
                    a = self.arg_for(call, func, name)
                    if a is not None:
                        out |= self.types(a, cm, cf)
        finally:
            self._busy.discard(key)
        if not out and name in NAME_HINTS:
            out |= NAME_HINTS[name]
        return out

    def arg_for(self, call, func, name):
        for k in call.keywords:
            if k.arg == name:
                return k.value
        ps = func.params
        if name not in ps:
            return None
        i = ps.index(name)
        bound = func.cls is not None and func.deco_kind() != "static"
        if bound:
            explicit_self = False
            if isinstance(call.func, ast.Attribute):
                q = self.prog.resolve(func.module, call.func.value, None) if isinstance(call.func.value, ast.Name) else None
                explicit_self = q is not None and q in self.prog.classes and func.deco_kind() != "class"
            if not explicit_self:
                i -= 1
        if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return call.args[i]
        return None

    def _call_types(self, e, module, func):
        fn = e.func
        out = set()
        q = self.prog.resolve(module, fn, func) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if q:
            if q in ("copy.copy", "copy.deepcopy", "builtins.iter") and e.args:
                return self.types(e.args[0], module, func)
            if q in CTORS:
                return {CTORS[q]} if CTORS[q] else set()
            if q in self.prog.classes:
                return {q}
            if q in self.prog.by_qual:
                return set(self.ret_types(self.prog.by_qual[q]))
            if q.split(".")[0] not in ("bilby", "cli_bilby", "builtins"):
                out.add(q)      # constructor / factory of an external API
        if isinstance(fn, ast.Attribute):
            rt = self.types(fn.value, module, func)
            if fn.attr in SET_METHODS and ("set" in rt or fn.attr != "difference" and "dictview" in rt):
                return {"set"}
            if fn.attr in ("keys", "values", "items") and not e.args:
                return {"dictview"}
            if fn.attr == "copy" and rt:
                return set(rt)
            if "pandas.DataFrame" in rt and fn.attr in (
                    "sample", "copy", "reset_index", "drop", "dropna", "query", "head", "tail", "sort_values",
                    "astype", "fillna", "assign", "rename", "drop_duplicates"):
                return {"pandas.DataFrame"}
            for c in self.callees(e, module, func):
                out |= self.ret_types(self.prog.by_qual[c]) if c in self.prog.by_qual else set()
            sc = self.self_class(fn.value, func)
            if sc is not None:      # dynamic dispatch to overriding methods
                for k in self.prog.subclass_map().get(sc.qual, ()):
                    if fn.attr in k.methods:
                        out |= self.ret_types(k.methods[fn.attr])
            for t in rt:
                k = self.prog.classes.get(t)
                if k is not None:
                    m = k.find(fn.attr)
                    if m is not None:
                        out |= self.ret_types(m)
        elif isinstance(fn, ast.Name) and not q:
            for t in self.types(fn, module, func):
                if t.startswith("func:") and t[5:] in self.prog.by_qual:
                    out |= self.ret_types(self.prog.by_qual[t[5:]])
                elif t.startswith("type:"):
                    out.add(t[5:])
        return out


def infer(prog):
    i = getattr(prog, "_infer", None)
    if i is None:
        i = Infer(prog)
        i.call_index()
        i._ret.clear()
        i._expr.clear()
        prog._infer = i
    return i
