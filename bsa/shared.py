"""Alias-and-effect analysis whose sources are objects shared between instances and calls.

Shared objects are the mutable values of class attributes, of module-level names and of default arguments.  They are
origins like the parameters in effects.py; a field summary carries them from the method that stores one to the methods
that use the field.
"""
import ast

from .effects import Effects, _Analysis, Val, EMPTY, NONE, SCALAR

MAKERS = {"builtins.dict", "builtins.list", "builtins.set", "collections.OrderedDict", "collections.defaultdict",
          "collections.deque", "numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.arange", "numpy.linspace",
          "pandas.DataFrame", "copy.copy", "copy.deepcopy"}
#: attributes that hold numbers or text
NUMBERS = {"minimum", "maximum", "name", "latex_label", "unit", "boundary"}
#: collaborators an object is documented to work on; they are shared on purpose
LIVE = {"likelihood", "priors", "parameters", "waveform_generator", "interferometers", "dist", "result", "proposal_cycle",
        "hyper_prior", "sampling_prior", "chain", "sample_dict", "self", "loglike", "pool"}


def is_shared(o):
    return o[0].startswith("shared:")


class Shared(Effects):
    def __init__(self, prog):
        super().__init__(prog)
        self.fields = {}         # (class qual, attr) -> Val of shared origins
        self.sources = {}        # origin name -> (kind, text)
        self.entries = {}        # origin -> keys of its mutable entries, where known
        self.uses = 0
        self._assigned = {}

    def mutable(self, e, module):
        if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            q = self.prog.resolve(module, e.func, None)
            if q in MAKERS or q in self.prog.classes and not self.exceptionlike(q):
                return True
            return isinstance(e.func, ast.Attribute) and e.func.attr == "copy"
        return False

    def exceptionlike(self, q):
        return any(b.startswith("builtins.") and b.endswith(("Error", "Exception")) for b in self.prog.classes[q].all_base_names())

    def nested(self, e, module):
        """None when the value may hold mutable values anywhere, else the keys of those it holds"""
        pairs = None
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            pairs = [(k.value, v) for k, v in zip(e.keys, e.values)]
        elif isinstance(e, ast.Call) and not e.args and all(k.arg for k in e.keywords):
            pairs = [(k.arg, k.value) for k in e.keywords]
        if pairs is None:
            return None if any(self.mutable(x, module) for x in ast.walk(e) if x is not e and isinstance(x, ast.expr)) else set()
        return {k for k, v in pairs if any(self.mutable(x, module) for x in ast.walk(v) if isinstance(x, ast.expr))}

    def source(self, kind, name, text, entries=None):
        if entries is not None:
            self.entries["shared:" + kind + ":" + name] = entries
        k = "shared:" + kind + ":" + name
        self.sources.setdefault(k, (kind, text))
        return frozenset([(k, 0)])

    def of(self, func):
        k = self.key(func)
        if k in self.summary:
            return self.summary[k]
        if k in self.busy or len(self.busy) > 40:
            return {}, NONE
        self.busy.add(k)
        a = _SharedAnalysis(self, func)
        a.run()
        a.store_fields()
        self.busy.discard(k)
        r = (a.mut, a.ret)
        self.summary[k] = r
        return r

    def assigned(self, cls):
        """attributes that constructing an instance of the class always sets"""
        if cls.qual not in self._assigned:
            self._assigned[cls.qual] = set()
            out = set()
            init = cls.find("__init__")
            if init is not None:
                out = self.always(init, cls)
            self._assigned[cls.qual] = out
        return self._assigned[cls.qual]

    def always(self, f, cls, depth=0):
        out = set()
        me = f.params[0] if f.params else None

        def block(body):
            got = set()
            for s in body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                                got.add(x.attr)
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Attribute) and \
                        isinstance(s.target.value, ast.Name) and s.target.value.id == me:
                    got.add(s.target.attr)
                elif isinstance(s, ast.If):
                    a, b = block(s.body), block(s.orelse)
                    ends = lambda bd: bool(bd) and isinstance(bd[-1], (ast.Raise, ast.Return))     # noqa: E731
                    if ends(s.body) and isinstance(s.body[-1], ast.Raise):
                        got |= b
                    elif ends(s.orelse) and isinstance(s.orelse[-1], ast.Raise):
                        got |= a
                    else:
                        got |= a & b
                elif isinstance(s, ast.With):
                    got |= block(s.body)
                elif isinstance(s, ast.Try):
                    got |= block(s.finalbody)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and depth < 6:
                    fn = s.value.func
                    if isinstance(fn, ast.Attribute) and fn.attr == "__init__":
                        b = fn.value
                        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and f.cls is not None:
                            for k in f.cls.mro()[1:]:
                                if "__init__" in k.methods:
                                    got |= self.always(k.methods["__init__"], cls, depth + 1)
                                    break
                        else:
                            q = self.prog.resolve(f.module, b, f) if isinstance(b, (ast.Name, ast.Attribute)) else None
                            k = self.prog.classes.get(q)
                            if k is not None and k.find("__init__") is not None:
                                got |= self.always(k.find("__init__"), cls, depth + 1)
                    elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                        m = cls.find(fn.attr)
                        if m is not None and m is not f:
                            got |= self.always(m, cls, depth + 1)
            return got
        out = block(f.node.body)
        # a property setter that stores the value in a private field
        return out

    def class_value(self, cls, attr, exact=False):
        """shared object that attribute `attr` of the class (or of an instance when not exact) is, or None"""
        hit = cls.find_attr(attr)
        if hit is None:
            return None
        e, owner = hit
        if not self.mutable(e, owner.module):
            return None
        if not exact and attr in self.assigned(cls):
            return None
        if cls.find(attr) is not None:
            return None
        return self.source("class", owner.qual + "." + attr, "class attribute %s.%s" % (owner.name, attr), self.nested(e, owner.module))

    def module_value(self, q):
        if q is None or "." not in q:
            return None
        mod, _, name = q.rpartition(".")
        m = self.prog.modules.get(mod)
        if m is None:
            return None
        s = m.symbols.get(name)
        if s is None or s[0] != "var" or s[1] is None or not self.mutable(s[1], m):
            return None
        return self.source("module", q, "module-level object %s" % q, self.nested(s[1], m))


class _SharedAnalysis(_Analysis):
    def run(self):
        f = self.func
        a = f.node.args
        allp = a.posonlyargs + a.args
        pairs = list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p in f.all_params:
            self.env[p] = Val(frozenset([(p, 0)]))
        for x, d in pairs:
            o = None
            if self.eff.mutable(d, f.module):
                o = self.eff.source("default", "%s(%s)" % (f.qual, x.arg), "default value of argument %r of %s" % (x.arg, f.qual))
            elif isinstance(d, (ast.Name, ast.Attribute)):
                o = self.eff.module_value(self.prog.resolve(f.module, d, f.parent))
            if o:
                self.env[x.arg] = Val(frozenset([(x.arg, 0)]) | o)
        if a.vararg:
            self.env[a.vararg.arg] = Val(EMPTY, frozenset([(a.vararg.arg, 1)]))
        if a.kwarg:
            self.env[a.kwarg.arg] = Val(EMPTY, frozenset([(a.kwarg.arg, 1)]))
        if f.cls is not None and f.parent is None and (f.name == "__init__" or f.deco_kind() == "setter"):
            for p in f.params[1:]:
                if p not in LIVE and p not in NUMBERS:
                    o = self.eff.source("arg", "%s(%s)" % (f.qual, p), "argument %r of %s" % (p, f.qual))
                    self.env[p] = Val(self.env[p].own | o)
        self.exits = []
        self.block(f.body)

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            # an argument that is a number is rebound by this; what a constructor does to arrays is decided by M01
            cur = self.env.get(s.target.id, NONE)
            if any(o[0].startswith("shared:arg:") for o in cur.own):
                self.env[s.target.id] = Val(frozenset(o for o in cur.own if not o[0].startswith("shared:arg:")), cur.inner,
                                            cur.scalar, cur.elems)
        r = super().stmt(s)
        if isinstance(s, ast.Return):
            self.exits.append(dict(self.env))
        return r

    def store_fields(self):
        f = self.func
        cls = self.prog.enclosing_class(f)
        if cls is None or not f.params or f.cls is None:
            return
        me = f.params[0]
        for env in self.exits + [self.env]:
            for k, v in env.items():
                if isinstance(k, tuple) and k[0] == me:
                    own = frozenset(o for o in v.own if is_shared(o))
                    inner = frozenset(o for o in v.inner if is_shared(o))
                    if own or inner:
                        old = self.eff.fields.get((cls.qual, k[1]), NONE)
                        self.eff.fields[(cls.qual, k[1])] = Val(old.own | own, old.inner | inner)

    def closure(self, node):
        f = getattr(node, "_func", None)
        if f is None:
            return
        sub = _SharedAnalysis(self.eff, f)
        sub.exits = []
        sub.env = dict(self.env)
        for p in f.all_params:
            sub.env[p] = NONE
        for x in (f.node.args.vararg, f.node.args.kwarg):
            if x:
                sub.env[x.arg] = NONE
        sub.block(f.body)
        for k, v in sub.mut.items():
            self.mut.setdefault(k, v)

    def ev(self, e):
        if isinstance(e, ast.Name) and e.id not in self.env:
            o = self.eff.module_value(self.prog.resolve_name(self.func.module, e.id, self.func))
            if o:
                self.eff.uses += 1
                return Val(o)
            return NONE
        return super().ev(e)

    def attr(self, e):
        if e.attr in NUMBERS:
            return SCALAR
        if isinstance(e.value, ast.Name) and (e.value.id, e.attr) in self.env:
            return self.env[(e.value.id, e.attr)]
        q = self.prog.resolve(self.func.module, e, self.func)
        o = self.eff.module_value(q)
        if o is None and q and q.rpartition(".")[0] in self.prog.classes:
            o = self.eff.class_value(self.prog.classes[q.rpartition(".")[0]], e.attr, exact=True)
        if o:
            self.eff.uses += 1
            return Val(o)
        r = super().attr(e)
        ks = []
        sc = self.inf.self_class(e.value, self.func)
        isclass = False
        if sc is not None:
            f = self.func
            while f is not None and f.cls is None:
                f = f.parent
            isclass = f is not None and f.deco_kind() == "class"
            ks = [sc] + [k for k in self.prog.subclass_map().get(sc.qual, ()) if k is not sc]
        elif isinstance(e.value, ast.Attribute) and e.value.attr == "__class__" or \
                isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id in ("type", "super"):
            sc = self.prog.enclosing_class(self.func)
            isclass = True
            ks = [sc] if sc is not None else []
        else:
            for t in sorted(self.inf.types(e.value, self.func.module, self.func)):
                if t in self.prog.classes:
                    ks.append(self.prog.classes[t])
        for k in ks:
            o = self.eff.class_value(k, e.attr, exact=isclass)
            if o:
                self.eff.uses += 1
                r = r.join(Val(o)) if r is not NONE else Val(o)
            for c in k.mro():
                v = self.eff.fields.get((c.qual, e.attr))
                if v is not None:
                    self.eff.uses += 1
                    r = r.join(v)
        return r

    def substitute(self, ret, binding):
        r = super().substitute(ret, binding)
        own = frozenset(o for o in ret.own if is_shared(o))
        inner = frozenset(o for o in ret.inner if is_shared(o))
        return Val(r.own | own, r.inner | inner, r.scalar, r.elems) if own or inner else r


def shared(prog):
    e = getattr(prog, "_shared", None)
    if e is None:
        e = Shared(prog)
        for n in range(3):
            before = dict((k, (v.own, v.inner)) for k, v in e.fields.items())
            e.summary = {}
            for f in prog.funcs:
                if f.parent is None:
                    e.of(f)
            if n and before == dict((k, (v.own, v.inner)) for k, v in e.fields.items()):
                break
        prog._shared = e
    return e
