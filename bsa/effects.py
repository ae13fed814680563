"""Which parameters may a function modify?  Alias-and-effect analysis with interprocedural summaries.

A value is (own, inner): the parameters the object itself may be, and the parameters whose contents it may hold.
An origin is (parameter name, level): level 0 the argument object itself, level 1 something reachable from it.
"""
import ast

from .infer import infer

EMPTY = frozenset()
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse",
            "add", "discard", "fill", "put", "resize", "itemset", "setflags", "partition", "appendleft",
            "__setitem__", "__delitem__", "__setattr__", "difference_update", "intersection_update",
            "symmetric_difference_update", "partial_fit"}
INPLACE_KW = {"drop", "dropna", "fillna", "reset_index", "set_index", "rename", "sort_values", "sort_index", "replace",
              "drop_duplicates", "query", "eval", "clip", "mask", "where", "set_axis", "interpolate", "ffill", "bfill"}
VIEW_FN = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "reshape", "ravel", "transpose",
           "swapaxes", "broadcast_to", "ascontiguousarray", "real", "imag", "rollaxis", "moveaxis", "expand_dims", "diagonal"}
VIEW_METH = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "diagonal"}
VIEW_ATTR = {"T", "values", "real", "imag", "flat", "iloc", "loc", "at", "iat", "__dict__"}
CONTAINER_FN = {"list", "tuple", "dict", "sorted", "set", "frozenset", "reversed", "zip", "enumerate", "map", "filter", "iter",
                "OrderedDict", "vars"}
OUT_FIRST = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.put_along_axis",
             "random.shuffle", "numpy.random.shuffle", "builtins.setattr", "builtins.delattr"}
#: attributes that hold plain numbers (in-place operators rebind them)
SCALAR_ATTRS = {"log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor", "information_gain",
                "num_likelihood_evaluations", "nburn", "accepted", "rejected", "duration", "sampling_frequency", "start_time"}
DEEP_TYPES = {"pandas.DataFrame", "pandas.Series", "numpy.array", "numpy.ndarray", "num", "str"}


class Val:
    __slots__ = ("own", "inner", "scalar", "elems")

    def __init__(self, own=EMPTY, inner=EMPTY, scalar=False, elems=None):
        self.own, self.inner, self.scalar, self.elems = own, inner, scalar, elems

    def sub(self):
        s = self.inner | frozenset((p, 1) for p, _ in self.own)
        return Val(s, s)

    def flat(self):
        return self.own | self.inner

    def join(self, o):
        if o is BOTTOM or self is BOTTOM:
            return o if self is BOTTOM else self
        el = None
        if self.elems is not None and o.elems is not None and len(self.elems) == len(o.elems):
            el = [a.join(b) for a, b in zip(self.elems, o.elems)]
        return Val(self.own | o.own, self.inner | o.inner, self.scalar and o.scalar, el)

    def key(self):
        return (self.own, self.inner)


NONE = Val()
BOTTOM = Val()
SCALAR = Val(scalar=True)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.inf = infer(prog)
        self.summary = {}       # qual -> (mutations {(param, level): (node, func, text)}, return Val)
        self.busy = set()

    @staticmethod
    def key(func):
        """getter and setter of a property have the same name"""
        kind = func.deco_kind()
        return func.qual + ("." + kind if kind in ("setter", "deleter") else "")

    def of(self, func):
        k = self.key(func)
        if k in self.summary:
            return self.summary[k]
        if k in self.busy or len(self.busy) > 40:
            return {}, NONE
        self.busy.add(k)
        a = _Analysis(self, func)
        a.run()
        self.busy.discard(k)
        r = (a.mut, a.ret)
        self.summary[k] = r
        return r


class _Analysis:
    def __init__(self, eff, func):
        self.eff, self.prog, self.inf, self.func = eff, eff.prog, eff.inf, func
        self.mut = {}
        self.ret = BOTTOM
        self.env = {}

    def run(self):
        f = self.func
        for p in f.all_params:
            self.env[p] = Val(frozenset([(p, 0)]))
        a = f.node.args
        if a.vararg:
            self.env[a.vararg.arg] = Val(EMPTY, frozenset([(a.vararg.arg, 1)]))
        if a.kwarg:
            self.env[a.kwarg.arg] = Val(EMPTY, frozenset([(a.kwarg.arg, 1)]))
        self.block(f.body)

    # -- statements -----------------------------------------------------------
    @staticmethod
    def lookup(env, k):
        """variable, or field of a variable ((name, attr) keys hold fields assigned on a local object)"""
        if k in env:
            return env[k]
        if isinstance(k, tuple) and k[0] in env:
            return env[k[0]].sub()
        return None

    def join_envs(self, envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        out = {}
        for k in keys:
            r = BOTTOM
            for e in envs:
                v = self.lookup(e, k)
                if v is not None:
                    r = r.join(v)
            out[k] = r
        return out

    def setname(self, name, v):
        self.env[name] = v
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == name]:
            del self.env[k]

    def block(self, body):
        """False when control never falls through"""
        for s in body:
            if not self.stmt(s):
                return False
        return True

    def branch(self, bodies):
        start = self.env
        outs = []
        for b in bodies:
            self.env = dict(start)
            if self.block(b):
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        self.env = self.join_envs(outs)
        return True

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.env.get(t.id, NONE)
                if not self.immutable(t, s, cur):
                    self.mutate(cur, s, "in-place operator on %s" % t.id)
                    if isinstance(s.op, ast.Add):
                        self.env[t.id] = cur.join(Val(EMPTY, v.inner))
            else:
                base = self.ev(t.value)
                self.mutate(base, s, "in-place operator on an element of %s" % ast.unparse(t.value)) \
                    if base.own else None
                cur = self.ev_load(t)
                if not self.immutable(t, s, cur) and not self.is_frame(t.value):
                    self.mutate(Val(cur.own), s, "in-place operator on %s" % ast.unparse(t))
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ret.join(self.ev(s.value))
            return False
        elif isinstance(s, (ast.Raise,)):
            if s.exc is not None:
                self.ev(s.exc)
            return False
        elif isinstance(s, (ast.Continue, ast.Break)):
            return True     # state joins at the loop head: keep it
        elif isinstance(s, ast.If):
            self.ev(s.test)
            yes, no = self.narrow(s.test)
            return self.branch_narrowed(s, yes, no)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            start = dict(self.env)
            for _ in range(2):
                self.assign(s.target, self.iter_elem(s.iter, it), s)
                self.block(s.body)
                self.env = self.join_envs([self.env, start])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            start = dict(self.env)
            for _ in range(2):
                self.block(s.body)
                self.env = self.join_envs([self.env, start])
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            live = self.block(s.body)
            if live:
                live = self.block(s.orelse)
            outs = [dict(self.env)] if live else []
            after = self.join_envs([self.env, start])
            for h in s.handlers:
                self.env = dict(after)
                if h.name:
                    self.env[h.name] = NONE
                if self.block(h.body):
                    outs.append(self.env)
            if outs:
                self.env = self.join_envs(outs)
            if not self.block(s.finalbody):
                return False
            return bool(outs)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            return self.block(s.body)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value), s, "del %s" % ast.unparse(t))
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[s.name] = NONE
            self.closure(s)
        return True

    def branch_narrowed(self, s, yes, no):
        start = self.env
        outs = []
        for body, nar in ((s.body, yes), (s.orelse, no)):
            self.env = dict(start)
            for k in nar:
                if k in self.env:
                    self.env[k] = NONE
            if self.block(body):
                for k in nar:       # the narrowed value is immutable: nothing to lose
                    pass
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        self.env = self.join_envs(outs)
        return True

    def narrow(self, test):
        """names known immutable (None / number / string) in the true / false arm"""
        yes, no = set(), set()
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            (yes if isinstance(test.ops[0], (ast.Is, ast.Eq)) else no).add(test.left.id)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and \
                len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if all(isinstance(t, ast.Name) and t.id in ("str", "int", "float", "bool", "bytes", "Number", "tuple") for t in ts):
                yes.add(test.args[0].id)
        elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            no, yes = self.narrow(test.operand)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for v in test.values:
                yes |= self.narrow(v)[0]
        return yes, no

    def closure(self, node):
        """a nested function sees the enclosing variables; its effects count when it is defined here"""
        f = getattr(node, "_func", None)
        if f is None:
            return
        sub = _Analysis(self.eff, f)
        sub.env = dict(self.env)
        for p in f.all_params:
            sub.env[p] = NONE
        for x in (f.node.args.vararg, f.node.args.kwarg):
            if x:
                sub.env[x.arg] = NONE
        sub.block(f.body)
        for k, v in sub.mut.items():
            self.mut.setdefault(k, v)

    def is_frame(self, e):
        t = self.inf.types(e, self.func.module, self.func)
        return bool(t & {"pandas.DataFrame"})

    def immutable(self, t, s, cur):
        """in-place operators on numbers and strings rebind; arrays and lists are modified"""
        if cur.scalar or isinstance(t, ast.Attribute) and t.attr in SCALAR_ATTRS:
            return True
        ty = self.inf.types(t, self.func.module, self.func) if not isinstance(t, ast.Name) or t.id not in self.func.params else set()
        if ty and ty <= {"num", "str", "none"}:
            return True
        if isinstance(s.value, (ast.JoinedStr,)) or isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            return True
        vt = self.inf.types(s.value, self.func.module, self.func)
        if vt == {"str"}:
            return True
        if isinstance(t, ast.Name) and t.id in self.func.all_params:
            a = self.func.node.args
            allp = a.posonlyargs + a.args
            for x, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
                if x.arg == t.id and isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and \
                        not isinstance(d.value, bool):
                    return True
        return False

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) \
                    and t in s.targets:
                for x, e in zip(t.elts, s.value.elts):
                    self.assign(x, self.ev(e), s)
                return
            if v.elems is not None and len(v.elems) == len(t.elts):
                for x, y in zip(t.elts, v.elems):
                    self.assign(x, y, s)
                return
            for x in t.elts:
                self.assign(x, v.sub(), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            base = self.ev(t.value)
            self.mutate(base, s, "assignment to %s" % ast.unparse(t))
            if isinstance(t, ast.Subscript):
                self.ev(t.slice)
            elif isinstance(t.value, ast.Name) and t.value.id in self.env:
                self.env[(t.value.id, t.attr)] = v
            if isinstance(t.value, ast.Name) and t.value.id in self.env and (v.own or v.inner) and not self.numeric_store(t):
                old = self.env[t.value.id]
                if not isinstance(t.slice if isinstance(t, ast.Subscript) else None, ast.Slice):
                    self.env[t.value.id] = Val(old.own, old.inner | v.own | v.inner)

    def numeric_store(self, t):
        return isinstance(t, ast.Attribute) or self.is_frame(t.value)

    def mutate(self, v, node, text):
        for o in v.own:
            if o not in self.mut:
                self.mut[o] = (node, self.func, text)

    # -- expressions -------------------------------------------------------------
    def ev_load(self, t):
        if isinstance(t, ast.Attribute):
            return self.attr(t)
        return self.ev(t.value).sub()

    def attr(self, e):
        if isinstance(e.value, ast.Name) and (e.value.id, e.attr) in self.env:
            return self.env[(e.value.id, e.attr)]
        b = self.ev(e.value)
        if e.attr in VIEW_ATTR:
            return b
        props = []
        sc = self.inf.self_class(e.value, self.func)
        ks = [sc] if sc is not None else [self.prog.classes[t] for t in sorted(self.inf.types(e.value, self.func.module, self.func))
                                          if t in self.prog.classes]
        for k in ks:
            m = k.find(e.attr)
            if m is None or m.deco_kind() != "property":
                return b.sub()
            props.append(m)
        if props:
            r = BOTTOM
            for m in props:
                mut, ret = self.eff.of(m)
                me = m.params[0] if m.params else None
                r = r.join(self.substitute(ret, {me: b}))
            return r
        return b.sub()

    def iter_elem(self, e, v):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys",):
            return NONE
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range", "len"):
            return SCALAR
        return v.sub()

    def maskish(self, e, depth=0):
        if depth > 4:
            return False
        if isinstance(e, (ast.Compare,)):
            return not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return True
        if isinstance(e, ast.Call):
            q = self.prog.resolve(self.func.module, e.func, self.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            return bool(q) and q.startswith("numpy.")
        if isinstance(e, ast.Subscript):
            return self.maskish(e.value, depth + 1)
        if isinstance(e, ast.Attribute):
            return e.attr.endswith("mask")
        if isinstance(e, ast.Name):
            b = self.prog.local_bindings(self.func).get(e.id)
            return bool(b) and all(k[0] == "expr" and self.maskish(k[1], depth + 1) for k in b)
        return False

    def comp(self, gens, elts):
        saved = dict(self.env)
        for g in gens:
            it = self.ev(g.iter)
            self.assign(g.target, self.iter_elem(g.iter, it), g)
            for c in g.ifs:
                self.ev(c)
        r = NONE
        for e in elts:
            v = self.ev(e)
            r = r.join(Val(EMPTY, v.own | v.inner))
        self.env = saved
        return r

    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return SCALAR
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NONE)
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            self.ev(e.slice)
            b = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                return b if not isinstance(e.value, ast.List) else Val(EMPTY, b.inner)
            if b.elems is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    -len(b.elems) <= e.slice.value < len(b.elems):
                return b.elems[e.slice.value]
            if self.maskish(e.slice):
                return NONE         # boolean / integer-array indexing copies
            if self.is_frame(e.value):
                # df[key] may be a view; treat columns as contents
                return b.sub()
            return b.sub()
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            vs = [self.ev(x) for x in e.elts]
            inner = EMPTY
            for v in vs:
                inner = inner | v.flat()
            return Val(EMPTY, inner, elems=vs)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            r = NONE
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                r = r.join(Val(EMPTY, v.inner if isinstance(x, ast.Starred) else v.own | v.inner))
            return r
        if isinstance(e, ast.Dict):
            r = NONE
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    r = r.join(Val(EMPTY, v.sub().own))
                else:
                    r = r.join(Val(EMPTY, v.own | v.inner))
            return r
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(e.generators, [e.elt])
        if isinstance(e, ast.DictComp):
            return self.comp(e.generators, [e.key, e.value])
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body).join(self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            r = NONE
            for v in e.values:
                r = r.join(self.ev(v))
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e)
            return v
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return NONE
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, ast.Await):
            return self.ev(e.value)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.ret = self.ret.join(Val(EMPTY, self.ev(e.value).own))
            return NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NONE

    def call(self, e):
        fn = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        q = self.prog.resolve(self.func.module, fn, self.func) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else None
        for k in e.keywords:
            if k.arg == "out":
                self.mutate(kws["out"], e, "out= argument")
        if q in OUT_FIRST or (q or "").endswith("random.rng.shuffle"):
            if args:
                self.mutate(args[0], e, "%s(...)" % q)
            return NONE
        if q and q.startswith("numpy.") and q.endswith(".at") and args:
            self.mutate(args[0], e, q)
        # repository callees
        callees = self.callees(e, q)
        if callees:
            r = BOTTOM
            for c, bound in callees:
                r = r.join(self.apply(c, bound, e, args, kws, recv, q))
            return r
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if q in ("copy.deepcopy",):
            return NONE
        if q == "copy.copy" and args:
            return Val(EMPTY, args[0].sub().own)
        if q and q.split(".")[0] in ("numpy", "scipy", "math", "pandas"):
            if name in VIEW_FN and args:
                return args[0]
            return NONE
        if q and q.startswith("builtins.") or isinstance(fn, ast.Name) and q is None or \
                (q or "").startswith("collections."):
            if name in ("getattr",) and args:
                return args[0].sub()
            if name in ("next", "min", "max") and args:
                return args[0].sub() if len(args) == 1 or name == "next" else NONE
            if name in CONTAINER_FN:
                r = NONE
                for a in args:
                    r = r.join(Val(EMPTY, a.sub().own))
                for k, v in kws.items():
                    r = r.join(Val(EMPTY, v.own if k else v.sub().own))
                return r
            return NONE
        if isinstance(fn, ast.Attribute):
            if name in MUTATORS:
                self.mutate(recv, e, "%s()" % ast.unparse(fn))
                if name in ("pop", "setdefault", "popitem"):
                    return recv.sub()
                if name in ("append", "add", "insert", "update", "extend") and isinstance(fn.value, ast.Name) and \
                        fn.value.id in self.env:
                    old = self.env[fn.value.id]
                    new = EMPTY
                    for a in args:
                        new = new | (a.own | a.inner if name in ("append", "add", "insert") else a.sub().own)
                    self.env[fn.value.id] = Val(old.own, old.inner | new)
                return NONE
            if name in INPLACE_KW:
                for k in e.keywords:
                    if k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True:
                        self.mutate(recv, e, "%s(inplace=True)" % ast.unparse(fn))
            if name == "copy":
                deep = any(k.arg == "deep" and getattr(k.value, "value", None) is True for k in e.keywords)
                ty = self.inf.types(fn.value, self.func.module, self.func)
                if deep or (ty and ty <= DEEP_TYPES):
                    return NONE
                return Val(EMPTY, recv.sub().own)
            if name in VIEW_METH:
                return recv
            if name in ("items", "values"):
                return Val(EMPTY, recv.sub().own)
            if name == "get":
                return recv.sub()
            if name == "__getitem__":
                return recv.sub()
        return NONE

    def callees(self, e, q):
        """[(Func, bound?)]"""
        out = []
        fn = e.func
        seen = set()

        def add(f, bound):
            if f.qual not in seen:
                seen.add(f.qual)
                out.append((f, bound))
        if q and q in self.prog.classes:
            init = self.prog.classes[q].find("__init__")
            if init is not None:
                add(init, "new")
            return out
        if q and q in self.prog.by_qual:
            f = self.prog.by_qual[q]
            add(f, "explicit" if f.cls is not None and f.deco_kind() != "static" else None)
            return out
        for c in self.inf.callees(e, self.func.module, self.func):
            f = self.prog.by_qual.get(c)
            if f is not None:
                add(f, "method" if f.deco_kind() != "static" else None)
        if isinstance(fn, ast.Attribute):
            sc = self.inf.self_class(fn.value, self.func)
            if sc is not None:
                for k in self.prog.subclass_map().get(sc.qual, ()):
                    if fn.attr in k.methods:
                        add(k.methods[fn.attr], "method")
            for t in sorted(self.inf.types(fn.value, self.func.module, self.func)):
                k = self.prog.classes.get(t)
                if k is not None:
                    m = k.find(fn.attr)
                    if m is not None and m.deco_kind() != "property":
                        add(m, "method" if m.deco_kind() != "static" else None)
        return out

    def apply(self, c, bound, e, args, kws, recv, q):
        mut, ret = self.eff.of(c)
        binding = {}
        params = c.params
        pos = list(args)
        if bound == "new":
            pos = [NONE] + pos
        elif bound == "method":
            pos = [recv or NONE] + pos
        star = any(isinstance(a, ast.Starred) for a in e.args)
        if not star:
            for p, v in zip(params, pos):
                binding[p] = v
            extra = pos[len(params):]
            va = c.node.args.vararg
            if va and extra:
                r = NONE
                for x in extra:
                    r = r.join(x)
                binding[va.arg] = Val(EMPTY, r.own | r.inner)
        elif bound in ("new", "method"):
            if params:
                binding[params[0]] = pos[0]
        for k, v in kws.items():
            if k is not None:
                binding[k] = v
        for (p, lvl), (node, f, text) in list(mut.items()):
            v = binding.get(p)
            if v is None:
                continue
            tgt = v if lvl == 0 else v.sub()
            for o in tgt.own:
                if o not in self.mut:
                    self.mut[o] = (e, self.func, "%s: %s" % (c.qual, text))
        if bound == "new":
            r = NONE
            if any(b in ("dict", "list") for b in self.prog.classes[q].all_base_names()):
                for a in args:
                    r = r.join(Val(EMPTY, a.sub().own))
            return r
        return self.substitute(ret, binding)

    def substitute(self, ret, binding):
        own = inner = EMPTY
        for p, lvl in ret.own:
            v = binding.get(p)
            if v is not None:
                w = v if lvl == 0 else v.sub()
                own, inner = own | w.own, inner | w.inner
        for p, lvl in ret.inner:
            v = binding.get(p)
            if v is not None:
                inner = inner | (v.flat() if lvl == 0 else v.sub().own)
        el = [self.substitute(x, binding) for x in ret.elems] if ret.elems is not None else None
        return Val(own, inner, ret.scalar and ret is not BOTTOM, el)


def effects(prog):
    e = getattr(prog, "_effects", None)
    if e is None:
        e = prog._effects = Effects(prog)
    return e
