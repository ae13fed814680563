"""A small abstract interpreter for Python functions, parameterised by a numeric domain.

It walks the syntax tree once per call (both arms of undecided branches, loop bodies twice), inlines repository
callees to a bounded depth and gives up (TOP, which suppresses every report) on anything it does not understand.
No repository code is executed.
"""
import ast
import builtins


MAX_DEPTH = 7


class _Top:
    def __repr__(self):
        return "TOP"


TOP = _Top()


class Bottom:
    """uninitialised / polymorphic storage (np.empty, unset)"""
    def __repr__(self):
        return "BOT"


BOT = Bottom()


class K:
    """known Python constant: str, None, bool or number"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(("K", self.v))

    def __repr__(self):
        return "K(%r)" % (self.v,)


class Str:
    """unknown string"""
    def __eq__(self, o):
        return isinstance(o, Str)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Str"


class Bool:
    """unknown truth value / mask array"""
    def __eq__(self, o):
        return isinstance(o, Bool)

    def __hash__(self):
        return 11

    def __repr__(self):
        return "Bool"


class Seq:
    """tuple/list with known elements (elems) or homogeneous (elem)"""
    def __init__(self, elems=None, elem=None):
        self.elems, self.elem = elems, elem

    def any(self, dom):
        if self.elems is not None:
            r = BOT
            for e in self.elems:
                r = dom.join(r, e)
            return r if self.elems else TOP
        return self.elem

    def __repr__(self):
        return "Seq(%r)" % (self.elems if self.elems is not None else self.elem)


class Dct:
    """dictionary; items known by constant key, `table` gives declared types of the other keys"""
    def __init__(self, items=None, table=None, other=TOP, checked=False):
        self.items = dict(items or {})
        self.table = table
        self.other = other
        self.checked = checked      # stores are obligations against the table

    def copy(self):
        return Dct(self.items, self.table, self.other, self.checked)

    def get(self, k):
        if k in self.items:
            return self.items[k]
        if self.table is not None:
            r = self.table(k)
            if r is not None:
                return r
        return self.other

    def __repr__(self):
        return "Dct(%r)" % (self.items,)


_oid = [0]


class Obj:
    """instance of a repository class (or None) with declared attributes"""
    def __init__(self, cls=None, declared=None, table=None, label=None):
        _oid[0] += 1
        self.oid = _oid[0]
        self.cls, self.declared, self.table, self.label = cls, dict(declared or {}), table, label

    def __repr__(self):
        return "Obj(%s)" % (self.cls.name if self.cls else self.label)


class Fn:
    def __init__(self, func, bound=None, env=None):
        self.func, self.bound, self.env = func, bound, env


class ClsV:
    def __init__(self, cls):
        self.cls = cls


class Ext:
    """external or module-level dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class Meth:
    """attribute of a non-object value awaiting a call"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Env:
    __slots__ = ("vars", "heap", "func", "module", "rets", "depth", "cls", "loop", "glob")

    def __init__(self, func, module, depth, cls=None):
        self.vars, self.heap = {}, {}
        self.func, self.module, self.depth, self.cls = func, module, depth, cls
        self.rets = []
        self.loop = []

    def fork(self):
        e = Env(self.func, self.module, self.depth, self.cls)
        e.vars, e.heap = dict(self.vars), dict(self.heap)
        e.rets, e.loop = self.rets, self.loop
        return e


class Interp:
    def __init__(self, prog, dom, hooks):
        self.prog, self.dom, self.hooks = prog, dom, hooks
        hooks.interp = self
        self.stack = []
        self.steps = 0
        self.max_steps = 400000
        self.analysed = set()

    # ---------------------------------------------------------------- calls
    def call_func(self, func, args, kwargs, env=None, self_val=None, closure=None):
        """inline one repository function; returns the join of its returns (heap effects applied to env)"""
        depth = env.depth + 1 if env is not None else 0
        if depth > MAX_DEPTH or len([f for f in self.stack if f is func]) >= 1:
            return TOP
        self.steps += 1
        self.analysed.add(func.qual)
        e = Env(func, func.module, depth, self.prog.enclosing_class(func))
        if env is not None:
            e.heap = env.heap if env is not None else {}
        if closure is not None:
            for k, v in closure.vars.items():
                e.vars.setdefault(k, v)
        self.bind(func, args, kwargs, e, self_val)
        self.stack.append(func)
        try:
            fl = self.block(func.body, e)
        finally:
            self.stack.pop()
        # heap effects of the fall-through / returning paths
        heaps = [h for _, _, h in e.rets]
        if fl:
            heaps.append(e.heap)
        if env is not None and heaps:
            env.heap = self.join_heaps(heaps)
        vals = [(v, n) for v, n, _ in e.rets]
        if fl and not (isinstance(func.node, ast.Lambda)):
            vals.append((K(None), func.node))
        self.last_returns = vals
        r = BOT
        for v, _ in vals:
            r = self.dom.join(r, v)
        return TOP if r is BOT else r

    def bind(self, func, args, kwargs, e, self_val):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        pos = list(args)
        if self_val is not None:
            pos = [self_val] + pos
        star = False
        if any(isinstance(p, tuple) for p in pos):      # ('*', seq)
            flat = []
            for p in pos:
                if isinstance(p, tuple):
                    s = p[1]
                    if isinstance(s, Seq) and s.elems is not None:
                        flat.extend(s.elems)
                    else:
                        star = True
                        break
                else:
                    flat.append(p)
            pos = flat
        for i, n in enumerate(names):
            if i < len(pos):
                e.vars[n] = pos[i]
            elif n in kwargs:
                e.vars[n] = kwargs.pop(n)
            else:
                d = self.default_for(a, n, e) if not star else None
                if isinstance(star_kw, Dct) and (n in star_kw.items or star_kw.table is not None):
                    e.vars[n] = star_kw.get(n)
                elif star_kw is not None and not isinstance(star_kw, Dct):
                    e.vars[n] = TOP
                else:
                    e.vars[n] = TOP if d is None else d
                h = self.hooks.param(func, n)
                if h is not None and (e.vars[n] is TOP):
                    e.vars[n] = h
        if a.vararg:
            e.vars[a.vararg.arg] = Seq(elems=pos[len(names):]) if not star else TOP
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                e.vars[x.arg] = kwargs.pop(x.arg)
            else:
                d = self.default_for(a, x.arg, e)
                e.vars[x.arg] = TOP if d is None else d
        if a.kwarg:
            base = star_kw.copy() if isinstance(star_kw, Dct) else Dct(other=TOP)
            for n in names:
                base.items.pop(n, None)
            for k, v in kwargs.items():
                base.items[k] = v
            e.vars[a.kwarg.arg] = base

    def default_for(self, a, name, e):
        allp = a.posonlyargs + a.args
        nd = len(a.defaults)
        for x, d in zip(allp[len(allp) - nd:], a.defaults):
            if x.arg == name:
                return self.eval(d, Env(None, e.module, e.depth))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name and d is not None:
                return self.eval(d, Env(None, e.module, e.depth))
        return None

    def instantiate(self, cls, args, kwargs, env=None, obj=None):
        env = env or Env(None, cls.module, 0)
        o = obj or Obj(cls)
        init = cls.find("__init__")
        if init is not None:
            self.call_func(init, args, kwargs, env, self_val=o)
        return o

    # ---------------------------------------------------------------- joins
    def join_heaps(self, heaps):
        out = dict(heaps[0])
        for h in heaps[1:]:
            for k in set(out) | set(h):
                if k in out and k in h:
                    out[k] = self.dom.join(out[k], h[k])
                elif k in h:
                    out[k] = h[k]
        return out

    def join_env(self, env, a, b):
        """a, b: forks (None when the path ended)"""
        live = [x for x in (a, b) if x is not None]
        if not live:
            return False
        if len(live) == 1:
            env.vars, env.heap = live[0].vars, live[0].heap
            return True
        v = {}
        for k in set(a.vars) | set(b.vars):
            if k in a.vars and k in b.vars:
                x, y = a.vars[k], b.vars[k]
                v[k] = x if x is y else self.dom.join(x, y)
            else:
                v[k] = a.vars.get(k, b.vars.get(k))
        env.vars = v
        env.heap = self.join_heaps([a.heap, b.heap]) if a.heap is not b.heap else a.heap
        return True

    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps:
                return False
            if not self.stmt(s, env):
                return False
        return True

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return True
        return m(s, env)

    def s_Expr(self, s, env):
        self.eval(s.value, env)
        return True

    def s_Return(self, s, env):
        v = self.eval(s.value, env) if s.value is not None else K(None)
        if isinstance(v, tuple):
            v = TOP
        self.hooks.on_return(env, s, v)
        env.rets.append((v, s, dict(env.heap)))
        return False

    def s_Raise(self, s, env):
        return False

    def s_Pass(self, s, env):
        return True

    def s_Assert(self, s, env):
        self.eval(s.test, env)
        return True

    def s_Delete(self, s, env):
        return True

    def s_Global(self, s, env):
        return True

    def s_Import(self, s, env):
        for local, tgt in env.module.import_bindings(s):
            env.vars[local] = self.dotted_value(tgt)
        return True

    def s_ImportFrom(self, s, env):
        for local, tgt in env.module.import_bindings(s):
            if local != "*":
                env.vars[local] = self.dotted_value(self.prog.lookup_dotted(tgt))
        return True

    def s_FunctionDef(self, s, env):
        env.vars[s.name] = Fn(s._func, env=env)
        return True

    def s_ClassDef(self, s, env):
        env.vars[s.name] = TOP
        return True

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return True

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env, s)
        return True

    def s_AugAssign(self, s, env):
        cur = self.eval(_as_load(s.target), env)
        v = self.eval(s.value, env)
        if isinstance(cur, Seq) and isinstance(s.op, ast.Add):
            r = self.seq_concat(cur, v)
        else:
            r = self.binop(s.op, cur, v, s, env)
        self.assign(s.target, r, env, s)
        return True

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
            self.hooks.on_name_store(env, t, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            parts = self.unpack(v, n, t)
            for x, p in zip(t.elts, parts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, TOP, env, node)
                else:
                    self.assign(x, p, env, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.set_attr(o, t.attr, v, env, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, env)
            key = self.eval(t.slice, env) if not isinstance(t.slice, ast.Slice) else BOT
            self.set_item(t, base, key, v, env, node)

    def unpack(self, v, n, t):
        if isinstance(v, Seq):
            if v.elems is not None and len(v.elems) == n and not any(isinstance(x, ast.Starred) for x in t.elts):
                return list(v.elems)
            if v.elems is not None:
                return [TOP] * n
            return [v.elem] * n
        if isinstance(v, (K, Str)) or v is TOP or v is BOT:
            return [TOP] * n
        r = self.hooks.unpack(v, n)
        if r is not None:
            return r
        if self.dom.is_num(v):
            return [self.dom.element(v)] * n
        return [TOP] * n

    def set_attr(self, o, name, v, env, node):
        if isinstance(o, Obj):
            if self.hooks.on_attr_store(env, o, name, v, node):
                return
            if o.cls is not None:
                st = o.cls.find_setter(name)
                if st is not None:
                    self.call_func(st, [v], {}, env, self_val=o)
                    return
            env.heap[(o.oid, name)] = v

    def set_item(self, t, base, key, v, env, node):
        if isinstance(base, Dct):
            self.hooks.on_key_store(env, base, key, v, node)
            nd = base.copy()
            if isinstance(key, K):
                nd.items[key.v] = v
            else:
                # unknown key: forget overwritten precision
                nd.items = {k: self.dom.join(x, v) for k, x in nd.items.items()}
                if nd.table is None:
                    nd.other = v if nd.other is BOT or (nd.other is TOP and not nd.items) else self.dom.join(nd.other, v)
            self.rebind(t.value, nd, env)
            return
        if isinstance(base, Obj):
            self.hooks.on_obj_key_store(env, base, key, v, node)
            if isinstance(key, K):
                env.heap[(base.oid, ("item", key.v))] = v
            return
        if isinstance(base, Seq):
            if base.elems is not None and isinstance(key, K) and isinstance(key.v, int) and \
                    -len(base.elems) <= key.v < len(base.elems):
                e = list(base.elems)
                e[key.v] = v
                self.rebind(t.value, Seq(elems=e), env)
            else:
                self.rebind(t.value, Seq(elem=self.dom.join(base.any(self.dom), v)), env)
            return
        if base is BOT:
            self.rebind(t.value, v, env)
            return
        if self.dom.is_num(base) or isinstance(base, (K, Bool)):
            self.rebind(t.value, self.dom.weak_update(base, v, node), env)

    def rebind(self, target, v, env):
        if isinstance(target, ast.Name):
            if target.id in env.vars:
                env.vars[target.id] = v
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value, env)
            if isinstance(o, Obj):
                env.heap[(o.oid, target.attr)] = v
        elif isinstance(target, ast.Subscript):
            b = self.eval(target.value, env)
            k = self.eval(target.slice, env) if not isinstance(target.slice, ast.Slice) else BOT
            if isinstance(b, Dct) and isinstance(k, K):
                nb = b.copy()
                nb.items[k.v] = v
                self.rebind(target.value, nb, env)

    def truth(self, test, env):
        """True/False/None (unknown)"""
        v = self.eval(test, env)
        return self.truth_of(v)

    def truth_of(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Seq) and v.elems is not None:
            return len(v.elems) > 0
        if isinstance(v, (Obj, Fn, ClsV)) and not (isinstance(v, Obj) and v.cls is None):
            return None
        c = self.dom.const(v)
        if c is not None:
            return bool(c)
        return None

    def s_If(self, s, env):
        t = self.truth(s.test, env)
        if t is True:
            self.refine(s.test, True, env)
            return self.block(s.body, env)
        if t is False:
            self.refine(s.test, False, env)
            return self.block(s.orelse, env)
        a, b = env.fork(), env.fork()
        self.refine(s.test, True, a)
        self.refine(s.test, False, b)
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        return self.join_env(env, a if ra else None, b if rb else None)

    def refine(self, test, truth, env):
        """x is None / x is not None narrowing"""
        self.hooks.refine(test, truth, env)

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        elems = self.known_elems(it)
        if elems is not None and len(elems) <= 12:
            for e in elems:
                env.loop.append([])
                self.assign(s.target, e, env, s)
                alive = self.block(s.body, env)
                brk = env.loop.pop()
                outs = ([env.fork()] if alive else []) + [x for _, x in brk]
                if not outs:
                    return False
                cur = outs[0]
                for o in outs[1:]:
                    self.join_env(cur, cur.fork(), o)
                env.vars, env.heap = cur.vars, cur.heap
            self.block(s.orelse, env)
            return True
        el = self.iter_elem(it, s.target)
        for _ in range(2):
            f = env.fork()
            env.loop.append([])
            self.assign(s.target, el, f, s)
            alive = self.block(s.body, f)
            brk = env.loop.pop()
            outs = ([f] if alive else []) + [x for _, x in brk]
            for o in outs:
                self.join_env(env, env.fork(), o)
        self.block(s.orelse, env)
        return True

    def s_While(self, s, env):
        for _ in range(2):
            self.eval(s.test, env)
            f = env.fork()
            env.loop.append([])
            alive = self.block(s.body, f)
            brk = env.loop.pop()
            outs = ([f] if alive else []) + [x for _, x in brk]
            for o in outs:
                self.join_env(env, env.fork(), o)
        return True

    def s_Break(self, s, env):
        if env.loop:
            env.loop[-1].append(("break", env.fork()))
        return False

    def s_Continue(self, s, env):
        if env.loop:
            env.loop[-1].append(("continue", env.fork()))
        return False

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, TOP if not isinstance(v, Obj) else v, env, s)
        return self.block(s.body, env)

    def s_Try(self, s, env):
        pre = env.fork()
        a = env.fork()
        ra = self.block(s.body, a)
        if ra:
            ra = self.block(s.orelse, a)
        live = [a] if ra else []
        for h in s.handlers:
            b = pre.fork()
            if h.name:
                b.vars[h.name] = TOP
            if self.block(h.body, b):
                live.append(b)
        if not live:
            self.block(s.finalbody, pre)
            return False
        cur = live[0]
        for o in live[1:]:
            self.join_env(cur, cur.fork(), o)
        env.vars, env.heap = cur.vars, cur.heap
        return self.block(s.finalbody, env)

    # ---------------------------------------------------------------- iteration
    def known_elems(self, it):
        if isinstance(it, Seq) and it.elems is not None:
            return it.elems
        if isinstance(it, Dct) and it.table is None and it.other in (TOP, BOT) and it.items and \
                all(isinstance(k, str) for k in it.items) and it.other is BOT:
            return [K(k) for k in it.items]
        return None

    def iter_elem(self, it, target=None):
        if isinstance(it, Seq):
            return it.any(self.dom)
        if isinstance(it, Dct):
            return Str()
        r = self.hooks.iter_elem(it)
        if r is not None:
            return r
        if self.dom.is_num(it):
            return self.dom.element(it)
        return TOP

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            return TOP
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return TOP
        r = m(e, env)
        return TOP if r is None else r

    def e_Constant(self, e, env):
        return K(e.value)

    def e_JoinedStr(self, e, env):
        return Str()

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.eval(x.value, env)
                if isinstance(s, Seq) and s.elems is not None:
                    out.extend(s.elems)
                else:
                    return Seq(elem=s.any(self.dom) if isinstance(s, Seq) else TOP)
            else:
                out.append(self.eval(x, env))
        return Seq(elems=out)

    e_List = e_Tuple

    def e_Set(self, e, env):
        return Seq(elem=TOP)

    def e_Dict(self, e, env):
        d = Dct(other=BOT)
        for k, v in zip(e.keys, e.values):
            val = self.eval(v, env)
            if k is None:
                if isinstance(val, Dct):
                    d.items.update(val.items)
                    if val.table is not None:
                        d.table = val.table
                    d.other = TOP if val.other is not BOT else d.other
                else:
                    d.other = TOP
                continue
            kv = self.eval(k, env)
            if isinstance(kv, K):
                d.items[kv.v] = val
            else:
                d.other = val if d.other is BOT else self.dom.join(d.other, val)
        return d

    def comp_env(self, e, env):
        f = env.fork()
        for g in e.generators:
            it = self.eval(g.iter, f)
            self.assign(g.target, self.iter_elem(it), f, e)
            for c in g.ifs:
                self.eval(c, f)
        return f

    def e_ListComp(self, e, env):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.eval(e.generators[0].iter, env)
            el = self.known_elems(it)
            if el is not None and len(el) <= 12:
                out = []
                for x in el:
                    f = env.fork()
                    self.assign(e.generators[0].target, x, f, e)
                    out.append(self.eval(e.elt, f))
                return Seq(elems=out)
        f = self.comp_env(e, env)
        return Seq(elem=self.eval(e.elt, f))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        f = self.comp_env(e, env)
        return Seq(elem=self.eval(e.elt, f))

    def e_DictComp(self, e, env):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.eval(e.generators[0].iter, env)
            el = self.known_elems(it)
            if el is not None and len(el) <= 12:
                d = Dct(other=BOT)
                for x in el:
                    f = env.fork()
                    self.assign(e.generators[0].target, x, f, e)
                    k = self.eval(e.key, f)
                    v = self.eval(e.value, f)
                    if isinstance(k, K):
                        d.items[k.v] = v
                    else:
                        d.other = v if d.other is BOT else self.dom.join(d.other, v)
                return d
        f = self.comp_env(e, env)
        self.eval(e.key, f)
        return Dct(other=self.eval(e.value, f))

    def e_Lambda(self, e, env):
        return Fn(e._func, env=env) if hasattr(e, "_func") else TOP

    def e_IfExp(self, e, env):
        t = self.truth(e.test, env)
        if t is True:
            return self.eval(e.body, env)
        if t is False:
            return self.eval(e.orelse, env)
        a, b = env.fork(), env.fork()
        self.refine(e.test, True, a)
        self.refine(e.test, False, b)
        return self.dom.join(self.eval(e.body, a), self.eval(e.orelse, b))

    def e_BoolOp(self, e, env):
        vals = []
        for v in e.values:
            x = self.eval(v, env)
            t = self.truth_of(x)
            if isinstance(e.op, ast.And) and t is False:
                return x if not vals else K(False)
            if isinstance(e.op, ast.Or) and t is True and not vals:
                return x
            vals.append((x, t))
        if all(t is not None for _, t in vals):
            return vals[-1][0]
        vs = [x for x, _ in vals]
        if all(isinstance(x, (Bool, K)) for x in vs):
            return Bool()
        if isinstance(e.op, ast.Or):
            r = vs[-1]
            for x in vs[:-1]:
                if not isinstance(x, (Bool, K)):
                    r = self.dom.join(r, x)
            return r
        return Bool()

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_of(v)
            return Bool() if t is None else K(not t)
        if isinstance(e.op, ast.Invert):
            return v if isinstance(v, Bool) else Bool() if v is not TOP else TOP
        if isinstance(v, K) and isinstance(v.v, (int, float)):
            return K(-v.v) if isinstance(e.op, ast.USub) else v
        if v is TOP or v is BOT:
            return v
        return self.dom.neg(v, e) if isinstance(e.op, ast.USub) else v

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b, e, env)

    def seq_concat(self, a, b):
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.elems is not None and b.elems is not None:
                return Seq(elems=a.elems + b.elems)
            return Seq(elem=self.dom.join(a.any(self.dom), b.any(self.dom)))
        return TOP

    def binop(self, op, a, b, node, env):
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)) \
                and not (isinstance(a.v, bool) and isinstance(b.v, bool)):
            r = _fold(op, a.v, b.v)
            if r is not None:
                return K(r)
        if isinstance(a, (Str,)) or isinstance(b, (Str,)) or (isinstance(a, K) and isinstance(a.v, str)) or (
                isinstance(b, K) and isinstance(b.v, str)):
            if isinstance(op, ast.Add) and isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
                return K(a.v + b.v)
            return Str() if isinstance(op, (ast.Add, ast.Mod, ast.Mult)) else TOP
        if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(op, ast.Add):
            return self.seq_concat(a, b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            # numpy broadcasting of a python list: treat as an array of its elements
            if isinstance(op, ast.Mult) and isinstance(a, Seq) and isinstance(b, K) and isinstance(b.v, int):
                return Seq(elem=a.any(self.dom))
            if isinstance(op, ast.Mult) and isinstance(a, Seq):
                x = a.any(self.dom)
                if not (self.dom.is_num(x) and self.dom.is_num(b)):
                    return Seq(elem=x)
            a = a.any(self.dom) if isinstance(a, Seq) else a
            b = b.any(self.dom) if isinstance(b, Seq) else b
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and not (self.dom.is_num(a) and self.dom.is_num(b)):
            if isinstance(a, (Bool, K)) and isinstance(b, (Bool, K)):
                return Bool()
            return TOP if not (isinstance(a, Bool) or isinstance(b, Bool)) else Bool()
        if a is TOP or b is TOP:
            return self.dom.with_top(op, a, b, node)
        if isinstance(a, (Dct, Obj, Fn, ClsV, Ext, Meth)) or isinstance(b, (Dct, Obj, Fn, ClsV, Ext, Meth)):
            r = self.hooks.obj_binop(op, a, b, node, env)
            return TOP if r is None else r
        return self.dom.binop(op, a, b, node)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            res.append(self.compare(op, left, right, e, env))
            left = right
        if all(isinstance(r, K) for r in res):
            return K(all(r.v for r in res))
        if any(isinstance(r, K) and r.v is False for r in res):
            return K(False)
        return Bool()

    def compare(self, op, a, b, node, env):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, K) and b.v is None:
                if isinstance(a, K):
                    r = a.v is None
                elif a is TOP or a is BOT:
                    return Bool()
                else:
                    r = False
                return K(r if isinstance(op, ast.Is) else not r)
            if isinstance(a, K) and isinstance(b, K):
                r = a.v is b.v
                return K(r if isinstance(op, ast.Is) else not r)
            return Bool()
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if isinstance(b, Seq) and b.elems is not None and isinstance(a, K) and all(isinstance(x, K) for x in b.elems):
                r = any(x == a for x in b.elems)
            elif isinstance(b, Dct) and isinstance(a, K):
                r = self.hooks.has_key(b, a.v)
            if r is None:
                return Bool()
            return K(r if isinstance(op, ast.In) else not r)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(_cmp(op, a.v, b.v))
            except TypeError:
                return Bool()
        if a is TOP or b is TOP or a is BOT or b is BOT:
            return Bool()
        if isinstance(a, Seq):
            a = a.any(self.dom)
        if isinstance(b, Seq):
            b = b.any(self.dom)
        if a is TOP or b is TOP:
            return Bool()
        r = self.dom.compare(op, a, b, node)
        return Bool() if r is None else r

    def e_Starred(self, e, env):
        return ("*", self.eval(e.value, env))

    def e_Name(self, e, env):
        if e.id in env.vars:
            return env.vars[e.id]
        q = self.prog.resolve_name(env.module, e.id, None)
        if q is None:
            return TOP
        return self.dotted_value(q)

    def dotted_value(self, q):
        if q in self.prog.classes:
            return ClsV(self.prog.classes[q])
        if q in self.prog.by_qual and self.prog.by_qual[q].cls is None:
            return Fn(self.prog.by_qual[q])
        r = self.hooks.global_value(q)
        if r is not None:
            return r
        mod, _, name = q.rpartition(".")
        m = self.prog.modules.get(mod)
        if m is not None:
            sym = m.symbols.get(name)
            if sym and sym[0] == "var":
                key = ("glob", q)
                if key in self.hooks.cache:
                    return self.hooks.cache[key]
                self.hooks.cache[key] = TOP
                v = self.eval(sym[1], Env(None, m, 1))
                self.hooks.cache[key] = v
                return v
        return Ext(q)

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.get_attr(o, e.attr, env, e)

    def get_attr(self, o, name, env, node):
        if isinstance(o, Ext):
            return self.dotted_value(self.prog.lookup_dotted(o.name + "." + name))
        if isinstance(o, Obj):
            r = self.hooks.on_attr_load(env, o, name, node)
            if r is not None:
                return r
            if (o.oid, name) in env.heap:
                return env.heap[(o.oid, name)]
            if name in o.declared:
                return o.declared[name]
            if o.table is not None:
                r = o.table(name)
                if r is not None:
                    return r
            if o.cls is not None:
                m = o.cls.find(name)
                if m is not None:
                    k = m.deco_kind()
                    if k == "property":
                        return self.call_func(m, [], {}, env, self_val=o)
                    if k == "static":
                        return Fn(m)
                    return Fn(m, bound=o)
                a = o.cls.find_attr(name)
                if a is not None:
                    return self.eval(a[0], Env(None, a[1].module, env.depth + 1))
            if name == "__class__" and o.cls is not None:
                return ClsV(o.cls)
            return TOP
        if isinstance(o, ClsV):
            m = o.cls.find(name)
            if m is not None:
                return Fn(m, bound=o if m.deco_kind() == "class" else None)
            a = o.cls.find_attr(name)
            if a is not None:
                return self.eval(a[0], Env(None, a[1].module, env.depth + 1))
            if name == "__name__":
                return Str()
            return TOP
        r = self.hooks.value_attr(o, name, env, node)
        if r is not None:
            return r
        return Meth(o, name)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            for p in (e.slice.lower, e.slice.upper, e.slice.step):
                if p is not None:
                    self.eval(p, env)
            if isinstance(o, Seq):
                lo = _const_int(self, e.slice.lower, env)
                hi = _const_int(self, e.slice.upper, env)
                if o.elems is not None and e.slice.step is None and lo is not False and hi is not False:
                    return Seq(elems=o.elems[lo:hi])
                return Seq(elem=o.any(self.dom))
            return o if self.dom.is_num(o) or isinstance(o, (Bool, Str)) else TOP
        k = self.eval(e.slice, env)
        if isinstance(o, Dct):
            r = self.hooks.on_key_load(env, o, k, e)
            if r is not None:
                return r
            if isinstance(k, K):
                v = o.get(k.v)
                return TOP if v is BOT else v
            if isinstance(k, Seq) or (isinstance(k, Bool)):
                return o
            if not o.items and o.table is None:
                return TOP if o.other is BOT else o.other
            vals = list(o.items.values()) + ([o.other] if o.other is not BOT else [])
            if o.table is not None:
                return TOP
            r = BOT
            for v in vals:
                r = self.dom.join(r, v)
            return TOP if r is BOT else r
        if isinstance(o, Seq):
            if o.elems is not None and isinstance(k, K) and isinstance(k.v, int) and -len(o.elems) <= k.v < len(o.elems):
                return o.elems[k.v]
            return o.any(self.dom)
        if isinstance(o, Obj):
            if isinstance(k, K) and (o.oid, ("item", k.v)) in env.heap:
                return env.heap[(o.oid, ("item", k.v))]
            r = self.hooks.obj_getitem(o, k, env, e)
            return TOP if r is None else r
        if self.dom.is_num(o):
            return self.dom.element(o)
        if isinstance(o, (Bool, Str)) or o is BOT:
            return o
        return TOP

    def e_Await(self, e, env):
        return TOP

    def e_Call(self, e, env):
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == "super":
            return self.super_call(e, fn.attr, env)
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = self.eval(fn.value, env)
            f = self.get_attr(recv, fn.attr, env, fn)
        else:
            f = self.eval(fn, env)
        args, kwargs = self.args(e, env)
        return self.apply(f, args, kwargs, e, env, recv)

    def args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct) and v.table is None and v.other is BOT:
                    kwargs.update(v.items)
                elif isinstance(v, Dct) and "**" not in kwargs:
                    kwargs["**"] = v
                else:
                    kwargs["**"] = TOP
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def super_call(self, e, attr, env):
        args, kwargs = self.args(e, env)
        c = env.cls
        if c is None or env.func is None:
            return TOP
        f = env.func
        while f is not None and f.cls is None:
            f = f.parent
        me = env.vars.get(f.params[0]) if f is not None and f.params else None
        if not isinstance(me, Obj):
            return TOP
        mro = me.cls.mro() if me.cls is not None else c.mro()
        if c in mro:
            mro = mro[mro.index(c) + 1:]
        for k in mro:
            if attr in k.methods:
                return self.apply(Fn(k.methods[attr], bound=me), args, kwargs, e, env, me)
        return TOP

    def apply(self, f, args, kwargs, node, env, recv=None):
        r = self.hooks.call(f, args, kwargs, node, env, recv)
        if r is not None:
            return r
        if isinstance(f, Fn):
            if isinstance(f.func.node, ast.Lambda) or f.func.parent is not None:
                return self.call_func(f.func, args, kwargs, env, self_val=f.bound, closure=f.env)
            k = f.func.deco_kind()
            if f.func.cls is not None and f.bound is None and k not in ("static",):
                # Class.method(self, ...)
                return self.call_func(f.func, args, kwargs, env)
            return self.call_func(f.func, args, kwargs, env, self_val=f.bound if k != "static" else None)
        if isinstance(f, ClsV):
            if env.depth >= MAX_DEPTH:
                return TOP
            return self.instantiate(f.cls, args, kwargs, env)
        if isinstance(f, Meth):
            return self.method(f.recv, f.name, args, kwargs, node, env)
        if isinstance(f, Ext):
            return self.ext_call(f.name, args, kwargs, node, env)
        return TOP

    def ext_call(self, q, args, kwargs, node, env):
        if q.startswith("builtins."):
            r = self.builtin(q[9:], args, kwargs, node, env)
            if r is not None:
                return r
        if q in ("copy.copy", "copy.deepcopy") and args:
            v = args[0]
            return v.copy() if isinstance(v, Dct) else v
        args = [a if not isinstance(a, tuple) else TOP for a in args]
        r = self.dom.function(q, args, kwargs, node)
        return TOP if r is None else r

    def builtin(self, n, args, kwargs, node, env):
        a0 = args[0] if args else None
        if isinstance(a0, tuple):
            return TOP
        if n == "isinstance":
            return self.hooks.isinstance(a0, node, env)
        if n in ("hasattr", "callable", "issubclass"):
            if n == "hasattr" and isinstance(a0, Obj) and len(args) > 1 and isinstance(args[1], K):
                return Bool()
            return Bool()
        if n in ("list", "tuple", "sorted", "reversed", "iter"):
            if not args:
                return Seq(elems=[])
            if isinstance(a0, Seq):
                if n in ("sorted", "reversed") and a0.elems is not None:
                    return Seq(elem=a0.any(self.dom)) if a0.elems else a0
                return a0
            if isinstance(a0, Dct):
                return Seq(elems=[K(k) for k in a0.items]) if a0.other is BOT and a0.table is None else Seq(elem=Str())
            if self.dom.is_num(a0):
                return Seq(elem=self.dom.element(a0))
            return Seq(elem=TOP)
        if n == "set":
            return Seq(elem=TOP)
        if n == "dict":
            d = Dct(other=BOT)
            if isinstance(a0, Dct):
                d = a0.copy()
            elif isinstance(a0, Seq):
                d = Dct(other=TOP)
                if a0.elems is not None and all(isinstance(x, Seq) and x.elems and len(x.elems) == 2 and
                                                isinstance(x.elems[0], K) for x in a0.elems):
                    d = Dct({x.elems[0].v: x.elems[1] for x in a0.elems}, other=BOT)
                elif a0.elems is None and isinstance(a0.elem, Seq) and a0.elem.elems and len(a0.elem.elems) == 2:
                    d = Dct(other=a0.elem.elems[1])
            elif a0 is not None:
                d = Dct(other=TOP)
            for k, v in kwargs.items():
                if k == "**":
                    d.other = TOP
                else:
                    d.items[k] = v
            return d
        if n in ("str", "repr", "format"):
            return Str() if not (isinstance(a0, K) and isinstance(a0.v, str)) else a0
        if n == "len":
            if isinstance(a0, Seq) and a0.elems is not None:
                return K(len(a0.elems))
            return self.dom.count(a0)
        if n == "range":
            return Seq(elem=self.dom.count(None))
        if n == "enumerate":
            if isinstance(a0, Seq) and a0.elems is not None:
                return Seq(elems=[Seq(elems=[K(i), x]) for i, x in enumerate(a0.elems)])
            return Seq(elem=Seq(elems=[self.dom.count(None), self.iter_elem(a0)]))
        if n == "zip":
            if all(isinstance(a, Seq) and a.elems is not None for a in args):
                return Seq(elems=[Seq(elems=list(t)) for t in zip(*[a.elems for a in args])])
            return Seq(elem=Seq(elems=[self.iter_elem(a) if not isinstance(a, tuple) else TOP for a in args]))
        if n == "map" and len(args) == 2:
            return Seq(elem=self.apply(a0, [self.iter_elem(args[1])], {}, node, env))
        if n == "getattr":
            if len(args) >= 2 and isinstance(args[1], K) and isinstance(args[1].v, str):
                r = self.get_attr(a0, args[1].v, env, node)
                if len(args) == 3 and (r is TOP):
                    return TOP
                return r if not isinstance(r, Meth) else TOP
            return TOP
        if n == "setattr":
            if len(args) == 3 and isinstance(args[1], K):
                self.set_attr(a0, args[1].v, args[2], env, node)
            return K(None)
        if n == "print":
            return K(None)
        if n in ("any", "all", "bool"):
            return Bool()
        if n in ("int", "float", "complex", "abs", "round", "min", "max", "sum", "pow"):
            if len(args) == 1 and isinstance(a0, Seq) and n in ("min", "max", "sum"):
                if a0.elems is not None and n == "sum":
                    r = K(0)
                    for x in a0.elems:
                        r = self.binop(ast.Add(), r, x, node, env)
                    return r
                args = [a0.any(self.dom)]
                if n == "sum":
                    return self.dom.function("numpy.sum", args, {}, node) or TOP
            args = [a if not isinstance(a, tuple) else TOP for a in args]
            if all(isinstance(a, K) and isinstance(a.v, (int, float)) for a in args) and not kwargs:
                try:
                    return K(getattr(builtins, n)(*[a.v for a in args]))
                except Exception:
                    return TOP
            if n == "float" and isinstance(a0, K) and isinstance(a0.v, str):
                return K(float(a0.v)) if a0.v in ("inf", "-inf", "nan") else TOP
            r = self.dom.function("builtins." + n, args, kwargs, node)
            return TOP if r is None else r
        if n == "type":
            return ClsV(a0.cls) if isinstance(a0, Obj) and a0.cls is not None else TOP
        return None

    def method(self, recv, name, args, kwargs, node, env):
        if isinstance(recv, Dct):
            if name in ("copy",):
                return recv.copy()
            if name in ("get", "pop", "setdefault"):
                k = args[0] if args else TOP
                dflt = args[1] if len(args) > 1 else K(None)
                if isinstance(k, K):
                    r = self.hooks.on_key_load(env, recv, k, node)
                    if r is not None:
                        return r
                    has = self.hooks.has_key(recv, k.v)
                    v = recv.get(k.v)
                    if has is True:
                        return TOP if v is BOT else v
                    if has is False:
                        return dflt
                    if v is BOT or v is TOP:
                        return TOP
                    if name == "get" and isinstance(dflt, K) and dflt.v is None:
                        return v
                    return self.dom.join(v, dflt)
                return TOP
            if name == "keys":
                return Seq(elems=[K(k) for k in recv.items]) if recv.other is BOT and recv.table is None else Seq(elem=Str())
            if name == "values":
                if recv.other is BOT and recv.table is None and recv.items:
                    return Seq(elems=list(recv.items.values()))
                if not recv.items and recv.table is None:
                    return Seq(elem=TOP if recv.other is BOT else recv.other)
                return Seq(elem=TOP)
            if name == "items":
                if recv.other is BOT and recv.table is None and recv.items:
                    return Seq(elems=[Seq(elems=[K(k), v]) for k, v in recv.items.items()])
                if not recv.items and recv.table is None:
                    return Seq(elem=Seq(elems=[Str(), TOP if recv.other is BOT else recv.other]))
                return Seq(elem=Seq(elems=[Str(), TOP]))
            if name == "update":
                nd = recv.copy()
                a0 = args[0] if args else None
                if isinstance(a0, Dct):
                    for k, v in a0.items.items():
                        self.hooks.on_key_store(env, recv, K(k), v, node)
                        nd.items[k] = v
                    if not (a0.table is None and a0.other is BOT) and nd.table is None:
                        nd.other = TOP
                elif a0 is not None and nd.table is None:
                    nd.other = TOP
                    nd.items = {}
                for k, v in kwargs.items():
                    if k != "**":
                        self.hooks.on_key_store(env, recv, K(k), v, node)
                        nd.items[k] = v
                if isinstance(node.func, ast.Attribute):
                    self.rebind(node.func.value, nd, env)
                return K(None)
            return TOP
        if isinstance(recv, Seq):
            if name in ("append", "extend", "insert"):
                v = args[-1] if args else TOP
                if isinstance(v, tuple):
                    v = TOP
                if name == "append" and recv.elems is not None and not self.in_loop(env):
                    nv = Seq(elems=recv.elems + [v])
                else:
                    x = v if name != "extend" else (v.any(self.dom) if isinstance(v, Seq) else TOP)
                    nv = Seq(elem=self.dom.join(recv.any(self.dom) if recv.elems != [] else BOT, x))
                if isinstance(node.func, ast.Attribute):
                    self.rebind(node.func.value, nv, env)
                return K(None)
            if name in ("copy",):
                return recv
            if name in ("pop",):
                return recv.any(self.dom)
            if name in ("index", "count"):
                return self.dom.count(None)
            x = recv.any(self.dom)
            if self.dom.is_num(x):
                return self.dom.method(x, name, args, kwargs, node) or TOP
            return TOP
        if isinstance(recv, (Str,)) or (isinstance(recv, K) and isinstance(recv.v, str)):
            if isinstance(recv, K) and name in ("lower", "upper", "strip", "replace", "split", "startswith", "endswith") \
                    and all(isinstance(a, K) for a in args):
                try:
                    r = getattr(recv.v, name)(*[a.v for a in args])
                    return K(r) if not isinstance(r, list) else Seq(elems=[K(x) for x in r])
                except Exception:
                    return TOP
            if name in ("startswith", "endswith", "isdigit"):
                return Bool()
            if name == "split":
                return Seq(elem=Str())
            return Str()
        if isinstance(recv, Bool):
            if name in ("any", "all"):
                return Bool()
            if name in ("sum",):
                return self.dom.count(None)
            return recv
        if recv is TOP or recv is BOT:
            return TOP
        if self.dom.is_num(recv) or isinstance(recv, K):
            r = self.dom.method(recv, name, args, kwargs, node)
            return TOP if r is None else r
        return TOP

    def in_loop(self, env):
        return False


def _as_load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    ast.copy_location(n, t)
    for x in ast.walk(n):
        if not hasattr(x, "lineno"):
            continue
        x.lineno = t.lineno
    return n


def _const_int(interp, e, env):
    if e is None:
        return None
    v = interp.eval(e, env)
    return v.v if isinstance(v, K) and isinstance(v.v, int) else False


def _fold(op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a / b if b != 0 else None
        if isinstance(op, ast.Pow):
            r = a ** b if abs(b) < 100 and abs(a) < 1e6 else None
            return r if not isinstance(r, complex) else None
        if isinstance(op, ast.FloorDiv):
            return a // b if b != 0 else None
        if isinstance(op, ast.Mod):
            return a % b if b != 0 else None
    except (OverflowError, ZeroDivisionError, TypeError):
        return None
    return None


def _cmp(op, a, b):
    if isinstance(op, ast.Eq):
        return a == b
    if isinstance(op, ast.NotEq):
        return a != b
    if isinstance(op, ast.Lt):
        return a < b
    if isinstance(op, ast.LtE):
        return a <= b
    if isinstance(op, ast.Gt):
        return a > b
    if isinstance(op, ast.GtE):
        return a >= b
    raise TypeError


class Hooks:
    """default hooks: no declared knowledge"""
    interp = None

    def __init__(self):
        self.cache = {}

    def param(self, func, name):
        return None

    def on_return(self, env, node, v):
        pass

    def on_name_store(self, env, target, v, node):
        pass

    def on_attr_store(self, env, obj, name, v, node):
        return False

    def on_attr_load(self, env, obj, name, node):
        return None

    def on_key_store(self, env, dct, key, v, node):
        pass

    def on_obj_key_store(self, env, obj, key, v, node):
        pass

    def on_key_load(self, env, dct, key, node):
        return None

    def has_key(self, dct, key):
        if key in dct.items and dct.table is None:
            return True if dct.other is BOT else None
        if dct.table is None and dct.other is BOT:
            return False
        return None

    def obj_getitem(self, o, k, env, node):
        return None

    def obj_binop(self, op, a, b, node, env):
        return None

    def unpack(self, v, n):
        return None

    def iter_elem(self, it):
        return None

    def refine(self, test, truth, env):
        pass

    def global_value(self, q):
        return None

    def value_attr(self, o, name, env, node):
        return None

    def call(self, f, args, kwargs, node, env, recv):
        return None

    def isinstance(self, v, node, env):
        return Bool()
