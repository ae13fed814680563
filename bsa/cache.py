"""Cached attributes: which fields a stored value was computed from, and whether every write of one of them
leaves the stored value invalid, recomputed, or keyed (typestate per cached attribute)."""
import ast

import copy

from .infer import infer
from .program import walk_func

MUT = set("append extend insert update pop popitem remove clear sort reverse setdefault add discard fill resize".split())
OK, INV = "ok", "invalid"


class Cell:
    """one cached attribute.  kind: 'flag' (valid when flag is True), 'none' (valid when not None / not empty),
    'always' (kept up to date eagerly) or 'memo' (`getter` compares stored keys with the current inputs before reusing it)"""

    def __init__(self, cls, field, getter, kind="none", flag=None, only=None, ignore=(), deps=(), copied=()):
        self.deps, self.copied = deps, set(copied)
        self.cls, self.field, self.getter, self.kind, self.flag = cls, field, getter, kind, flag
        self.only, self.ignore = only, set(ignore)


class PCell:
    """a cell seen from an object that holds the owning object under `prefix`"""

    def __init__(self, cell, prefix):
        self.cell, self.prefix = cell, prefix
        self.path = prefix + cell.field
        self.flag = prefix + cell.flag if cell.flag else None
        self.deps, self.keys, self.sites = set(), {}, []

    def __repr__(self):
        return self.path


ITEMS = "[items]"
DICTMUT = {"pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__"}


def is_empty(v):
    """None, {}, [], dict(), list(), set(), tuple()"""
    if isinstance(v, ast.Constant):
        return v.value is None
    if isinstance(v, ast.Dict):
        return not v.keys
    if isinstance(v, (ast.List, ast.Tuple)):
        return not v.elts
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set", "tuple", "OrderedDict") \
        and not v.args and not v.keywords


def mangle(cls, attr):
    if attr.startswith("__") and not attr.endswith("__") and cls is not None:
        return "_%s%s" % (cls.name.lstrip("_"), attr)
    return attr


def root_of(t):
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    return t


def strip_parents(e):
    """a copy of an expression without the parent links the program model adds"""
    if isinstance(e, list):
        return [strip_parents(x) for x in e]
    if not isinstance(e, ast.AST):
        return e
    n = type(e)(**{f: strip_parents(v) for f, v in ast.iter_fields(e)})
    return ast.copy_location(n, e) if hasattr(e, "lineno") else n


class Model:
    """all cells visible from one class"""

    def __init__(self, prog, cls, table):
        self.prog, self.cls, self.inf = prog, cls, infer(prog)
        self.table = table
        self.cells = {}
        self._reads = {}
        self.containers = {}
        for k in cls.mro():
            for v in k.attrs.values():
                c = self.accessor_target(v)
                if c:
                    self.containers.setdefault(c[0], None)
        for name in list(self.containers):
            t = self.container_class(name)
            self.containers[name] = t
        self._add(cls, "")
        for name, k in self.containers.items():
            if k is not None:
                self._add(k, name + ".")
        for pc in self.cells.values():
            self._derive(pc)

    # -- structure ---------------------------------------------------------
    def accessor_target(self, v):
        if isinstance(v, ast.Call) and getattr(v.func, "id", getattr(v.func, "attr", "")) == "PropertyAccessor" and len(v.args) == 2 \
                and all(isinstance(a, ast.Constant) for a in v.args):
            return v.args[0].value, v.args[1].value
        return None

    def container_class(self, name):
        for t in self.inf.attr_types(self.cls, name):
            q = t if isinstance(t, str) else getattr(t, "qual", None) or (t[1] if isinstance(t, tuple) and len(t) > 1 else None)
            if isinstance(q, str):
                q = q.split(":", 1)[-1]
                if q in self.prog.classes:
                    return self.prog.classes[q]
        return None

    def _add(self, cls, prefix):
        quals = {k.qual for k in cls.mro()}
        for c in self.table:
            if c.cls in quals:
                pc = PCell(c, prefix)
                self.cells[pc.path] = pc

    def owner(self, prefix):
        return self.cls if not prefix else self.containers.get(prefix.rstrip("."))

    def lookup(self, prefix, attr):
        """('prop', getter) | ('acc', path prefix, prop) | ('method', Func) | ('field', path)"""
        k = self.owner(prefix)
        if k is not None:
            f = k.find(attr)
            if f is None and "__" in attr:
                raw = "__" + attr.split("__", 1)[1]
                f = next((c.methods[raw] for c in k.mro() if raw in c.methods and attr == mangle(c, raw)), None)
            if f is not None:
                return ("prop", f) if f.deco_kind() == "property" else ("method", f)
            a = k.find_attr(attr)
            if a is not None:
                t = self.accessor_target(a[0])
                if t is not None:
                    return ("acc", prefix + t[0] + ".", t[1])
        return ("field", prefix + attr)

    def cell_of_getter(self, prefix, name):
        for pc in self.cells.values():
            if pc.prefix == prefix and pc.cell.getter == name:
                return pc
        return None

    # -- reads -------------------------------------------------------------
    def base(self, expr, me, prefix):
        """prefix of the object an expression denotes, or None: `self` -> '', `self.container` -> 'container.'"""
        if isinstance(expr, ast.Name) and expr.id == me:
            return prefix
        if isinstance(expr, ast.Attribute):
            b = self.base(expr.value, me, prefix)
            if b is not None and b + expr.attr in self.containers:
                return b + expr.attr + "."
        return None

    def pathof(self, expr, func, prefix):
        """path an attribute or an element of it denotes: `self.a` -> 'a', `self.a['k']` -> "a['k']", `self.a[i]` -> 'a[*]'"""
        me = func.params[0] if func.params else None
        if me is None or func.deco_kind() == "static":
            return None
        k = self.prog.enclosing_class(func)
        if isinstance(expr, ast.Attribute):
            b = self.base(expr.value, me, prefix)
            return None if b is None else b + mangle(k, expr.attr)
        if isinstance(expr, ast.Subscript) and isinstance(expr.value, ast.Attribute):
            b = self.base(expr.value.value, me, prefix)
            if b is None:
                return None
            p = b + mangle(k, expr.value.attr)
            return "%s[%r]" % (p, expr.slice.value) if isinstance(expr.slice, ast.Constant) else p + "[*]"
        return None

    def expr_reads(self, expr, func, prefix, stack):
        out = set()
        if func.params:
            me = func.params[0]
        else:
            return out
        k = self.inf.prog.enclosing_class(func)
        for n in ast.walk(expr):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                b = self.base(n.value, me, prefix)
                if b is None:
                    continue
                out |= self.attr_reads(b, mangle(k, n.attr), stack)
        return out

    def attr_reads(self, prefix, attr, stack):
        w = self.lookup(prefix, attr)
        if w[0] == "acc":
            return self.attr_reads(w[1], w[2], stack) | {w[1].rstrip(".")}
        if w[0] == "field":
            p = w[1]
            return {p}
        f = w[1]
        pc = self.cell_of_getter(prefix, attr)
        if pc is not None:
            return {pc.path}
        return self.func_reads(f, prefix, stack)

    def func_reads(self, f, prefix, stack=()):
        key = (f.qual, prefix)
        if key in self._reads:
            return self._reads[key]
        if key in stack:
            return set()
        out = set()
        for st in f.body:
            out |= self.expr_reads(st, f, prefix, stack + (key,))
        if not stack:
            self._reads[key] = out
        return out

    # -- dependency slice ----------------------------------------------------
    def slice(self, expr, func, prefix, argmap=None, faithful=False):
        """fields (and parameter names as 'arg:x') an expression is computed from; `faithful` leaves out what only selects
        between alternatives"""
        names, todo, paths = set(), [expr], set()
        while todo:
            e = todo.pop()
            if faithful:
                e = self.drop_tests(e)
            paths |= self.expr_reads(e, func, prefix, ())
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in names and [n.id] != func.params[:1]:
                    names.add(n.id)
                    todo.extend(self.definitions(n.id, func))
        me = func.params[0] if func.params else None
        for n in names:
            if n in func.all_params and n != me:
                paths |= argmap.get(n, set()) if argmap is not None else {"arg:" + n}
        return paths

    def drop_tests(self, e):
        if not any(isinstance(n, (ast.IfExp, ast.Compare)) for n in ast.walk(e)):
            return e

        class T(ast.NodeTransformer):
            def visit_IfExp(s, n):
                return ast.copy_location(ast.Tuple(elts=[s.visit(n.body), s.visit(n.orelse)], ctx=ast.Load()), n)

            def visit_Compare(s, n):
                return ast.copy_location(ast.Constant(value=True), n)
        return T().visit(copy.deepcopy(strip_parents(e)))

    def bind(self, call, callee, caller, prefix, argmap, faithful=False):
        """callee parameter -> what the actual argument is computed from"""
        out = {}
        ps = [p for p in callee.params[(0 if callee.deco_kind() == "static" else 1):]]
        for i, a in enumerate(call.args):
            if i < len(ps) and not isinstance(a, ast.Starred):
                out[ps[i]] = self.slice(a, caller, prefix, argmap, faithful)
        for k in call.keywords:
            if k.arg is not None:
                out[k.arg] = self.slice(k.value, caller, prefix, argmap, faithful)
        # parameters that are the very object an attribute holds
        out["&"] = {p: q for p, q in [(ps[i], self.pathof(a, caller, prefix)) for i, a in enumerate(call.args) if i < len(ps)]
                    + [(k.arg, self.pathof(k.value, caller, prefix)) for k in call.keywords] if q is not None and p is not None}
        return out

    def reach(self, func, prefix, argmap=None, depth=4):
        """(method, argument map) for func and the methods of the object it calls"""
        out = [(func, argmap)]
        if depth == 0:
            return out
        me = func.params[0] if func.params else None
        k = self.prog.enclosing_class(func)
        for n in walk_func(func.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self.base(n.func.value, me, prefix) == prefix:
                w = self.lookup(prefix, mangle(k, n.func.attr))
                if w[0] == "method" and w[1] is not func:
                    out += self.reach(w[1], prefix, self.bind(n, w[1], func, prefix, argmap), depth - 1)
        return out

    def derive_memo(self, pc):
        own = self.owner(pc.prefix)
        g = own.find(pc.cell.getter) if own else None
        if g is None:
            return
        ctxs = self.reach(g, pc.prefix)
        star = pc.path.split("[")[0] + "[*]"
        stored = {}
        for f, am in ctxs:
            for path, v, node in self.stores(f, pc.prefix):
                if v is None or is_empty(v):
                    continue
                s = self.slice(v, f, pc.prefix, am)
                stored.setdefault(path, []).append((s, f, v, node))
                if path == pc.path or path == star and "[" in pc.path:
                    pc.deps |= s
                    pc.sites.append((f, node))
        pc.deps |= {pc.prefix + x for x in pc.cell.deps}
        pc.deps -= {pc.path, star} | {pc.prefix + x if not x.startswith("arg:") else x for x in pc.cell.ignore}
        base = pc.path.split("[")[0]
        for f, am in ctxs:
            for kp, cur, node in self.comparisons(f, pc.prefix):
                cover = self.slice(cur, f, pc.prefix, am, faithful=True) - {base, kp.split("[")[0]}
                have = set()
                for s, _, v, _n in stored.get(kp, []):
                    have |= s
                if kp in stored and cover and cover <= have | {base} and kp not in pc.deps:
                    pc.keys[kp] = pc.keys.get(kp, set()) | cover
        pc.keystores = {kp: stored[kp] for kp in pc.keys}
        pc.deps -= {kp.split("[")[0] for kp in pc.keys} | {base}

    def comparisons(self, func, prefix):
        """(stored key path, the current value it is compared with, node)"""
        for n in walk_func(func.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                sides = [n.left, n.comparators[0]]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("array_equal", "equals") and n.args:
                sides = n.args[:2] if n.func.attr == "array_equal" else [n.func.value, n.args[0]]
            else:
                continue
            if len(sides) != 2:
                continue
            for a, b in (sides, sides[::-1]):
                p = self.pathof(a, func, prefix)
                if p is not None and not isinstance(b, ast.Constant):
                    yield p, b, n

    def definitions(self, name, func):
        out = []
        for n in walk_func(func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id == name:
                            if isinstance(x.ctx, ast.Store):
                                out.append(n.value)
                            elif isinstance(t, ast.Subscript) and root_of(t) is x:
                                out.extend([n.value, t.slice])
                                p = getattr(n, "_parent", None)
                                while p is not None and p is not func.node:
                                    if isinstance(p, ast.For):
                                        out.append(p.iter)
                                    p = getattr(p, "_parent", None)
            elif isinstance(n, ast.AugAssign):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out.append(n.value)
            elif isinstance(n, ast.For):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out.append(n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
                    out.append(n.context_expr)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, ast.comprehension):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out.append(n.iter)
        return out

    def stores(self, func, prefix):
        """(path, value expr or None, node) for attribute stores on the object in `func`"""
        me = func.params[0] if func.params else None
        k = self.prog.enclosing_class(func)
        for n in walk_func(func.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute):
                            p = self.pathof(x, func, prefix)
                            if p is not None:
                                yield p, n.value, n
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            b = self.base(x.value, me, prefix)
                            if b is not None:
                                v = n.value
                                if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and x in t.elts:
                                    v = v.elts[t.elts.index(x)]
                                yield b + mangle(k, x.attr), v, n

    def methods(self, prefix):
        k = self.owner(prefix)
        seen = {}
        if k is None:
            return []
        for c in k.mro():
            for n, f in c.methods.items():
                seen.setdefault((n, "m"), f)
            for n, f in c.setters.items():
                seen.setdefault((n, "s"), f)
        return list(seen.values())

    def _derive(self, pc):
        deps = set()
        if pc.cell.kind == "memo":
            return self.derive_memo(pc)
        for f in self.methods(pc.prefix):
            if f.name == "__init__":
                continue
            for path, v, node in self.stores(f, pc.prefix):
                if path != pc.path or v is None or isinstance(v, ast.Constant):
                    continue
                s = {p for p in self.slice(v, f, pc.prefix) if not p.startswith("arg:")}
                if s:
                    deps |= s
                    pc.sites.append((f, node))
        own = {pc.path, pc.flag}
        deps -= own
        if pc.cell.only is not None:
            deps &= {pc.prefix + x for x in pc.cell.only}
        deps -= {pc.prefix + x for x in pc.cell.ignore}
        pc.deps = deps | {pc.prefix + x for x in pc.cell.deps}
        # key fields: compared in the getter with an expression, and stored in the same class
        g = self.owner(pc.prefix)
        g = g.find(pc.cell.getter) if g else None
        if g is None or not g.params:
            return
        me = g.params[0]
        k = self.prog.enclosing_class(g)
        for n in walk_func(g.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sides = [n.left, n.comparators[0]]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("array_equal", "equals") and n.args:
                sides = n.args[:2] if n.func.attr == "array_equal" else [n.func.value, n.args[0]]
            else:
                continue
            if len(sides) != 2:
                continue
            for a, b in (sides, sides[::-1]):
                if isinstance(a, ast.Attribute):
                    bb = self.base(a.value, me, pc.prefix)
                    if bb is None or isinstance(b, ast.Constant):
                        continue
                    kp = bb + mangle(k, a.attr)
                    cover = {p for p in self.slice(b, g, pc.prefix) if not p.startswith("arg:")}
                    stored = set()
                    for f in self.methods(pc.prefix):
                        if f.name != "__init__":
                            for path, v, _ in self.stores(f, pc.prefix):
                                if path == kp and v is not None and not isinstance(v, ast.Constant):
                                    stored |= self.slice(v, f, pc.prefix)
                    if cover and cover <= stored and kp not in pc.deps:
                        pc.keys[kp] = cover


class State:
    __slots__ = ("st", "assigned")

    def __init__(self, st, assigned):
        self.st, self.assigned = st, assigned

    def key(self):
        return (tuple(sorted(self.st.items())), tuple(sorted(self.assigned)))

    def copy(self):
        return State(dict(self.st), set(self.assigned))


class Txn:
    """abstract execution of one method on an object with cells; statuses: ok / invalid / frozenset(stale reasons)"""

    CAP = 200

    def __init__(self, model):
        self.m = model
        self.writes = {}       # path -> first node seen
        self.bad_returns = []
        self.torn = []

    def run(self, func, status):
        s = State({p: OK if pc.cell.kind == "always" else status.get(p, OK) for p, pc in self.m.cells.items()}, set())
        outs = self.call(func, "", [s], ())
        return outs

    def dedup(self, ss):
        seen, out = set(), []
        for s in ss:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out[:self.CAP]

    def call(self, func, prefix, states, stack, argmap=None):
        if (func.qual, prefix) in stack or len(stack) > 12:
            return states
        fr = Frame(self, func, prefix, stack + ((func.qual, prefix),), argmap)
        live = fr.block(func.body, states)
        return self.dedup(live + fr.returned)


class Frame:
    def __init__(self, txn, func, prefix, stack, argmap=None):
        self.argmap = argmap
        self.t, self.m, self.func, self.prefix, self.stack = txn, txn.m, func, prefix, stack
        self.me = func.params[0] if func.params and func.deco_kind() != "static" else None
        self.k = self.m.prog.enclosing_class(func)
        self.returned = []
        self.getter_cell = None
        if func.deco_kind() == "property":
            self.getter_cell = self.m.cell_of_getter(prefix, func.name)

    def base(self, e):
        return self.m.base(e, self.me, self.prefix) if self.me else None

    # -- statements --------------------------------------------------------
    def block(self, body, states):
        for st in body:
            if not states:
                return states
            states = self.t.dedup(self.stmt(st, states))
        return states

    def stmt(self, st, states):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return states
        if isinstance(st, ast.If):
            states = self.expr(st.test, states)
            a, b = [], []
            for s in states:
                v = self.test(st.test, s)
                if v is not False:
                    a.append(s.copy())
                if v is not True:
                    b.append(s.copy())
            return self.block(st.body, a) + self.block(st.orelse, b)
        if isinstance(st, (ast.For, ast.While)):
            states = self.expr(st.iter if isinstance(st, ast.For) else st.test, states)
            once = self.block(st.body, [s.copy() for s in states])
            skip = [] if isinstance(st, ast.For) and self.nonempty(st.iter) or isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value else states
            return self.block(st.orelse, skip + once)
        if isinstance(st, ast.Try):
            start = [s.copy() for s in states]
            done = self.block(st.body, states)
            out = self.block(st.orelse, done)
            for h in st.handlers:
                if all(isinstance(x, ast.Pass) for x in h.body) and h.type is not None and any(
                        getattr(x, "id", "") == "AttributeError" for x in ast.walk(h.type)):
                    continue        # only happens on a partly constructed object
                out = out + self.block(h.body, [s.copy() for s in start])
            return self.block(st.finalbody, out)
        if isinstance(st, ast.With):
            for i in st.items:
                states = self.expr(i.context_expr, states)
            return self.block(st.body, states)
        if isinstance(st, ast.Return):
            if st.value is not None:
                states = self.expr(st.value, states)
                self.check_return(st, states)
            self.returned += states
            return []
        if isinstance(st, ast.Raise):
            return []
        if isinstance(st, ast.Assign):
            states = self.expr(st.value, states)
            for t in st.targets:
                states = self.store(t, st.value, states, st)
            return states
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return states
            states = self.expr(st.value, states)
            return self.store(st.target, st.value, states, st)
        if isinstance(st, ast.AugAssign):
            states = self.expr(st.value, states)
            return self.store(st.target, st.value, states, st)
        if isinstance(st, ast.Delete):
            for t in st.targets:
                states = self.store(t, None, states, st)
            return states
        if isinstance(st, (ast.Break, ast.Continue)):
            return states
        for n in ast.iter_child_nodes(st):
            if isinstance(n, ast.expr):
                states = self.expr(n, states)
        return states

    def nonempty(self, e):
        if isinstance(e, (ast.List, ast.Tuple)):
            return bool(e.elts)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("zip", "enumerate") and bool(e.args) \
            and all(self.nonempty(a) for a in e.args)

    def check_return(self, st, states):
        pc = self.getter_cell
        if pc is None or len(self.stack) > 1:
            return
        for n in ast.walk(st.value):
            if isinstance(n, ast.Attribute) and self.base(n.value) is not None and self.base(n.value) + mangle(self.k, n.attr) == pc.path:
                for s in states:
                    if s.st[pc.path] != OK:
                        self.t.bad_returns.append((pc, s.st[pc.path], st))
                    else:
                        for d in pc.deps:
                            if d in s.st and s.st[d] != OK and pc.path not in s.assigned and not self.mutual(pc, d):
                                self.t.bad_returns.append((pc, "depends on %s, which is out of date here" % d, st))

    def mutual(self, pc, d):
        return pc.path in self.m.cells[d].deps if d in self.m.cells else False

    # -- tests ---------------------------------------------------------------
    def test(self, e, s):
        """True / False / None"""
        if isinstance(e, ast.Name):
            ds = self.m.definitions(e.id, self.func)
            return self.test(ds[0], s) if len(ds) == 1 and e.id not in self.func.all_params and not isinstance(ds[0], ast.Name) else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and self.base(e.func.value) is not None:
            b = self.base(e.func.value)
            w = self.m.lookup(b, mangle(self.k, e.func.attr))
            if w[0] == "method" and len(self.stack) < 10:
                rets = [n for n in walk_func(w[1].node) if isinstance(n, ast.Return)]
                if len(rets) == 1 and rets[0].value is not None:
                    fr = Frame(self.t, w[1], b, self.stack + ((w[1].qual, b),), self.m.bind(e, w[1], self.func, b, self.argmap))
                    return fr.test(rets[0].value, s)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.test(e.operand, s)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.test(x, s) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(e, ast.Attribute):
            b = self.base(e.value)
            if b is not None:
                p = b + mangle(self.k, e.attr)
                for pc in self.m.cells.values():
                    if pc.flag == p:
                        return s.st[pc.path] != INV
                    if pc.cell.kind == "none" and pc.path == p:
                        return s.st[p] != INV
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(op, ast.In) and isinstance(r, ast.Attribute) and r.attr == "__dict__" and self.base(r.value) is not None:
                return True         # methods run on constructed objects
            if isinstance(op, ast.Lt) and isinstance(r, ast.Attribute) and r.attr == "inf" or isinstance(op, ast.Gt) and isinstance(l, ast.Attribute) and l.attr == "inf":
                return True         # finite limits
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if isinstance(r, ast.Constant) and isinstance(l, ast.Attribute):
                    b = self.base(l.value)
                    if b is None:
                        return None
                    p = b + mangle(self.k, l.attr)
                    for pc in self.m.cells.values():
                        if r.value is None and pc.cell.kind == "none" and pc.path == p:
                            v = s.st[p] == INV
                            return (not v) if neg else v
                        if r.value is None and p in pc.keys:
                            return neg if s.st[pc.path] != INV else None
                        if isinstance(r.value, bool) and pc.flag == p:
                            v = (s.st[pc.path] != INV) == r.value
                            return (not v) if neg else v
                    return None
                v = self.keytest(l, r, s)
                return None if v is None else (not v if neg else v)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "array_equal" and len(e.args) >= 2:
            return self.keytest(e.args[0], e.args[1], s)
        return None

    def keytest(self, l, r, s):
        """does `key == current value` hold in this state?"""
        for a, b in ((l, r), (r, l)):
            p = self.m.pathof(a, self.func, self.prefix)
            if p is None:
                continue
            hits = [pc for pc in self.m.cells.values() if p in pc.keys]
            for pc in hits:
                v = s.st[pc.path]
                if isinstance(v, frozenset):
                    cover = pc.keys[p]
                    if pc.cell.kind == "memo":
                        cover = cover & self.m.slice(b, self.func, self.prefix, self.argmap, faithful=True)
                    if v & cover:
                        return False
            if hits:
                return True if all(s.st[pc.path] == OK for pc in hits) and all(pc.cell.kind != "memo" for pc in hits) else None
        return None

    # -- expressions: calls, property reads --------------------------------------
    def expr(self, e, states):
        if e is None:
            return states
        if isinstance(e, (ast.Lambda,)):
            return states
        if isinstance(e, ast.Call):
            for a in list(e.args) + [k.value for k in e.keywords]:
                states = self.expr(a.value if isinstance(a, ast.Starred) else a, states)
            f = e.func
            self.may_raise(e, states)
            if isinstance(f, ast.Attribute):
                b = self.base(f.value)
                if b is not None:
                    w = self.m.lookup(b, mangle(self.k, f.attr))
                    if w[0] == "method":
                        return self.t.call(w[1], b, states, self.stack, self.m.bind(e, w[1], self.func, b, self.argmap))
                    if f.attr in DICTMUT:
                        states = [self.write(s.copy(), b + ITEMS, None, e, True) for s in states]
                    return states
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.k is not None:
                    own = self.m.owner(self.prefix)
                    mro = own.mro() if own else []
                    if self.k in mro:
                        for c in mro[mro.index(self.k) + 1:]:
                            if f.attr in c.methods:
                                return self.t.call(c.methods[f.attr], self.prefix, states, self.stack,
                                                   self.m.bind(e, c.methods[f.attr], self.func, self.prefix, self.argmap))
                    if f.attr in DICTMUT:
                        states = [self.write(s.copy(), self.prefix + ITEMS, None, e, True) for s in states]
                    return states
                states = self.expr(f.value, states)
                if f.attr in MUT and isinstance(f.value, ast.Attribute):
                    bb = self.base(f.value.value)
                    if bb is not None:
                        states = [self.write(s.copy(), bb + mangle(self.k, f.value.attr), None, e, True) for s in states]
            return states
        if isinstance(e, (ast.Attribute, ast.Subscript)) and isinstance(e.ctx, ast.Load):
            p = self.m.pathof(e, self.func, self.prefix) if self.me else None
            if p in self.m.cells and self.m.cells[p].cell.kind == "memo":
                for s in states:
                    if s.st[p] != OK:
                        self.t.bad_returns.append((self.m.cells[p], s.st[p], e))
        if isinstance(e, ast.Attribute):
            b = self.base(e.value)
            if b is None:
                return self.expr(e.value, states)
            return self.read(b, mangle(self.k, e.attr), states)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                states = self.expr(n, states)
            elif isinstance(n, ast.comprehension):
                states = self.expr(n.iter, states)
        return states

    def read(self, prefix, attr, states):
        w = self.m.lookup(prefix, attr)
        if w[0] == "acc":
            return self.read(w[1], w[2], states)
        if w[0] == "prop":
            return self.t.call(w[1], prefix, states, self.stack)
        return states

    def may_raise(self, call, states):
        """a call that can fail while a key is already the new one and the value still the old one"""
        n = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, "id", "")
        if n in ("copy", "deepcopy", "dict", "list", "tuple", "set", "len", "array", "asarray", "isinstance", "hasattr", "array_equal", "debug", "info"):
            return
        for pc in self.m.cells.values():
            if pc.cell.kind == "memo":
                for s in states:
                    if isinstance(s.st[pc.path], frozenset) and any(k in s.assigned for k in pc.keys):
                        self.t.torn.append((pc, call, self.func))

    # -- stores ----------------------------------------------------------------
    def store(self, t, value, states, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [value] * len(t.elts)
            for x, v in zip(t.elts, vs):
                states = self.store(x, v, states, node)
            return states
        if isinstance(t, ast.Subscript):
            states = self.expr(t.slice, states)
            x = t.value
            while isinstance(x, ast.Subscript):
                x = x.value
            b = self.base(x) if x is t.value else None
            if b is not None:
                f = self.m.owner(b)
                f = f.find("__delitem__" if value is None else "__setitem__") if f else None
                if f is not None:
                    return self.t.call(f, b, states, self.stack)
                return [self.write(s.copy(), b + ITEMS, value, node, True) for s in states]
            if isinstance(x, ast.Name) and self.argmap and x.id in self.argmap.get("&", {}):
                return [self.write(s.copy(), self.argmap["&"][x.id], value, node, True) for s in states]
            if isinstance(x, ast.Attribute) and self.base(x.value) is not None:
                p = self.base(x.value) + mangle(self.k, x.attr)
                if x is t.value:
                    q = self.m.pathof(t, self.func, self.prefix)
                    if q in self.m.cells or any(q in pc.keys for pc in self.m.cells.values()) or q is not None and q.endswith("[*]") \
                            and any(pc.cell.kind == "memo" and c.split("[")[0] == p for c, pc in self.m.cells.items()):
                        p = q
                return [self.write(s.copy(), p, value, node, True) for s in states]
            return states
        if isinstance(t, ast.Attribute):
            b = self.base(t.value)
            if b is None:
                return states
            return self.assign(b, mangle(self.k, t.attr), value, states, node)
        return states

    def assign(self, prefix, attr, value, states, node):
        k = self.m.owner(prefix)
        if k is not None:
            f = k.find_setter(attr)
            if f is not None:
                return self.t.call(f, prefix, states, self.stack)
            w = self.m.lookup(prefix, attr)
            if w[0] == "acc":
                return self.assign(w[1], w[2], value, states, node)
        return [self.write(s.copy(), prefix + attr, value, node, False) for s in states]

    def write(self, s, path, value, node, element):
        self.t.writes.setdefault(path, (node, self.func))
        cells = self.m.cells
        const = isinstance(value, ast.Constant) or value is not None and is_empty(value)
        for p, pc in cells.items():
            if path in pc.keys:
                s.assigned.add(path)
            if path.endswith("[*]") and pc.cell.kind == "memo" and p != path and p.split("[")[0] + "[*]" == path and "[" in p:
                s.st[p] = OK
                s.assigned.add(p)
        if self.func.deco_kind() == "property" and path not in cells and path == self.prefix + "_" + self.func.name.lstrip("_"):
            return s                # a getter normalising its own backing field is not a change of the setting
        # whole container replaced: its cells start over, everything computed from it is out of date
        if path in self.m.containers:
            for p, pc in cells.items():
                if pc.prefix == path + ".":
                    s.st[p] = INV
        for p, pc in cells.items():
            if pc.flag == path:
                if const and getattr(value, "value", None) is False:
                    s.st[p] = INV
                elif const and getattr(value, "value", None) is True:
                    s.st[p] = OK if p in s.assigned else frozenset([path])
        if path in cells:
            pc = cells[path]
            if value is not None and is_empty(value):
                s.st[path] = INV if pc.cell.kind == "none" else OK if pc.cell.kind == "always" else s.st[path]
                return s           # dropping a cached value invalidates it; nothing else changes
            s.assigned.add(path)
            if pc.cell.kind in ("none", "always", "memo"):
                s.st[path] = OK
        for p, pc in cells.items():
            hit = path in pc.deps or any(d.startswith(path + ".") for d in pc.deps) and path in self.m.containers
            if not hit or p == path:
                continue
            if path in cells and self.mutual(pc, path) and self.getter_cell is cells[path]:
                continue           # filling one representation from the other
            if s.st[p] == INV:
                continue
            if p in s.assigned and pc.cell.kind == "none" and path not in cells:
                continue
            if p in s.assigned and pc.cell.kind == "always" and path in cells and self.mutual(pc, path):
                continue           # one quantity stored in two forms, both set here
            old = s.st[p] if isinstance(s.st[p], frozenset) else frozenset()
            s.st[p] = old | {path}
            s.assigned.discard(p) if pc.cell.kind != "flag" else None
        return s
