"""R02: no ordered output depends on the hash order of a set."""
import ast

from ..infer import infer
from ..program import walk_func
from ..report import loc

TITLE = "ordered outputs never depend on set hash order"
EXPLANATION = (
    "Type inference finds every expression of bilby that may evaluate to a set (displays, set(), comprehensions, set "
    "algebra, dict-view algebra, PARAMETER_SETS entries, attributes and return values carrying one). Each such use is "
    "classified: order-insensitive sinks (membership, len, sorted, min/max/any/all, set algebra, messages) are accepted; "
    "iteration whose body appends, stores new keys, accumulates or draws, and conversions to a sequence that is not "
    "immediately sorted, are violations because the resulting parameter/column/draw order changes with PYTHONHASHSEED.")
ASSUMPTIONS = ["sets handed to third-party code are not iterated in an order-sensitive way",
               "types of untyped external values are not sets"]
SINKS = {"builtins.sorted", "builtins.len", "builtins.min", "builtins.max", "builtins.any", "builtins.all",
         "builtins.set", "builtins.frozenset", "builtins.bool", "builtins.isinstance", "builtins.str",
         "builtins.repr", "builtins.print", "builtins.hash", "builtins.type", "builtins.hasattr", "builtins.id"}
ORDERED = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter",
           "builtins.next", "numpy.array", "numpy.asarray", "builtins.dict", "builtins.reversed",
           "collections.OrderedDict", "pandas.Index", "itertools.chain", "itertools.product",
           "itertools.combinations", "itertools.permutations"}
ORDERED_METHODS = {"join", "fromkeys", "extend"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
               "add", "discard", "remove", "update", "copy", "clear", "intersection_update", "difference_update",
               "symmetric_difference_update", "pop", "__contains__"}
MESSAGES = {"debug", "info", "warning", "error", "critical", "exception", "warn", "format"}


class Rule:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.inf = infer(ctx.prog)
        self._active = []

    def run(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.expr) or isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                    continue
                f = self.prog.enclosing_func(n)
                if "set" not in self.inf.types(n, m, f):
                    continue
                self.ctx.ok("set-use", "%s %s" % (loc(m, n), ast.unparse(n)[:80]))
                why = self.use(n, m, f)
                if why:
                    where = f.qual if f else m.name
                    self.ctx.bad("set-order", "%s:%s" % (where, why[0]),
                                 "hash order of set `%s` reaches %s" % (ast.unparse(n)[:80], why[1]), loc(m, n))

    # returns None when the use is order-insensitive
    def use(self, n, m, f):
        p = n._parent
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is n:
            return self.loop(p, n, m, f)
        if isinstance(p, ast.comprehension) and p.iter is n:
            comp = p._parent
            return self.comp(comp, m, f)
        if isinstance(p, ast.Starred):
            g = p._parent
            if isinstance(g, ast.Set):
                return None
            if isinstance(g, ast.Call):
                q = self.prog.resolve(m, g.func, f) or ""
                if q in SINKS:
                    return None
                if isinstance(g.func, ast.Attribute) and g.func.attr in SET_METHODS:
                    return None
            return ("star", "a positional expansion") if self.seq(g, m, f) else None
        if isinstance(p, ast.Call) and n in p.args:
            q = self.prog.resolve(m, p.func, f) or ""
            if q in SINKS:
                return None
            if q in ORDERED or (isinstance(p.func, ast.Attribute) and p.func.attr in ORDERED_METHODS):
                return self.seq(p, m, f)
        if isinstance(p, (ast.List, ast.Tuple)) and isinstance(n, ast.Starred):
            return self.seq(p, m, f)
        return None

    def comp(self, comp, m, f):
        if isinstance(comp, ast.SetComp):
            return None
        return self.seq(comp, m, f)

    def seq(self, e, m, f, depth=0):
        """e is a sequence/dict whose order is a set's order; is the order observable?"""
        p = getattr(e, "_parent", None)
        if p is None or e in self._active:      # an order already being followed adds nothing new
            return None
        self._active.append(e)
        try:
            return self._seq(e, p, m, f, depth)
        finally:
            self._active.pop()

    def _seq(self, e, p, m, f, depth):
        if isinstance(p, ast.Call):
            q = self.prog.resolve(m, p.func, f) or ""
            if p.func is not e:
                if q in SINKS:
                    return None
                if isinstance(p.func, ast.Attribute) and (p.func.attr in MESSAGES or p.func.attr in SET_METHODS
                                                          and "set" in self.inf.types(p.func.value, m, f)):
                    return None
                if q.startswith("logging.") or q.startswith("warnings."):
                    return None
                if q in ORDERED or (isinstance(p.func, ast.Attribute) and p.func.attr in ("join",)):
                    return self.seq(p, m, f, depth + 1)
                if q.endswith("Error") or q.endswith("Exception"):
                    return None
            return ("call", "call %s" % ast.unparse(p.func)[:60])
        if isinstance(p, ast.Compare):
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                return None
            return ("compare", "a sequence comparison")
        if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
            g = p
            while isinstance(g, (ast.JoinedStr, ast.FormattedValue)):
                e2, g = g, g._parent
            return self.seq(e2, m, f, depth + 1)
        if isinstance(p, ast.Raise):
            return None
        if isinstance(p, ast.Expr):
            return None
        if isinstance(p, (ast.If, ast.While, ast.Assert)) and getattr(p, "test", None) is e:
            return None
        if isinstance(p, ast.comprehension) and p.iter is e:
            return self.comp(p._parent, m, f)
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is e:
            return self.loop(p, e, m, f)
        if isinstance(p, ast.BinOp):
            return self.seq(p, m, f, depth + 1)
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            tg = p.targets if isinstance(p, ast.Assign) else [p.target]
            if f is not None and all(isinstance(t, ast.Name) for t in tg):
                for t in tg:
                    for x in walk_func(f.node, into_lambda=True):
                        if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load):
                            if self._sorted_in_place(f, t.id) or not self._reaches(f, p, t.id, x):
                                continue
                            w = self.seq(x, m, f, depth + 1)
                            if w:
                                return w
                return None
            return ("store", "`%s`" % ast.unparse(tg[0])[:60])
        if isinstance(p, ast.Return):
            return ("return", "the return value")
        if isinstance(p, ast.Attribute):
            g = getattr(p, "_parent", None)
            if isinstance(g, ast.Call) and g.func is p and p.attr in ("sort", "append", "remove", "count"):
                return None
            return ("attr", "`.%s`" % p.attr)
        if isinstance(p, ast.Subscript):
            if p.slice is e:
                return ("index", "a selection `%s`" % ast.unparse(p)[:60])
            return ("index", "positional access `%s`" % ast.unparse(p)[:60])
        return ("use", type(p).__name__)

    def _reaches(self, f, st, name, use):
        """can the value assigned at st still be in `name` at the use?  (straight-line kills only)"""
        if not isinstance(st, ast.Assign):
            return True
        parent = st._parent
        block = next((b for b in (getattr(parent, k, None) for k in ("body", "orelse", "finalbody"))
                      if isinstance(b, list) and st in b), None)
        if block is None:
            return True
        pos = (use.lineno, use.col_offset)
        kill = None
        for s in block[block.index(st) + 1:]:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                kill = s
                break
        p, looped = parent, False
        while p is not None and p is not f.node:
            looped = looped or isinstance(p, (ast.For, ast.While))
            p = getattr(p, "_parent", None)
        p = use
        while p is not None and p is not f.node:
            if isinstance(p, ast.Lambda) or isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return True
            p = getattr(p, "_parent", None)
        if pos < (st.lineno, st.col_offset):
            return looped and kill is None
        if any(y is use for y in ast.walk(st)):
            return looped and kill is None
        return kill is None or pos <= (kill.end_lineno, kill.end_col_offset)

    def _sorted_in_place(self, f, name):
        for x in walk_func(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                return True
        return False

    def loop(self, st, it, m, f):
        tgt = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        for s in st.body:
            w = self.stmt(s, st, it, tgt, m, f)
            if w:
                return w
        return None

    def stmt(self, s, loop, it, tgt, m, f):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Delete, ast.Assert, ast.Global, ast.Import,
                          ast.ImportFrom, ast.FunctionDef)):
            return None
        if isinstance(s, ast.Break):
            return None
        if isinstance(s, ast.Return):
            if s.value is None or not any(isinstance(x, ast.Name) and x.id in tgt for x in ast.walk(s.value)):
                return None
            return ("loop-return", "`%s` inside a loop over the set" % ast.unparse(s)[:60])
        if isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try)):
            for field in ("body", "orelse", "finalbody"):
                for x in getattr(s, field, []):
                    w = self.stmt(x, loop, it, tgt, m, f)
                    if w:
                        return w
            for h in getattr(s, "handlers", []):
                for x in h.body:
                    w = self.stmt(x, loop, it, tgt, m, f)
                    if w:
                        return w
            return None
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return None
            if isinstance(v, ast.Call):
                fn = v.func
                if isinstance(fn, ast.Attribute):
                    if fn.attr in MESSAGES or fn.attr in ("add", "discard", "remove", "pop", "setdefault_"):
                        return None
                    if fn.attr in ("append", "extend", "insert", "write", "appendleft", "put", "update", "setdefault"):
                        return ("loop-" + fn.attr, "`%s` inside a loop over the set" % ast.unparse(v)[:60])
                q = self.prog.resolve(m, fn, f) or ""
                if q in ("builtins.print", "builtins.setattr", "builtins.delattr") or q.startswith("warnings."):
                    return None
                return None if not self._draws(v, m, f) else ("loop-draw", "random draws inside a loop over the set")
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                return ("loop-yield", "a generator's output order")
            return None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                if isinstance(t, ast.Subscript):
                    if self._existing_key(t, it, loop, m, f):
                        continue
                    return ("loop-setitem", "the key order of `%s`" % ast.unparse(t.value)[:60])
            if s.value is not None and self._draws(s.value, m, f):
                return ("loop-draw", "random draws inside a loop over the set")
            return None
        if isinstance(s, ast.AugAssign):
            if isinstance(s.value, (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)) or (
                    isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)):
                return ("loop-accumulate", "`%s` inside a loop over the set" % ast.unparse(s)[:60])
            return None
        return None

    def _draws(self, e, m, f):
        for x in ast.walk(e):
            if isinstance(x, (ast.Name, ast.Attribute)):
                q = self.prog.resolve(m, x, f) or ""
                if q.startswith("bilby.core.utils.random.rng"):
                    return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                    "sample", "sample_subset", "resample", "rvs"):
                return True
        return False

    def _existing_key(self, t, it, loop, m, f):
        """d[x] = .. where the loop runs over an intersection with d (key already present), or is guarded by `x in d`"""
        d = ast.unparse(t.value)
        p = t
        while p is not loop and p is not None:
            if isinstance(p, ast.If):
                for c in ast.walk(p.test):
                    if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) and \
                            ast.unparse(c.comparators[0]) in (d, d + ".keys()"):
                        return True
            p = getattr(p, "_parent", None)
        e = it
        if isinstance(e, ast.Name) and f is not None:
            b = self.prog.local_bindings(f).get(e.id, [])
            if len(b) == 1 and b[0][0] == "expr":
                e = b[0][1]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "intersection":
            parts = [e.func.value] + e.args
            if any(ast.unparse(x) in (d, d + ".keys()", "set(%s)" % d, "set(%s.keys())" % d) for x in parts):
                return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitAnd):
            if any(ast.unparse(x) in (d, d + ".keys()", "set(%s)" % d, "set(%s.keys())" % d) for x in (e.left, e.right)):
                return True
        if isinstance(e, ast.Call) and (self.prog.resolve(m, e.func, f) == "builtins.set") and e.args and \
                ast.unparse(e.args[0]) in (d, d + ".keys()"):
            return True
        return False


def check(ctx):
    ctx.rule("set-use", "every may-be-set expression is classified", floor=20 if ctx.tier != "selftest" else 0)
    ctx.rule("set-order", "set order reaches an ordered output (expected count zero)")
    Rule(ctx).run()


def _m(t):
    return {"bilby/x.py": t}


SELFTESTS = [
    ("append", _m("def f(a, b):\n    out = []\n    for k in set(a) - set(b):\n        out.append(k)\n    return out\n"), "set-order"),
    ("setitem", _m("def f(a, b):\n    out = {}\n    s = set(a) | set(b)\n    for k in s:\n        out[k] = 1\n    return out\n"),
     "set-order"),
    ("list", _m("def f(a):\n    return list({x for x in a})\n"), "set-order"),
    ("via-attr", _m("class A:\n    def __init__(self, k):\n        self.k = set(k)\n    def g(self):\n"
                    "        return [x for x in self.k]\n"), "set-order"),
    ("via-call", _m("def g(a):\n    return set(a)\ndef f(a):\n    keys = g(a)\n    return dict.fromkeys(keys)\n"), "set-order"),
    ("rebinding", _m("def f(a, d):\n    keys = list(a)\n    keys = list({k for k in keys} - set(d))\n    d['k'] = keys\n    return d\n"), "set-order"),
    ("resorted", _m("def f(a, d):\n    keys = [k for k in set(a) - set(d)]\n    keys = sorted(keys)\n    d['k'] = keys\n    return keys\n"), None),
    ("good", _m("import logging\ndef f(a, b):\n    s = set(a) - set(b)\n    for k in s:\n        logging.info(k)\n"
                "    for k in set(a).intersection(b.keys()):\n        b[k] = 0\n    x = list(s)\n    x.sort()\n"
                "    return sorted(s), len(s), 'z' in s, x\n"), None),
]
