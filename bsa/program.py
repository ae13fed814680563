"""Whole-program index of /repo: modules, scopes, imports, classes, functions.

Only the standard library `ast` is used and nothing from bilby is imported or
executed.  Names are resolved through imports, re-exports (`from .io import *`),
function-local imports and local aliases to fully qualified dotted names such as
``numpy.random.uniform`` or ``bilby.core.utils.random.rng``.
"""
import ast
import builtins
import hashlib
import os

REPO = os.environ.get("BSA_REPO", "/repo")
PACKAGES = ("bilby", "cli_bilby")


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs; never reported as 'property holds'."""


class Func:
    __slots__ = ("module", "node", "name", "qual", "cls", "parent", "_params", "_cache")

    def __init__(self, module, node, name, qual, cls, parent):
        self.module, self.node, self.name, self.qual = module, node, name, qual
        self.cls, self.parent = cls, parent
        self._cache = {}

    @property
    def path(self):
        return self.module.relpath

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def decorators(self):
        return [] if isinstance(self.node, ast.Lambda) else self.node.decorator_list

    def deco_kind(self):
        """'property' | 'setter' | 'deleter' | 'static' | 'class' | None"""
        for d in self.decorators():
            if isinstance(d, ast.Name):
                if d.id in ("property", "cached_property"):
                    return "property"
                if d.id == "staticmethod":
                    return "static"
                if d.id == "classmethod":
                    return "class"
            if isinstance(d, ast.Attribute):
                if d.attr == "setter":
                    return "setter"
                if d.attr == "deleter":
                    return "deleter"
                if d.attr in ("cached_property", "abstractproperty"):
                    return "property"
        return None

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, module, node, name, qual, parent):
        self.module, self.node, self.name, self.qual, self.parent = module, node, name, qual, parent
        self.methods = {}      # name -> Func (plain / property getter)
        self.setters = {}      # name -> Func
        self.attrs = {}        # class-level assigned name -> value expr
        self.prog = module.prog
        self._mro = None

    @property
    def path(self):
        return self.module.relpath

    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            q = self.prog.resolve(self.module, b, None)
            out.append(q)
        return out

    def mro(self):
        """repo classes in linearised order (simple left-to-right DFS merge)."""
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def all_base_names(self):
        out = []
        for c in self.mro():
            out.append(c.qual)
            out.extend(b for b in c.bases if b)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None

    def is_property(self, name):
        f = self.find(name)
        return f is not None and f.deco_kind() == "property"

    def __repr__(self):
        return "<Class %s>" % self.qual


def _c3(cls):
    out, seen = [], set()

    def bases(c):
        res = []
        for b in c.bases:
            k = c.prog.classes.get(b) if b else None
            if k is not None:
                res.append(k)
        return res

    def lin(c, stack=()):
        if c in stack:
            return [c]
        seqs = [lin(b, stack + (c,)) for b in bases(c)] + [bases(c)]
        res = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    for c in lin(cls):
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out


class Module:
    def __init__(self, prog, name, path, relpath, is_pkg, text=None):
        self.prog, self.name, self.path, self.relpath, self.is_pkg = prog, name, path, relpath, is_pkg
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        self.src = text
        self.tree = ast.parse(self.src, filename=path)
        self.symbols = {}     # name -> ('import', dotted) | ('func', Func) | ('class', Class) | ('var', expr)
        self.star = []        # modules imported with *
        self.funcs = []
        self.classes = []
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        self._scan(self.tree.body, None, None, name)

    # -- building --------------------------------------------------------
    def abs_import(self, node):
        """absolute dotted module for an ImportFrom."""
        if node.level == 0:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        up = node.level - 1
        if up:
            parts = parts[:-up]
        if node.module:
            parts = parts + node.module.split(".")
        return ".".join(parts)

    def import_bindings(self, node):
        """(local name, dotted target) pairs; star imports yield ('*', module)."""
        out = []
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    out.append((a.asname, a.name))
                else:
                    out.append((a.name.split(".")[0], a.name.split(".")[0]))
        elif isinstance(node, ast.ImportFrom):
            base = self.abs_import(node)
            for a in node.names:
                if a.name == "*":
                    out.append(("*", base))
                else:
                    out.append((a.asname or a.name, base + "." + a.name if base else a.name))
        return out

    def _scan(self, body, cls, func, qual):
        for st in body:
            self._scan_stmt(st, cls, func, qual)

    def _scan_stmt(self, st, cls, func, qual):
        top = cls is None and func is None
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = qual + "." + st.name
            f = Func(self, st, st.name, q, cls if func is None else None, func)
            st._func = f
            self.funcs.append(f)
            if cls is not None and func is None:
                k = f.deco_kind()
                if k == "setter":
                    cls.setters[st.name] = f
                elif k == "deleter":
                    pass
                else:
                    cls.methods[st.name] = f
            elif top:
                self.symbols[st.name] = ("func", f)
            for d in list(st.args.defaults) + [d for d in st.args.kw_defaults if d] + st.decorator_list:
                self._scan_expr(d, cls, func, q)
            self._scan(st.body, None, f, q)
        elif isinstance(st, ast.ClassDef):
            q = qual + "." + st.name
            c = Class(self, st, st.name, q, func)
            st._class = c
            self.classes.append(c)
            if top:
                self.symbols[st.name] = ("class", c)
            self.prog.classes[q] = c
            self._scan(st.body, c, None, q)
        else:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                if top:
                    for local, target in self.import_bindings(st):
                        if local == "*":
                            self.star.append(target)
                        else:
                            self.symbols[local] = ("import", target)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    if isinstance(t, ast.Name) and st.value is not None:
                        if top:
                            self.symbols.setdefault(t.id, ("var", st.value))
                            if self.symbols[t.id][0] == "var":
                                self.symbols[t.id] = ("var", st.value)
                        elif cls is not None and func is None:
                            cls.attrs[t.id] = st.value
            # nested bodies and expressions
            for field, value in ast.iter_fields(st):
                if isinstance(value, list):
                    for v in value:
                        if isinstance(v, ast.stmt):
                            self._scan_stmt(v, cls, func, qual)
                        elif isinstance(v, ast.ExceptHandler):
                            self._scan(v.body, cls, func, qual)
                        elif isinstance(v, ast.match_case):
                            self._scan(v.body, cls, func, qual)
                        elif isinstance(v, ast.AST):
                            self._scan_expr(v, cls, func, qual)
                elif isinstance(value, ast.AST):
                    self._scan_expr(value, cls, func, qual)

    def _scan_expr(self, node, cls, func, qual):
        for n in ast.walk(node):
            if isinstance(n, ast.Lambda) and not hasattr(n, "_func"):
                f = Func(self, n, "<lambda>", "%s.<lambda@%d>" % (qual, n.lineno), None, func)
                n._func = f
                self.funcs.append(f)


class Program:
    def __init__(self, root=None, sources=None):
        """`sources` ({relative path: text}) builds a small in-memory program (self-tests)."""
        self.root = root or REPO
        self.modules = {}
        self.classes = {}
        if sources is not None:
            sources = dict(sources)
            sources.setdefault("bilby/__init__.py", "")
            for rel, text in sorted(sources.items()):
                parts = rel[:-3].split("/")
                is_pkg = parts[-1] == "__init__"
                parts = parts[:-1] if is_pkg else parts
                name = ".".join(parts)
                self.modules[name] = Module(self, name, rel, rel, is_pkg, text)
            for name in list(self.modules):     # implicit packages
                parts = name.split(".")
                for i in range(1, len(parts)):
                    pk = ".".join(parts[:i])
                    if pk not in self.modules:
                        self.modules[pk] = Module(self, pk, pk, pk, True, "")
        for pkg in PACKAGES if sources is None else ():
            base = os.path.join(self.root, pkg)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    name = ".".join(parts)
                    try:
                        self.modules[name] = Module(self, name, p, rel, is_pkg)
                    except SyntaxError as e:
                        raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        if "bilby" not in self.modules:
            raise AnalysisBroken("no bilby package under %s" % self.root)
        self.funcs = [f for m in self.modules.values() for f in m.funcs]
        self.by_qual = {}
        for f in self.funcs:
            k = f.deco_kind()
            if k in ("setter", "deleter"):
                continue
            self.by_qual[f.qual] = f

    # -- digests ----------------------------------------------------------
    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()

    # -- resolution ---------------------------------------------------------
    def lookup_dotted(self, dotted, depth=0):
        """Canonicalise a dotted name by following re-exports in repo modules."""
        if depth > 12 or not dotted:
            return dotted
        parts = dotted.split(".")
        # longest module prefix
        for i in range(len(parts), 0, -1):
            mname = ".".join(parts[:i])
            if mname in self.modules:
                rest = parts[i:]
                if not rest:
                    return dotted
                m = self.modules[mname]
                sub = mname + "." + rest[0]
                sym = m.symbols.get(rest[0])
                if sym is None and sub not in self.modules:
                    for s in m.star:
                        if s in self.modules:
                            got = self._star_lookup(s, rest[0], set())
                            if got:
                                return self.lookup_dotted(".".join([got] + rest[1:]), depth + 1)
                    return dotted
                if sym is None:
                    return dotted
                if sym[0] == "import":
                    tgt = ".".join([sym[1]] + rest[1:])
                    if tgt == dotted:
                        return dotted
                    return self.lookup_dotted(tgt, depth + 1)
                if sym[0] == "var" and len(rest) >= 1:
                    # alias of another name?
                    v = sym[1]
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        q = self.resolve(m, v, None, depth + 1)
                        if q and q != dotted:
                            return ".".join([q] + rest[1:])
                return dotted
        return dotted

    def _star_lookup(self, modname, name, seen):
        if modname in seen or modname not in self.modules:
            return None
        seen.add(modname)
        m = self.modules[modname]
        if name in m.symbols and not name.startswith("_"):
            return modname + "." + name
        for s in m.star:
            g = self._star_lookup(s, name, seen)
            if g:
                return g
        return None

    def resolve(self, module, expr, func=None, depth=0):
        """Dotted qualified name of a Name/Attribute expression or None."""
        if depth > 12:
            return None
        if isinstance(expr, ast.Attribute):
            base = self.resolve(module, expr.value, func, depth + 1)
            if base is None:
                return None
            return self.lookup_dotted(base + "." + expr.attr)
        if isinstance(expr, ast.Name):
            return self.resolve_name(module, expr.id, func, depth)
        return None

    def local_bindings(self, func):
        """name -> list of ('import', dotted) | ('expr', node) | ('param',) | ('other',)"""
        b = func._cache.get("bindings")
        if b is not None:
            return b
        b = {}
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            b.setdefault(x.arg, []).append(("param",))
        for x in (a.vararg, a.kwarg):
            if x:
                b.setdefault(x.arg, []).append(("param",))
        glob = set()
        for n in walk_func(func.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for local, tgt in func.module.import_bindings(n):
                    b.setdefault(local, []).append(("import", tgt))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    _bind(t, n.value, b)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                _bind(n.target, n.value, b)
            elif isinstance(n, ast.AugAssign):
                _bind(n.target, None, b)
            elif isinstance(n, ast.NamedExpr):
                _bind(n.target, n.value, b)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                _bind(n.target, None, b)
            elif isinstance(n, ast.comprehension):
                pass
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if it.optional_vars is not None:
                        _bind(it.optional_vars, None, b)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                b.setdefault(n.name, []).append(("other",))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not func.node:
                b.setdefault(n.name, []).append(("func", n._func))
            elif isinstance(n, ast.ClassDef):
                b.setdefault(n.name, []).append(("class", n._class))
            elif isinstance(n, ast.Global):
                glob.update(n.names)
        for g in glob:
            b.pop(g, None)
        func._cache["bindings"] = b
        return b

    def resolve_name(self, module, name, func, depth=0):
        f = func
        while f is not None:
            b = self.local_bindings(f).get(name)
            if b:
                if len(b) == 1:
                    k = b[0]
                    if k[0] == "import":
                        return self.lookup_dotted(k[1])
                    if k[0] == "expr" and isinstance(k[1], (ast.Name, ast.Attribute)):
                        q = self.resolve(module, k[1], f, depth + 1)
                        return q
                    if k[0] == "func":
                        return k[1].qual
                    if k[0] == "class":
                        return k[1].qual
                    return None
                imps = {self.lookup_dotted(k[1]) for k in b if k[0] == "import"}
                if len(imps) == 1 and all(k[0] == "import" for k in b):
                    return imps.pop()
                return None
            f = f.parent
        sym = module.symbols.get(name)
        if sym is not None:
            if sym[0] == "import":
                return self.lookup_dotted(sym[1])
            return self.lookup_dotted(module.name + "." + name)
        for s in module.star:
            g = self._star_lookup(s, name, set())
            if g:
                return self.lookup_dotted(g)
        if hasattr(builtins, name):
            return "builtins." + name
        return None

    # -- convenience ----------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken("module %s not found" % name)
        return m

    def cls(self, qual):
        c = self.classes.get(qual) or self.classes.get(self.lookup_dotted(qual))
        if c is None:
            raise AnalysisBroken("class %s not found" % qual)
        return c

    def func(self, qual):
        f = self.by_qual.get(qual) or self.by_qual.get(self.lookup_dotted(qual))
        if f is None:
            raise AnalysisBroken("function %s not found" % qual)
        return f

    def get_func(self, qual):
        return self.by_qual.get(qual)

    def subclass_map(self):
        """class qual -> all (transitive) subclasses"""
        if getattr(self, "_submap", None) is None:
            mp = {}
            for c in self.classes.values():
                for b in c.mro():
                    if b is not c:
                        mp.setdefault(b.qual, []).append(c)
            self._submap = mp
        return self._submap

    def subclasses(self, qual):
        c0 = self.cls(qual)
        return [c for c in self.classes.values() if c0 in c.mro() and c is not c0]

    def enclosing_func(self, node):
        n = getattr(node, "_parent", None)
        prev = node
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # decorators and defaults are evaluated in the enclosing scope
                if prev in n.decorator_list or _in_args(n.args, prev):
                    pass
                else:
                    return n._func
            elif isinstance(n, ast.Lambda):
                if not _in_args(n.args, prev):
                    return n._func
            prev, n = n, getattr(n, "_parent", None)
        return None

    def enclosing_class(self, func):
        f = func
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None


def _in_args(args, node):
    return node is args


def _bind(target, value, b):
    if isinstance(target, ast.Name):
        b.setdefault(target.id, []).append(("expr", value) if value is not None else ("other",))
    elif isinstance(target, (ast.Tuple, ast.List)):
        if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
            for t, v in zip(target.elts, value.elts):
                _bind(t, v, b)
        else:
            for t in target.elts:
                _bind(t, None, b)
    elif isinstance(target, ast.Starred):
        _bind(target.value, None, b)


def walk_func(node, into_lambda=False):
    """Walk the statements of one function without entering nested defs/classes.

    Nested FunctionDef/ClassDef/Lambda nodes are yielded but not entered."""
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    else:
        stack = list(reversed(node.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Lambda) and not into_lambda:
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def dotted_text(expr):
    """'self.a.b' for plain attribute chains, else None."""
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return ".".join(reversed(parts))
    return None


def src(node):
    try:
        return ast.unparse(node)
    except Exception:
        return "<%s>" % type(node).__name__


_PROGRAM = None


def load(root=None):
    global _PROGRAM
    if _PROGRAM is None or (root and _PROGRAM.root != root):
        _PROGRAM = Program(root)
    return _PROGRAM
