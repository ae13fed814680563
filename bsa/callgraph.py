"""May-call graph over resolved callees (names, self/super methods, typed receivers,
local functions, functools.partial)."""
import ast

from .infer import infer
from .program import walk_func


def callees_of(prog, func):
    """set of Func directly referenced (called or passed) by func."""
    key = "callees"
    if key in func._cache:
        return func._cache[key]
    inf = infer(prog)
    out = set()
    for n in walk_func(func.node, into_lambda=True):
        if isinstance(n, ast.Call):
            for q in inf.callees(n, func.module, func):
                if q in prog.by_qual:
                    out.add(prog.by_qual[q])
            if isinstance(n.func, ast.Attribute):
                ts = inf.types(n.func.value, func.module, func)
                for t in ts:
                    k = prog.classes.get(t)
                    if k is not None:
                        m = k.find(n.func.attr)
                        if m is not None:
                            out.add(m)
                if not ts and isinstance(n.func.value, ast.Name) and _untyped_local(prog, func, n.func.value.id):
                    # untyped local receiver: methods of that name defined in the same module
                    for k in func.module.classes:
                        m = k.methods.get(n.func.attr)
                        if m is not None:
                            out.add(m)
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
            q = prog.resolve(func.module, n, func)
            if q in prog.by_qual:
                out.add(prog.by_qual[q])
            elif isinstance(n, ast.Attribute):
                c = inf.self_class(n.value, func)
                if c is not None:
                    m = c.find(n.attr)
                    if m is not None:
                        out.add(m)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not func.node:
            out.add(n._func)
    func._cache[key] = out
    return out


def _untyped_local(prog, func, name):
    f = func
    while f is not None:
        b = prog.local_bindings(f).get(name)
        if b:
            return not any(k[0] in ("import", "func", "class") for k in b)
        f = f.parent
    return False


def reachable(prog, roots):
    seen, stack = set(), list(roots)
    while stack:
        f = stack.pop()
        if f in seen:
            continue
        seen.add(f)
        stack.extend(callees_of(prog, f))
    return seen
