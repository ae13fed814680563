"""A small model of pandas data frames and series for the abstract evaluation: columns are arrays of forms with row labels."""
from .algebra import const
from .interp import Obj, Arr, Py, PyExc, T, integer, ndim
from .valnum import Undecided


class Ser(Arr):
    """a series: an array with row labels; integer subscripts are labels"""

    def __init__(self, values=(), index=None):
        Arr.__init__(self, values)
        self.index = list(range(len(self))) if index is None else list(index)

    def frame_get(self, it, k):
        if isinstance(k, slice):
            return Ser(list.__getitem__(self, k), self.index[k])
        if isinstance(k, (list, Arr)) and k and all(isinstance(b, bool) for b in k):
            if len(k) != len(self):
                raise PyExc("IndexError")
            return Ser([x for x, b in zip(self, k) if b], [i for i, b in zip(self.index, k) if b])
        i = integer(k) if not isinstance(k, (list, tuple, str)) or integer(k) is not None else None
        if i is None:
            raise Undecided("series subscript")
        if i not in self.index:
            raise PyExc("KeyError")
        return list.__getitem__(self, self.index.index(i))

    def frame_set(self, it, k, v):
        i = integer(k)
        if i is not None:
            if i not in self.index:
                raise PyExc("KeyError")
            list.__setitem__(self, self.index.index(i), v)
            return
        raise Undecided("store into a series")

    def frame_attr(self, it, n):
        if n == "values":
            return Arr(self)
        if n == "index":
            return Arr(const(i) for i in self.index)
        if n == "iloc":
            return Obj("iloc", {}, {"__getitem__": lambda i, a, k: Ser(Arr.__getitem__(self, a[0]), self.index[a[0]]) if isinstance(a[0], slice) else it.arrget(Arr(self), a[0]),
                                    "__setitem__": lambda i, a, k: list.__setitem__(self, integer(a[0]), a[1])})
        if n in ("to_numpy", "tolist", "to_list"):
            return Py(lambda i, a, k: Arr(self) if n == "to_numpy" else list(self))
        if n == "copy":
            return Py(lambda i, a, k: Ser(self, self.index))
        if n == "reset_index":
            return Py(lambda i, a, k: Ser(self) if k.get("drop") is True else it._und("reset_index"))
        if n in ("apply", "map"):
            return Py(lambda i, a, k: Ser([it.apply(a[0], [x]) for x in self], self.index))
        if n in ("items", "iteritems"):
            return Py(lambda i, a, k: [T((const(l), x)) for l, x in zip(self.index, self)])
        return None


class Table(Obj):
    """a data frame; self.items: {column: Ser}, all with the labels self.index"""

    def __init__(self, columns=None, index=None):
        Obj.__init__(self, "pandas.core.frame.DataFrame", {}, {}, {})
        self.index = list(index) if index is not None else None
        for k, v in (columns or {}).items():
            self.put(k, v)
        names = [n for n in dir(Table) if n.startswith("do_")]
        self.hooks = {n[3:]: (lambda it, a, k, f=getattr(self, n): f(it, *a, **k)) for n in names}
        self.hooks.update({"__getitem__": lambda it, a, k: self.get(it, a[0]), "__setitem__": lambda it, a, k: self.put(a[0], a[1]), "__len__": lambda it, a, k: const(self.size()),
                           "__contains__": lambda it, a, k: a[0] in self.items, "__iter__": lambda it, a, k: list(self.items)})

    def quals(self):
        return {"pandas.core.frame.DataFrame", "pandas.DataFrame"}

    def clone(self):
        return Table({k: Ser(v, v.index) for k, v in self.items.items()}, self.index)

    def size(self):
        return len(self.index or [])

    def put(self, k, v):
        if not isinstance(k, str):
            raise Undecided("column %r" % (k,))
        if isinstance(v, Ser) and self.index is not None and v.index != self.index:
            if set(v.index) >= set(self.index) and len(set(v.index)) == len(v.index):
                v = Ser([list.__getitem__(v, v.index.index(i)) for i in self.index], self.index)     # rows are matched by label
            else:
                raise Undecided("missing labels")
        elif isinstance(v, (Arr, list)) or (isinstance(v, T)):
            if self.index is None:
                self.index = list(v.index) if isinstance(v, Ser) else list(range(len(v)))
            if len(v) != len(self.index):
                raise PyExc("ValueError")
            v = Ser(v, self.index)
        else:
            v = Ser([v] * self.size(), self.index or [])
        self.items[k] = v

    def get(self, it, k):
        if isinstance(k, str):
            if k not in self.items:
                raise PyExc("KeyError")
            return self.items[k]
        if isinstance(k, slice):
            return Table({c: list.__getitem__(v, k) for c, v in self.items.items()}, self.index[k])
        if isinstance(k, (list, T, Arr)) and len(k) and all(isinstance(x, str) for x in k):
            if [x for x in k if x not in self.items]:
                raise PyExc("KeyError")
            return Table({c: Ser(self.items[c], self.index) for c in k}, self.index)
        if isinstance(k, (list, Arr)) and all(isinstance(x, bool) for x in k):
            if len(k) != self.size():
                raise PyExc("ValueError")
            return self.rows([i for i, b in enumerate(k) if b])
        raise Undecided("data frame subscript %r" % (k,))

    def rows(self, pos):
        return Table({c: [list.__getitem__(v, i) for i in pos] for c, v in self.items.items()}, [self.index[i] for i in pos])

    def row(self, i):
        return Obj("pandas.core.series.Series", {}, {"to_dict": lambda it, a, k: {c: list.__getitem__(v, i) for c, v in self.items.items()},
                                                     "keys": lambda it, a, k: list(self.items), "copy": lambda it, a, k: self.row(i)},
                   {c: list.__getitem__(v, i) for c, v in self.items.items()})

    # -- methods ---------------------------------------------------------------
    def do_keys(self, it):
        return list(self.items)

    def do_copy(self, it, deep=True):
        return self.clone()

    def do_reset_index(self, it, drop=False, inplace=False):
        if drop is not True or inplace:
            raise Undecided("reset_index")
        return Table({k: list(v) for k, v in self.items.items()}, range(self.size()))

    def do_equals(self, it, o):
        if isinstance(o, Table) and list(o.items) == list(self.items) and o.size() == self.size():
            same = [list.__getitem__(v, i) == list.__getitem__(o.items[n], i) for n, v in self.items.items() for i in range(self.size())]
            return all(x is True for x in same)
        return False

    def do_iterrows(self, it):
        return [T((const(l), self.row(i))) for i, l in enumerate(self.index or [])]

    def do_to_dict(self, it, orient="dict"):
        if orient == "list":
            return {k: list(v) for k, v in self.items.items()}
        if orient == "records":
            return [dict(self.row(i).items) for i in range(self.size())]
        if orient == "series":
            return dict(self.items)
        raise Undecided("to_dict")

    def do_drop(self, it, labels=None, axis=None, columns=None, inplace=False):
        cols = columns if columns is not None else labels
        if columns is None and integer(axis) != 1 and axis != "columns":
            raise Undecided("drop")
        cols = [cols] if isinstance(cols, str) else list(cols)
        if inplace is True:
            for c in cols:
                del self.items[c]
            return None
        return Table({k: v for k, v in self.items.items() if k not in cols}, self.index)

    def do_rename(self, it, mapper=None, columns=None, axis=None, inplace=False, copy=None):
        m = columns if columns is not None else mapper
        if not isinstance(m, dict) or columns is None and integer(axis) != 1 and axis != "columns":
            raise Undecided("rename")
        new = {m.get(k, k): v for k, v in self.items.items()}
        if inplace is True:
            self.items.clear()
            self.items.update(new)
            return None
        return Table(new, self.index)

    def do_pop(self, it, k):
        if k not in self.items:
            raise PyExc("KeyError")
        return self.items.pop(k)

    def do_assign(self, it, **kw):
        t = self.clone()
        for k, v in kw.items():
            t.put(k, it.apply(v, [t]) if not isinstance(v, (Arr, list)) and hasattr(v, "node") else v)
        return t

    def do_items(self, it):
        return [T((k, v)) for k, v in self.items.items()]

    def do_get(self, it, k, default=None):
        return self.items.get(k, default)

    def do_to_numpy(self, it):
        return self.matrix()

    def matrix(self):
        return Arr(Arr(list.__getitem__(v, i) for v in self.items.values()) for i in range(self.size()))

    def frame_attr(self, it, n):
        if n == "columns":
            return list(self.items)
        if n == "index":
            return Arr(const(i) for i in (self.index or []))
        if n == "values":
            return self.matrix()
        if n == "shape":
            return T((const(self.size()), const(len(self.items))))
        if n == "empty":
            return not self.size() or not self.items
        if n in ("iloc", "loc"):
            def get(i, a, k):
                x = a[0]
                if isinstance(x, T) and len(x) == 2 and n == "loc" and isinstance(x[0], slice) and x[0] == slice(None):
                    return self.get(i, x[1])
                pos = list(range(self.size()))
                if integer(x) is not None and not isinstance(x, list):
                    j = integer(x)
                    if n == "loc":
                        if j not in self.index:
                            raise PyExc("KeyError")
                        j = self.index.index(j)
                    if not -len(pos) <= j < len(pos):
                        raise PyExc("IndexError")
                    return self.row(pos[j])
                if isinstance(x, slice) and n == "iloc":
                    return self.rows(pos[x])
                if isinstance(x, (list, Arr)) and all(isinstance(b, bool) for b in x):
                    return self.get(i, x)
                if isinstance(x, (list, Arr)) and n == "iloc":
                    return self.rows([pos[integer(j)] for j in x])
                raise Undecided(n)

            def put(i, a, k):
                x, v = a
                if isinstance(x, T) and len(x) == 2 and isinstance(x[0], slice) and x[0] == slice(None) and n == "loc":
                    self.put(x[1], v)
                    return
                raise Undecided("store by " + n)
            return Obj(n, {}, {"__getitem__": get, "__setitem__": put})
        return self.items[n] if n in self.items else None


def make(it, a, k):
    """pandas.DataFrame(...)"""
    names = ["data", "index", "columns"]
    b = dict(zip(names, a))
    b.update(k)
    data, index, cols = b.get("data"), b.get("index"), b.get("columns")
    if set(b) - set(names):
        raise Undecided("DataFrame arguments")
    idx = None if index is None else [integer(x) for x in index]
    if isinstance(data, Table):
        return data.clone() if cols is None else data.get(it, list(cols)).clone()
    if isinstance(data, Obj) and isinstance(data.items, dict):
        data = data.items
    if data is None:
        data = {}
    if isinstance(data, dict):
        t = Table({}, idx)
        for c in (data if cols is None else cols):
            v = data[c]
            if not isinstance(v, (Arr, list)) and not (isinstance(v, T)) and t.index is None and idx is None:
                longest = [x for x in data.values() if isinstance(x, (Arr, list))]
                if not longest:
                    raise PyExc("ValueError")
                t.index = list(range(len(longest[0])))
            t.put(c, v)
        return t
    if isinstance(data, (Arr, list)) and data and all(isinstance(x, (dict, Obj)) for x in data):
        recs = [x if isinstance(x, dict) else x.items for x in data]
        keys = list(dict.fromkeys(c for r in recs for c in r))
        if any(set(r) != set(keys) for r in recs):
            raise Undecided("records with different keys")
        return Table({c: [r[c] for r in recs] for c in keys}, idx)
    if isinstance(data, (Arr, list)) and ndim(data if isinstance(data, Arr) else Arr(data)) == 2 and cols is not None:
        if any(len(r) != len(cols) for r in data):
            raise PyExc("ValueError")
        return Table({c: [r[j] for r in data] for j, c in enumerate(cols)}, idx)
    raise Undecided("DataFrame of %r" % (data,))


def concat(it, a, k):
    parts = list(a[0])
    if not all(isinstance(p, Table) for p in parts) or set(k) - {"ignore_index"}:
        raise Undecided("concat")
    cols = list(parts[0].items)
    if any(set(p.items) != set(cols) for p in parts):
        raise Undecided("concat of different columns")
    vals = {c: [x for p in parts for x in p.items[c]] for c in cols}
    labels = [i for p in parts for i in (p.index or [])]
    return Table(vals, range(len(labels)) if k.get("ignore_index") is True else labels)


EXTERNALS = {"pandas.DataFrame": make, "pandas.core.frame.DataFrame": make, "pandas.concat": concat,
             "pandas.Series": lambda it, a, k: Ser(a[0] if a else k["data"])}
