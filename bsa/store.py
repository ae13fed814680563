"""Files kept in memory for abstract evaluation: JSON text, HDF5 trees, pickles."""
from . import algebra as A
from .algebra import E, const
from .interp import Obj, Arr, T, PyExc, Py, Ext, integer
from .valnum import Undecided, Sp


class Text(Obj):
    """JSON text: the tree it stands for"""

    def __init__(self, tree, binary=False):
        Obj.__init__(self, "bytes" if binary else "str", {}, {"encode": lambda i, a, k: Text(tree, True), "decode": lambda i, a, k: Text(tree)})
        self.tree, self.binary = tree, binary

    def clone(self):
        return self

    def quals(self):
        return {"bytes", "builtins.bytes"} if self.binary else {"str", "builtins.str"}


class Scalar(Obj):
    """a numpy scalar of a given type"""
    KINDS = {"int64": ("numpy.int64", "numpy.int_", "numpy.integer", "numpy.signedinteger", "numpy.number", "numpy.generic"),
             "int32": ("numpy.int32", "numpy.integer", "numpy.signedinteger", "numpy.number", "numpy.generic"),
             "float32": ("numpy.float32", "numpy.floating", "numpy.number", "numpy.generic"),
             "float64": ("numpy.float64", "numpy.floating", "numpy.number", "numpy.generic", "float", "builtins.float"),
             "bool_": ("numpy.bool_", "numpy.generic"), "complex128": ("numpy.complex128", "numpy.complexfloating", "numpy.number", "numpy.generic", "complex", "builtins.complex")}

    def __init__(self, kind, value):
        self.kind, self.value = kind, value
        Obj.__init__(self, "numpy." + kind, {"real": value, "imag": value}, {"item": lambda i, a, k: value, "__bool__": lambda i, a, k: value, "__float__": lambda i, a, k: value, "__int__": lambda i, a, k: value})

    def clone(self):
        return self

    def quals(self):
        return set(self.KINDS[self.kind])

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.value)


class Complex(Obj):
    def __init__(self, re, im):
        Obj.__init__(self, "complex", {"real": re, "imag": im})
        self.pair = (re, im)

    def clone(self):
        return self

    def quals(self):
        return {"complex", "builtins.complex"}


class Span(Obj):
    """datetime.timedelta"""

    def __init__(self, v):
        Obj.__init__(self, "datetime.timedelta", {}, {"total_seconds": lambda i, a, k: v})
        self.v = v

    def clone(self):
        return self

    def __repr__(self):
        return "timedelta(%s)" % self.v


def dtype(it, o):
    """the dtype of an array of these elements"""
    flat = []

    def walk(x):
        for y in x:
            if isinstance(y, (list, Arr)) or isinstance(y, T) and not isinstance(y, E):
                walk(y)
            else:
                flat.append(y)
    walk(o)
    if not flat:
        kind = "f"
    elif all(isinstance(x, (str, Text)) and not getattr(x, "binary", False) for x in flat):
        kind = "U"
    elif all(isinstance(x, bytes) for x in flat):
        kind = "S"
    elif all(isinstance(x, bool) for x in flat):
        kind = "b"
    elif all(isinstance(x, (E, Sp, bool, Scalar)) for x in flat):
        kind = "f"
    elif any(isinstance(x, str) for x in flat) and all(isinstance(x, (str, E, Sp, bool)) for x in flat):
        kind = "U"
    else:
        kind = "O"
    typ = {"f": "numpy.float64", "U": "numpy.str_", "S": "numpy.bytes_", "b": "numpy.bool_", "O": "numpy.object_"}[kind]
    return Obj("numpy.dtype", {"kind": kind, "type": Ext(typ), "text": {"U": "<U9", "S": "|S9"}.get(kind, typ)}, {"__str__": lambda i, a, k: {"U": "<U9", "S": "|S9"}.get(kind, typ)})


def subtype(it, a, k):
    names = {"f": {"numpy.number", "numpy.floating", "numpy.inexact"}, "U": {"numpy.str_", "numpy.character"}, "S": {"numpy.bytes_", "numpy.character"}, "b": {"numpy.bool_"}, "O": {"numpy.object_"}}
    if not isinstance(a[0], Obj) or "kind" not in a[0].attrs or not hasattr(a[1], "q"):
        raise Undecided("issubdtype")
    return a[1].q in names[a[0].attrs["kind"]] | {"numpy.generic"}


class Store:
    """externals that keep files in memory"""

    def __init__(self, it, clone):
        self.it, self.clone, self.files, self.log = it, clone, {}, []
        it.dtypes = dtype
        it.ext.update({
            "json.dump": self.dump, "json.dumps": lambda i, a, k: Text(self.encode(a[0], k)), "json.load": self.load, "json.loads": self.loads,
            "json.JSONEncoder.default": self.refuse, "json.encoder.JSONEncoder.default": self.refuse, "builtins.open": self.open, "io.open": self.open,
            "gzip.GzipFile": self.open, "gzip.open": self.open, "h5py.File": self.h5, "dill.dump": self.dill, "dill.load": self.undill, "pickle.dump": self.dill, "pickle.load": self.undill,
            "os.path.isfile": self.there, "os.path.exists": self.there, "os.remove": self.remove, "shutil.move": self.move, "os.replace": self.move, "os.rename": self.move,
            "os.makedirs": lambda i, a, k: None, "numpy.issubdtype": subtype, "os.fsync": lambda i, a, k: None,
            "builtins.complex": self.complex, "builtins.issubclass": self.subclass, "datetime.timedelta": self.span, "inspect.isfunction": lambda i, a, k: type(a[0]).__name__ in ("Fn", "Lam"),
            "inspect.isclass": lambda i, a, k: type(a[0]).__name__ == "Cls",
        })

    def complex(self, it, a, k):
        if len(a) == 2:
            return Complex(a[0], a[1])
        if isinstance(a[0], Complex):
            return a[0]
        if isinstance(a[0], Scalar) and isinstance(a[0].value, Complex):
            return a[0].value
        raise Undecided("complex")

    def span(self, it, a, k):
        unit = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600}
        v = const(0)
        for n, x in list(zip(("days", "seconds"), a)) + list(k.items()):
            if n not in unit or not isinstance(x, E):
                raise Undecided("timedelta")
            v = v + x * const(unit[n])
        return Span(v)

    def subclass(self, it, a, k):
        base = a[1] if isinstance(a[1], T) else [a[1]]
        if isinstance(a[0], Ext):
            up = {"numpy.str_": {"str", "builtins.str"}, "numpy.bytes_": {"bytes", "builtins.bytes"}, "numpy.float64": {"float", "builtins.float"}}.get(a[0].q, set()) | {a[0].q}
            return any(getattr(b, "q", b if isinstance(b, str) else "?") in up for b in base)
        if type(a[0]).__name__ == "Cls":
            names = {a[0].cls.qual} | set(a[0].cls.all_base_names())
            return any((b.cls.qual if type(b).__name__ == "Cls" else getattr(b, "q", "?")) in names for b in base)
        raise Undecided("issubclass")

    # -- file system ------------------------------------------------------------------
    def there(self, it, a, k):
        return a[0] in self.files

    def remove(self, it, a, k):
        if a[0] not in self.files:
            raise PyExc("FileNotFoundError")
        del self.files[a[0]]

    def move(self, it, a, k):
        if a[0] not in self.files:
            raise PyExc("FileNotFoundError")
        self.files[a[1]] = self.files.pop(a[0])

    def open(self, it, a, k):
        name = a[0] if a else k["filename"]
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(name, str) or not isinstance(mode, str):
            raise Undecided("open")
        if "w" in mode:
            self.files[name] = None
        elif name not in self.files:
            raise PyExc("FileNotFoundError")

        def write(i, x, y):
            old = self.files[name]
            if old is not None and not (isinstance(old, str) and isinstance(x[0], str)):
                raise Undecided("text written in parts")
            self.files[name] = x[0] if old is None else old + x[0]

        def lines(i, x, y):
            t = self.files[name]
            if not isinstance(t, str):
                raise Undecided("lines")
            code = k.get("encoding")
            if code == "unicode_escape":
                t = t.encode("latin-1", "backslashreplace").decode("unicode_escape")
            return t.splitlines(True)
        f = Obj("file", {"name": name}, {"write": write, "read": lambda i, x, y: self.files[name], "close": lambda i, x, y: None, "__iter__": lines, "readlines": lines, "__exit__": lambda i, x, y: None, "flush": lambda i, x, y: None,
                                         "fileno": lambda i, x, y: const(3)})
        f.hooks["__enter__"] = lambda i, x, y: f
        return f

    def dill(self, it, a, k):
        self.files[a[1].attrs["name"]] = ("pickle", self.clone(a[0]))

    def undill(self, it, a, k):
        x = self.files[a[0].attrs["name"]]
        if not isinstance(x, tuple):
            raise PyExc("UnpicklingError")
        return self.clone(x[1])

    # -- JSON ------------------------------------------------------------------------------
    def encode(self, v, k):
        cls = k.get("cls")
        bad = set(k) - {"cls", "indent", "sort_keys"}
        if bad:
            raise Undecided("json option %s" % bad)
        it = self.it

        def enc(x, depth=0):
            if depth > 30:
                raise PyExc("ValueError")
            if isinstance(x, Text):
                raise Undecided("text in text")
            if x is None or isinstance(x, (bool, str, Sp)) or isinstance(x, E):
                return x
            if isinstance(x, Scalar) and x.kind == "float64":
                return x.value
            if isinstance(x, Obj) and isinstance(x.items, dict) and not isinstance(x.cls, str):
                if x.quals() & {"dict", "builtins.dict", "collections.OrderedDict"}:
                    x = x.items
            if isinstance(x, Obj) and isinstance(x.items, list) and x.quals() & {"list", "builtins.list"}:
                x = x.items
            if isinstance(x, dict):
                out = {}
                for n, y in x.items():
                    if not isinstance(n, str):
                        if isinstance(n, E) and integer(n) is not None:
                            n = str(integer(n))
                        elif isinstance(n, int):
                            n = str(n)
                        else:
                            raise PyExc("TypeError")
                    out[n] = enc(y, depth + 1)
                return out
            if isinstance(x, (list, T)) and not isinstance(x, (Arr, E)):
                return [enc(y, depth + 1) for y in x]
            if cls is None:
                raise PyExc("TypeError")
            o = Obj(cls.cls, {})
            return enc(it.method(o, "default", x), depth + 1)
        if isinstance(v, Obj) and isinstance(v.items, dict) and not (v.quals() & {"dict", "builtins.dict"}):
            return enc(v)
        return enc(v)

    def refuse(self, it, a, k):
        raise PyExc("TypeError")

    def decode(self, tree, hook):
        def dec(x):
            if isinstance(x, dict):
                d = {n: dec(y) for n, y in x.items()}
                return d if hook is None else self.it.apply(hook, [d], {})
            if isinstance(x, list):
                return [dec(y) for y in x]
            return x
        return dec(tree)

    def dump(self, it, a, k):
        self.files[a[1].attrs["name"]] = Text(self.encode(a[0], k))

    def load(self, it, a, k):
        x = self.files[a[0].attrs["name"]]
        if not isinstance(x, Text):
            raise PyExc("ValueError")
        return self.decode(x.tree, k.get("object_hook"))

    def loads(self, it, a, k):
        if not isinstance(a[0], Text):
            raise Undecided("json.loads") if not isinstance(a[0], (str, bytes)) else PyExc("JSONDecodeError")
        return self.decode(a[0].tree, k.get("object_hook"))

    # -- HDF5 --------------------------------------------------------------------------------
    def h5(self, it, a, k):
        name, mode = a[0], a[1] if len(a) > 1 else k.get("mode", "r")
        if mode == "w":
            self.files[name] = {}
        elif name not in self.files:
            raise PyExc("FileNotFoundError")
        tree = self.files[name]
        if not isinstance(tree, dict):
            raise PyExc("OSError")
        f = self.group(tree)
        f.hooks["__exit__"] = f.hooks["close"] = lambda i, x, y: None
        f.hooks["__enter__"] = lambda i, x, y: f
        return f

    def group(self, tree):
        def parts(p):
            if not isinstance(p, str):
                raise PyExc("TypeError")
            return [x for x in p.split("/") if x]

        def put(i, x, y):
            ps, t = parts(x[0]), tree
            for p in ps[:-1]:
                t = t.setdefault(p, {})
            if ps[-1] in t:
                raise PyExc("OSError")
            t[ps[-1]] = ("data", self.native(x[1]))

        def get(i, x, y):
            t = tree
            for p in parts(x[0]):
                if not isinstance(t, dict) or p not in t:
                    raise PyExc("KeyError")
                t = t[p]
            return self.group(t) if isinstance(t, dict) else self.data(t[1])

        def items(i, x, y):
            return [T([n, self.group(tree[n]) if isinstance(tree[n], dict) else self.data(tree[n][1])]) for n in sorted(tree)]
        return Obj("h5py.Group", {}, {"__setitem__": put, "__getitem__": get, "items": items, "keys": lambda i, x, y: sorted(tree), "__iter__": lambda i, x, y: sorted(tree),
                                      "__contains__": lambda i, x, y: x[0] in tree,
                                      "create_dataset": lambda i, x, y: put(i, [x[0], y["data"] if "data" in y else x[1]], {}),
                                      "create_group": lambda i, x, y: self.group(tree.setdefault(x[0], {}))})

    def data(self, v):
        return Obj("h5py.Dataset", {}, {"__getitem__": lambda i, x, y: v})

    def native(self, v):
        """what reading the stored value gives"""
        if isinstance(v, Text):
            return Text(v.tree, True)
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, bytes):
            return v
        if isinstance(v, bool):
            return Scalar("bool_", v)
        if isinstance(v, (E, Sp, Scalar, Complex)):
            return v
        if isinstance(v, (list, Arr)):
            d = dtype(self.it, v).attrs["kind"]
            if d == "O":
                raise PyExc("TypeError")
            if d == "U" and isinstance(v, Arr):
                raise PyExc("TypeError")
            a = self.it.arr(list(v))
            if d == "U":
                return Arr(x.encode() for x in a)
            return a
        if isinstance(v, Obj) and hasattr(v, "frame_attr"):
            raise PyExc("TypeError")
        if isinstance(v, (dict, set)) or v is None or isinstance(v, Obj):
            raise PyExc("TypeError")
        raise Undecided("stored value %r" % (v,))


_ = A, Py
