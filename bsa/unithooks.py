"""Hooks shared by the dimensional analyses."""
import math

from .absint import TOP, Bool, Hooks, K, Obj, Seq
from .units import DIMLESS, Num, Poly
from fractions import Fraction

CONSTS = {"numpy.pi": math.pi, "math.pi": math.pi, "scipy.constants.pi": math.pi, "numpy.e": math.e, "math.e": math.e,
          "numpy.inf": math.inf, "math.inf": math.inf, "numpy.nan": math.nan, "math.nan": math.nan,
          "numpy.newaxis": None}


class UnitHooks(Hooks):
    def global_value(self, q):
        if q in CONSTS:
            return K(CONSTS[q])
        return None

    def value_attr(self, o, name, env, node):
        if isinstance(o, (Num, Poly)):
            if name in ("T", "real", "imag", "values", "flat"):
                return o
            if name in ("size", "ndim", "shape", "dtype"):
                return Num(DIMLESS, Fraction(0)) if name != "shape" else Seq(elem=Num(DIMLESS, Fraction(0)))
        if isinstance(o, Bool) and name in ("T", "values"):
            return o
        if isinstance(o, Bool) and name in ("size", "shape"):
            return Num(DIMLESS, Fraction(0))
        return None

    def isinstance(self, v, node, env):
        if v is TOP:
            return Bool()
        if isinstance(v, K) and v.v is None:
            return K(False)
        if isinstance(v, Obj) and v.cls is not None and len(node.args) == 2:
            t = self.interp.eval(node.args[1], env)
            ts = t.elems if isinstance(t, Seq) and t.elems is not None else [t]
            from .absint import ClsV
            if all(isinstance(x, ClsV) for x in ts):
                return K(any(x.cls in v.cls.mro() for x in ts))
        return Bool()
