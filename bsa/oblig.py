"""Obligations decided by abstract evaluation: run a program fragment in every case and compare with a reference form."""
import os

from . import algebra as A
from . import randint as R
from .algebra import E, ZERO, ONE
from .interp import PyExc
from .report import loc
from .valnum import Undecided, Need, cases, Sp

DEBUG = bool(os.environ.get("BSA_DEBUG"))


class Rule:
    def __init__(self, ctx, facts=()):
        self.ctx, self.prog, self.facts = ctx, ctx.prog, list(facts)

    def run(self, thunk):
        def guarded(dec):
            try:
                return thunk(dec)
            except Need:
                raise
            except PyExc as e:
                return e
            except (Undecided, A.TooBig, RecursionError, ZeroDivisionError, OverflowError, TypeError, AttributeError, IndexError, KeyError,
                    ValueError) as e:
                if DEBUG:
                    raise
                return Undecided("%s: %s" % (type(e).__name__, e))
        return list(cases(guarded))

    def equal(self, got, want, dec):
        if isinstance(want, Sp) or isinstance(got, Sp):
            return got == want
        if got == want:
            return True
        if isinstance(got, bool):
            got = ONE if got else ZERO
        if not isinstance(got, E):
            return False
        for key, v in dec.items():       # a factor known to vanish in this case
            if key[0] == "zero" and v:
                for x in (got, want):
                    r = x
                    try:
                        q = x / key[1]
                        if not want and len(q) == 1:
                            return True
                    except (ZeroDivisionError, A.TooBig):
                        pass
                    del r
        names = set()
        A.symbols(got, names)
        A.symbols(want, names)
        s = R.Samples(names - {"e", "pi", "1j"}, [f for f in self.facts if A.symbols(f) <= names], want=8)
        r = R.close(got, want, s.env)
        if r is None:
            raise Undecided("too few valuations to compare")
        return r

    def report(self, rule, what, func, res, judge):
        """judge(result, dec) -> None if fine, else message"""
        ctx = self.ctx
        where = loc(func.module, func.node) if func is not None else ""
        for dec, r in res:
            if isinstance(r, Undecided):
                ctx.undec(rule, what, str(r))
                continue
            ctx.ok(rule, what)
            if isinstance(r, PyExc):
                ctx.bad(rule, what, "%s raises %s" % (what, r.name.split(".")[-1]), where)
                continue
            try:
                m = judge(r, dec)
            except Undecided as e:
                ctx.undec(rule, what, str(e))
                continue
            if m:
                ctx.bad(rule, what, "%s: %s" % (what, m), where)
