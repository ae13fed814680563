"""C01: stored detector and data quantities always correspond to the current settings."""
import ast
import itertools

from ..cache import Cell, Model, Txn, OK, INV, mangle
from ..program import walk_func
from ..report import loc

TITLE = "detector and data caches follow the settings they were computed from"
EXPLANATION = (
    "For every cached attribute of the detector geometry, strain data, coupled time/frequency series and spectral density the "
    "analysis derives, from the code that fills it, the attributes it was computed from (through properties, accessors and helper "
    "methods). Every method and setter is then interpreted over a typestate (valid / invalid / out of date) per cached attribute, on all "
    "branches: a method that can end with a cached value out of date, or a getter that can return an invalid or out-of-date one, is a violation.")
ASSUMPTIONS = ["objects reached through public attributes are not mutated in place by the user (e.g. elements of notch_list)",
               "the roll-off and window settings belong to the conversion that already took place"]

S = "bilby.core.series.CoupledTimeAndFrequencySeries"
D = "bilby.gw.detector.strain_data.InterferometerStrainData"
G = "bilby.gw.detector.geometry.InterferometerGeometry"
P = "bilby.gw.detector.psd.PowerSpectralDensity"
TABLE = [
    Cell(S, "_frequency_array", "frequency_array", "flag", "_frequency_array_updated"),
    Cell(S, "_time_array", "time_array", "flag", "_time_array_updated"),
    # the sampling frequency only clamps maximum_frequency to the last entry of the frequency array, which is a dependency itself
    Cell(D, "_frequency_mask", "frequency_mask", "flag", "_frequency_mask_updated",
         ignore=["_times_and_frequencies._sampling_frequency"]),
    Cell(D, "_frequency_domain_strain", "frequency_domain_strain", "none", only=["_time_domain_strain"]),
    Cell(D, "_time_domain_strain", "time_domain_strain", "none", only=["_frequency_domain_strain"]),
    Cell(G, "_vertex", "vertex", "flag", "_vertex_updated"),
    Cell(G, "_x", "x", "flag", "_x_updated", ignore=["_yarm_azimuth", "_yarm_tilt", "_yarm_azimuth_rad", "_yarm_tilt_rad"]),
    Cell(G, "_y", "y", "flag", "_y_updated", ignore=["_xarm_azimuth", "_xarm_tilt"]),
    Cell(G, "_detector_tensor", "detector_tensor", "flag", "_detector_tensor_updated"),
    Cell(P, "_PowerSpectralDensity__psd_array", "psd_array", "always", deps=["_PowerSpectralDensity__asd_array"]),
    Cell(P, "_PowerSpectralDensity__asd_array", "asd_array", "always", deps=["_PowerSpectralDensity__psd_array"]),
    Cell(P, "_PowerSpectralDensity__power_spectral_density_interpolated", "power_spectral_density_interpolated", "always"),
    Cell(P, "_cache['psd_array']", None, "always", ignore=["_cache"]),
    Cell(P, "_cache['asd_array']", None, "always", ignore=["_cache"]),
]
CLASSES = [S, D, G, P]


def entry_points(model):
    """public methods, and private ones no other method of the class calls"""
    fs = [f for f in model.methods("") if f.name != "__init__" and f.deco_kind() != "static"]
    called = set()
    for f in fs + [g for g in model.methods("") if g.name == "__init__"]:
        for n in walk_func(f.node):
            if isinstance(n, ast.Attribute):
                called.add(n.attr)
                called.add(mangle(model.prog.enclosing_class(f), n.attr))
    return [f for f in fs if not f.name.startswith("_") or f.name.startswith("__") and f.name.endswith("__")
            or (f.name not in called)]


def start_states(model):
    """every combination of valid and invalid cells in which no cell is valid while a cell it was computed from is not"""
    names = [p for p, pc in model.cells.items() if pc.cell.kind != "always"]
    out = []
    for bits in itertools.product((OK, INV), repeat=len(names)):
        st = dict(zip(names, bits))
        if all(not (st[p] == OK and st.get(d) == INV and p not in model.cells[d].deps) for p in names for d in model.cells[p].deps):
            out.append(st)
    return out


def reachable(model, starts, funcs, limit=400):
    """the given states and every state public methods lead to from them (states already reported as out of date excepted)"""
    names = list(starts[0]) if starts else []
    seen = {tuple(sorted(s.items())) for s in starts}
    todo = list(starts)
    out = list(starts)
    while todo and len(out) < limit:
        s = todo.pop()
        for f in funcs:
            for o in Txn(model).run(f, s):
                t = {n: o.st[n] for n in names}
                k = tuple(sorted(t.items(), key=str))
                if any(isinstance(v, frozenset) for v in t.values()) or k in seen:
                    continue
                seen.add(k)
                out.append(t)
                todo.append(t)
    return out


def run_class(ctx, prog, qual, table, rules=("stale-after-write", "stale-return", "direct-store"), skip=()):
    cls = prog.classes.get(qual)
    if cls is None:
        ctx.note("class %s is gone" % qual)
        return None
    subs = prog.subclass_map().get(qual, []) if hasattr(prog, "subclass_map") else []
    for k in [cls] + [c for c in subs if c is not cls]:
        model = Model(prog, k, table)
        for p, pc in model.cells.items():
            ctx.note("%s.%s computed from %s%s" % (k.name, p, sorted(pc.deps), " keyed on %s" % sorted(pc.keys) if pc.keys else ""))
        starts = reachable(model, start_states(model), [f for f in entry_points(model) if f.name not in skip])
        for f in entry_points(model):
            if f.name in skip:
                continue
            txn = Txn(model)
            finals = [(st, o) for st in starts for o in txn.run(f, st)]
            touched = [p for p, pc in model.cells.items() if pc.deps & set(txn.writes) or p in txn.writes or (pc.flag in txn.writes)]
            ctx.ok(rules[0], "%s: %s" % (f.qual, ", ".join(touched) or "-"), n=max(1, len(touched)))
            for st, o in finals:
                for p, v in o.st.items():
                    if isinstance(v, frozenset):
                        pc = model.cells[p]
                        if pc.keys and all(any(r in c for c in pc.keys.values()) for r in v):
                            continue        # the getter compares a key for these
                        r = sorted(v)[0]
                        node, g = txn.writes.get(r, (f.node, f))
                        ctx.bad(rules[0], "%s: %s after %s" % (f.qual, p, r),
                                "%s can finish with %s out of date: %s changed without invalidating or recomputing it"
                                % (f.qual, p, ", ".join(sorted(v))), loc(g.module, node))
            for pc in model.cells.values():
                if f.deco_kind() == "setter" and pc.cell.getter == f.name and not pc.prefix \
                        and pc.path in txn.writes and pc.cell.cls == S:
                    ctx.ok(rules[2], f.qual, n=len(pc.deps))
                    lost = sorted(d for d in pc.deps if d not in txn.writes and d not in model.cells and d not in model.containers)
                    if lost:
                        ctx.bad(rules[2], "%s: %s" % (f.qual, ", ".join(lost)), "%s stores %s directly but leaves %s, which it is computed from, as before"
                                % (f.qual, pc.path, ", ".join(lost)), loc(f.module, f.node))
            if f.deco_kind() == "property" and model.cell_of_getter("", f.name):
                ctx.ok(rules[1], f.qual)
            for pc, why, node in txn.bad_returns:
                ctx.bad(rules[1], "%s: %s" % (f.qual, pc.path), "%s can return %s while it is %s"
                        % (f.qual, pc.path, why if isinstance(why, str) else "out of date after a change of %s" % sorted(why)),
                        loc(f.module, node))
    return cls


def check(ctx):
    prog = ctx.prog
    quiet = ctx.tier == "selftest"
    ctx.rule("stale-after-write", "no method ends with a cached attribute out of date", floor=0 if quiet else 40)
    ctx.rule("stale-return", "no getter returns an invalid or out-of-date cached attribute", floor=0 if quiet else 6)
    ctx.rule("direct-store", "a setter storing a derived attribute directly also sets what it is derived from", floor=0)
    ctx.rule("foreign-write", "no other module writes a private setting behind its setter", floor=0)
    for q in (CLASSES if not quiet else [q for q in CLASSES if q in prog.classes]):
        run_class(ctx, prog, q, TABLE)
    private, homes = set(), set()
    for q in CLASSES:
        if q in prog.classes:
            m = Model(prog, prog.classes[q], TABLE)
            homes.add(prog.classes[q].module)
            for p, pc in m.cells.items():
                if not pc.prefix:
                    private |= {x for x in pc.deps | {p} if x.startswith("_") and x.isidentifier()}
    for f in prog.funcs:
        if f.module in homes:
            continue
        for n in walk_func(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in private \
                    and not (isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]):
                ctx.bad("foreign-write", "%s: %s" % (f.qual, n.attr), "%s writes %s behind the setter that invalidates what was computed from it"
                        % (f.qual, n.attr), loc(f.module, n))
    ctx.ok("foreign-write", "private settings: " + ", ".join(sorted(private)), n=len(private))


def _series(setter="self._duration = d\n        self._time_array_updated = False\n        self._frequency_array_updated = False",
            test="not self._time_array_updated"):
    return {"bilby/core/series.py": """
import numpy as np
class CoupledTimeAndFrequencySeries(object):
    def __init__(self, d):
        self._duration = d
        self._sampling_frequency = 1
        self._frequency_array_updated = False
        self._time_array_updated = False
        self._time_array = None
    @property
    def duration(self):
        return self._duration
    @duration.setter
    def duration(self, d):
        %s
    @property
    def time_array(self):
        if %s:
            self._time_array = np.arange(self.duration * self._sampling_frequency)
            self._time_array_updated = True
        return self._time_array
    @time_array.setter
    def time_array(self, a):
        self._time_array = a
        self._duration = len(a)
        self._sampling_frequency = 1
        self._frequency_array_updated = False
        self._time_array_updated = True
    @property
    def frequency_array(self):
        if not self._frequency_array_updated:
            self._frequency_array = np.arange(self.duration)
            self._frequency_array_updated = True
        return self._frequency_array
""" % (setter, test)}


SELFTESTS = [
    ("stale setter", _series("self._duration = d\n        self._frequency_array_updated = False"), "stale-after-write"),
    ("wrong flag", _series(test="not self._frequency_array_updated"), "stale-return"),
    ("lazy", _series(test="self._time_array_updated is False or self._time_array is None"), None),
]
