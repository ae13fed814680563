"""C02: remembered results are reused only for the inputs they were computed from, and dropped when those change."""
import ast

from ..cache import Cell, Model, Txn, OK, ITEMS
from ..program import walk_func
from ..report import loc
from .c01_detector import run_class

TITLE = "remembered results are only reused for identical inputs"
EXPLANATION = (
    "For every remembered result (waveform, spectral density, reduced-order basis, hyper-model probability, rescale order, constraint "
    "normalisation, density estimate, interpolants) the analysis slices the code that computes it to find the inputs it depends on, and the comparisons "
    "that decide on reuse to find which inputs each stored key covers. The getter is then interpreted once per input under the assumption that this "
    "input changed: reaching a read of the stored value, storing a value without its keys, or failing between storing key and value is a violation. Values kept up to date "
    "eagerly are checked after every method that changes what they depend on.")
ASSUMPTIONS = ["objects compared by identity or equality are not modified in place between calls",
               "dictionaries are changed through item assignment or deletion (dict.update and pop on a PriorDict are not seen)"]

W = "bilby.gw.waveform_generator.WaveformGenerator"
P = "bilby.gw.detector.psd.PowerSpectralDensity"
R = "bilby.gw.likelihood.roq.ROQGravitationalWaveTransient"
H = "bilby.hyper.model.Model"
PD = "bilby.core.prior.dict.PriorDict"
CP = "bilby.core.prior.dict.ConditionalPriorDict"
RES = "bilby.core.result.Result"
GWT = "bilby.gw.likelihood.base.GravitationalWaveTransient"
I = "bilby.core.prior.interpolated.Interped"

ROQ_FIXED = ["weights", "parameter_conversion", "number_of_bases_linear", "number_of_bases_quadratic", "_cache",
             "_unique_frequency_nodes_and_inverse"]
MEMO = [
    # the transformation is fixed by which of the two models is given; its sampling frequency changes the data points
    Cell(W, "_cache['waveform']", "_calculate_strain", "memo", copied=["_cache['parameters']"],
         ignore=["arg:transformation_function", "_times_and_frequencies._sampling_frequency", "_times_and_frequencies",
                 "arg:parameters"]),
    Cell(P, "_cache['psd_array']", "get_power_spectral_density_array", "memo",
         ignore=["_PowerSpectralDensity__power_spectral_density_interpolated"]),
    Cell(P, "_cache['asd_array']", "get_amplitude_spectral_density_array", "memo",
         ignore=["_PowerSpectralDensity__power_spectral_density_interpolated"]),
    # weights, bases and the conversion are set up once, by the constructor
    Cell(R, "_cache['basis_number_linear']", "basis_number_linear", "memo", copied=["_cache['parameters']"],
         ignore=ROQ_FIXED),
    Cell(R, "_cache['basis_number_quadratic']", "basis_number_quadratic", "memo", copied=["_cache['parameters']"],
         ignore=ROQ_FIXED),
    Cell(H, "_cached_probability[*]", "prob", "memo"),
    Cell(CP, "_rescale_indexes", "rescale", "memo", copied=["_least_recently_rescaled_keys"], ignore=["_conditional_keys", "_unconditional_keys"]),
]
EAGER = [
    Cell(PD, "_cached_normalizations", None, "none", deps=[ITEMS], only=[]),
    Cell(CP, "_conditional_keys", None, "always", deps=[ITEMS], only=[]),
    Cell(CP, "_unconditional_keys", None, "always", deps=[ITEMS], only=[]),
    Cell(CP, "_least_recently_rescaled_keys", None, "none", deps=[ITEMS], only=[]),
    Cell(CP, "_resolved", None, "always", deps=[ITEMS], only=[]),
    Cell(GWT, "_noise_log_likelihood_value", "noise_log_likelihood", "none", deps=["_interferometers"], only=[]),
    Cell(RES, "_kde", None, "none", deps=["_posterior"], only=[]),
    Cell(I, "probability_density", None, "always", only=["_minimum", "_maximum", "_yy", "xx"]),
    Cell(I, "cumulative_distribution", None, "always", only=["_minimum", "_maximum", "_yy", "xx", "YY"]),
    Cell(I, "inverse_cumulative_distribution", None, "always", only=["_minimum", "_maximum", "_yy", "xx", "YY"]),
    Cell(I, "xx", None, "always", only=["_minimum", "_maximum"]),
    Cell(I, "YY", None, "always", only=["_minimum", "_maximum", "_yy", "xx"]),
]


def show(i):
    return "its argument %s" % i[4:] if i.startswith("arg:") else i


def run_memo(ctx, prog, cell):
    cls = prog.classes.get(cell.cls)
    if cls is None:
        ctx.note("class %s is gone" % cell.cls)
        return
    model = Model(prog, cls, [cell])
    pc = model.cells.get(cell.field)
    g = cls.find(cell.getter)
    if pc is None or g is None:
        ctx.note("%s.%s is gone" % (cell.cls, cell.getter))
        return
    if not pc.sites:
        reads = [n for f, _ in model.reach(g, "") for n in walk_func(f.node)
                 if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Load) and model.pathof(n, f, "") == pc.path]
        ctx.ok("memo-store", "%s: %s" % (g.qual, pc.path))
        if reads:
            ctx.bad("memo-store", "%s: %s never stored" % (g.qual, pc.path), "%s returns %s but nothing it calls stores a new value there"
                    % (g.qual, pc.path), loc(g.module, g.node))
        return
    ctx.note("%s.%s computed from %s; keys %s" % (cls.name, pc.path, sorted(pc.deps), {k: sorted(v) for k, v in pc.keys.items()}))
    for d in sorted(pc.deps):
        txn = Txn(model)
        finals = txn.run(g, {pc.path: frozenset([d])})
        ctx.ok("memo-key", "%s: %s depends on %s" % (g.qual, pc.path, d))
        if txn.bad_returns:
            _, why, node = txn.bad_returns[0]
            ctx.bad("memo-key", "%s: %s without %s" % (g.qual, pc.path, d),
                    "%s can return the remembered %s after a change of %s" % (g.qual, pc.path, show(d)), loc(g.module, node))
        for c, node, f in txn.torn[:1]:
            ctx.bad("memo-torn", "%s: %s" % (f.qual, c.path), "%s stores the key before %s: a failure in between leaves the new key with the old value"
                    % (f.qual, c.path), loc(f.module, node))
        for s in finals:
            if pc.path in s.assigned:
                miss = sorted(k for k in pc.keys if k not in s.assigned and k.split("[")[0] + "[*]" not in s.assigned)
                if miss:
                    ctx.bad("memo-store", "%s: %s without %s" % (g.qual, pc.path, ", ".join(miss)),
                            "%s can store a new %s and leave the key %s of the old one" % (g.qual, pc.path, ", ".join(miss)), loc(g.module, g.node))
                    break
            elif any(k in s.assigned for k in pc.keys) and s.st[pc.path] != OK:
                ctx.bad("memo-store", "%s: key of %s" % (g.qual, pc.path),
                        "%s can store a new key for %s and leave the old value" % (g.qual, pc.path), loc(g.module, g.node))
                break
    ctx.ok("memo-torn", g.qual)
    ctx.ok("memo-store", g.qual, n=max(1, len(pc.keys)))
    for kp in sorted(pc.cell.copied & set(pc.keys)):
        for s, f, v, node in pc.keystores[kp]:
            ctx.ok("memo-alias", "%s: %s" % (f.qual, kp))
            if not fresh(model, v, f):
                ctx.bad("memo-alias", "%s: %s" % (f.qual, kp), "%s remembers %s itself rather than a copy: a later change in place also changes the key"
                        % (f.qual, kp), loc(f.module, node))


def fresh(model, v, f, depth=0):
    """the value is a new object, not one the caller or the object still holds"""
    if depth > 5:
        return False
    if isinstance(v, ast.Name):
        ds = model.definitions(v.id, f)
        if ds:
            return all(fresh(model, d, f, depth + 1) for d in ds)
        if v.id not in f.all_params or v.id not in f.params:
            return False
        i, sites = f.params.index(v.id), []
        for g in model.methods(""):
            for n in walk_func(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and g is not f \
                        and model.base(n.func.value, g.params[0] if g.params else None, "") == "":
                    a = n.args[i - 1] if 0 < i <= len(n.args) else next((k.value for k in n.keywords if k.arg == v.id), None)
                    sites.append((a, g))
        return bool(sites) and f.name.startswith("_") and all(a is not None and fresh(model, a, g, depth + 1) for a, g in sites)
    return not isinstance(v, (ast.Attribute, ast.Subscript))


# run by the constructor before anything is stored
CONSTRUCTION = {"from_dictionary", "from_file"}


def check(ctx):
    prog = ctx.prog
    quiet = ctx.tier == "selftest"
    z = 0 if quiet else 1
    ctx.rule("memo-key", "after a change of any input the stored value is not read before being recomputed", floor=3 * z)
    ctx.rule("memo-store", "a new value and its keys are stored together", floor=3 * z)
    ctx.rule("memo-torn", "no failure can leave a new key with an old value", floor=1 * z)
    ctx.rule("memo-alias", "a key taken from a dictionary or list that is changed in place is stored as a copy", floor=z)
    ctx.rule("stale-after-write", "no method ends with a stored derived value out of date", floor=10 * z)
    ctx.rule("stale-return", "no getter returns an out-of-date derived value", floor=0)
    for c in MEMO:
        run_memo(ctx, prog, c)
    for q in (PD, RES, GWT, I):
        run_class(ctx, prog, q, EAGER, skip=CONSTRUCTION)


def _psd(body="if not np.array_equal(frequency_array, self._cache['frequency_array']):\n            self._update_cache(frequency_array)",
         upd="psd = self.interp(frequency_array)\n        self._cache['psd_array'] = psd\n        self._cache['frequency_array'] = frequency_array"):
    return {"bilby/gw/detector/psd.py": """
import numpy as np
class PowerSpectralDensity(object):
    def __init__(self):
        self._cache = dict(frequency_array=np.array([]), psd_array=None)
    def interp(self, f):
        return f
    def _update_cache(self, frequency_array):
        %s
    def get_power_spectral_density_array(self, frequency_array):
        %s
        return self._cache['psd_array']
""" % (upd, body)}


SELFTESTS = [
    ("as is", _psd(), None),
    ("no comparison", _psd("if self._cache['psd_array'] is None:\n            self._update_cache(frequency_array)"), "memo-key"),
    ("weaker comparison", _psd("if len(frequency_array) != len(self._cache['frequency_array']):\n            self._update_cache(frequency_array)"),
     "memo-key"),
    ("helper comparison", _psd("same = np.array_equal(self._cache['frequency_array'], frequency_array)\n        if same:\n"
                               "            return self._cache['psd_array']\n        self._update_cache(frequency_array)"), None),
    ("key first", _psd(upd="self._cache['frequency_array'] = frequency_array\n        self._cache['psd_array'] = self.interp(frequency_array)"),
     "memo-torn"),
    ("key not stored on one branch", _psd(upd="self._cache['psd_array'] = self.interp(frequency_array)\n        if len(frequency_array):\n"
                                              "            self._cache['frequency_array'] = frequency_array"), "memo-store"),
    ("never stored", _psd(upd="pass"), "memo-store"),
]
