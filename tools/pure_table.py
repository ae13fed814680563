"""Prints the candidate scope table of M01 from the current tree (reviewed by hand before it is frozen)."""
import ast, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bsa import program, effects
SCOPE = ("bilby.gw.conversion", "bilby.gw.prior", "bilby.core.prior", "bilby.core.result", "bilby.gw.result", "bilby.core.utils",
         "bilby.gw.utils", "bilby.gw.source", "bilby.gw.waveform_generator", "bilby.gw.detector", "bilby.core.likelihood",
         "bilby.gw.likelihood", "bilby.core.grid", "bilby.core.fisher", "bilby.core.series", "bilby.hyper", "bilby.gw.eos",
         "bilby.core.sampler", "bilby.gw.cosmology")
SELF = {"bilby.core.result.Result", "bilby.core.result.ResultList", "bilby.gw.result.CompactBinaryCoalescenceResult",
        "bilby.gw.detector.interferometer.Interferometer", "bilby.gw.detector.networks.InterferometerList"}
#: parameters that exist to be modified, or objects the function owns
SKIP = {"self", "cls", "args", "kwargs", "h5file", "rstate", "likelihood", "waveform_generator", "pool", "sampler", "fig", "ax", "axes", "instance"}
p = program.load(); e = effects.effects(p)
for f in sorted(p.funcs, key=lambda f: f.qual):
    if isinstance(f.node, ast.Lambda) or f.parent is not None:
        continue
    if not any(f.module.name == s or f.module.name.startswith(s + ".") for s in SCOPE):
        continue
    if f.module.name.startswith("bilby.core.sampler") and f.qual != "bilby.core.sampler.run_sampler":
        continue
    if f.name.startswith("_") and f.name not in ("__init__", "__call__", "_generate_all_cbc_parameters"):
        continue
    mut, _ = e.of(f)
    bad = {q for q, l in mut}
    me = f.params[0] if f.cls is not None and f.params and f.deco_kind() != "static" else None
    ps = [q for q in f.all_params if q not in bad and q != me and q not in SKIP]
    if me and f.cls.qual in SELF and f.name != "__init__" and f.deco_kind() != "setter" and me not in bad:
        ps.insert(0, me)
    if ps:
        print(f.qual, *ps)
