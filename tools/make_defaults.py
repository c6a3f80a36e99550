"""Writes vp/defaults.json: the documented default of every optional argument of the metrics, stackers and slicers (run once, on a reviewed
tree; the check compares behaviour with defaults left out against behaviour with these values spelled out)."""
import inspect
import json
import os
import sys

os.environ["VP_ENV_DONE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp.env as env

env.ensure()
from vp import fakedata

fakedata.use()
import numpy as np

import rubin_sim.maf.maf_contrib as contrib
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.stackers as stackers
from rubin_sim.maf.stackers import general_stackers

SKIP = {"BaseMetric", "BaseStacker", "BaseSlicer", "BaseMoMetric", "BaseSpatialSlicer", "BaseMoStacker", "BaseChildMetric", "BaseIndexSlicer"}


def enc(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, (np.integer, np.floating)):
        return v.item()
    if isinstance(v, np.ndarray):
        return {"array": v.tolist()}
    if isinstance(v, (list, tuple)):
        return {"tuple" if isinstance(v, tuple) else "list": [enc(x) for x in v]}
    if isinstance(v, dict):
        return {"dict": {k: enc(x) for k, x in v.items()}}
    if callable(v) and getattr(np, getattr(v, "__name__", "?"), None) is v:
        return {"np": v.__name__}
    raise TypeError


out = {}
for kind, mods, base in (("metrics", (metrics, contrib), metrics.BaseMetric), ("stackers", (stackers, general_stackers), stackers.BaseStacker), ("slicers", (slicers,), slicers.BaseSlicer)):
    for m in mods:
        for name in sorted(dir(m)):
            c = getattr(m, name)
            if not (inspect.isclass(c) and issubclass(c, base)) or name in SKIP or name in out:
                continue
            d, need = {}, []
            for p in inspect.signature(c.__init__).parameters.values():
                if p.name == "self" or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
                    continue
                if p.default is p.empty:
                    need.append(p.name)
                else:
                    try:
                        d[p.name] = enc(p.default)
                    except TypeError:
                        pass
            out[name] = {"kind": kind, "module": m.__name__, "need": need, "defaults": {k: v for k, v in d.items() if v is not None}}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp", "defaults.json")
with open(p, "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
print(len(out), os.path.getsize(p))
fakedata.cleanup()
