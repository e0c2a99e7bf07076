"""Re-uses the cases of other checks (same calls, same specifications) with
derivatives switched on."""
import importlib
import math


def size(c):
    return sum(math.prod(s.shape) for s in c.inputs.values())


def pick(modules, tier, limit, per_module, keep=None):
    """deterministic selection: cases with at most `limit` input elements, thinned evenly
    (but every case with an unusual feature in its name is equally likely to stay)"""
    out = []
    for m in modules:
        mod = importlib.import_module("checks." + m)
        cs = [c for c in mod.cases(tier) if size(c) <= limit and not c.raises and c.ref is not None
              and not any(s.values is not None for s in c.inputs.values()) and (keep is None or keep(m, c))]
        n = len(cs)
        if n > per_module:
            # golden-ratio stride visits the list evenly and without a fixed period
            step = 0.6180339887498949
            idx = sorted({int(((i * step) % 1.0) * n) for i in range(2 * per_module)})
            cs = [cs[i] for i in idx]
        for c in cs:
            c.name = m + ":" + c.name
            out.append(c)
    return out
