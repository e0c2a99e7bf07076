"""P22: filtering is pure and treats batch entries independently."""
import copy
import math
from symx.harness import In
from .derive import pick

PROPERTY = "P22"
FUNCTIONS = ["the public functions exercised by P01-P10, P13-P21, P25 (values), each with every argument in other memory layouts"]
BOUNDS = ("cases of the listed checks with at most 60 (quick) / 110 (thorough) input elements, thinned evenly; layouts: transposed, dimension-reversed, "
          "strided with gaps, offset into a larger buffer, stride-0 batch, stride-0 second dimension, a different layout for each argument, all "
          "arguments overlapping in one buffer, and a preceding call with other values")
MODS = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p13", "p14", "p15", "p16", "p17", "p18", "p20", "p21", "p25"]
CYCLE = ["T", "gap", "off", "rev", "T01"]


def ok(spec, l):
    n = len(spec.shape)
    if l in ("T", "T01", "expand1"):
        return n >= 2 and min(spec.shape[:2]) > 0
    if l == "expand0":
        return n >= 2 and spec.shape[0] > 1
    return n >= 1


def cases(tier):
    q = tier == "quick"
    out = []
    base = pick(MODS, tier, 60 if q else 110, 26 if q else 70, keep=lambda m, c: not c.grad and not c.jvp and all(s.layout is None for s in c.inputs.values()))
    for n, c in enumerate(base):
        def variant(nm, lay):
            d = copy.copy(c)
            d.inputs = {}
            hit = False
            for i, (k, s) in enumerate(c.inputs.items()):
                l = lay(i)
                s2 = copy.copy(s)
                if s.values is None and ok(s, l):
                    s2.layout = l
                    hit = True
                d.inputs[k] = s2
            d.name = f"{c.name}|{nm}"
            d.grad = ()
            if hit:
                out.append(d)
        sel = ["T", "gap", "off", "rev", "expand0", "expand1"]
        for l in sel if not q else [sel[(n + j) % 6] for j in range(3)]:
            if l.startswith("expand") and c.assume:
                continue
            variant(l, lambda i, l=l: l)
        variant("mixed", lambda i: CYCLE[(i + n) % 5])

        # all arguments are views of the same memory
        dts = {s.dtype for s in c.inputs.values() if s.values is None}
        cp = {s.cplx for s in c.inputs.values() if s.values is None}
        if len(dts) == 1 and len(cp) == 1 and not c.assume and all(s.values is None for s in c.inputs.values()) and len(c.inputs) > 1:
            d = copy.copy(c)
            big = max(math.prod(s.shape) for s in c.inputs.values())
            d.inputs = {"buf": In(max(big, 1), cplx=cp.copy().pop(), dtype=dts.copy().pop())}
            d.grad = ()

            def split(buf, shapes):
                return {k: buf[:math.prod(sh)].view(sh) for k, sh in shapes.items()}
            shapes = {k: tuple(s.shape) for k, s in c.inputs.items()}

            def nest(flat, sh):
                if not sh:
                    return flat[0]
                if sh[0] == 0:
                    return []
                k = math.prod(sh[1:])
                return [nest(flat[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]
            d.call = lambda L, t, c=c, shapes=shapes: c.call(L, split(t["buf"], shapes))
            d.ref = lambda t, c=c, shapes=shapes: c.ref({k: nest(t["buf"], sh) for k, sh in shapes.items()})
            d.name = f"{c.name}|overlap"
            out.append(d)

        # an earlier call with other values leaves no trace
        if not c.assume:
            d = copy.copy(c)
            d.grad = ()

            def twice(L, t, c=c):
                import torch
                o = {k: (v.flip(0) * 2 if v.dim() else v * 2) if c.inputs[k].values is None else v for k, v in t.items()}
                c.call(L, o)
                return c.call(L, t)
            d.call = twice
            d.name = f"{c.name}|again"
            out.append(d)
    return out
