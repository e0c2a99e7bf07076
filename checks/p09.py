"""P09: reverse-mode gradients of the public functions are the true derivatives."""
from .derive import pick

PROPERTY = "P09"
FUNCTIONS = ["torch.autograd.grad through philtorch.lti.lfilter, fir, comb_filter, state_space, state_space_recursion, linear_recurrence",
             "torch.autograd.grad through philtorch.lpv.lfilter, fir, allpole, state_space, state_space_recursion, linear_recurrence",
             "LTIRecurrence.backward", "LTIMatrixRecurrence.backward", "MatrixRecurrence.backward"]
BOUNDS = ("the cases of P01-P07, P13, P14 with at most 48 (quick) / 90 (thorough) input elements, thinned evenly; all differentiable inputs, "
          "symbolic cotangents for every output including the final state")
MODS = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p13", "p14"]


def cases(tier):
    q = tier == "quick"
    out = []
    import importlib.util
    mods = [m for m in MODS if importlib.util.find_spec("checks." + m)]
    for c in pick(mods, tier, 48 if q else 90, 110 if q else 300):
        c.grad = tuple(c.inputs)
        out.append(c)
    return out
