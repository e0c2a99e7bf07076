"""P30: without the compiled extension the same calls give the specified results."""
import importlib.util
from .derive import pick

PROPERTY = "P30"
NEEDS_CXX = False
FUNCTIONS = ["philtorch imported without philtorch._C: philtorch.lti and philtorch.lpv lfilter, fir, allpole, comb_filter, filtfilt, state_space, "
             "diag_state_space, state_space_recursion, linear_recurrence, cspline, cubic_spline, newton_solve, with reverse-mode gradients"]
BOUNDS = ("the cases of P01-P07, P13-P17, P20, P21, P25 (values, shapes, dtypes) thinned evenly, and the cases of P01-P07, P13, P14 with at most "
          "48 / 90 input elements with all first derivatives")
VAL = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p13", "p14", "p15", "p16", "p17", "p20", "p21"]
GRAD = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p13", "p14"]


def cases(tier):
    q = tier == "quick"
    have = [m for m in VAL if importlib.util.find_spec("checks." + m)]
    out = []
    for c in pick(have, tier, 200 if q else 400, 150 if q else 500):
        if not (c.name.startswith("p21") and "-uNone" in c.name):  # newton_solve documents an int; None needs the extension
            out.append(c)
    for c in pick([m for m in GRAD if m in have], tier, 48 if q else 90, 60 if q else 200):
        c.grad = tuple(c.inputs)
        c.name = "grad:" + c.name
        out.append(c)
    return out
