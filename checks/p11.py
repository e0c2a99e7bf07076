"""P11: reverse-mode derivatives of the registered operators called directly."""
from itertools import combinations
from symx.harness import In
from symx.helion_stub import Plan
from .util import Cases, tag
from . import spec as S

PROPERTY = "P11"
HELION_STUB = True
FUNCTIONS = ["register_autograd formulas of philtorch::recur2, recurN, lti_recur2, lti_recurN, lti_recur, hl_lti_recurN, hl_recurN (philtorch/__init__.py)",
             "csrc kernels", "philtorch/_helion.py kernel bodies"]
BOUNDS = ("order 1..4, batch 1..3, length 1..5, every non-empty subset of (coefficients, initial state, input) requiring gradients, shared and "
          "per-batch coefficients, real and complex (Helion: real), transposed / strided / offset / expanded inputs; all cotangents symbolic")
OPS = {"recur2": ("NMM", "BNMM"), "recurN": ("NMM", "BNMM"), "lti_recur2": ("MM", "BMM"), "lti_recurN": ("MM", "BMM"),
       "hl_lti_recurN": ("MM", "BMM"), "hl_recurN": ("NMM", "BNMM")}


def subsets(names):
    return [c for n in range(1, len(names) + 1) for c in combinations(names, n)]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def add(op, kA, B, N, M, sub, cplx=False, lay=(None, None, None), dtype=None):
        d = dict(B=B, N=N, M=M)
        bt = kA[0] == "B"

        def ref(t):
            return [S.mat_rec(t["A"][b] if bt else t["A"], t["zi"][b], t["x"][b]) for b in range(B)]
        cs.add(tag(op=op, A=kA, B=B, N=N, M=M, c=cplx, l=lay if any(lay) else None, d=dtype, s="".join(sub)),
               {"A": In(*[d[k] for k in kA], cplx=cplx, layout=lay[0], dtype=dtype), "zi": In(B, M, cplx=cplx, layout=lay[1], dtype=dtype),
                "x": In(B, N, M, cplx=cplx, layout=lay[2], dtype=dtype)},
               lambda L, t: getattr(L.ops, op)(t["A"], t["zi"], t["x"]), ref, grad=sub,
               setup=(lambda L: Plan({}, "fwd")) if op[:2] == "hl" else None, tol=1e-8 if dtype in (None,) else 1e-3)

    def scal(ka, B, N, sub, cplx=False, lay=(None, None, None)):
        sh = {"sc": (), "1": (1,), "B": (B,)}[ka]

        def ref(t):
            a = t["a"]
            return [S.scalar_rec(a if ka == "sc" else a[b] if ka == "B" else a[0], t["zi"][b], t["x"][b]) for b in range(B)]
        cs.add(tag(op="lti_recur", a=ka, B=B, N=N, c=cplx, l=lay if any(lay) else None, s="".join(sub)),
               {"a": In(*sh, cplx=cplx, layout=lay[0]), "zi": In(B, cplx=cplx, layout=lay[1]), "x": In(B, N, cplx=cplx, layout=lay[2])},
               lambda L, t: L.ops.lti_recur(t["a"], t["zi"], t["x"]), ref, grad=sub)
    allsub = subsets(("A", "zi", "x"))
    for op, kinds in OPS.items():
        Ms = (2,) if op.endswith("2") else (1, 2, 3) if q else (1, 2, 3, 4)
        for kA in kinds:
            for sub in allsub:
                for M in Ms:
                    for B, N in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (1, 4)) + (() if q else ((3, 5), (2, 6), (4, 2))):
                        add(op, kA, B, N, M, sub)
                    if op[:2] != "hl":
                        for B, N in ((1, 1), (2, 2), (1, 3), (2, 4)):
                            add(op, kA, B, N, M, sub, True)
            if "hl" not in op:
                add(op, kA, 2, 3, Ms[-1], ("A", "zi", "x"), True, dtype="complex64")
            add(op, kA, 2, 3, Ms[-1], ("A", "zi", "x"), dtype="float32")
            for l in ("T", "gap", "off", "rev"):
                add(op, kA, 2, 3, 2, ("A", "zi", "x"), lay=(l, None, None))
                add(op, kA, 2, 3, 2, ("A", "zi", "x"), lay=(None, None, l))
                if l != "rev":
                    add(op, kA, 2, 3, 2, ("A", "zi", "x"), lay=(None, l, None))
            add(op, kA, 2, 3, 2, ("A", "zi", "x"), lay=("expand0" if kA[0] == "B" else None, "expand0", "expand0"))
    for ka in ("sc", "1", "B"):
        for sub in subsets(("a", "zi", "x")):
            for B, N in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 4), (1, 5)) + (() if q else ((3, 7), (4, 3))):
                for c in (False, True):
                    scal(ka, B, N, sub, c)
        for l in ("T", "gap", "off", "expand0"):
            scal(ka, 2, 3, ("a", "zi", "x"), lay=(None, None, l))
        if ka == "B":
            scal(ka, 2, 3, ("a", "zi", "x"), lay=("expand0", "expand0", "expand0"))
    return cs.list
