"""P26: the Helion kernels compute the recurrence for every tiling."""
from symx.harness import In
from symx.helion_stub import Plan
from .util import Cases, tag
from . import spec as S

PROPERTY = "P26"
HELION_STUB = True
FUNCTIONS = ["philtorch::hl_lti_recurN", "philtorch::hl_recurN", "the kernel bodies in philtorch/_helion.py"]
BOUNDS = ("batch 1..4, length 1..4, order 1..4; every block size for the batch tiles and the state tiles (including sizes that do not divide the extent), "
          "independent tiles visited forwards, backwards, rotated and even-odd; contiguous, transposed, strided and expanded inputs; real dtypes")
OUTSIDE = ["the helion package's code generation and GPU execution; tiles are executed one after another by a stand-in for hl.tile / hl.grid, "
           "with all loads of a statement before its stores"]
ORD = ("fwd", "rev", "rot", "eo")


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def add(op, kA, B, N, M, sizes, order, lay=(None, None, None), dtype=None):
        d = dict(B=B, N=N, M=M)
        bt = kA[0] == "B"

        def ref(t):
            return [S.mat_rec(t["A"][b] if bt else t["A"], t["zi"][b], t["x"][b]) for b in range(B)]
        # extents are told apart by their value; equal extents share the block size
        sz = {B: sizes[0], M: sizes[1]} if B != M else {B: sizes[0]}
        cs.add(tag(op=op, A=kA, B=B, N=N, M=M, tb=sizes[0], tm=sizes[1], o=order, l=lay if any(lay) else None, d=dtype),
               {"A": In(*[d[k] for k in kA], layout=lay[0], dtype=dtype), "zi": In(B, M, layout=lay[1], dtype=dtype),
                "x": In(B, N, M, layout=lay[2], dtype=dtype)},
               lambda L, t: getattr(L.ops, op)(t["A"], t["zi"], t["x"]), ref, setup=lambda L: Plan(sz, order),
               tol=1e-8 if dtype is None else 1e-4)
    for op, kinds in (("hl_lti_recurN", ("MM", "BMM")), ("hl_recurN", ("NMM", "BNMM"))):
        for kA in kinds:
            for B in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                for M in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
                    for tb in range(1, B + 1):
                        for tm in range(1, M + 1):
                            for o in ORD:
                                add(op, kA, B, 3, M, (tb, tm), o)
            for N in (1, 2, 4, 5):
                for o in ORD:
                    add(op, kA, 2, N, 3, (1, 2), o)
            for l in ("T", "gap", "off", "rev"):
                add(op, kA, 2, 3, 3, (1, 2), "rev", (l, None, None))
                add(op, kA, 2, 3, 3, (1, 2), "rev", (None, None, l))
                if l != "rev":
                    add(op, kA, 2, 3, 3, (1, 2), "fwd", (None, l, None))
            add(op, kA, 3, 3, 2, (2, 1), "fwd", ("expand0" if kA[0] == "B" else None, "expand0", "expand0"))
            add(op, kA, 3, 3, 2, (2, 1), "fwd", dtype="float32")
    return cs.list
