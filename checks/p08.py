"""P08: the compiled recurrence operators compute h_t = A_t h_{t-1} + x_t."""
from symx.harness import In
from .util import Cases, tag
from . import spec as S

PROPERTY = "P08"
FUNCTIONS = ["torch.ops.philtorch.recur2", "torch.ops.philtorch.recurN", "torch.ops.philtorch.lti_recur2",
             "torch.ops.philtorch.lti_recurN", "torch.ops.philtorch.lti_recur", "csrc/host_recur2.cpp", "csrc/host_recurN.cpp",
             "csrc/host_lti_recurN.cpp", "csrc/host_lti_recur.cpp"]
BOUNDS = ("order 1..5 (quick) / 1..7, batch 1..5, length 1..8 / 1..16; contiguous, transposed, strided, offset and expanded inputs; "
          "float16/bfloat16/float32/float64/complex64/complex128 dispatch (exact arithmetic)")
OPS = {"recur2": "N", "recurN": "N", "lti_recur2": "", "lti_recurN": "", "lti_recur": None}
DT = {"float16": False, "bfloat16": False, "float32": False, "float64": False, "complex64": True, "complex128": True}


def matop(cs, op, batched, B, N, M, cplx=False, dtype=None, lays=(None, None, None)):
    kA = ("B" if batched else "") + OPS[op] + "MM"
    d = dict(B=B, N=N, M=M)
    la, lz, lx = lays

    def ref(t):
        return [S.mat_rec(t["A"][b] if batched else t["A"], t["zi"][b], t["x"][b]) for b in range(B)]
    cs.add(tag(op=op, A=kA, B=B, N=N, M=M, c=cplx, d=dtype, la=la, lz=lz, lx=lx),
           {"A": In(*[d[k] for k in kA], cplx=cplx, dtype=dtype, layout=la), "zi": In(B, M, cplx=cplx, dtype=dtype, layout=lz),
            "x": In(B, N, M, cplx=cplx, dtype=dtype, layout=lx)},
           lambda L, t: getattr(L.ops, op)(t["A"], t["zi"], t["x"]), ref, tol=1e-8 if dtype in (None, "float64", "complex128") else 1e-2)


def scop(cs, ka, B, N, cplx=False, dtype=None, lays=(None, None, None)):
    sh = {"sc": (), "1": (1,), "B": (B,)}[ka]
    la, lz, lx = lays

    def ref(t):
        a = t["a"]
        return [S.scalar_rec(a if ka == "sc" else a[b] if ka == "B" else a[0], t["zi"][b], t["x"][b]) for b in range(B)]
    cs.add(tag(op="lti_recur", a=ka, B=B, N=N, c=cplx, d=dtype, la=la, lz=lz, lx=lx),
           {"a": In(*sh, cplx=cplx, dtype=dtype, layout=la), "zi": In(B, cplx=cplx, dtype=dtype, layout=lz),
            "x": In(B, N, cplx=cplx, dtype=dtype, layout=lx)},
           lambda L, t: L.ops.lti_recur(t["a"], t["zi"], t["x"]), ref, tol=1e-8 if dtype in (None, "float64", "complex128") else 1e-2)


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    for op in ("recur2", "recurN", "lti_recur2", "lti_recurN"):
        Ms = (2,) if op.endswith("2") else ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7))
        for bt in (False, True):
            for M in Ms:
                for B in (1, 2, 3, 5):
                    for N in (1, 2, 3, 5, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
                        if B * N * M <= (60 if q else 200):
                            matop(cs, op, bt, B, N, M)
                matop(cs, op, bt, 2, 3, M, cplx=True)
                for dt, c in DT.items():
                    matop(cs, op, bt, 2, 3, M, c, dt)
                la = ("T", "gap", "off", "rev") + (("T01",) if (bt or OPS[op]) else ())
                for l in la:
                    matop(cs, op, bt, 3, 4, M, lays=(l, None, None))
                    matop(cs, op, bt, 3, 4, M, lays=(None, None, l))
                    matop(cs, op, bt, 3, 4, M, lays=(l, None, l))
                for l in ("T", "gap", "off"):
                    matop(cs, op, bt, 3, 4, M, lays=(None, l, None))
                if bt:
                    matop(cs, op, bt, 3, 4, M, lays=("expand0", None, None))
                    matop(cs, op, bt, 3, 4, M, True, lays=("expand0", None, "T"))
                matop(cs, op, bt, 3, 4, M, lays=(None, "expand0", "expand0"))
    for ka in ("sc", "1", "B"):
        for B in (1, 2, 3, 5):
            for N in range(1, 9 if q else 17):
                scop(cs, ka, B, N)
                scop(cs, ka, B, N, True)
        for dt, c in DT.items():
            scop(cs, ka, 2, 3, c, dt)
        for l in ("T", "gap", "off", "rev", "expand0"):
            scop(cs, ka, 3, 4, lays=(None, None, l))
            if l in ("gap", "off", "expand0"):
                scop(cs, ka, 3, 4, lays=(None, l, None))
                if ka == "B":
                    scop(cs, ka, 3, 4, lays=(l, None, None))
                    scop(cs, ka, 3, 4, True, lays=(l, l, l))
    return cs.list
