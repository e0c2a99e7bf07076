"""P07: block unrolling never changes a recurrence (pure-Python scalar and matrix recurrences)."""
from symx.harness import In
from .util import Cases, sh, tag
from . import spec as S

PROPERTY = "P07"
FUNCTIONS = ["philtorch.lti.state_space_recursion", "philtorch.lti.ssm._recursion_loop", "philtorch.lti.linear_recurrence",
             "philtorch.lti.recur._scalar_recursion_loop", "philtorch.lpv.state_space_recursion", "philtorch.lpv.ssm._recursion_loop",
             "philtorch.lpv.linear_recurrence", "philtorch.lpv.recur._scalar_recursion_loop",
             "philtorch.mat.matrix_power_accumulate", "philtorch.mat.matrices_cumdot"]
BOUNDS = ("matrix: order 1..4, length 1..9 (quick) / 1..20 (thorough), unroll_factor 1..length+1 (up to 13); "
          "scalar: length 1..13 / 1..24; batch 1..3; shared and per-batch coefficients and initial values; real and complex")
NEEDS_CXX = False


def mat(cs, mod, kA, M, N, u, x3, oi=None, B=2, cplx=False, layout=None, dtype=None):
    d = dict(B=B, N=N, M=M)
    A = In(*[d[k] for k in kA], cplx=cplx, layout=layout, dtype=dtype)
    x = In(B, N, M, cplx=cplx, layout=layout, dtype=dtype) if x3 else In(B, N, cplx=cplx, layout=layout, dtype=dtype)

    def ref(t):
        out = []
        for b in range(B):
            a = t["A"][b] if kA[0] == "B" else t["A"]
            xs = t["x"][b] if x3 else [S.e1(v, M) for v in t["x"][b]]
            h = S.mat_rec(a, t["zi"][b], xs)
            out.append([k[oi] for k in h] if oi is not None else h)
        return out
    cs.add(tag(m=mod, A=kA, M=M, N=N, u=u, x3=x3, o=None if oi is None else str(oi), B=B, c=cplx, l=layout, d=dtype),
           {"A": A, "zi": In(B, M, cplx=cplx, dtype=dtype), "x": x},
           lambda L, t: getattr(L, mod).state_space_recursion(t["A"], t["zi"], t["x"], unroll_factor=u, out_idx=oi), ref)


def scal(cs, mod, ka, ki, N, u, B=2, cplx=False, layout=None, dtype=None):
    d = dict(B=B, N=N)
    k1 = {"1": 1}

    def dim(k):
        return tuple(k1.get(c, d.get(c)) for c in k)

    def ref(t):
        out = []
        for b in range(B):
            a, h = t["a"], t["init"]
            a = (a[b] if len(a) > 1 or "N" in ka else a[0]) if ka[:1] in ("B", "1") else a
            h = (h[b] if len(h) > 1 else h[0]) if ki in ("B", "1") else h
            out.append(S.scalar_rec(a, h, t["x"][b]))
        return out
    cs.add(tag(m=mod, s=1, a=ka or "sc", i=ki or "sc", N=N, u=u, B=B, c=cplx, l=layout, d=dtype),
           {"a": In(*dim(ka), cplx=cplx, layout=layout if len(ka) > 1 else None, dtype=dtype), "init": In(*dim(ki), cplx=cplx, dtype=dtype),
            "x": In(B, N, cplx=cplx, layout=layout, dtype=dtype)},
           lambda L, t: getattr(L, mod).linear_recurrence(t["a"], t["init"], t["x"], unroll_factor=u), ref)


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    for mod, KA in (("lti", ("MM", "BMM")), ("lpv", ("NMM", "BNMM"))):
        for kA in KA:
            for N in range(1, 10 if q else 14):
                for u in range(1, N + 2):
                    for x3 in (False, True):
                        for oi in (None, 0, 1):
                            mat(cs, mod, kA, 2, N, u, x3, oi)
                    if u in (1, 2, 3, 5) and N < 8 or not q:
                        mat(cs, mod, kA, 3, N, u, True, 2)
                        mat(cs, mod, kA, 3, N, u, False)
                    mat(cs, mod, kA, 1, N, u, False)
                    mat(cs, mod, kA, 1, N, u, True, 0)
            for N, u in (((10, 9), (13, 6), (16, 8)) if q else ((20, 4), (20, 6), (20, 8), (20, 9), (20, 12), (20, 13), (17, 16))):
                mat(cs, mod, kA, 2, N, u, True, B=1)
                mat(cs, mod, kA, 2, N, u, False, 0, B=1)
            for u in (1, 2, 3):
                mat(cs, mod, kA, 4, 5, u, True)
                for M in (1, 2, 3):
                    mat(cs, mod, kA, M, 5, u, True, cplx=True)
                    mat(cs, mod, kA, M, 5, u, False, 0, cplx=True)
                    mat(cs, mod, kA, M, 5, u, True, B=3)
                    mat(cs, mod, kA, M, M, u, True, B=M)
                for lay in ("T", "gap", "off"):
                    mat(cs, mod, kA, 2, 5, u, True, layout=lay)
                    mat(cs, mod, kA, 2, 5, u, False, 1, layout=lay)
                mat(cs, mod, kA, 2, 5, u, True, dtype="float32")
    for mod, KA in (("lti", ("", "1", "B")), ("lpv", ("N", "BN"))):
        for ka in KA:
            for N in range(1, 14 if q else 25):
                for u in range(1, min(N + 2, 14)):
                    scal(cs, mod, ka, "B", N, u)
            for ki in ("", "1", "B"):
                for N in (1, 4, 5, 7):
                    for u in (1, 2, 3, 4):
                        for B in (1, 2, 3):
                            scal(cs, mod, ka, ki, N, u, B)
                            scal(cs, mod, ka, ki, N, u, B, cplx=True)
            for u in (1, 2, 3):
                for lay in ("T", "gap", "off"):
                    scal(cs, mod, ka, "B", 5, u, layout=lay)
                scal(cs, mod, ka, "B", 5, u, dtype="float32")
                scal(cs, mod, ka, "B", 3, u, 3)
    return cs.list
