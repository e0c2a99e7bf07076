"""P05: lti.state_space satisfies the state-space equations for every documented shape."""
from .util import Cases
from .ssgen import one

PROPERTY = "P05"
FUNCTIONS = ["philtorch.lti.state_space", "philtorch.lti.ssm._ssm_C_D", "philtorch.lti.ssm._ext_ss_recur",
             "philtorch.lti.state_space_recursion", "philtorch.lti.ssm.LTIMatrixRecurrence", "philtorch.lti.recur.LTIRecurrence",
             "csrc/host_lti_recurN.cpp", "csrc/host_lti_recur.cpp"]
BOUNDS = ("state size 1..4, batch 1..3, length 1..7 (quick) / 1..12 (thorough), 1..6 input and output channels, unroll_factor None,1..5, "
          "axis sizes pairwise distinct where the documentation would otherwise be ambiguous; real and complex")
MOD = "lti"
KA = ("MM", "BMM")
KB2 = (None, "M", "BM")
KB3 = ("MF", "BMF")
KC = ("M", "BM", "PM", "BPM")
SCALAR_C = ("M", "BM")
D2S = ("", "1", "B")
D2V = ("P", "BP")
D3S = ("F", "BF")
D3V = ("PF", "BPF")
DIMS = [dict(B=2, N=4, M=3, F=5, P=6), dict(B=3, N=5, M=2, F=4, P=6), dict(B=2, N=3, M=1, F=4, P=5), dict(B=1, N=4, M=3, F=2, P=6)]


def gen(cs, tier, m):
    q = tier == "quick"
    dims = m.DIMS
    for d in dims:
        d2 = dict(d)
        # recursion side: A, B, x rank, initial state, unroll factor, selected state
        for kA in m.KA:
            for kx, kBs in (("BN", m.KB2), ("BNF", m.KB3), ("BNM", (None,))):
                for kB in kBs:
                    for kz in (None, "M", "BM"):
                        for uf in (1, 2, None, "default") if q else (1, 2, 3, 4, None, "default"):
                            for oi in (None, d["M"] - 1):
                                one(cs, m.MOD, d2, kA, kx, kB, kz=kz, uf=uf, oi=oi)
        # output side
        for kx, Ds, Dv in (("BN", m.D2S, m.D2V), ("BNF", m.D3S, m.D3V)):
            kB = None if kx == "BN" else "MF"
            for kC in m.KC:
                sc = kC in m.SCALAR_C
                for kD in (None,) + (Ds if sc else Dv):
                    for kz in (None, "BM"):
                        one(cs, m.MOD, d2, m.KA[0], kx, kB, kC, kD, kz)
                        if not q or kz:
                            one(cs, m.MOD, d2, m.KA[1], kx, kB, kC, kD, kz, uf=2)
            # no output matrix: D adds to the selected state or to the whole state
            for kD in Ds:
                for kz in (None, "BM"):
                    one(cs, m.MOD, d2, m.KA[0], kx, kB, None, kD, kz, oi=0)
        dv = dict(d2, P=d2["M"])
        if dv["P"] not in (dv["B"], dv["N"], 1):
            for kx, Dv in (("BN", m.D2V), ("BNF", m.D3V)):
                for kD in Dv:
                    one(cs, m.MOD, dv, m.KA[0], kx, None if kx == "BN" else "MF", None, kD, "BM", sufx="PM")
        # scalar feedthrough of a vector input
        one(cs, m.MOD, d2, m.KA[0], "BNM", None, None, "", "BM")
        if d2["M"] > 1:
            one(cs, m.MOD, d2, m.KA[0], "BNM", None, None, "1", "BM")
    # every length against every unroll factor
    for N in range(1, 8 if q else 13):
        for uf in (1, 2, 3, 4, 5, None):
            for M in (1, 2, 3):
                d = dict(B=2, N=N, M=M)
                one(cs, m.MOD, d, m.KA[0], kz="BM", uf=uf)
                one(cs, m.MOD, d, m.KA[1], kz=None, uf=uf, oi=0)
    d = dict(B=2, N=5, M=4, F=3, P=6)
    one(cs, m.MOD, d, m.KA[0], kz="BM")
    one(cs, m.MOD, d, m.KA[1], "BNF", "MF", "PM", "PF", kz="BM", uf=2)
    for kA in m.KA:
        for uf in (1, 2, 3):
            for d in (dict(B=2, N=5, M=2, F=4, P=6), dict(B=2, N=5, M=3, F=4, P=6), dict(B=2, N=5, M=1, F=4, P=6)):
                one(cs, m.MOD, d, kA, "BN", "M", "M", "", "M", uf, cplx=True)
                one(cs, m.MOD, d, kA, "BN", m.KB2[-1], m.KC[1], m.D2S[-1], "BM", uf, cplx=True)
                one(cs, m.MOD, d, kA, "BNF", m.KB3[-1], m.KC[-1], m.D3V[-1], "BM", uf, cplx=True)
                one(cs, m.MOD, d, kA, "BNF", m.KB3[0], m.KC[0], m.D3S[-1], "BM", uf, cplx=True)
                one(cs, m.MOD, d, kA, "BN", None, None, None, "BM", uf, oi=0, cplx=True)
                one(cs, m.MOD, d, kA, "BNM", None, None, None, None, uf, cplx=True)
    for kC in m.KC:
        for kD in (m.D2S if kC in m.SCALAR_C else m.D2V):
            one(cs, m.MOD, DIMS[0], m.KA[0], "BN", "M", kC, kD, "BM", cplx=True)
        for kD in (m.D3S if kC in m.SCALAR_C else m.D3V):
            one(cs, m.MOD, DIMS[0], m.KA[0], "BNF", "MF", kC, kD, "BM", cplx=True)
    for lay in ("T", "gap", "off", "rev"):
        one(cs, m.MOD, DIMS[0], m.KA[1], "BNF", m.KB3[-1], m.KC[-1], m.D3V[-1], "BM", layout=lay)
        one(cs, m.MOD, DIMS[1], m.KA[0], "BN", "M", "PM", "P", "BM", layout=lay)
    one(cs, m.MOD, DIMS[0], m.KA[0], "BNF", "MF", "PM", "PF", "BM", dtype="float32")


def cases(tier):
    import sys
    cs = Cases()
    gen(cs, tier, sys.modules[__name__])
    return cs.list
