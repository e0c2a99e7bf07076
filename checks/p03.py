"""P03: parameter-varying lfilter follows the documented filter structure at every step."""
from symx.harness import In
from .util import Cases, sh, tag
from . import spec as S

PROPERTY = "P03"
FUNCTIONS = ["philtorch.lpv.lfilter", "philtorch.lpv.filtering._ssm_lfilter", "philtorch.lpv.filtering._torchlpc_lfilter",
             "philtorch.lpv.fir", "philtorch.lpv.allpole", "philtorch.lpv.state_space", "philtorch.lpv.state_space_recursion",
             "philtorch.lpv.ssm._ext_ss_recur", "philtorch.lpv.utils.diag_shift", "philtorch.mat.companion",
             "csrc/host_recur2.cpp", "csrc/host_recurN.cpp"]
BOUNDS = "orders 1..4, length 1..7 (quick) / 1..10 (thorough), batch 1..3, unroll_factor None,1..4, real and complex"
ASSUME = ["torchlpc.sample_wise_lpc computes y[n] = x[n] - sum_k A[n,k] y[n-1-k] (its documented contract)"]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(form, nb, na, N, B=2, bB=0, aB=0, backend="ssm", uf="default", cplx=False, layout=None, dtype=None):
        kw = {} if uf == "default" else {"unroll_factor": uf}
        cs.add(tag(form=form, be=backend, b=nb, a=na, N=N, B=B, bB=bB, aB=aB, u="None" if uf is None else uf, c=cplx, l=layout, d=dtype),
               {"b": In(*sh(bB, N, nb), cplx=cplx, layout=layout, dtype=dtype),
                "a": In(*sh(aB, N, na), cplx=cplx, layout=layout, dtype=dtype), "x": In(*sh(B, N), cplx=cplx, dtype=dtype)},
               lambda L, t: L.lpv.lfilter(t["b"], t["a"], t["x"], form=form, backend=backend, **kw),
               lambda t: S.lpv_lfilter(t["b"], t["a"], t["x"], None, form))

    def const(form, nb, na, N, backend="ssm"):
        """coefficients constant in time: the time-invariant difference equation"""
        def call(L, t):
            b, a = t["b"].expand(N, -1), t["a"].expand(N, -1)
            return L.lpv.lfilter(b, a, t["x"], form=form, backend=backend)
        cs.add(f"const-{form}-{backend}-b{nb}a{na}N{N}", {"b": In(nb), "a": In(na), "x": In(2, N)}, call,
               lambda t: S.lfilter(t["b"], t["a"], t["x"]))
    for form in ("df2", "tdf2", "df1", "tdf1"):
        for be in ("ssm", "torchlpc"):
            if be == "torchlpc" and form == "tdf2":
                continue
            ufs = ("default",) if be == "torchlpc" or form in ("df1", "tdf1") else ("default", 1, 2)
            for nb, na in ((2, 1), (3, 2), (1, 2), (2, 3), (4, 2), (3, 3), (1, 1)):
                for uf in ufs:
                    one(form, nb, na, 4 if q else 6, bB=2, aB=2, backend=be, uf=uf)
            for B, bB, aB in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 3, 0), (2, 0, 2)):
                for nb, na in ((3, 2), (2, 1), (3, 3)):
                    for uf in ufs:
                        one(form, nb, na, 4, B, bB, aB, be, uf)
            for N in range(1, 8 if q else 11):
                for uf in ufs + (() if ufs == ("default",) else (3, None)):
                    one(form, 3, 2, N, backend=be, uf=uf, aB=2)
                one(form, 2, 1, N, backend=be)
                one(form, 4, 3, N, backend=be)
            for n in (2, 3):
                one(form, n + 1, n, n, n, 0, 0, be)
                one(form, n + 1, n, n, n, n, n, be)
            for nb, na in ((3, 2), (2, 1), (2, 3)):
                for uf in ufs:
                    one(form, nb, na, 4, cplx=True, backend=be, uf=uf)
                one(form, nb, na, 4, cplx=True, backend=be, bB=2, aB=2)
            for lay in ("T", "gap", "off"):
                one(form, 3, 2, 4, layout=lay, backend=be)
            one(form, 3, 2, 4, dtype="float32", backend=be)
            for nb, na in ((3, 2), (2, 1), (2, 3)):
                const(form, nb, na, 5, be)
    return cs.list
