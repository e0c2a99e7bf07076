"""P04: parameter-varying filters: initial / final state and chunked filtering."""
from symx.harness import In
from .util import Cases, sh, tag
from . import spec as S

PROPERTY = "P04"
FUNCTIONS = ["philtorch.lpv.lfilter", "philtorch.lpv.filtering._ssm_lfilter", "philtorch.lpv.filtering._torchlpc_lfilter",
             "philtorch.lpv.fir", "philtorch.lpv.allpole", "philtorch.lpv.state_space", "csrc/host_recur2.cpp", "csrc/host_recurN.cpp"]
BOUNDS = "orders 1..4, length 1..6 (quick) / 1..9 (thorough), batch 1..3, 1..4 chunks"
ASSUME = ["torchlpc.sample_wise_lpc computes y[n] = x[n] - sum_k A[n,k] y[n-1-k] (its documented contract)"]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(form, nb, na, N, B=2, bB=0, aB=0, zB=2, backend="ssm", uf="default", cplx=False, parts=None):
        kw = {} if uf == "default" else {"unroll_factor": uf}
        M = max(nb - 1, na)
        ch = parts or (N,)

        def call(L, t):
            import torch
            z, ys, p = t["zi"], [], 0
            for n in ch:
                y, z = L.lpv.lfilter(t["b"][..., p:p + n, :], t["a"][..., p:p + n, :], t["x"][..., p:p + n], zi=z,
                                     form=form, backend=backend, **kw)
                ys.append(y)
                p += n
            return torch.cat(ys, -1), z
        cs.add(tag(form=form, be=backend, b=nb, a=na, N=N, B=B, bB=bB, aB=aB, zB=zB, u="None" if uf is None else uf, c=cplx,
                   p="+".join(map(str, ch))),
               {"b": In(*sh(bB, N, nb), cplx=cplx), "a": In(*sh(aB, N, na), cplx=cplx), "x": In(*sh(B, N), cplx=cplx),
                "zi": In(*sh(zB, M), cplx=cplx)}, call,
               lambda t: S.lpv_lfilter(t["b"], t["a"], t["x"], t["zi"], form))
    for form, be in (("df2", "ssm"), ("tdf2", "ssm"), ("df2", "torchlpc")):
        ufs = ("default",) if be == "torchlpc" else ("default", 1, 2)
        for nb, na in ((2, 1), (1, 1), (3, 2), (1, 2), (2, 3), (4, 2), (3, 3), (4, 1)):
            for uf in ufs:
                one(form, nb, na, 4, backend=be, uf=uf)
                one(form, nb, na, 3, bB=2, aB=2, backend=be, uf=uf)
        for N in range(1, 7 if q else 10):
            for uf in ufs:
                one(form, 3, 2, N, backend=be, uf=uf, aB=2, bB=2)
                one(form, 4, 3, N, backend=be, uf=uf)
                one(form, 2, 1, N, backend=be, uf=uf)
        for B, bB, aB, zB in ((0, 0, 0, 0), (2, 0, 0, 0), (1, 0, 0, 1), (3, 3, 0, 3), (2, 0, 2, 0), (3, 3, 3, 3)):
            for nb, na in ((3, 2), (2, 1), (2, 3)):
                for uf in ufs:
                    one(form, nb, na, 4, B, bB, aB, zB, be, uf)
        for nb, na in ((3, 2), (2, 1), (2, 3)):
            one(form, nb, na, 4, cplx=True, backend=be)
        for parts in ((1, 1), (2, 3), (3, 1, 1), (1, 1, 1, 1)) + (() if q else ((4, 4), (1, 3, 2), (5, 1, 3))):
            for nb, na in ((3, 2), (2, 1), (2, 3)):
                one(form, nb, na, sum(parts), backend=be, parts=parts, bB=2, aB=2)
                one(form, nb, na, sum(parts), B=0, zB=0, backend=be, parts=parts)

    # the building blocks: direct and transposed FIR / all-pole with state
    def block(kind, tr, M, N, parts=None, cplx=False, zi=True):
        ch = parts or (N,)
        K = M + 1 if kind == "fir" else M
        f = {("fir", 0): S.lpv_fir, ("fir", 1): S.lpv_fir_t, ("allpole", 0): S.lpv_allpole, ("allpole", 1): S.lpv_allpole_t}[(kind, tr)]

        def call(L, t):
            import torch
            fn = getattr(L.lpv, kind)
            if not zi:
                return fn(t["c"], t["x"], transpose=bool(tr))
            z, ys, p = t["zi"], [], 0
            for n in ch:
                y, z = fn(t["c"][:, p:p + n], t["x"][:, p:p + n], z, transpose=bool(tr))
                ys.append(y)
                p += n
            return torch.cat(ys, -1), z

        def ref(t):
            if not zi:
                return [f(c, x)[0] for c, x in zip(t["c"], t["x"])]
            r = [f(c, x, z) for c, x, z in zip(t["c"], t["x"], t["zi"])]
            return [k[0] for k in r], [k[1] for k in r]
        ins = {"c": In(2, N, K, cplx=cplx), "x": In(2, N, cplx=cplx)}
        if zi:
            ins["zi"] = In(2, M, cplx=cplx)
        cs.add(f"{kind}{'T' if tr else ''}-M{M}-N{N}-{'+'.join(map(str, ch))}{'-c' if cplx else ''}{'' if zi else '-nozi'}", ins, call, ref)
    for kind in ("fir", "allpole"):
        for tr in (0, 1):
            for M in (1, 2, 3):
                for N in range(1, 6 if q else 9):
                    block(kind, tr, M, N)
                    block(kind, tr, M, N, zi=False)
                block(kind, tr, M, 4, cplx=True)
                block(kind, tr, M, 4, cplx=True, zi=False)
                for parts in ((1, 1), (2, 3), (3, 1, 1), (1, 1, 1, 1)):
                    block(kind, tr, M, sum(parts), parts)
    return cs.list
