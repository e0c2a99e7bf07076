"""P14: the comb filter is y[n] = x[n] - a y[n-D] with its delay line as state."""
from symx.harness import In
from .util import Cases, tag
from .spec import ZERO

PROPERTY = "P14"
FUNCTIONS = ["philtorch.lti.comb_filter", "philtorch.lti.linear_recurrence"]
BOUNDS = "delay 1..6 (quick) / 1..9, length 1..9 / 1..16, batch 1..4, coefficient (), (1,), (B,), state (D,), (B, D) or none, unroll 1..4, 1..4 chunks"


def comb(a, D, x, zi):
    """zi[k] = y[-1-k]"""
    past = list(zi)
    y = []
    for xn in x:
        yn = xn - a * past[D - 1]
        y.append(yn)
        past = ([yn] + past)[:D]
    return y, past


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    ASH = {"sc": lambda B: (), "1": lambda B: (1,), "B": lambda B: (B,)}

    def A(t, ka, i):
        return t["a"] if ka == "sc" else t["a"][0] if ka == "1" else t["a"][i]

    def ref(t, ka, kz, D, B):
        r = [comb(A(t, ka, i), D, t["x"][i], [ZERO] * D if kz is None else t["zi"] if kz == "D" else t["zi"][i]) for i in range(B)]
        y = [k[0] for k in r]
        return y if kz is None else (y, [k[1] for k in r])

    def one(ka, kz, D, N, B=2, uf=None, cplx=False, la=None, lx=None, lz=None):
        kw = {} if uf is None else {"unroll_factor": uf}
        ins = {"a": In(*ASH[ka](B), cplx=cplx, layout=la), "x": In(B, N, cplx=cplx, layout=lx)}
        if kz:
            ins["zi"] = In(*((D,) if kz == "D" else (B, D)), cplx=cplx, layout=lz)
        cs.add(tag(a=ka, z=kz, D=D, N=N, B=B, u=uf, c=cplx, la=la, lx=lx, lz=lz), ins,
               lambda L, t: L.lti.comb_filter(t["a"], D, t["x"], zi=t.get("zi"), **kw),
               lambda t: ref(t, ka, kz, D, B))

    def chunks(ka, D, parts, B=2, cplx=False):
        def call(L, t):
            import torch
            z, p, ys = t["zi"], 0, []
            for n in parts:
                y, z = L.lti.comb_filter(t["a"], D, t["x"][:, p:p + n], zi=z)
                ys.append(y)
                p += n
            return torch.cat(ys, 1), z
        cs.add("chunks" + "+".join(map(str, parts)) + "-" + tag(a=ka, D=D, B=B, c=cplx),
               {"a": In(*ASH[ka](B), cplx=cplx), "x": In(B, sum(parts), cplx=cplx), "zi": In(B, D, cplx=cplx)}, call,
               lambda t: ref(t, ka, "BD", D, B))
    for ka in ("sc", "1", "B"):
        for D in range(1, 7 if q else 10):
            for N in range(1, 10 if q else 17):
                for kz in (None, "BD"):
                    one(ka, kz, D, N)
                if N in (1, 4, 5):
                    one(ka, "D", D, N)
            for uf in (2, 3, 4):
                for N in (2, 7, 8):
                    one(ka, "BD", D, N, uf=uf)
                    one(ka, None, D, N, uf=uf)
        for B in (1, 3, 4):
            for D in (1, 2, 3, 4):
                for N in (3, 4):
                    for kz in (None, "D", "BD"):
                        one(ka, kz, D, N, B)
        for D in (1, 2, 3):
            for kz in (None, "D", "BD"):
                one(ka, kz, D, 5, cplx=True)
                one(ka, kz, D, 2, cplx=True)
        for lay in ("T", "gap", "off", "expand0"):
            for D in (1, 2, 3):
                one(ka, "BD", D, 4, 3, lx=lay)
                one(ka, "BD", D, 4, 3, lz=lay)
                if ka == "B" and lay != "T":
                    one(ka, "BD", D, 4, 3, la=lay)
        for parts in ((1, 1), (2, 3), (1, 4), (3, 1, 1), (1, 1, 1, 1)) + (() if q else ((5, 4), (2, 3, 2))):
            for D in (1, 2, 3, 4):
                chunks(ka, D, parts)
            chunks(ka, 3, parts, 3, True)
    return cs.list
