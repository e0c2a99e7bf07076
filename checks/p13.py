"""P13: the time-invariant FIR filter is convolution with a delay-line state."""
from symx.harness import In
from .util import Cases, tag
from . import spec as S
from .spec import ZERO

PROPERTY = "P13"
FUNCTIONS = ["philtorch.lti.fir"]
BOUNDS = "order 0..6 (quick) / 0..9, length 1..9 / 1..16, batch 1..4, 1..4 chunks; all memory layouts of b, x, zi"


def direct(b, x, zi):
    h = list(zi)
    M = len(b) - 1
    y = []
    for xn in x:
        y.append(S.dot(b, [xn] + h))
        h = ([xn] + h)[:M]
    return y, h


def transposed(b, x, zi):
    z = list(zi) + [ZERO]
    M = len(b) - 1
    y = []
    for xn in x:
        y.append(b[0] * xn + z[0])
        z = [z[k + 1] + b[k + 1] * xn for k in range(M)] + [ZERO]
    return y, z[:M]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(tr, M, N, B=2, st=False, cplx=False, dtype=None, lb=None, lx=None, lz=None):
        f = transposed if tr in (True, None) else direct
        kw = {} if tr is None else {"transpose": tr}
        ins = {"b": In(B, M + 1, cplx=cplx, dtype=dtype, layout=lb), "x": In(B, N, cplx=cplx, dtype=dtype, layout=lx)}
        if st:
            ins["zi"] = In(B, M, cplx=cplx, dtype=dtype, layout=lz)

        def ref(t):
            r = [f(t["b"][i], t["x"][i], t["zi"][i] if st else [ZERO] * M) for i in range(B)]
            y = [k[0] for k in r]
            return (y, [k[1] for k in r]) if st else y
        shapes = [(B, N), (B, M)] if st and M == 0 else None
        cs.add(tag(t=str(tr), M=M, N=N, B=B, z=st, c=cplx, d=dtype, lb=lb, lx=lx, lz=lz), ins,
               lambda L, t: L.lti.fir(t["b"], t["x"], zi=t.get("zi"), **kw), ref, shapes=shapes)

    def chunks(tr, M, parts, B=2, cplx=False):
        f = transposed if tr else direct

        def call(L, t):
            import torch
            z, p, ys = t["zi"], 0, []
            for n in parts:
                y, z = L.lti.fir(t["b"], t["x"][:, p:p + n], zi=z, transpose=tr)
                ys.append(y)
                p += n
            return torch.cat(ys, 1), z

        def ref(t):
            r = [f(t["b"][i], t["x"][i], t["zi"][i]) for i in range(B)]
            return [k[0] for k in r], [k[1] for k in r]
        N = sum(parts)
        cs.add("chunks" + "+".join(map(str, parts)) + "-" + tag(t=str(tr), M=M, B=B, c=cplx),
               {"b": In(B, M + 1, cplx=cplx), "x": In(B, N, cplx=cplx), "zi": In(B, M, cplx=cplx)}, call, ref)
    for tr in (True, False):
        for M in range(0, 7 if q else 10):
            for N in range(1, 10 if q else 17):
                for st in (False, True):
                    one(tr, M, N, st=st)
        for B in (1, 3, 4):
            for M in (0, 1, 2, 3, 4):
                for N in (1, 3, 4, 5):
                    for st in (False, True):
                        one(tr, M, N, B, st)
        for M in (0, 1, 2, 4):
            for N in (1, 2, 5):
                for st in (False, True):
                    one(tr, M, N, 2, st, True)
        for dt in ("float32", "complex64"):
            for st in (False, True):
                one(tr, 2, 4, 2, st, dt.startswith("c"), dt)
        for lay in ("T", "gap", "off", "expand0"):
            one(tr, 2, 4, 3, True, lb=lay)
            one(tr, 2, 4, 3, True, lx=lay)
            one(tr, 2, 4, 3, True, lz=lay)
            one(tr, 2, 4, 3, True, lb=lay, lx=lay, lz=lay)
        for parts in ((1, 1), (2, 3), (1, 4), (4, 1), (3, 1, 1), (1, 1, 1, 1)) + (() if q else ((5, 4), (2, 3, 2), (1, 6))):
            for M in (1, 2, 3, 5):
                chunks(tr, M, parts)
                chunks(tr, M, parts, 3, True)
    one(None, 2, 4)
    one(None, 2, 4, st=True)
    return cs.list
