"""P16: the initial state built from past outputs and inputs continues the filter."""
from symx.harness import In
from .util import Cases, sh, tag
from .spec import ZERO

PROPERTY = "P16"
FUNCTIONS = ["philtorch.lti.lfiltic", "philtorch.lti.lfilter"]
BOUNDS = "b length 1..5 (quick) / 1..7, a length 1..4 / 1..6, batch 1..3, with and without past inputs; continuations of 1..5 samples"


def state(b, a, y, x):
    """TDF-II state: z[m] = sum_k b[m+1+k] x[-1-k] - sum_k a[m+1+k] y[-1-k] (a without its leading one)"""
    K = max(len(b) - 1, len(a))
    z = []
    for m in range(K):
        s = ZERO
        for k in range(len(b) - 1 - m):
            s = s + b[m + 1 + k] * x[k]
        for k in range(len(a) - m):
            s = s - a[m + k] * y[k]
        z.append(s)
    return z


def continuation(b, a, y, x, xn):
    """samples that follow in the difference equation with the given past"""
    ys, xs, out = list(y), list(x), []
    for v in xn:
        s = b[0] * v
        for k in range(1, len(b)):
            s = s + b[k] * xs[k - 1]
        for k in range(len(a)):
            s = s - a[k] * ys[k]
        out.append(s)
        ys = [s] + ys
        xs = [v] + xs
    return out


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def pick(v, base, i):
        from .spec import depth
        return v[i] if depth(v) > base else v

    def one(nb, na, bB=0, aB=0, yB=0, xB=None, cplx=False, layout=None, lead=None):
        B = max(bB, aB, yB, xB or 0)
        f = (lambda bt, n: sh(bt, n)) if lead is None else (lambda bt, n: lead + (n,))
        ins = {"b": In(*f(bB, nb), cplx=cplx, layout=layout), "a": In(*f(aB, na), cplx=cplx, layout=layout),
               "y": In(*f(yB, na), cplx=cplx, layout=layout)}
        if xB is not None:
            ins["x"] = In(*f(xB, nb - 1), cplx=cplx, layout=layout)

        def ref(t):
            def go(b, a, y, x, n):
                if not n:
                    return state(b, a, y, x if x is not None else [ZERO] * (nb - 1))
                return [go(pick(b, len(n), i), pick(a, len(n), i), pick(y, len(n), i), None if x is None else pick(x, len(n), i), n[1:])
                        for i in range(n[0])]
            return go(t["b"], t["a"], t["y"], t.get("x"), lead or ((B,) if B else ()))
        cs.add(tag(b=nb, a=na, bB=bB, aB=aB, yB=yB, xB=str(xB), c=cplx, l=layout, lead=lead), ins,
               lambda L, t: L.lti.lfiltic(t["b"], t["a"], t["y"], t.get("x")), ref)

    def cont(nb, na, N, B=0, cplx=False, uf=1):
        M = max(nb - 1, na)

        def call(L, t):
            z = L.lti.lfiltic(t["b"], t["a"], t["y"], t["x"])
            return L.lti.lfilter(t["b"], t["a"], t["xn"], zi=z, unroll_factor=uf)[0]

        def ref(t):
            if not B:
                return continuation(t["b"], t["a"], t["y"], t["x"], t["xn"])
            return [continuation(t["b"][i], t["a"][i], t["y"][i], t["x"][i], t["xn"][i]) for i in range(B)]
        cs.add("cont-" + tag(b=nb, a=na, N=N, B=B, c=cplx, u=uf),
               {k: In(*sh(B, n), cplx=cplx) for k, n in (("b", nb), ("a", na), ("y", na), ("x", nb - 1), ("xn", N))}, call, ref)
    for nb in range(1, 6 if q else 8):
        for na in range(1, 5 if q else 7):
            for xB in (None, 0):
                one(nb, na, xB=xB)
                one(nb, na, xB=xB, cplx=True)
            for bB, aB, yB, xB in ((2, 2, 2, 2), (3, 3, 3, None), (0, 0, 2, 2), (0, 2, 2, 0), (2, 0, 0, 2), (2, 0, 2, None), (0, 0, 2, 0)):
                one(nb, na, bB, aB, yB, xB)
            one(nb, na, xB=0, lead=(2, 2))
            one(nb, na, lead=(2, 1))
            if na == nb - 1:
                one(nb, na, na, na, na, na)
                one(nb, na, 0, 0, na, na)
            for N in (1, 3, 5):
                cont(nb, na, N)
            cont(nb, na, 3, 2)
            cont(nb, na, 3, 2, True, 2)
    for lay in ("T", "gap", "off"):
        one(3, 2, 2, 2, 2, 2, layout=lay)
    return cs.list
