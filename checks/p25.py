"""P25: diag_shift places coefficient k of time t at time t + k + offset."""
from symx.harness import In
from .util import Cases, tag
from .spec import ZERO

PROPERTY = "P25"
FUNCTIONS = ["philtorch.lpv.diag_shift"]
BOUNDS = "length 1..7 (quick) / 1..12, 1..6 / 1..9 coefficients, offset 0..4 / 0..7, leading shapes (), (B), (B1, B2); all memory layouts"


def shifted(c, off, discard):
    T, M = len(c), len(c[0])
    n = T if discard else T + M + off - 1
    return [[c[s - k - off][k] if 0 <= s - k - off < T else ZERO for k in range(M)] for s in range(n)]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(T, M, off, disc, lead=(), cplx=False, layout=None, kw=True, dtype=None):
        def ref(t):
            def go(c, n):
                return [go(k, n[1:]) for k in c] if n else shifted(c, off, disc)
            return go(t["c"], lead)
        f = (lambda L: L.lpv__utils.diag_shift)
        call = (lambda L, t: f(L)(t["c"], offset=off, discard_end=disc)) if kw else (lambda L, t: f(L)(t["c"]))
        n = T if disc else T + M + off - 1
        cs.add(tag(T=T, M=M, o=off, d=disc, lead=lead or None, c=cplx, l=layout, kw=kw, dt=dtype), {"c": In(*lead, T, M, cplx=cplx, layout=layout, dtype=dtype)},
               call, ref, shapes=[lead + (n, M)])
    for T in range(1, 8 if q else 13):
        for M in range(1, 7 if q else 10):
            for off in range(0, 5 if q else 8):
                for disc in (False, True):
                    one(T, M, off, disc)
                    if M in (1, 2, 3, T) and off < 3:
                        one(T, M, off, disc, (2,))
    for M in (1, 2, 3):
        for off in (0, 1, 2):
            for disc in (False, True):
                one(3, M, off, disc, (2, 2))
                one(3, M, off, disc, (3,), True)
                for l in ("T", "gap", "off", "rev", "expand0"):
                    one(3, M, off, disc, (3,), layout=l)
        one(4, M, 0, False, kw=False)
        one(4, M, 1, True, dtype="float32")
    return cs.list
