"""P20: cubic spline coefficients and upsampling."""
from fractions import Fraction

from symx.harness import In
from .util import Cases, tag
from .spec import ZERO

PROPERTY = "P20"
FUNCTIONS = ["philtorch.lti.interp.cspline", "philtorch.lti.interp.cubic_spline", "philtorch.lti.interp._cubic_coeff", "philtorch.lti.interp._first_order_filt",
             "philtorch.lti.interp._cubic_spline_kernel", "philtorch.lti.recur.LTIRecurrence", "csrc/host_lti_recur.cpp"]
BOUNDS = ("lengths 3..12, 16 and 24 (thorough also 32), factors 1..12 and 49 (thorough 1..60), batch 1..3, both boundary conventions, parallel and cascaded form, "
          "gradients; |x| <= 1; tolerance max(2e-6, 40 |r|^(L-1)) with r = sqrt(3)-2: the initialisation sums one mirrored period of the geometric series")
OUTSIDE = ("Lengths below 3 (the documented reflect padding needs three samples), signals larger than 1 (scale linearly), floating point rounding of the data "
           "path, CUDA.")
R = 2 - 3 ** 0.5


def inverse(L, scipy):
    """coefficients as exact linear maps of the samples: (c[n-1] + 4 c[n] + c[n+1]) / 6 = x[n] with the mirrored boundary"""
    idx = mirror(L, scipy)
    M = [[Fraction(0)] * L + [Fraction(int(i == j)) for j in range(L)] for i in range(L)]
    for n in range(L):
        for k, w in ((n - 1, 1), (n, 4), (n + 1, 1)):
            M[n][idx(k)] += Fraction(w, 6)
    for i in range(L):
        p = next(r for r in range(i, L) if M[r][i])
        M[i], M[p] = M[p], M[i]
        f = M[i][i]
        M[i] = [v / f for v in M[i]]
        for r in range(L):
            if r != i and M[r][i]:
                f = M[r][i]
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return [r[L:] for r in M]


def mirror(L, scipy):
    """sample index of the mirrored extension"""
    def f(k):
        if scipy:                       # ... x1 x0 | x0 x1 ... x_{L-1} | x_{L-1} ...
            k %= 2 * L
            return k if k < L else 2 * L - 1 - k
        p = 2 * L - 2                   # ... x2 x1 | x0 x1 ... x_{L-1} | x_{L-2} ...
        k %= p
        return k if k < L else p - k
    return f


def b3(t):
    t = abs(t)
    if t <= 1:
        return (4 - 6 * t ** 2 + 3 * t ** 3) / Fraction(6)
    return (2 - t) ** 3 / Fraction(6) if t < 2 else Fraction(0)


def lin(row, x):
    s = ZERO
    for w, v in zip(row, x):
        if w:
            s = s + v * w
    return s


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def tol(L):
        return max(2e-6, 40 * R ** (L - 1))

    def one(f, L, m=None, B=2, scipy=False, par=None, uf=None, layout=None, dtype=None, grad=()):
        kw = {}
        if par is not None:
            kw["parallel_form"] = par
        if uf is not None:
            kw["unroll_factor"] = uf
        C = inverse(L, scipy)
        idx = mirror(L, scipy)
        if f == "cspline":
            rows = C
        else:
            rows = []
            for k in range((L - 1) * m + 1):
                t = Fraction(k, m)
                r = [Fraction(0)] * L
                for j in range(-3, L + 3):
                    w = b3(t - j)
                    if w:
                        r = [a + w * c for a, c in zip(r, C[idx(j)])]
                rows.append(r)
            if m == 1:
                rows = [[Fraction(int(i == j)) for j in range(L)] for i in range(L)]

        def call(Lb, t):
            if f == "cspline":
                return Lb.lti__interp.cspline(t["x"], scipy_padding=scipy, **kw)
            return Lb.lti__interp.cubic_spline(t["x"], m, scipy_padding=scipy, **kw)
        e = tol(L) * (3 if f == "cspline" else 1)
        if dtype == "float32":
            e = max(e, 1e-5)
        cs.add(tag(f=f, L=L, m=m, B=B, sp=scipy, par=None if par is None else str(par), u=uf, l=layout, dt=dtype, g="".join(grad)),
               {"x": In(B, L, layout=layout, **({"dtype": dtype} if dtype else {}))}, call,
               lambda t: [[lin(r, x) for r in rows] for x in t["x"]], tol_solver=e, tol=max(2 * e, 1e-6), grad=grad)
    for scipy in (False, True):
        for par in (None, True, False):
            for L in list(range(3, 13)) + [16, 24] + ([] if q else [32]):
                one("cspline", L, scipy=scipy, par=par)
                one("cubic", L, 3, scipy=scipy, par=par)
                if L <= 8:
                    one("cubic", L, 2, 1, scipy=scipy, par=par)
                    one("cubic", L, 5, 3, scipy=scipy, par=par)
            for m in list(range(1, 13 if q else 61)) + [49]:
                one("cubic", 10, m, 1, scipy=scipy, par=par)
            for u in (1, 2, 3):
                one("cubic", 9, 2, scipy=scipy, par=par, uf=u)
            one("cubic", 14, 2, scipy=scipy, par=par, layout="T")
            one("cubic", 14, 2, scipy=scipy, par=par, layout="gap")
            one("cubic", 14, 2, scipy=scipy, par=par, dtype="float32")
            one("cspline", 9, scipy=scipy, par=par, grad=("x",))
            one("cubic", 12, 2, scipy=scipy, par=par, grad=("x",))
    return cs.list
