"""P21: Newton solver for recurrences."""
import contextlib

from symx.harness import In
from .util import Cases, tag
from . import spec as S
from .spec import ZERO, ONE

PROPERTY = "P21"
FUNCTIONS = ["philtorch.prototype.nl.newton_solve", "philtorch.lpv.ssm._ext_ss_recur / MatrixRecurrence / state_space_recursion", "csrc/host_recur2.cpp",
             "csrc/host_recurN.cpp"]
BOUNDS = ("affine recurrences with arbitrary time-varying, per-batch coefficients: state size 1..3, length 2..6, batch 1..2, iteration limits 1..4; polynomial "
          "recurrences (degree 2 and 3, coupled states of size 1..2): 1..3 iterations, length 2..5; Jacobian supplied or by automatic differentiation; unroll "
          "factor 1, 2, 3, None; gradients of the affine solution")
ASSUME = ["torch.autograd.functional.jacobian(vectorize=True) equals its unvectorised evaluation",
          "polynomial recurrences: tolerances 0 and a guess that is not already consistent, so that every iteration is performed"]


@contextlib.contextmanager
def plain_jacobian(x):
    """the vectorised Jacobian (a vmap over cotangents) is evaluated row by row"""
    import torch
    try:
        from symx.tensor import SymTensor
    except ImportError:
        yield
        return
    if not isinstance(x, SymTensor):
        yield
        return
    old = torch.autograd.functional.jacobian
    torch.autograd.functional.jacobian = lambda f, i, create_graph=False, strict=False, vectorize=False, strategy="reverse-mode": old(f, i, create_graph, strict)
    try:
        yield
    finally:
        torch.autograd.functional.jacobian = old


def affine(D):
    def f(y, x):
        A = x[..., :D * D].reshape(*x.shape[:-1], D, D)
        return (A * y.unsqueeze(-2)).sum(-1) + x[..., D * D:]

    def fp(y, x):
        return x[..., :D * D].reshape(*x.shape[:-1], D, D)

    def sf(y, x):
        return [S.dot(x[i * D:(i + 1) * D], y) + x[D * D + i] for i in range(D)]

    def sj(y, x):
        return [x[i * D:(i + 1) * D] for i in range(D)]
    return f, fp, sf, sj, D * D + D


def quad():
    """y' = x0 y^2 + x1"""
    return (lambda y, x: x[..., :1] * y * y + x[..., 1:],
            lambda y, x: (2 * x[..., :1] * y).unsqueeze(-1),
            lambda y, x: [x[0] * y[0] * y[0] + x[1]],
            lambda y, x: [[2 * x[0] * y[0]]], 2)


def cubic():
    return (lambda y, x: y ** 3 - x[..., :1] * y + x[..., 1:],
            lambda y, x: (3 * y ** 2 - x[..., :1]).unsqueeze(-1),
            lambda y, x: [y[0] ** 3 - x[0] * y[0] + x[1]],
            lambda y, x: [[3 * y[0] ** 2 - x[0]]], 2)


def coupled():
    """p' = p q + x0, q' = x1 p + q^2"""
    def f(y, x):
        import torch
        p, q = y[..., 0], y[..., 1]
        return torch.stack([p * q + x[..., 0], x[..., 1] * p + q * q], -1)

    def fp(y, x):
        import torch
        p, q = y[..., 0], y[..., 1]
        return torch.stack([torch.stack([q, p], -1), torch.stack([x[..., 1], 2 * q], -1)], -2)
    return (f, fp, lambda y, x: [y[0] * y[1] + x[0], x[1] * y[0] + y[1] * y[1]],
            lambda y, x: [[y[1], y[0]], [x[1], 2 * y[1]]], 2)


def newton(sf, sj, x, y0, init, K):
    """K documented Newton iterations on one batch entry; after iteration k the first k samples stay fixed"""
    y = [init] + y0
    L = len(x)
    news = []
    for i in range(K):
        new = list(y[:i + 1]) + [sf(y[i], x[i])]
        for t in range(i + 1, L):
            d = [a - b for a, b in zip(new[t], y[t])]
            new.append(S.vadd(sf(y[t], x[t]), S.matvec(sj(y[t], x[t]), d)))
        news.append((y, new))
        y = new
    return y[1:], news


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(kind, D, L, K, B=2, jac=True, uf=1, grad=(), mk=None):
        f, fp, sf, sj, N = affine(D) if kind == "affine" else {"quad": quad, "cubic": cubic, "coupled": coupled}[kind]()
        ins = {"x": In(B, L, N), "y0": In(B, L, D), "init": In(B, D)}
        kw = {} if uf == "default" else {"unroll_factor": uf}
        if kind != "affine" or L > 3 or D > 1 and K > 1:
            kw.update(atol=0.0, rtol=0.0)

        def call(Lb, t):
            import torch
            with plain_jacobian(t["x"]):
                y, n = Lb.prototype__nl.newton_solve(f, t["x"], t["y0"], t["init"], max_iter=K, fprime=fp if jac else None, **kw)
            if kind == "affine":
                return y
            return y, torch.tensor(float(n), dtype=torch.float64)

        def ref(t):
            out = []
            for x, y0, init in zip(t["x"], t["y0"], t["init"]):
                if kind == "affine":
                    y = []
                    h = init
                    for xt in x:
                        h = sf(h, xt)
                        y.append(h)
                    out.append(y)
                else:
                    out.append(newton(sf, sj, x, y0, init, K)[0])
            return out if kind == "affine" else (out, S.Ex.of(K))

        def assume(t):
            from symx import expr as E
            conds = []
            for k in range(K):
                x, y0, init = t["x"][0], t["y0"][0], t["init"][0]
                y, new = newton(sf, sj, x, y0, init, k + 1)[1][k]
                b = 0
                for u, v in zip(y[k + 1], new[k + 1]):
                    b = E.bor(b, E.bnot(E.eq((u - v).id, 0)))
                conds.append(b)
            return conds
        cs.add(tag(k=kind, D=D, L=L, K=K, B=B, j="f" if jac else "ad", u="None" if uf is None else uf, g="".join(grad)), ins, call, ref,
               assume=None if kind == "affine" else assume, grad=grad, check_dtype=kind == "affine")
    for D in (1, 2, 3):
        for L in (2, 3, 4) + ((5, 6) if D < 3 else ()):
            for K in range(1, min(L, 4)):
                for jac in (True, False):
                    if D == 3 and (K > 1 or L > 3):
                        continue
                    one("affine", D, L, K, jac=jac)
                    if L <= 4 and D < 3:
                        for uf in (2, 3, None, "default"):
                            one("affine", D, L, K, jac=jac, uf=uf)
                    if L <= 3:
                        one("affine", D, L, K, B=1, jac=jac)
    for jac in (True, False):
        one("affine", 1, 3, 1, jac=jac, grad=("x", "init"))
        one("affine", 2, 3, 1, B=1, jac=jac, grad=("x", "init"))
        for kind, D in (("quad", 1), ("cubic", 1), ("coupled", 2)):
            for L in (2, 3, 4) if q else (2, 3, 4, 5):
                for K in (1, 2, 3):
                    if K >= L or (K == 3 and kind != "quad") or (K == 2 and L > 3 and kind == "coupled"):
                        continue
                    one(kind, D, L, K, B=1, jac=jac)
                    if K == 1:
                        one(kind, D, L, K, B=2, jac=jac)
                        one(kind, D, L, K, B=1, jac=jac, uf=2)
    return cs.list
