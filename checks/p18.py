"""P18: companion, matrix powers, cumulative products, eigenvectors, Vandermonde."""
from symx.harness import In
from .util import Cases, tag
from . import spec as S
from .spec import ZERO, ONE

PROPERTY = "P18"
FUNCTIONS = ["philtorch.mat.companion", "philtorch.mat.matrix_power_accumulate", "philtorch.mat.matrices_cumdot",
             "philtorch.mat.find_eigenvectors", "philtorch.mat.vandermonde"]
BOUNDS = ("companion/vandermonde size 1..6; powers n = -6..12 (full 2x2), -4..6 (3x3), up to 64 (1x1, quick) / 120; cumulative products of 1..12 "
          "(full 2x2) and up to 36 / 60 (1x1) matrices; eigenvectors of size 1..3; leading shapes (), (B), (B1, B2)")
ASSUME = ["inverse powers: A is invertible; eigenvectors: distinct eigenvalues and non-zero first components (the normalisation the function documents)"]


def over(lead, f):
    def go(v, n):
        return [go(k, n[1:]) for k in v] if n else f(v)
    return lambda v: go(v, lead)


def companion(a):
    M = len(a)
    return [[-k for k in a]] + [[ONE if j == i - 1 else ZERO for j in range(M)] for i in range(1, M)]


def inv2(A):
    if len(A) == 1:
        return [[ONE / A[0][0]]]
    if len(A) == 2:
        (a, b), (c, d) = A
        D = a * d - b * c
        return [[d / D, -b / D], [-c / D, a / D]]
    def m(i, j):
        r = [x[:j] + x[j + 1:] for k, x in enumerate(A) if k != i]
        return (r[0][0] * r[1][1] - r[0][1] * r[1][0]) * (1 if (i + j) % 2 == 0 else -1)
    D = S.dot(A[0], [m(0, j) for j in range(3)])
    return [[m(j, i) / D for j in range(3)] for i in range(3)]


def powers(A, n):
    if n == 0:
        return [S.eye(len(A))]
    if n < 0:
        A, n = inv2(A), -n
    out = [A]
    for _ in range(n - 1):
        out.append(S.matmul(out[-1], A))
    return out


def cumdot(As):
    out = [As[0]]
    for A in As[1:]:
        out.append(S.matmul(out[-1], A))
    return out


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    for M in range(1, 7):
        for lead in ((), (2,), (1,), (3, 2)):
            cs.add(tag(f="companion", M=M, lead=lead), {"a": In(*lead, M)}, lambda L, t: L.mat.companion(t["a"]),
                   lambda t, lead=lead: over(lead, companion)(t["a"]))
        cs.add(tag(f="companion", M=M, c=1), {"a": In(2, M, cplx=True, layout="T")}, lambda L, t: L.mat.companion(t["a"]),
               lambda t: over((2,), companion)(t["a"]))
        cs.add(tag(f="companion", M=M, dt=32), {"a": In(M, dtype="float32")}, lambda L, t: L.mat.companion(t["a"]),
               lambda t: companion(t["a"]))
        for lead in ((), (2,), (2, 2)):
            for cplx in (False, True):
                def van(p):
                    m = len(p)
                    return [[k ** (m - 1 - i) for k in p] for i in range(m)]
                cs.add(tag(f="vander", M=M, lead=lead, c=cplx), {"p": In(*lead, M, cplx=cplx)}, lambda L, t: L.mat.vandermonde(t["p"]),
                       lambda t, lead=lead: over(lead, van)(t["p"]))

    def pw(M, n, lead=(), kind="full", cplx=False, layout=None):
        if kind == "companion":
            ins = {"a": In(*lead, M, cplx=cplx)}

            def call(L, t):
                import torch
                a = t["a"]
                A = torch.cat([-a.unsqueeze(-2), torch.eye(M, dtype=a.dtype)[:-1].expand(*lead, M - 1, M)], -2)
                return L.mat.matrix_power_accumulate(A, n)
            ref = lambda t: over(lead, lambda a: powers(companion(a), n))(t["a"])
        else:
            ins = {"A": In(*lead, M, M, cplx=cplx, layout=layout)}
            call = lambda L, t: L.mat.matrix_power_accumulate(t["A"], n)
            ref = lambda t: over(lead, lambda A: powers(A, n))(t["A"])
        cs.add(tag(f="power", M=M, n=str(n), lead=lead or None, k=kind, c=cplx, l=layout), ins, call, ref)
    for n in list(range(0, 65 if q else 121)) + [-1, -2, -3, -4, -5, -6, -12]:
        pw(1, n)
    for n in range(0, 10 if q else 13):
        pw(2, n)
        pw(2, n, kind="companion")
    for n in range(0, 7 if q else 9):
        pw(3, n)
        pw(3, n, kind="companion")
    for n in (12, 16, 18) if q else (12, 16, 18, 20, 24, 30):
        pw(2, n, kind="companion")
    for n in (0, 1, 2, 4, 6):
        for lead in ((2,), (1,), (2, 2)):
            pw(2, n, lead)
        pw(1, n, (3,))
        pw(2, n, (2,), cplx=True)
        for l in ("T", "gap", "off", "rev", "expand0"):
            pw(2, n, (3,), layout=l)
    for n in (-1, -2, -3, -4):
        pw(2, n)
        pw(2, n, (2,))
        if n > -3:
            pw(3, n)
            pw(2, n, cplx=True)

    def cd(M, K, lead=(), cplx=False, layout=None):
        cs.add(tag(f="cumdot", M=M, K=K, lead=lead or None, c=cplx, l=layout), {"A": In(*lead, K, M, M, cplx=cplx, layout=layout)},
               lambda L, t: L.mat.matrices_cumdot(t["A"]), lambda t: over(lead, cumdot)(t["A"]))
    for K in range(1, 37 if q else 61):
        cd(1, K)
    for K in range(1, 9 if q else 13):
        cd(2, K)
    for K in range(1, 5 if q else 6):
        cd(3, K)
        cd(2, K, (2,))
        cd(2, K, (2, 2))
        cd(2, K, (3,), True)
        for l in ("T", "gap", "off", "rev", "expand0"):
            cd(2, K, (3,), layout=l)
    cd(2, 6, (2,))
    cd(1, 12, (2, 2))

    # eigenvectors: (A v - v lambda, |v|^2) must be (0, 1)
    def eig(M, kind, lead=()):
        def build(t):
            import torch
            p = t["p"]
            if kind == "companion":
                one = torch.ones(*lead, 1, dtype=p.dtype)
                c = one
                for i in range(M):
                    c = torch.cat([c, torch.zeros_like(one)], -1) - torch.cat([torch.zeros_like(one), c * p[..., i:i + 1]], -1)
                a = c[..., 1:]
                A = torch.cat([-a.unsqueeze(-2), torch.eye(M, dtype=p.dtype)[:-1].expand(*lead, M - 1, M)], -2)
            elif kind == "companionT":
                return None
            else:   # upper triangular with a symbolic strict upper part: first components are non-zero generically
                A = torch.diag_embed(p) + torch.triu(t["u"], 1)
            return A

        def call(L, t):
            import torch
            A = build(t)
            v = L.mat.find_eigenvectors(A, t["p"])
            return A @ v - v * t["p"].unsqueeze(-2), (v * v.conj()).sum(-2)
        ins = {"p": In(*lead, M, cplx=kind != "real")}
        if kind in ("tri", "real"):
            ins["u"] = In(*lead, M, M, cplx=kind != "real")

        def ref(t):
            z = ZERO
            f1 = [[z] * M for _ in range(M)]
            f2 = [ONE] * M
            for n in reversed(lead):
                f1, f2 = [f1] * n, [f2] * n
            return f1, f2
        cs.add(tag(f="eigvec", M=M, k=kind, lead=lead or None), ins, call, ref, tol=1e-5)
    for kind in ("companion", "tri", "real"):
        for M in (1, 2):
            eig(M, kind)
            eig(M, kind, (2,))
    if not q:
        eig(3, "companion")
        eig(3, "real")
    return cs.list
