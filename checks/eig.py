"""Contract for torch.linalg.eigvals: the check parameterises the matrix by its
eigenvalues, and the symbolic eigvals returns exactly those once the solver has
shown that the characteristic polynomial of the matrix it is given is theirs."""
import contextlib


def charpoly(M):
    """coefficients of det(z I - M), highest first (Faddeev-LeVerrier), over node ids"""
    from symx import expr as E
    from fractions import Fraction
    n = len(M)
    I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    I = [[E.const(v) if v else 0 for v in r] for r in I]

    def mm(A, B):
        out = []
        for r in A:
            row = []
            for j in range(n):
                s = 0
                for k in range(n):
                    s = E.add(s, E.mul(r[k], B[k][j]))
                row.append(s)
            out.append(row)
        return out
    c = [E.const(1)]
    Mk = [[0] * n for _ in range(n)]
    for k in range(1, n + 1):
        P = mm(M, Mk)
        Mk = [[E.add(P[i][j], E.mul(c[-1], I[i][j])) for j in range(n)] for i in range(n)]
        T = mm(M, Mk)
        tr = 0
        for i in range(n):
            tr = E.add(tr, T[i][i])
        c.append(E.mul(E.const(Fraction(-1, k)), tr))
    return c


def frompoles(p):
    from symx import expr as E
    c = [E.const(1)]
    for r in p:
        c = [E.add(x, E.neg(E.mul(r, y))) for x, y in zip(c + [0], [0] + c)]
    return c


@contextlib.contextmanager
def eigen(*ps):
    """ps: tensors of eigenvalues (..., M), used for successive eigvals calls (the last one repeats)"""
    try:
        from symx import tensor as T, solve
    except ImportError:
        yield
        return
    if not any(isinstance(p, T.SymTensor) for p in ps):
        yield
        return
    n = [0]

    def hook(A):
        p = ps[min(n[0], len(ps) - 1)]
        n[0] += 1
        M = A.shape[-1]
        pi = T.ids_of(p).expand(*A.shape[:-2], M).reshape(-1, M).tolist()
        flat = []
        for mat, poles in zip(T._batched_mats(T.ids_of(A)), pi):
            r = solve.prove_equal(list(zip(charpoly(mat), frompoles(poles))))
            if r.status != "unsat":
                raise T.Unsupported("eigvals of a matrix whose eigenvalues are not the parameters")
            flat += poles
        return flat
    old = T.EIG_HOOK[0]
    T.EIG_HOOK[0] = hook
    try:
        yield
    finally:
        T.EIG_HOOK[0] = old


def poly(p):
    """monic coefficients (..., M+1) of the polynomial with roots p (harness side)"""
    import torch
    one = torch.ones(*p.shape[:-1], 1, dtype=p.dtype)
    z = torch.zeros_like(one)
    c = one
    for i in range(p.shape[-1]):
        c = torch.cat([c, z], -1) - torch.cat([z, c * p[..., i:i + 1]], -1)
    return c
