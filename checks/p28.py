"""P28: partial-fraction expansions add up to the original rational function."""
from fractions import Fraction as F

from symx.harness import In
from .util import Cases
from .eig import eigen
from .p19 import E_nonzero
from .spec import ZERO, ONE

PROPERTY = "P28"
FUNCTIONS = ["philtorch.prototype.signal (residue, residuez, sos2pfe, unique_roots, _compute_factors, _compute_residues)",
             "philtorch.prototype.poly (roots, polydiv, polymul, polysmul, polyval, polyder, polysub, polyadd)"]
BOUNDS = ("for residue/residuez every numerator of the stated degree and every leading gain of the denominator; for sos2pfe every numerator with non-zero "
          "leading coefficients and every denominator gain; the denominators' poles are 40 fixed patterns (1-5 poles, quick; 1-6, thorough; simple and "
          "repeated up to 4 times, real and conjugate pairs, at zero); numerator degrees from 0 to three above the denominator")
ASSUME = ["torch.linalg.eigvals returns the exact poles (contract); remainder coefficients below 1e-8, which polydiv drops by design, may "
          "change the sum by up to 1e-4", "the pole positions are fixed rational numbers at least 0.1 apart: grouping near-equal poles is outside the claim"]

C = complex
PAT = [
    [F(1, 2)], [F(-2)], [F(1, 2), F(-1, 4)], [F(1, 2), F(1, 2)], [F(-3, 4), F(-3, 4)], [F(1, 2), F(-1, 2)],
    [C(.5, .5), C(.5, -.5)], [C(-.25, 1.), C(-.25, -1.)], [C(0, 1), C(0, -1)],
    [F(1, 2), F(1, 4), F(-1, 4)], [F(1, 2), F(1, 2), F(-1, 4)], [F(1, 2), F(-2), F(-2)], [F(1, 2)] * 3,
    [F(1, 2), C(.5, .5), C(.5, -.5)], [F(-2), C(.5, .5), C(.5, -.5)],
    [F(2), F(1), F(1, 2), F(1, 4)], [F(1, 2), F(1, 2), F(2), F(2)], [F(1, 2), F(1, 2), F(1, 2), F(-1)], [F(-3, 4)] * 4,
    [C(.5, .5), C(.5, -.5)] * 2, [C(.5, .5), C(.5, -.5), C(-.25, .75), C(-.25, -.75)],
    [F(1, 2), F(1, 2), C(.5, .5), C(.5, -.5)], [F(1, 2), F(1, 4), C(0, .5), C(0, -.5)],
    [F(1, 2), F(1, 2), F(2), F(2), F(-1)], [F(1, 2), F(1, 2), F(1, 2), F(2), F(2)], [F(3, 4)] + [C(.5, .5), C(.5, -.5)] * 2,
    [F(1, 2), F(1, 4), F(-1, 4), F(-1, 2), F(2)],
]
ZERO_PAT = [[F(0)], [F(0), F(0)], [F(1, 2), F(0)], [F(1, 2), F(1, 2), F(0)], [F(1, 2), F(0), F(0)], [C(.5, .5), C(.5, -.5), F(0)]]
BIG = [[F(1, 2), F(1, 2), F(2), F(2), F(-1), F(-1)], [F(1, 2)] * 3 + [F(-1)] * 3, [F(1, 2), F(1, 4), F(-1, 4), F(-1, 2), F(2), F(-2)],
       [C(.5, .5), C(.5, -.5)] * 3, [C(.5, .5), C(.5, -.5)] * 2 + [F(1, 2), F(1, 2)]]

SOS = [  # per section: its two poles
    [(F(1, 2), F(-1, 4))], [(F(1, 2), F(1, 2))], [(C(.5, .5), C(.5, -.5))], [(C(0, 1), C(0, -1))], [(F(1, 2), F(0))], [(F(0), F(0))],
    [(F(1, 2), F(-1, 4)), (F(2), F(-1))], [(F(1, 2), F(-1, 4)), (F(1, 2), F(-1, 4))], [(F(1, 2), F(-1, 4)), (F(1, 2), F(2))],
    [(C(.5, .5), C(.5, -.5)), (F(1, 2), F(-1, 4))], [(F(1, 2), F(-1, 4)), (C(.5, .5), C(.5, -.5))],
    [(C(.5, .5), C(.5, -.5)), (C(-.25, .75), C(-.25, -.75))], [(C(.5, .5), C(.5, -.5)), (C(.5, .5), C(.5, -.5))],
    [(F(1, 2), F(1, 2)), (C(.5, .5), C(.5, -.5))], [(F(1, 2), F(1, 2)), (F(1, 2), F(1, 2))],
]
SOS3 = [[(F(1, 2), F(-1, 4)), (C(.5, .5), C(.5, -.5)), (F(2), F(-1))], [(C(.5, .5), C(.5, -.5)), (C(.5, .5), C(.5, -.5)), (F(1, 2), F(2))],
        [(F(1, 2), F(-1, 4)), (F(1, 2), F(2)), (C(0, 1), C(0, -1))]]


def polyc(ps):
    """monic real coefficients of the pattern, exact"""
    c = [(F(1), F(0))]
    for p in ps:
        p = (F(p.real), F(p.imag)) if isinstance(p, complex) else (p, F(0))
        nxt = []
        for (a, b) in zip(c + [(F(0), F(0))], [(F(0), F(0))] + c):
            nxt.append((a[0] - (p[0] * b[0] - p[1] * b[1]), a[1] - (p[0] * b[1] + p[1] * b[0])))
        c = nxt
    assert all(k[1] == 0 for k in c)
    return [float(k[0]) for k in c]


def cval(p):
    return p if isinstance(p, complex) else complex(float(p))


# ---- harness-side polynomial arithmetic on lists of scalar tensors, highest power first
def pmul(a, b):
    out = [None] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = x * y if out[i + j] is None else out[i + j] + x * y
    return out


def padd(a, b):
    n = max(len(a), len(b))
    a, b = [a[0] * 0] * (n - len(a)) + a, [b[0] * 0] * (n - len(b)) + b
    return [x + y for x, y in zip(a, b)]


def tot(residues, poles, powers, fac):
    """numerator of sum_i residues_i / fac(pole_i)^powers_i over the common denominator prod fac(pole)"""
    import torch
    one = torch.ones((), dtype=torch.complex128)
    s = None
    den = [one]
    for p in poles:
        den = pmul(den, fac(p))
    for i, (r, j) in enumerate(zip(residues, powers)):
        t = [r]
        left = j
        for p in poles:
            if left and bool(abs(p - poles[i]) < 1e-9):
                left -= 1
                continue
            t = pmul(t, fac(p))
        assert left == 0, "a power exceeds the multiplicity of the pole"
        s = t if s is None else padd(s, t)
    return s, den


def small(d):
    import torch
    return torch.where(d.abs() < 1e-4, 0.0, d)


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def res(fn, ps, nb, i):
        na = len(ps) + 1
        mon = polyc(ps)
        nz = [p for p in ps if p != 0]

        def call(L, t):
            import torch
            b, g = t["b"], t["g"]
            a = g * torch.tensor(mon, dtype=torch.float64)
            a = torch.where(torch.tensor(mon) == 0, torch.zeros_like(a), a) if 0.0 in mon else a
            with eigen(torch.tensor([cval(p) for p in nz], dtype=torch.complex128) + t["z"]):
                r, p, k = getattr(L.prototype__signal, fn)(b, a)
            assert r.shape == p.shape == (len(ps),), (r.shape, p.shape)
            one = torch.ones((), dtype=torch.complex128)
            poles = list(p.unbind(0))
            powers = []
            for j, x in enumerate(poles):
                powers.append(1 + sum(bool(abs(x - y) < 1e-9) for y in poles[:j]))
            if fn == "residue":
                num, den = tot(list(r.unbind(0)), poles, powers, lambda x: [one, -x])
                k = list(k.unbind(0))
            else:      # polynomials in 1/z, highest power of 1/z first
                num, den = tot(list(r.unbind(0)), poles, powers, lambda x: [-x, one])
                k = list(k.flip(0).unbind(0))
            if k:
                num = padd(num, pmul(k, den))
            n = max(len(num), nb)
            num = [one * 0] * (n - len(num)) + num
            want = b.to(torch.complex128)
            want = list((want if fn == "residue" else want.flip(0)).unbind(0))
            want = [one * 0] * (n - len(want)) + want
            d = torch.stack([g * x - y for x, y in zip(num, want)])
            return small(d.real), small(d.imag)

        cs.add(f"{fn}-{i}-n{len(ps)}-b{nb}", {"b": In(nb), "g": In(), "z": In(values=0.0)}, call,
               lambda t, n=max(na - 1, nb): ([ZERO] * n, [ZERO] * n), check_dtype=False, path_budget=12 if q else 60, assume=lambda t: [E_nonzero(t["g"])])

    pats = PAT + ([] if q else BIG)
    for i, ps in enumerate(pats + ZERO_PAT):
        n = len(ps)
        for fn in ("residue", "residuez"):
            if fn == "residuez" and F(0) in ps:
                continue        # reciprocal of a zero pole: not representable by this expansion
            for nb in sorted({1, max(n - 1, 1), n, n + 1, n + 2, n + 3} if n < 5 or not q else {1, n, n + 1, n + 2}):
                res(fn, ps, nb, i)

    def sos(sec, i, one_):
        S = len(sec)
        mon = [polyc(s) for s in sec]
        allp = [p for s in sec for p in s]

        def call(L, t):
            import torch
            b, g = t["b"], t["g"]
            if one_ is not None:       # the other sections' numerators are fixed
                o = torch.tensor([[2.0, 0.5, -3.0], [-1.0, 0.25, 2.0], [0.5, 0.0, 1.0]], dtype=torch.float64)[:S]
                b = torch.cat([o[:one_], b, o[one_ + 1:]])
            a = g[:, None] * torch.tensor(mon, dtype=torch.float64)
            a = torch.where(torch.tensor(mon) == 0, torch.zeros_like(a), a)
            (rr, rc), (pr, pc), (wr, wc), k0 = L.prototype__signal.sos2pfe(torch.cat([b, a], 1))
            assert rr.shape == pr.shape == wr.shape and rc.shape == pc.shape == wc.shape
            assert pr.numel() + 2 * pc.numel() == 2 * S, (pr.shape, pc.shape)
            one = torch.ones((), dtype=torch.complex128)
            r = torch.cat([rr + 0 * one, rc, rc.conj()])
            p = torch.cat([pr + 0 * one, pc, pc.conj()])
            w = [int(x) for x in wr] + 2 * [int(x) for x in wc]
            num, den = tot(list(r.unbind(0)), list(p.unbind(0)), w, lambda x: [one, -x])
            num = padd(num, [k0 * x for x in den])
            want = [one]
            for s in range(S):
                want = pmul(want, list(b[s].unbind(0)))
            gp = one
            for s in range(S):
                gp = gp * g[s]
            d = torch.stack([gp * x - y for x, y in zip(num, want)])
            return small(d.real), small(d.imag), rr.imag if rr.is_complex() else rr * 0, pr.imag if pr.is_complex() else pr * 0

        nr = sum(not isinstance(p, complex) for p in allp)
        cs.add(f"sos-{i}-S{S}" + ("" if one_ is None else f"-only{one_}"), {"b": In(S if one_ is None else 1, 3), "g": In(S)}, call,
               lambda t, n=2 * S + 1: ([ZERO] * n, [ZERO] * n, [ZERO] * nr, [ZERO] * nr), check_dtype=False,
               assume=lambda t: [E_nonzero(t["g"][s]) for s in range(S)] + [E_nonzero(r[0]) for r in t["b"]])
    for i, s in enumerate(SOS + SOS3):
        if len(s) == 1 or len(s) == 2 and len({p for x in s for p in x}) == 4 or not q and len(s) == 2:
            sos(s, i, None)
        for j in range(len(s) if len(s) > 1 else 0):
            sos(s, i, j)
    return cs.list
