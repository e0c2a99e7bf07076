"""P19: polynomial division and arithmetic."""
import math

from symx.harness import In
from .util import Cases, tag
from .eig import eigen, poly
from .p18 import over
from .spec import ZERO, ONE

PROPERTY = "P19"
FUNCTIONS = ["philtorch.poly.polydiv", "philtorch.prototype.poly (trim_zeros, roots, polydiv, polymul, polysmul, polyval, polysub, polyadd, polyder)"]
BOUNDS = ("core polydiv: lengths 1..7 over 1..7, leading shapes (), (B), (1), (A,B), broadcasts between them, layouts, gradients; prototype: lengths 1..5 "
          "(dividend 1..5, divisor 1..3; every pattern of leading zero coefficients is a solver path), products of 1..4 factors, derivatives of order 0..4; "
          "real and complex")
ASSUME = ["the divisor's first coefficient is non-zero in the core function; prototype.polydiv drops leading remainder coefficients below 1e-8 in magnitude, "
          "which the identity tolerates", "torch.linalg.eigvals contract for roots()"]


def longdiv(u, v):
    m, n = len(u) - 1, len(v) - 1
    r = list(u)
    q = []
    for k in range(m - n + 1):
        d = r[k] / v[0]
        q.append(d)
        for j in range(n + 1):
            r[k + j] = r[k + j] - d * v[j]
    return q, r[max(m - n + 1, 0):]


def horner(c, z):
    s = ZERO
    for k in c:
        s = s * z + k
    return s


def hv(c, z):
    """harness-side evaluation of a coefficient tensor at z (independent of its length)"""
    s = z * 0
    for k in c.unbind(-1):
        s = s * z + k
    return s


def mulc(a, b):
    out = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return out


def E_nonzero(v):
    from symx import expr as E
    from symx.ex import flat
    b = 0
    for k in flat(v):
        b = E.bor(b, E.bnot(E.eq(k.id, 0)))
    return b


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    # ------------------------------------------------------ core division
    def core(m, n, lu=(), lv=(), cplx=False, layout=None, grad=(), dtype=None):
        kw = {"dtype": dtype} if dtype else {}
        ins = {"u": In(*lu, m, cplx=cplx, layout=layout, **kw), "v": In(*lv, n, cplx=cplx, layout=layout, **kw)}
        k = max(len(lu), len(lv))
        if m >= n:
            lead = tuple(max(a, b) for a, b in zip((1,) * (k - len(lu)) + lu, (1,) * (k - len(lv)) + lv))
        else:
            lead = lu

        def pick(v, own, ix):
            ix = ix[len(ix) - len(own):]
            for d, i in zip(own, ix):
                v = v[i if d > 1 else 0]
            return v

        def ref(t):
            def build(f):
                def go(ix):
                    if len(ix) == len(lead):
                        return f(ix)
                    return [go(ix + (i,)) for i in range(lead[len(ix)])]
                return go(())
            if m < n:
                if not lu:
                    return [], t["u"]
                return over(lu, lambda u: [])(t["u"]), t["u"]
            Q = build(lambda ix: longdiv(pick(t["u"], lu, ix), pick(t["v"], lv, ix))[0])
            R = build(lambda ix: longdiv(pick(t["u"], lu, ix), pick(t["v"], lv, ix))[1])
            return Q, R
        shapes = None
        if m < n:
            shapes = [tuple(lead) + (0,), tuple(lead) + (m,)]
        elif n == 1:
            shapes = [tuple(lead) + (m,), tuple(lead) + (0,)]
        cs.add(tag(f="core", m=m, n=n, lu=lu or None, lv=lv or None, c=cplx, l=layout, g="".join(grad), dt=dtype), ins,
               lambda L, t: L.poly.polydiv(t["u"], t["v"]), ref, grad=grad, **({"shapes": shapes} if shapes else {}))
    top = 7 if q else 9
    for m in range(1, top + 1):
        for n in range(1, top + 1):
            core(m, n)
            core(m, n, (2,), (2,), cplx=m <= 4)
            if m <= 4 and n <= 4:
                core(m, n, (2,))
                core(m, n, (), (2,)) if m >= n else None
                core(m, n, (3, 2), (2,)) if m >= n else core(m, n, (3, 2))
                core(m, n, (1,), (3,)) if m >= n else None
                core(m, n, (2,), (3, 2)) if m >= n else None
                core(m, n, (2,), (1,))
                for l in ("T", "rev", "gap", "off"):
                    core(m, n, (2,), (2,), layout=l)
                core(m, n, dtype="float32")
                if m >= n:
                    core(m, n, (2,), (2,), grad=("u", "v"))
                    core(m, n, (2,), (), cplx=True, grad=("u", "v"))

    # ---------------------------------------------------- prototype helpers
    def val(name, ins, call, ref, **k):
        cs.add(name, {**ins, "z": In(cplx=any(i.cplx for i in ins.values()))}, call, ref, check_dtype=False, **k)

    for cplx in (False, True):
        c = "-c" if cplx else ""
        for m in range(1, 5):
            def trim(L, t):
                import torch
                p = L.prototype__poly.trim_zeros(t["u"])
                ok = 1.0 if p.numel() == 1 else None
                lead = torch.ones((), dtype=torch.float64) if ok else torch.where(p[0] == 0, 0.0, 1.0).to(torch.float64)
                return hv(p, t["z"]), lead
            val(f"trim-{m}{c}", {"u": In(m, cplx=cplx)}, trim, lambda t: (horner(t["u"], t["z"]), ONE))
            for n in range(1, 5):
                if m * n > 9:
                    continue
                val(f"mul-{m}x{n}{c}", {"u": In(m, cplx=cplx), "v": In(n, cplx=cplx)},
                    lambda L, t: hv(L.prototype__poly.polymul(t["u"], t["v"]), t["z"]),
                    lambda t: horner(t["u"], t["z"]) * horner(t["v"], t["z"]))
            for n in range(1, 6):
                for nm, sg in (("polyadd", 1), ("polysub", -1)):
                    def ref(t, sg=sg, m=m, n=n):
                        k = max(m, n)
                        a = [ZERO] * (k - m) + t["u"]
                        b = [ZERO] * (k - n) + t["v"]
                        return [x + sg * y for x, y in zip(a, b)]
                    cs.add(f"{nm}-{m}-{n}{c}", {"u": In(m, cplx=cplx), "v": In(n, cplx=cplx)},
                           lambda L, t, nm=nm: getattr(L.prototype__poly, nm)(t["u"], t["v"]), ref)
            for sp in ((), (3,), (2, 2)):
                def pv(t, sp=sp):
                    return over(sp, lambda z: horner(t["u"], z))(t["x"])
                cs.add(f"val-{m}-{len(sp)}{c}", {"u": In(m, cplx=cplx), "x": In(*sp, cplx=cplx)},
                       lambda L, t: L.prototype__poly.polyval(t["u"], t["x"]), pv)
            cs.add(f"val-{m}-cplxpoint{c}", {"u": In(m, cplx=cplx), "x": In(2, cplx=True)},
                   lambda L, t: L.prototype__poly.polyval(t["u"], t["x"]), lambda t: [horner(t["u"], z) for z in t["x"]], check_dtype=False)
        for m in range(1, 6 if q else 7):
            for o in range(0, 5):
                if cplx and m > 4:
                    continue
                def der(t, o=o):
                    c = list(t["u"])
                    for _ in range(o):
                        n = len(c) - 1
                        c = [k * (n - i) for i, k in enumerate(c[:-1])]
                    return horner(c, t["z"])
                val(f"der-{m}-o{o}{c}", {"u": In(m, cplx=cplx)}, lambda L, t, o=o: hv(L.prototype__poly.polyder(t["u"], o), t["z"]), der)
        for ls in ((2,), (1, 1), (2, 2), (1, 2, 2), (2, 2, 2), (2, 1, 2), (1, 1, 1, 1), (2, 2, 1, 2)):
            if cplx and len(ls) > 3:
                continue
            nm = [f"p{i}" for i in range(len(ls))]

            def sm(L, t, nm=nm):
                return hv(L.prototype__poly.polysmul(*[t[k] for k in nm]), t["z"])

            def smr(t, nm=nm):
                s = ONE
                for k in nm:
                    s = s * horner(t[k], t["z"])
                return s
            heavy = sum(ls) > 5
            val(f"smul-{'x'.join(map(str, ls))}{c}", {k: In(n, cplx=cplx) for k, n in zip(nm, ls)}, sm, smr,
                assume=(lambda t, nm=nm: [E_nonzero(t[k][0]) for k in nm]) if heavy else None)

        # division: q v + r - u vanishes up to dropped remainder coefficients, deg r < deg v
        for m in range(1, 6):
            for n in range(1, 4):
                if cplx and m + n > 5:
                    continue
                for lz in (0, 1):
                    if lz and m > 3:
                        continue

                    def div(L, t, m=m, n=n, lz=lz):
                        import torch
                        u, v = t["u"], t["v"]
                        if lz:      # explicit leading zeros
                            u = torch.cat([torch.zeros(1, dtype=u.dtype), u])
                            v = torch.cat([torch.zeros(1, dtype=v.dtype), v])
                        Q, R = L.prototype__poly.polydiv(u, v)
                        nv = L.prototype__poly.trim_zeros(v).numel()
                        k = m + n + 2 * lz
                        d = torch.zeros(k, dtype=u.dtype)
                        for i in range(Q.numel()):
                            for j in range(v.numel()):
                                e = torch.zeros(k, dtype=u.dtype)
                                e[k - 1 - (Q.numel() - 1 - i) - (v.numel() - 1 - j)] = 1
                                d = d + e * (Q[i] * v[j])
                        pad = lambda p: torch.cat([torch.zeros(k - p.numel(), dtype=p.dtype), p])
                        d = pad(u) - d - pad(R)
                        deg = torch.tensor(float(R.numel() <= max(nv - 1, 1)), dtype=torch.float64)
                        return torch.where(d.abs() < 1e-8, 0.0, d), deg

                    def ref(t, k=m + n + 2 * lz):
                        return [ZERO] * k, ONE

                    def nonzero(t, big=m + n > 6):
                        return [E_nonzero(t["v"][0]), E_nonzero(t["u"][0])] if big else [E_nonzero(t["v"])]
                    cs.add(f"div-{m}-{n}-z{lz}{c}", {"u": In(m, cplx=cplx), "v": In(n, cplx=cplx)}, div, ref, check_dtype=False, assume=nonzero)

    # roots: the monic polynomial of the returned roots times the leading coefficient is the polynomial
    for n in (1, 2, 3):
        for lead in (0, 1, 2):
            for trail in (0, 1, 2):
                for pair in (False, True):
                    if pair and n != 2:
                        continue
                    ins = {"s": In(1), "w": In(1)} if pair else {"p": In(n)}
                    ins["g"] = In()

                    def rts(L, t, lead=lead, trail=trail, pair=pair):
                        import torch
                        if pair:
                            p = torch.complex(torch.cat([t["s"], t["s"]]), torch.cat([t["w"], -t["w"]]))
                            m = torch.cat([torch.ones(1, dtype=torch.float64), -2 * t["s"], t["s"] * t["s"] + t["w"] * t["w"]])
                        else:
                            p = torch.complex(t["p"], torch.zeros_like(t["p"]))
                            m = poly(t["p"])
                        c = torch.cat([torch.zeros(lead, dtype=m.dtype), t["g"] * m, torch.zeros(trail, dtype=m.dtype)])
                        with eigen(p):
                            r = L.prototype__poly.roots(c)
                        return t["g"] * poly(r)

                    def ref(t, trail=trail, pair=pair):
                        if pair:
                            m = [ONE, -2 * t["s"][0], t["s"][0] * t["s"][0] + t["w"][0] * t["w"][0]]
                        else:
                            m = [ONE]
                            for r in t["p"]:
                                m = [u - r * v for u, v in zip(m + [ZERO], [ZERO] + m)]
                        return [t["g"] * k for k in m] + [ZERO] * trail

                    def assume(t, pair=pair):
                        # non-zero gain and roots: the explicit zeros are the only ones at the ends
                        if pair:
                            return [E_nonzero(t["g"]), E_nonzero([t["s"], t["w"]])]
                        return [E_nonzero(t["g"])] + [E_nonzero(r) for r in t["p"]]
                    cs.add(f"roots-{n}-{lead}-{trail}" + ("-pair" if pair else ""), ins, rts, ref, check_dtype=False, assume=assume)
    def mono(k):
        def call(L, t):
            import torch
            return L.prototype__poly.roots(torch.cat([t["g"][None], torch.zeros(k, dtype=t["g"].dtype)]))
        return call
    for k in range(4):      # monomials and constants
        cs.add(f"roots-mono-{k}", {"g": In()}, mono(k),
               lambda t, k=k: [ZERO] * k, check_dtype=False, assume=lambda t: [E_nonzero(t["g"])], shapes=[(k,)])
    return cs.list
