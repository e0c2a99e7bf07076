"""P17: evaluation through the eigen-decomposition equals direct evaluation."""
from symx.harness import In
from .util import Cases, sh, tag
from .ssgen import dims_of
from .eig import eigen, poly
from .p18 import inv2
from . import spec as S
from .spec import ZERO, ONE

PROPERTY = "P17"
FUNCTIONS = ["philtorch.lti.diag_state_space", "philtorch.lti.ssm._ssm_C_D", "philtorch.mat.find_eigenvectors", "philtorch.lti.linear_recurrence",
             "philtorch.lti.recur.LTIRecurrence", "philtorch.lti.lfilter (backend=diag_ssm)", "philtorch.lti.filtering._diag_ssm_lfilter",
             "philtorch.poly.polydiv", "csrc/host_lti_recur.cpp"]
BOUNDS = ("state size 1..2 (3 for supplied eigenvectors and in the thorough tier), batch 1..3, length 1..5, unroll_factor None,1,2,3; filter orders: "
          "denominator 1..2 (3 thorough), numerator length 1..6; eigenvalues supplied or computed; real and complex")
ASSUME = ["the matrix is diagonalisable with distinct eigenvalues and invertible eigenvector matrix",
          "torch.linalg.eigvals returns the eigenvalues (checked: the matrix it gets has the characteristic polynomial of the parameters)"]


def mul(A, B):
    return S.matmul(A, B)


def diagm(p):
    return [[p[i] if i == j else ZERO for j in range(len(p))] for i in range(len(p))]


def vlv(V, p, Vi):
    return mul(mul(V, diagm(p)), Vi)


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(how, d, kL="", kx="BN", kB=None, kC=None, kD=None, kz=None, uf=1, oi=None, cplx=False, layout=None, mixed=None):
        """how: V, Vinv, VVinv, A (eigenvalues computed), LA (eigenvalues supplied with the matrix), L (diagonal)"""
        M = d["M"]
        lead = (d["B"],) if kL else ()
        kind = dict(x=kx, B=kB, C=kC, D=kD, zi=kz)
        ins = {"p": In(*lead, M, cplx=cplx)}
        if how in ("V", "VVinv", "A", "LA"):
            ins["V"] = In(*lead, M, M, cplx=cplx, layout=layout)
        elif how == "Vinv":
            ins["Vinv"] = In(*lead, M, M, cplx=cplx, layout=layout)
        for nm, kd in kind.items():
            if kd is not None:
                c = cplx if mixed is None else nm in mixed
                ins[nm] = In(*dims_of(kd, d), cplx=c, layout=layout if len(kd) > 1 else None)
        kw = {} if uf == "default" else {"unroll_factor": uf}

        def call(L, t):
            import torch
            f = L.lti.diag_state_space
            rest = dict(B=t.get("B"), C=t.get("C"), D=t.get("D"), zi=t.get("zi"), out_idx=oi, **kw)
            p = t["p"]
            if how == "V":
                return f(t["x"], L=p, V=t["V"], **rest)
            if how == "Vinv":
                return f(t["x"], L=p, Vinv=t["Vinv"], **rest)
            if how == "VVinv":
                return f(t["x"], L=p, V=t["V"], Vinv=torch.linalg.inv(t["V"]), **rest)
            if how == "L":
                return f(t["x"], L=p, **rest)
            A = t["V"] @ torch.diag_embed(p) @ torch.linalg.inv(t["V"])
            if how == "LA":
                return f(t["x"], L=p, A=A, **rest)
            with eigen(p):
                return f(t["x"], A=A, **rest)

        def ref(t):
            def mat(i):
                g = lambda v: v[i] if kL else v
                p = g(t["p"])
                if how == "L":
                    return diagm(p)
                if how == "Vinv":
                    return vlv(inv2(g(t["Vinv"])), p, g(t["Vinv"]))
                return vlv(g(t["V"]), p, inv2(g(t["V"])))
            A = [mat(i) for i in range(d["B"])] if kL else mat(0)
            y, zf = S.state_space(A, "BMM" if kL else "MM", t["x"], t.get("B"), kB, t.get("C"), kC, t.get("D"), kD, t.get("zi"), kz, oi)
            return (y, zf) if kz is not None else y
        dd = "".join(f"{a}{v}" for a, v in d.items())
        cs.add(tag(how=how, L="B" if kL else None, x=kx, B=kB, C=kC, D="sc" if kD == "" else kD, z=kz, u="None" if uf is None else uf,
                   o=None if oi is None else str(oi), c=cplx, l=layout, mx=mixed) + "-" + dd, ins, call, ref, check_dtype=False, tol=1e-6)
    HOW = ("V", "Vinv", "VVinv", "A", "LA", "L")
    for how in HOW:
        for kL in ("", "B"):
            if kL and how in ("LA", "L"):
                continue        # rejected by the function's own argument check
            for d in (dict(B=2, N=3, M=2, F=4, P=5), dict(B=3, N=2, M=1, F=4, P=5)):
                if d["M"] == 1 and how in ("A", "LA"):
                    d = dict(d, N=3)
                for uf in (1, 2, None, "default"):
                    for kz in (None, "M", "BM"):
                        one(how, d, kL, kz=kz, uf=uf)
                for kz in (None, "BM"):
                    for oi in (0, d["M"] - 1):
                        one(how, d, kL, kz=kz, oi=oi)
                    for kB in ("M", "BM"):
                        one(how, d, kL, "BN", kB, kz=kz)
                    for kB in ("MF", "BMF"):
                        one(how, d, kL, "BNF", kB, kz=kz)
                    one(how, d, kL, "BNM", kz=kz)
                for kC, kD in (("M", ""), ("M", None), ("BM", "B"), ("PM", "P"), ("BPM", "BP")):
                    one(how, d, kL, "BN", None, kC, kD, "BM")
                    one(how, d, kL, "BN", "M", kC, kD, None, uf=2)
                for kC, kD in (("M", "F"), ("BM", "BF"), ("PM", "PF"), ("BPM", "BPF")):
                    one(how, d, kL, "BNF", "MF", kC, kD, "BM")
            d = dict(B=2, N=3, M=2, F=4, P=5)
            one(how, d, kL, cplx=True, kz="BM")
            one(how, d, kL, "BN", "M", "M", "", "BM", cplx=True, uf=2)
            if how not in ("A", "LA"):
                one(how, d, kL, "BNF", "BMF", "BPM", "BPF", "BM", cplx=True)
            one(how, d, kL, "BN", None, None, None, None, oi=0, cplx=True)
            for l in ("T", "gap", "off"):
                one(how, d, kL, "BN", "BM", "BM", None, "BM", layout=l)
            for n in (1, 2, 4, 5):
                if how in ("V", "L", "VVinv"):
                    for uf in (1, 2, 3):
                        one(how, dict(d, N=n), kL, kz="BM", uf=uf)
    for mx in ("x", "xz"):
        one("A", dict(B=2, N=3, M=2), "", "BN", "M", "M", None, "BM", uf=2, mixed={"x": ("x",), "xz": ("x", "zi")}[mx])
    if not q:
        d = dict(B=2, N=3, M=3, F=4, P=5)
        for how in ("V", "Vinv", "VVinv"):
            one(how, d, kz="BM")
            one(how, d, "B", "BN", "M", "M", None, None)
    one("V", dict(B=2, N=2, M=3), kz="BM")
    one("L", dict(B=2, N=4, M=3), kz="BM")

    # ------------------------------------------------ the filter back end
    def filt(form, nb, na, N, B=2, bB=2, aB=0, delayed=False, st=False, sup=None, poles="cplx", uf="default", xc=None):
        """poles: cplx (all complex), real, pair (real coefficients from a conjugate pair)"""
        c = poles == "cplx"
        kw = {} if uf == "default" else {"unroll_factor": uf}
        ins = {"b": In(*sh(bB, nb), cplx=c), "x": In(*sh(B, N), cplx=c if xc is None else xc)}
        if poles == "pair":
            ins["s"] = In(1)
            ins["w"] = In(1)
        else:
            ins["p"] = In(*sh(aB, na), cplx=c)
        if st:
            ins["zi"] = In(*sh(B, na), cplx=c)

        def call(L, t):
            import torch
            if poles == "pair":
                p = torch.complex(torch.cat([t["s"], t["s"]]), torch.cat([t["w"], -t["w"]]))
                a = torch.cat([-2 * t["s"], t["s"] * t["s"] + t["w"] * t["w"]])
            else:
                p = t["p"]
                a = poly(p)[..., 1:]
            if sup == "L":
                return L.lti.lfilter(t["b"], a, t["x"], zi=t.get("zi"), form=form, backend="diag_ssm", L=p, delayed_form=delayed, **kw)
            with eigen(p):
                return L.lti.lfilter(t["b"], a, t["x"], zi=t.get("zi"), form=form, backend="diag_ssm", delayed_form=delayed, **kw)

        def ref(t):
            def co(p):
                c = [ONE]
                for r in p:
                    c = [u - r * v for u, v in zip(c + [ZERO], [ZERO] + c)]
                return c[1:]
            if poles == "pair":
                a = [-2 * t["s"][0], t["s"][0] * t["s"][0] + t["w"][0] * t["w"][0]]
            else:
                a = [co(r) for r in t["p"]] if aB else co(t["p"])
            return S.lfilter(t["b"], a, t["x"], t.get("zi"), form)
        cs.add("lf-" + tag(f=form, b=nb, a=na, N=N, B=B, bB=bB, aB=aB, dl=delayed, z=st, sup=sup, p=poles, u=uf, xc=xc), ins, call, ref,
               check_dtype=False, tol=1e-5)
    for form in ("df2", "tdf2"):
        for na in (1, 2):
            for nb in range(1, 7):
                for dl in (False, True):
                    for N in (1, 2, 4):
                        if nb <= na + 1 and (dl or N == 1):
                            continue
                        filt(form, nb, na, N, delayed=dl, poles="real" if nb % 2 else "cplx")
                    filt(form, nb, na, 3, delayed=dl, poles="real")
                    filt(form, nb, na, 3, 0, 0, 0, delayed=dl, poles="real")
                    filt(form, nb, na, 3, 2, 0, 0, delayed=dl, poles="real", uf=1)
                    filt(form, nb, na, 3, 2, 0, 2, delayed=dl, poles="real", uf=2)
                    filt(form, nb, na, 3, 2, 2, 2, delayed=dl, poles="real", uf=1)
            for nb in range(1, na + 2):
                filt(form, nb, na, 3, st=True, poles="real")
                filt(form, nb, na, 3, st=True, poles="cplx", uf=1)
                filt(form, nb, na, 3, 0, 0, 0, st=True, poles="real")
        for nb in (1, 2, 3, 4, 5):
            filt(form, nb, 2, 3, 2, 2, poles="pair")
            filt(form, nb, 2, 3, 2, 2, poles="pair", delayed=True, uf=1)
            filt(form, nb, 2, 3, 2, 2, poles="cplx", sup="L")
            filt(form, nb, 2, 3, 2, 2, poles="real", sup="L", uf=1)
        filt(form, 3, 2, 3, poles="pair", st=True)
        if not q:
            filt(form, 4, 3, 2, poles="real")
            filt(form, 6, 3, 2, poles="real", delayed=True)
    return cs.list
