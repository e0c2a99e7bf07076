"""P10: forward-mode and second-order derivatives."""
from itertools import combinations

from symx.harness import In
from .util import Cases, tag
from .derive import pick, size
from . import spec as S

PROPERTY = "P10"
FUNCTIONS = ["LTIRecurrence.jvp / backward twice", "LTIMatrixRecurrence.jvp / backward twice", "MatrixRecurrence.jvp / backward twice",
             "torch.autograd.forward_ad and grad(create_graph=True) through philtorch.lti / philtorch.lpv lfilter, fir, allpole, comb_filter, state_space"]
BOUNDS = ("compiled recurrences: order 1..3, batch 1..3, length 1..4, every non-empty subset of (coefficients, initial state, input) given tangents, shared "
          "and per-batch coefficients, real and complex, layouts; second derivatives for all inputs at batch <= 2, length <= 3; public functions: the "
          "cases of P01-P07, P13, P14 with at most 40 (jvp) / 16 (second order) input elements, thinned evenly")
ASSUME = ["second-order obligations compare the derivative of the first gradient contracted with a fixed symbolic vector"]
MODS = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p13", "p14"]


def subsets(names):
    for n in range(1, len(names) + 1):
        yield from combinations(names, n)


def cls(mod, name, fallback):
    """the autograd Function, or the public function that uses it should it be renamed"""
    def get(L):
        m = getattr(L, mod)
        return getattr(m, name).apply if hasattr(m, name) else fallback(L)
    return get


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    lti = cls("lti__ssm", "LTIMatrixRecurrence", lambda L: lambda A, z, x: L.lti.state_space(A, x, zi=z)[0])
    lpv = cls("lpv__ssm", "MatrixRecurrence", lambda L: lambda A, z, x: L.lpv.state_space(A, x, zi=z)[0])
    sca = cls("lti__recur", "LTIRecurrence", lambda L: lambda a, z, x: L.lti__recur.linear_recurrence(a, z, x))

    def mat(get, nm, kA, B, N, M, sub, cplx=False, layout=None, mode="jvp"):
        d = dict(B=B, N=N, M=M)
        bt = kA[0] == "B"
        ins = {"A": In(*[d[k] for k in kA], cplx=cplx, layout=layout), "zi": In(B, M, cplx=cplx, layout=layout),
               "x": In(B, N, M, cplx=cplx, layout=layout)}

        def ref(t):
            return [S.mat_rec(t["A"][b] if bt else t["A"], t["zi"][b], t["x"][b]) for b in range(B)]
        k = {"jvp": sub} if mode == "jvp" else {"grad": sub, "grad2": True}
        cs.add(tag(f=nm, A=kA, B=B, N=N, M=M, c=cplx, l=layout, m=mode, s="".join(sub)), ins,
               lambda L, t: get(L)(t["A"], t["zi"], t["x"]), ref, **k)

    def scal(ka, B, N, sub, cplx=False, layout=None, mode="jvp"):
        sh = {"sc": (), "B": (B,)}[ka]
        ins = {"a": In(*sh, cplx=cplx), "zi": In(B, cplx=cplx), "x": In(B, N, cplx=cplx, layout=layout)}

        def ref(t):
            a = t["a"]
            return [S.scalar_rec(a if ka == "sc" else a[b], t["zi"][b], t["x"][b]) for b in range(B)]
        k = {"jvp": sub} if mode == "jvp" else {"grad": sub, "grad2": True}
        cs.add(tag(f="scalar", a=ka, B=B, N=N, c=cplx, l=layout, m=mode, s="".join(sub)), ins,
               lambda L, t: sca(L)(t["a"], t["zi"], t["x"]), ref, **k)
    names = ("A", "zi", "x")
    for get, nm, ks in ((lti, "lti", ("MM", "BMM")), (lpv, "lpv", ("NMM", "BNMM"))):
        for kA in ks:
            for sub in subsets(names):
                for M in (1, 2, 3):
                    for N in (1, 2, 3, 4):
                        mat(get, nm, kA, 2, N, M, sub)
                    mat(get, nm, kA, 1, 3, M, sub)
                    mat(get, nm, kA, 3, 2, M, sub)
                    mat(get, nm, kA, 2, 3, M, sub, cplx=True)
                for l in ("T", "gap", "off"):
                    mat(get, nm, kA, 2, 3, 2, sub, layout=l)
                for M in (1, 2):
                    for B, N in ((1, 1), (1, 2), (2, 2), (1, 3)):
                        mat(get, nm, kA, B, N, M, sub, mode="grad2")
                mat(get, nm, kA, 2, 2, 2, sub, cplx=True, mode="grad2")
                mat(get, nm, kA, 1, 2, 3, sub, mode="grad2")
    for ka in ("sc", "B"):
        for sub in subsets(("a", "zi", "x")):
            for B in (1, 2, 3):
                for N in (1, 2, 3, 5):
                    scal(ka, B, N, sub)
            scal(ka, 2, 3, sub, cplx=True)
            scal(ka, 2, 3, sub, layout="T")
            for B, N in ((1, 1), (1, 2), (2, 2), (2, 3)):
                scal(ka, B, N, sub, mode="grad2")
            scal(ka, 2, 2, sub, cplx=True, mode="grad2")
    out = cs.list
    # public functions
    n = 0
    for c in pick(MODS, tier, 40, 40 if q else 120):
        c.name = "jvp:" + c.name
        ss = list(subsets(tuple(c.inputs)))
        c.jvp = ss[n * 7 % len(ss)] if n % 3 else tuple(c.inputs)
        n += 1
        out.append(c)
    for c in pick(MODS, tier, 16 if q else 20, 24 if q else 80):
        c.name = "grad2:" + c.name
        c.grad = tuple(c.inputs)
        c.grad2 = True
        out.append(c)
    return out
