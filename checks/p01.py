"""P01: LTI lfilter computes the difference equation, for every form / backend option."""
import itertools
from symx.harness import Case, In
from . import spec as S

PROPERTY = "P01"
FUNCTIONS = ["philtorch.lti.lfilter", "philtorch.lti.filtering._ssm_lfilter", "philtorch.lti.fir",
             "philtorch.lti.state_space", "philtorch.lti.state_space_recursion", "philtorch.lti.ssm._ext_ss_recur",
             "philtorch.lti.ssm._recursion_loop", "philtorch.lti.ssm._ssm_C_D", "philtorch.mat.companion",
             "philtorch.mat.matrix_power_accumulate", "csrc/host_lti_recurN.cpp", "csrc/host_lti_recur.cpp"]
BOUNDS = ("orders 1..4, length 1..8 (quick) / 1..13 (thorough), batch 1..3, unroll_factor None,1..6, "
          "all four forms, real and complex, every 1-D/2-D combination of b, a, x")


def mk(name, form, nb, na, N, B=0, bB=0, aB=0, cplx=False, dtype=None, uf="default", layout=None):
    sh = lambda bt, n: (bt, n) if bt else (n,)
    kw = {} if uf == "default" else {"unroll_factor": uf}

    def call(L, t):
        return L.lti.lfilter(t["b"], t["a"], t["x"], form=form, **kw)

    def ref(t):
        return S.lfilter(t["b"], t["a"], t["x"])
    xs = sh(B, N)
    return Case(name, {"b": In(*sh(bB, nb), cplx=cplx, dtype=dtype), "a": In(*sh(aB, na), cplx=cplx, dtype=dtype),
                       "x": In(*xs, cplx=cplx, dtype=dtype, layout=layout)}, call, ref)


FORMS = ("df2", "tdf2", "df1", "tdf1")


def cases(tier):
    q = tier == "quick"
    out = []
    seen = set()

    def add(**k):
        nm = f"{k['form']}-b{k['nb']}a{k['na']}-N{k['N']}-B{k.get('B',0)}{k.get('bB',0)}{k.get('aB',0)}-u{k.get('uf','default')}"
        if k.get("cplx"):
            nm += "-cplx"
        if k.get("dtype"):
            nm += "-" + k["dtype"]
        if k.get("layout"):
            nm += "-" + k["layout"]
        if nm not in seen:
            seen.add(nm)
            out.append(mk(nm, **k))
    orders = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 1), (4, 3), (3, 3)]
    if not q:
        orders += [(1, 3), (5, 2), (2, 4), (5, 4)]
    for form in FORMS:
        for nb, na in orders:
            for uf in ("default", 1):
                add(form=form, nb=nb, na=na, N=5 if q else 9, B=2, bB=2, aB=2, uf=uf)
        # shapes
        for B, bB, aB in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 3, 0), (2, 0, 2), (1, 1, 1), (3, 3, 3)):
            for uf in (1, 2):
                add(form=form, nb=3, na=2, N=4, B=B, bB=bB, aB=aB, uf=uf)
                add(form=form, nb=2, na=1, N=4, B=B, bB=bB, aB=aB, uf=uf)
                add(form=form, nb=2, na=3, N=5, B=B, bB=bB, aB=aB, uf=uf)
        # lengths and unrolling, including lengths shorter than the order
        for N in range(1, 8 if q else 13):
            for uf in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
                add(form=form, nb=3, na=2, N=N, B=2, uf=uf)
            add(form=form, nb=4, na=3, N=N, B=2, aB=2, uf="default")
            if form in ("df2", "tdf2"):
                add(form=form, nb=2, na=1, N=N, B=2, uf=None)
        # batch size equal to the order / length (shape dispatch must not confuse them)
        for n in (2, 3):
            for bB, aB in ((0, 0), (n, 0), (0, n), (n, n)):
                add(form=form, nb=n + 1, na=n, N=n, B=n, bB=bB, aB=aB, uf=1)
        # complex
        for nb, na in ((2, 1), (3, 2), (2, 3), (4, 2)):
            for uf in (1, 2):
                add(form=form, nb=nb, na=na, N=5, B=2, bB=2, aB=0, cplx=True, uf=uf)
                add(form=form, nb=nb, na=na, N=4, B=0, cplx=True, uf=uf)
        for lay in ("T", "gap", "off", "expand0"):
            add(form=form, nb=3, na=2, N=4, B=2, bB=2, aB=2, layout=lay)
        for dt in ("float32", "complex64"):
            add(form=form, nb=3, na=2, N=4, B=2, dtype=dt, cplx=dt.startswith("c"), uf=1)
    return out
