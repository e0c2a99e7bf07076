"""P02: LTI lfilter state in/out: zi, zf and chunked (streaming) filtering."""
from symx.harness import In
from .util import Cases, sh, tag
from . import spec as S

PROPERTY = "P02"
FUNCTIONS = ["philtorch.lti.lfilter", "philtorch.lti.state_space", "philtorch.lti.state_space_recursion",
             "philtorch.lti.ssm._ext_ss_recur", "csrc/host_lti_recurN.cpp", "csrc/host_lti_recur.cpp"]
BOUNDS = "orders 1..4, length 1..7 (quick) / 1..11 (thorough), batch 1..3, 1..4 chunks, unroll_factor None,1..4"


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def one(form, nb, na, N, B=2, bB=0, aB=0, zB=2, uf="default", cplx=False, layout=None):
        kw = {} if uf == "default" else {"unroll_factor": uf}
        M = max(nb - 1, na)
        cs.add(tag(form=form, b=nb, a=na, N=N, B=B, bB=bB, aB=aB, zB=zB, u=uf if uf is not None else "None", c=cplx, l=layout),
               {"b": In(*sh(bB, nb), cplx=cplx), "a": In(*sh(aB, na), cplx=cplx), "x": In(*sh(B, N), cplx=cplx),
                "zi": In(*sh(zB, M), cplx=cplx, layout=layout)},
               lambda L, t: L.lti.lfilter(t["b"], t["a"], t["x"], zi=t["zi"], form=form, **kw),
               lambda t: S.lfilter(t["b"], t["a"], t["x"], t["zi"], form))

    def chunks(form, nb, na, parts, B=2, uf=1, cplx=False, aB=0):
        M = max(nb - 1, na)
        N = sum(parts)

        def call(L, t):
            z, ys, p = t["zi"], [], 0
            import torch
            for n in parts:
                y, z = L.lti.lfilter(t["b"], t["a"], t["x"][..., p:p + n], zi=z, form=form, unroll_factor=uf)
                ys.append(y)
                p += n
            return torch.cat(ys, -1), z
        cs.add("chunks" + "+".join(map(str, parts)) + "-" + tag(form=form, b=nb, a=na, B=B, aB=aB, u=uf, c=cplx),
               {"b": In(nb, cplx=cplx), "a": In(*sh(aB, na), cplx=cplx), "x": In(*sh(B, N), cplx=cplx), "zi": In(*sh(B, M), cplx=cplx)},
               call, lambda t: S.lfilter(t["b"], t["a"], t["x"], t["zi"], form))
    for form in ("df2", "tdf2"):
        for nb, na in ((2, 1), (1, 1), (3, 2), (1, 2), (2, 3), (4, 2), (4, 3), (1, 3)):
            for uf in ("default", 1):
                one(form, nb, na, 4, uf=uf)
            one(form, nb, na, 4 if q else 7, bB=2, aB=2, uf=1)
            one(form, nb, na, 5, bB=2, aB=2, uf=2)
        for N in range(1, 8 if q else 12):
            for uf in (1, 2, 3, None):
                one(form, 3, 2, N, uf=uf)
            one(form, 4, 3, N, uf=1, aB=2)
            one(form, 2, 1, N, uf=1)
            one(form, 2, 1, N, uf=2)
        for B, bB, aB, zB in ((0, 0, 0, 0), (2, 0, 0, 0), (1, 0, 0, 1), (3, 3, 0, 3), (2, 0, 2, 0), (3, 3, 3, 3), (0, 0, 0, 1)):
            for uf in (1, 2):
                for nb, na in ((3, 2), (2, 1), (3, 3)):
                    one(form, nb, na, 4, B, bB, aB, zB, uf=uf)
        for n in (2, 3):
            one(form, n + 1, n, n, n, n, n, n, uf=1)
            one(form, n + 1, n, n, n, 0, 0, n, uf=1)
        for uf in (1, 2):
            one(form, 3, 2, 4, cplx=True, uf=uf)
            one(form, 2, 1, 4, cplx=True, uf=uf, aB=2, bB=2)
            one(form, 2, 3, 4, cplx=True, uf=uf)
        for lay in ("T", "gap", "expand0"):
            one(form, 3, 2, 4, layout=lay, uf=1)
        for parts in ((1, 1), (2, 3), (1, 4), (3, 1, 1), (1, 1, 1, 1)) + (() if q else ((4, 4), (2, 2, 2, 2), (5, 1, 3))):
            for nb, na in ((3, 2), (2, 1), (2, 3)):
                for uf in (1, 2):
                    chunks(form, nb, na, parts, uf=uf)
            chunks(form, 3, 2, parts, B=0)
            chunks(form, 3, 2, parts, B=2, aB=2, cplx=True)
    for form in ("df1", "tdf1"):     # the state is documented as unused: only the output is returned
        cs.add(f"{form}-zi-ignored", {"b": In(3), "a": In(2), "x": In(2, 4), "zi": In(2, 2)},
               lambda L, t, form=form: L.lti.lfilter(t["b"], t["a"], t["x"], zi=t["zi"], form=form),
               lambda t: S.lfilter(t["b"], t["a"], t["x"]))
    return cs.list
