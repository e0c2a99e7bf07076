"""Case generator shared by the state-space checks (P05, P06)."""
from symx.harness import In
from .util import tag
from . import spec as S


def dims_of(kind, d):
    return tuple(1 if k == "1" else d[k] for k in kind)


def one(cs, mod, d, kA, kx="BN", kB=None, kC=None, kD=None, kz=None, uf=1, oi=None, cplx=False, layout=None, dtype=None,
        full=False, sufx="", fn="state_space", **k):
    """adds a case; d: axis letter -> size"""
    kind = dict(A=kA, x=kx, B=kB, C=kC, D=kD, zi=kz)
    ins = {}
    for nm, kd in kind.items():
        if kd is not None:
            ins[nm] = In(*dims_of(kd, d), cplx=cplx, dtype=dtype, layout=layout if len(kd) > 1 else None)
    kw = {} if uf == "default" else {"unroll_factor": uf}

    def call(L, t):
        f = getattr(getattr(L, mod), fn)
        return f(t["A"], t["x"], B=t.get("B"), C=t.get("C"), D=t.get("D"), zi=t.get("zi"), out_idx=oi, **kw)

    def ref(t):
        y, zf = S.state_space(t["A"], kA, t["x"], t.get("B"), kB, t.get("C"), kC, t.get("D"), kD, t.get("zi"), kz, oi)
        return (y, zf) if kz is not None else y
    dd = "".join(f"{a}{v}" for a, v in d.items())
    cs.add(tag(A=kA, x=kx, B=kB, C=kC, D="sc" if kD == "" else kD, z=kz, u="None" if uf is None else uf, o=None if oi is None else str(oi),
               c=cplx, l=layout, d=dtype) + "-" + dd + sufx, ins, call, ref, **k)
