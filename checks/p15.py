"""P15: steady-state initial conditions and forward-backward filtering."""
from symx.harness import In
from .util import Cases, sh, tag
from . import spec as S
from .spec import ZERO, ONE

PROPERTY = "P15"
FUNCTIONS = ["philtorch.lti.lfilter_zi", "philtorch.lti.filtfilt", "philtorch.lti.lfilter", "philtorch.mat.companion"]
BOUNDS = ("orders 1..4 (lfilter_zi), 1..3 (filtfilt), length 2..8, pad length 0..6 (also the default), all pad modes, batch 1..3, "
          "1-D/2-D combinations of b, a, x; non-singular 1 + sum(a)")
ASSUME = ["1 + sum(a) != 0 (the solver gets the divisor as non-zero)"]


def steady(b, a, form):
    """state reached for a constant unit input (closed form)"""
    b, a = S.pad_ba(b or [ONE], a)
    M = len(a)
    den = ONE
    for k in a:
        den = den + k
    if form != "tdf2":
        return [ONE / den] * M
    num = ZERO
    for k in b:
        num = num + k
    g = num / den
    z = []
    for k in range(M):
        s = ZERO
        for j in range(k + 1, M + 1):
            s = s + b[j] - a[j - 1] * g
        z.append(s)
    return z


def padded(x, e, mode):
    n = len(x)
    if e == 0 or mode is None:
        return list(x)
    if mode == "replicate":
        return [x[0]] * e + x + [x[-1]] * e
    if mode == "reflect":
        return [x[e - i] for i in range(e)] + x + [x[n - 2 - i] for i in range(e)]
    if mode == "circular":
        return x[n - e:] + x + x[:e]
    if mode == "constant":
        return [ZERO] * e + x + [ZERO] * e


def filtfilt1(b, a, x, e, mode, form):
    ext = padded(x, e, mode)
    f = {"tdf2": S.tdf2, "df2": S.df2}.get(form)
    if f is None:
        run = lambda u: S.difference_equation(b, a, u)
    else:
        zi = steady(b, a, form)
        run = lambda u: f(b, a, u, [z * u[0] for z in zi])[0]
    y = run(run(ext)[::-1])[::-1]
    return y[e:len(y) - e]


def cases(tier):
    q = tier == "quick"
    cs = Cases()

    def zi(form, nb, na, bB=0, aB=0, cplx=False, dtype=None, nob=False, lead=None):
        bs, as_ = (sh(bB, nb), sh(aB, na)) if lead is None else (lead + (nb,), lead + (na,))
        ins = {"a": In(*as_, cplx=cplx, dtype=dtype)}
        if not nob:
            ins["b"] = In(*bs, cplx=cplx, dtype=dtype)

        def ref(t):
            def go(b, a):
                if form != "tdf2":      # only the order of b matters; the batch is a's
                    while b is not None and S.depth(b) > 1:
                        b = b[0]
                db, da = (S.depth(b) if b is not None else 0), S.depth(a)
                if max(db, da) <= 1:
                    return steady(b, a, form)
                n = len(a) if da > 1 else len(b)
                return [go(b[i] if db > 1 else b, a[i] if da > 1 else a) for i in range(n)]
            r = go(t.get("b"), t["a"])
            return r
        cs.add("zi-" + tag(form=form, b=0 if nob else nb, a=na, bB=bB, aB=aB, c=cplx, d=dtype, lead=lead), ins,
               lambda L, t: L.lti.lfilter_zi(t["a"], t.get("b"), transpose=form == "tdf2"), ref,
               dtype=None if dtype is None else dtype)

    def const(form, nb, na, N=3):
        """behavioural: constant input, constant output, unchanged state, through the real lfilter"""
        def call(L, t):
            z = L.lti.lfilter_zi(t["a"], t["b"], transpose=form == "tdf2")
            import torch
            return L.lti.lfilter(t["b"], t["a"], torch.ones(N, dtype=t["b"].dtype), zi=z, form=form)

        def ref(t):
            g = sum(t["b"], ZERO) / (ONE + sum(t["a"], ZERO))
            return [g] * N, steady(t["b"], t["a"], form)
        cs.add("const-" + tag(form=form, b=nb, a=na), {"b": In(nb), "a": In(na)}, call, ref)

    def ff(nb, na, N, B=0, bB=0, aB=0, padlen=None, mode="replicate", form="tdf2", cplx=False, layout=None, kw={}):
        args = dict(kw)
        if padlen != "default":
            args["padlen"] = padlen
        if mode != "default":
            args["padmode"] = mode
        e = 3 * max(nb, na + 1) if padlen in (None, "default") else padlen
        m = "replicate" if mode == "default" else mode
        if mode is None:
            e = 0

        def ref(t):
            X = t["x"] if B else [t["x"]]
            n = len(X)
            r = [filtfilt1(t["b"][i] if bB else t["b"], t["a"][i] if aB else t["a"], X[i], e, m, form) for i in range(n)]
            return r if B else r[0]
        cs.add("ff-" + tag(b=nb, a=na, N=N, B=B, bB=bB, aB=aB, p=str(padlen), m=str(mode), f=form, c=cplx, l=layout,
                           kw="".join(f"{k}{v}" for k, v in kw.items())),
               {"b": In(*sh(bB, nb), cplx=cplx), "a": In(*sh(aB, na), cplx=cplx), "x": In(*sh(B, N), cplx=cplx, layout=layout)},
               lambda L, t: L.lti.filtfilt(t["b"], t["a"], t["x"], form=form, **args), ref)
    for form in ("tdf2", "df2"):
        for nb, na in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (3, 1), (2, 3), (4, 3), (4, 2)) + (() if q else ((5, 4), (4, 1), (1, 4), (3, 4))):
            zi(form, nb, na)
            zi(form, nb, na, 2, 2)
            zi(form, nb, na, 0, 2)
            zi(form, nb, na, 3, 0)
            zi(form, nb, na, cplx=True)
            zi(form, nb, na, lead=(2, 2))
            if na == nb - 1 and na > 1:
                zi(form, nb, na, na, na)
                zi(form, nb, na, na, 0)
                zi(form, nb, na, 0, na)
            const(form, nb, na)
        zi(form, 3, 2, dtype="float32")
    for na in (1, 2, 3):
        zi("df2", 1, na, nob=True)
        zi("df2", 1, na, aB=2, nob=True)
    cs.add("zi-needs-b", {"a": In(2)}, lambda L, t: L.lti.lfilter_zi(t["a"]), raises=True)
    for form in ("tdf2", "df2", "df1", "tdf1"):
        for nb, na in ((2, 1), (1, 1), (2, 2), (3, 1), (3, 2)):
            for p in (0, 1, 2):
                ff(nb, na, 3, padlen=p, form=form)
                ff(nb, na, 3, B=2, padlen=p, form=form)
            ff(nb, na, 4, B=2, bB=2, aB=2, padlen=2, form=form)
            ff(nb, na, 3, B=3, bB=3, padlen=1, form=form)
            ff(nb, na, 3, B=2, aB=2, padlen=1, form=form)
        ff(2, 1, 4, mode=None, form=form)
        ff(2, 1, 4, B=2, mode=None, form=form)
        for mode in ("replicate", "reflect", "circular", "constant"):
            for p in (1, 2, 3):
                ff(2, 1, 4, padlen=p, mode=mode, form=form)
                ff(2, 1, 4, B=2, padlen=p, mode=mode, form=form)
            ff(2, 1, 4, B=2, padlen=2, mode=mode, form=form, cplx=True)
        for lay in ("T", "gap", "off", "expand0"):
            ff(2, 1, 4, B=3, padlen=2, form=form, layout=lay)
        for u in (1, 2):
            ff(2, 1, 4, B=2, padlen=1, form=form, kw={"unroll_factor": u})
    ff(2, 1, 7, padlen="default", mode="default")
    ff(2, 1, 8, B=2, padlen=None, mode="default")
    ff(1, 1, 7, B=2, padlen="default", mode="default", form="df2")
    ff(2, 1, 4, padlen=1, cplx=True)
    for n, p in ((6, "default"), (3, 3), (3, 5)):
        args = {} if p == "default" else {"padlen": p}
        cs.add(f"ff-too-short-{n}-{p}", {"b": In(2), "a": In(1), "x": In(n)},
               lambda L, t, args=args: L.lti.filtfilt(t["b"], t["a"], t["x"], **args), raises=True)
    cs.add("ff-gust", {"b": In(2), "a": In(1), "x": In(9)}, lambda L, t: L.lti.filtfilt(t["b"], t["a"], t["x"], method="gust"), raises=True)
    return cs.list
