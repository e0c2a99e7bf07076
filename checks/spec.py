"""Independent specifications over nested lists of Ex, written from the library's
documentation and the textbook / scipy.signal definitions (never from its code)."""
from symx.ex import Ex, ZERO, ONE, dot, matvec, vadd, matmul, transpose, eye  # noqa: F401


def depth(v):
    d = 0
    while isinstance(v, list):
        d += 1
        v = v[0] if v else None
    return d


def rows(v, B, base):
    """broadcast a tensor with `base` trailing dims over B batch entries"""
    return [v] * B if depth(v) == base else ([v[0]] * B if len(v) == 1 and B > 1 else v)


# ------------------------------------------------------------- LTI filters
def difference_equation(b, a, x):
    """y[n] = sum_k b[k] x[n-k] - sum_k a[k] y[n-k]   (a[0] = 1 is implicit)"""
    y = []
    for n in range(len(x)):
        s = ZERO
        for k, bk in enumerate(b):
            if n - k >= 0:
                s = s + bk * x[n - k]
        for k, ak in enumerate(a, 1):
            if n - k >= 0:
                s = s - ak * y[n - k]
        y.append(s)
    return y


def pad_ba(b, a):
    M = max(len(b) - 1, len(a))
    return b + [ZERO] * (M + 1 - len(b)), a + [ZERO] * (M - len(a))


def tdf2(b, a, x, zi):
    """transposed direct form II, the structure whose state scipy.signal.lfilter uses"""
    b, a = pad_ba(b, a)
    M = len(a)
    z = list(zi) + [ZERO]
    y = []
    for xn in x:
        yn = b[0] * xn + z[0]
        z = [z[i + 1] + b[i + 1] * xn - a[i] * yn for i in range(M)] + [ZERO]
        y.append(yn)
    return y, z[:M]


def df2(b, a, x, zi):
    """direct form II; state = (w[n-1], ..., w[n-M])"""
    b, a = pad_ba(b, a)
    M = len(a)
    w = list(zi)
    y = []
    for xn in x:
        wn = xn - dot(a, w)
        y.append(b[0] * wn + dot(b[1:], w))
        w = [wn] + w[:M - 1]
    return y, w[:M]


def lfilter(b, a, x, zi=None, form="tdf2"):
    """batched/broadcast version; nested lists with the library's shapes"""
    sq = depth(x) == 1 and depth(b) == 1 and depth(a) == 1 and (zi is None or depth(zi) == 1)
    X = [x] if depth(x) == 1 else x
    B = max([len(X)] + [len(v) for v in (b, a) if depth(v) == 2])
    X = rows(X, B, 1)
    bb, aa = rows(b, B, 1), rows(a, B, 1)
    if zi is None:
        y = [difference_equation(p, q, r) for p, q, r in zip(bb, aa, X)]
        return y[0] if sq else y
    zz = rows(zi, B, 1)
    f = tdf2 if form == "tdf2" else df2
    r = [f(p, q, u, z) for p, q, u, z in zip(bb, aa, X, zz)]
    y, zf = [k[0] for k in r], [k[1] for k in r]
    return (y[0], zf[0]) if sq else (y, zf)


# ------------------------------------------------------------- LPV filters
def lpv_df2(b, a, x, zi):
    """b[n][k], a[n][k]: coefficients at time n"""
    M = max(len(b[0]) - 1, len(a[0]))
    w = list(zi) if zi is not None else [ZERO] * M
    y = []
    for n, xn in enumerate(x):
        bn, an = pad_ba(b[n], a[n])
        wn = xn - dot(an, w)
        y.append(bn[0] * wn + dot(bn[1:], w))
        w = [wn] + w[:M - 1]
    return y, w[:M]


def lpv_tdf2(b, a, x, zi):
    M = max(len(b[0]) - 1, len(a[0]))
    z = (list(zi) if zi is not None else [ZERO] * M) + [ZERO]
    y = []
    for n, xn in enumerate(x):
        bn, an = pad_ba(b[n], a[n])
        yn = bn[0] * xn + z[0]
        z = [z[i + 1] + bn[i + 1] * xn - an[i] * yn for i in range(M)] + [ZERO]
        y.append(yn)
    return y, z[:M]


def lpv_fir(b, x, zi=None):
    """direct: y[n] = sum_k b[n][k] x[n-k]; zi[k] = x[-1-k]"""
    M = len(b[0]) - 1
    h = list(zi) if zi is not None else [ZERO] * M
    y = []
    for n, xn in enumerate(x):
        y.append(dot(b[n], [xn] + h))
        h = ([xn] + h)[:M]
    return y, h


def lpv_fir_t(b, x, zi=None):
    """transposed: each input scatters with the coefficients at its own time"""
    M = len(b[0]) - 1
    z = (list(zi) if zi is not None else [ZERO] * M) + [ZERO]
    y = []
    for n, xn in enumerate(x):
        y.append(z[0] + b[n][0] * xn)
        z = [z[i + 1] + b[n][i + 1] * xn for i in range(M)] + [ZERO]
    return y, z[:M]


def lpv_allpole(a, x, zi=None):
    """y[n] = x[n] - sum_k a[n][k] y[n-1-k]; zi[k] = y[-1-k]"""
    M = len(a[0])
    h = list(zi) if zi is not None else [ZERO] * M
    y = []
    for n, xn in enumerate(x):
        yn = xn - dot(a[n], h)
        y.append(yn)
        h = ([yn] + h)[:M]
    return y, h


def lpv_allpole_t(a, x, zi=None):
    M = len(a[0])
    z = (list(zi) if zi is not None else [ZERO] * M) + [ZERO]
    y = []
    for n, xn in enumerate(x):
        yn = xn + z[0]
        z = [z[i + 1] - a[n][i] * yn for i in range(M)] + [ZERO]
        y.append(yn)
    return y, z[:M]


def lpv_lfilter(b, a, x, zi=None, form="df2"):
    sq = depth(x) == 1 and depth(b) == 2 and depth(a) == 2 and (zi is None or depth(zi) == 1)
    X = [x] if depth(x) == 1 else x
    B = max([len(X)] + [len(v) for v in (b, a) if depth(v) == 3])
    X = rows(X, B, 1)
    bb, aa = rows(b, B, 2), rows(a, B, 2)
    zz = [None] * B if zi is None else rows(zi, B, 1)
    out = []
    for p, q, u, z in zip(bb, aa, X, zz):
        if form == "df2":
            out.append(lpv_df2(p, q, u, z))
        elif form == "tdf2":
            out.append(lpv_tdf2(p, q, u, z))
        elif form == "df1":
            out.append((lpv_allpole(q, lpv_fir(p, u)[0])[0], None))
        elif form == "tdf1":
            out.append((lpv_fir_t(p, lpv_allpole_t(q, u)[0])[0], None))
    y = [o[0] for o in out]
    if zi is None or form in ("df1", "tdf1"):
        return y[0] if sq else y
    zf = [o[1] for o in out]
    return (y[0], zf[0]) if sq else (y, zf)


# ------------------------------------------------------------- recurrences
def scalar_rec(a, h, x):
    out = []
    for n, xn in enumerate(x):
        h = (a[n] if isinstance(a, list) else a) * h + xn
        out.append(h)
    return out


def mat_rec(A, h, x):
    """h_t = A h_{t-1} + x_t; A is M x M or a list over time"""
    out = []
    tv = depth(A) == 3
    for t, xt in enumerate(x):
        h = vadd(matvec(A[t] if tv else A, h), xt)
        out.append(h)
    return out


def e1(xn, M):
    return [xn] + [ZERO] * (M - 1)


# ------------------------------------------------------------- state space
def sel(t, kind, b, n):
    """picks batch entry b and time n from a tensor whose axes are named by `kind`"""
    if kind is None or t is None:
        return None
    kind = list(kind)
    if "B" in kind:
        i = kind.index("B")
        assert i == 0
        t = t[b]
        kind.pop(0)
    if "N" in kind:
        assert kind[0] == "N"
        t = t[n]
        kind.pop(0)
    return t


def apply_to(m, v):
    """m: scalar, vector or matrix; v: scalar or vector (documented meanings)"""
    dm, dv = depth(m), depth(v)
    if dm == 0:
        return [m * k for k in v] if dv else m * v
    if dm == 1:
        return dot(m, v) if dv else [k * v for k in m]
    return matvec(m, v)


def add_any(p, q):
    if q is None:
        return p
    if isinstance(p, list):
        return vadd(p, q)
    return p + q


def state_space(A, kA, x, Bm=None, kB=None, C=None, kC=None, D=None, kD=None, zi=None, kz=None, out_idx=None):
    """h_{t+1} = A h_t + B x_t, y_t = C h_t + D x_t; returns (y, zf)"""
    ys, zfs = [], []
    for b in range(len(x)):
        M = len(sel(A, kA, b, 0))
        h = sel(zi, kz, b, 0) if zi is not None else [ZERO] * M
        yb = []
        for n, xn in enumerate(x[b]):
            out = h[out_idx] if out_idx is not None else h
            if C is not None:
                c = sel(C, kC, b, n)
                out = dot(c, h) if depth(c) == 1 else matvec(c, h)
            if D is not None:
                d = sel(D, kD, b, n)
                if kD == "1":
                    d = d[0]
                out = add_any(out, apply_to(d, xn))
            yb.append(out)
            if Bm is not None:
                u = apply_to(sel(Bm, kB, b, n), xn)
            else:
                u = xn if isinstance(xn, list) else e1(xn, M)
            h = vadd(matvec(sel(A, kA, b, n), h), u)
        ys.append(yb)
        zfs.append(h)
    return ys, zfs
