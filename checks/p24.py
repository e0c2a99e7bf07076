"""P24: inconsistent shapes, ranks and dtypes are rejected, consistent ones accepted (dimensions symbolic)."""
import itertools

from symx import shapes_run
from symx.shapes_run import Sig

PROPERTY = "P24"
FUNCTIONS = ["philtorch.lti.state_space", "philtorch.lti.diag_state_space", "philtorch.lti.ssm._ssm_C_D", "philtorch.lti.state_space_recursion",
             "philtorch.lti.linear_recurrence", "philtorch.lti.lfilter", "philtorch.lti.fir", "philtorch.lti.comb_filter",
             "philtorch.lti.lfiltic", "philtorch.lti.lfilter_zi", "philtorch.lti.filtfilt", "philtorch.lti.cspline", "philtorch.lti.cubic_spline",
             "philtorch.lpv.state_space", "philtorch.lpv.state_space_recursion", "philtorch.lpv.linear_recurrence", "philtorch.lpv.lfilter",
             "philtorch.lpv.fir", "philtorch.lpv.allpole", "philtorch.lpv.diag_shift", "philtorch.mat", "philtorch.poly.polydiv",
             "philtorch.prototype.poly.polydiv", "philtorch.prototype.sos2pfe", "torch.ops.philtorch.* (compiled: CPU, and the host code of the .cu files)"]
BOUNDS = ("every dimension of every tensor argument is a symbolic integer 1..3 (quick) / 1..4 (thorough; 5 for the compiled operators); "
          "the host code of the compiled operators is in addition explored symbolically for every size >= 1 without an upper bound (signatures host.*); "
          "ranks 0..4; float64 plus one argument of another dtype for the compiled operators; at most 30 / 1500 paths per signature "
          "(the evidence says for which signatures every path was explored); dimensions of size one that broadcast are not claimed")
OUTSIDE = ["a dimension of size one used where another size is meant broadcasts in several functions; nothing is claimed about such calls",
           "device code: the .cu kernels run on the host against a stand-in for Thrust"]
ASSUME = ["PyTorch's meta kernels raise on the same shapes as its CPU kernels (every explored path is confirmed on real tensors at one point)"]
NEEDS_CXX = False


def shape_sigs(tier):
    import z3
    from symx.harness import L
    And, Or = z3.And, z3.Or
    q = tier == "quick"
    out = []

    def add(name, call, ranks, cons=None, **k):
        out.append(Sig(name, call, {a: r for a, r in ranks.items() if r is not None}, cons, **k))

    def rk(ranks):
        return "-".join(f"{a}{v}" for a, v in ranks.items() if v is not None)

    def each(d, name, E, *targets):
        """the dimensions name0, name1, ... equal the targets (None: anything)"""
        return [E(d[f"{name}{i}"], v) for i, v in enumerate(targets) if v is not None]

    # ------------------------------------------------------------------ state space
    def ss_cons(r, lpv, diag=False, oi=None):
        off = 1 if lpv else 0

        def cons(d, E, strict):
            c = []
            if r["x"] not in (2, 3) or not diag and r["A"] not in (2 + off, 3 + off):
                return None
            b, N = d["x0"], d["x1"]
            x3 = r["x"] == 3
            F = d["x2"] if x3 else None
            if diag and "L" in r:
                if r["L"] not in (1, 2):
                    return None
                M = d[f"L{r['L'] - 1}"]
                if r["L"] == 2:
                    c.append(E(d["L0"], b))
                for k in ("V", "Vinv", "A"):
                    if k in r:
                        if r[k] != r["L"] + 1:
                            return None
                        c += each(d, k, E, *([b] if r["L"] == 2 else []), M, M)
            else:
                if r["A"] not in (2 + off, 3 + off):
                    return None
                M = d[f"A{r['A'] - 1}"]
                c += each(d, "A", E, *([b] if r["A"] == 3 + off else []), *([N] if lpv else []), M, M)
            if r["x"] not in (2, 3):
                return None
            if x3 and "B" not in r:
                c.append(E(F, M))
            alt = [b, N] if lpv else [b]
            if "B" in r:
                n = r["B"]
                t = {(1, 0): [[M]], (2, 0): [[v, M] for v in alt], (3, 0): [[b, N, M]] if lpv else [],
                     (2, 1): [[M, F]], (3, 1): [[v, M, F] for v in alt], (4, 1): [[b, N, M, F]] if lpv else []}.get((n, int(x3)), [])
                if not t:
                    return None
                c.append(Or([And(each(d, "B", E, *v)) for v in t]))
            if "zi" in r:
                if r["zi"] not in (1, 2):
                    return None
                c += each(d, "zi", E, *([b] if r["zi"] == 2 else []), M)
            # outputs: either one per time step (single) or P of them; (condition, single, P)
            ways = [(z3.BoolVal(True), oi is not None, None if oi is not None else M)]
            if "C" in r:
                n, e = r["C"], (lambda *v: And(each(d, "C", E, *v)))
                if n == 1:
                    ways = [(e(M), True, None)]
                elif n == 2:
                    s = Or([E(d["C0"], v) for v in alt])
                    ways = [(And(e(None, M), s), True, None),
                            (And(e(None, M), z3.Not(s)) if strict else e(None, M), False, d["C0"])]
                elif n == 3 and lpv:
                    s = And(E(d["C0"], b), E(d["C1"], N))
                    m = And(e(None, None, M), Or(E(d["C0"], N), E(d["C0"], b)))
                    ways = [(e(b, N, M), True, None), (And(m, z3.Not(s)) if strict else m, False, d["C1"])]
                elif n == 3:
                    ways = [(e(b, None, M), False, d["C1"])]
                elif n == 4 and lpv:
                    ways = [(e(b, N, None, M), False, d["C2"])]
                else:
                    return None
            if "D" in r:
                n, w2 = r["D"], []
                for cond, single, P in ways:
                    ts = []        # target lists; a condition may replace a list
                    if not x3:
                        ts += [[]] if n == 0 and single else []
                        if n == 1:
                            ts += [[1]] + [[v] for v in alt] if single else [[P]]
                        if n == 2:
                            ts += ([[b, N]] if lpv else []) if single else [[v, P] for v in alt]
                        if n == 3 and lpv and not single:
                            ts += [[b, N, P]]
                    else:
                        if n in (0, 1) and not single:
                            ts += [And([E(F, P)] + ([d["D0"] == 1] if n else []))]
                        if n == 1 and single:
                            ts += [[F]]
                        if n == 2:
                            ts += [[v, F] for v in alt] if single else [[P, F]]
                        if n == 3:
                            ts += ([[b, N, F]] if lpv else []) if single else [[v, P, F] for v in alt]
                        if n == 4 and lpv and not single:
                            ts += [[b, N, P, F]]
                    w2 += [And(cond, t if z3.is_expr(t) else And(each(d, "D", E, *t))) for t in ts]
                if not w2:
                    return None
                c.append(Or(w2))
            else:
                c.append(Or([w[0] for w in ways]))
            return And(c)
        return cons

    def ss(lpv, kw=None, fn="state_space", **r):
        ns = "lpv" if lpv else "lti"
        kw = kw or {}

        def call(t):
            f = getattr(getattr(L, ns), fn)
            k = {n: t.get(n) for n in ("B", "C", "D", "zi") if n in t}
            if fn == "diag_state_space":
                return f(t["x"], **{n: t[n] for n in ("L", "V", "Vinv", "A") if n in t}, **k, **kw)
            return f(t["A"], t["x"], **k, **kw)
        add(f"{ns}.{fn}-{rk(r)}" + "".join(f"-{k}{v}" for k, v in kw.items()), call, r,
            ss_cons(r, lpv, fn == "diag_state_space", kw.get("out_idx")))

    for lpv in (False, True):
        off = int(lpv)
        for A, x in itertools.product((2 + off, 3 + off), (2, 3)):
            ss(lpv, A=A, x=x)
            ss(lpv, A=A, x=x, kw={"out_idx": 0})
            for n in (1, 2, 3):
                ss(lpv, A=A, x=x, zi=n)
            for n in (1, 2, 3, 4):
                ss(lpv, A=A, x=x, B=n)
                ss(lpv, A=A, x=x, C=n, **({"B": 2} if x == 3 else {}))
            for u in (1, 2):
                ss(lpv, A=A, x=x, zi=2, kw={"unroll_factor": u})
        A = 2 + off
        for x in (2, 3):
            ex = {"B": 2} if x == 3 else {}
            for n in (0, 1, 2, 3, 4):
                ss(lpv, A=A, x=x, C=1, D=n, **ex)
                ss(lpv, A=A, x=x, D=n, kw={"out_idx": 0}, **ex)
                if n or x == 2 or not q:
                    ss(lpv, A=A, x=x, D=n, **ex)
                if not q or n == 1:
                    ss(lpv, A=A, x=x, C=2, D=n, **ex)
            for C, D in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (4, 3), (3, 1), (4, 1)):
                if not q or (C, D) in ((2, 2), (3, 3)) and x == 2:
                    ss(lpv, A=A, x=x, C=C, D=D, **ex)
        for A in range(6):
            ss(lpv, A=A, x=2)
        for x in (0, 1, 4):
            ss(lpv, A=2 + off, x=x)
    for x in (2, 3):
        ex = {"B": 2} if x == 3 else {}
        ss(False, fn="diag_state_space", x=x, A=2)
        ss(False, fn="diag_state_space", x=x, A=3, zi=2)
        ss(False, fn="diag_state_space", x=x, A=2, zi=1)
        ss(False, fn="diag_state_space", x=x, L=1, V=2)
        ss(False, fn="diag_state_space", x=x, L=1, Vinv=2)
        ss(False, fn="diag_state_space", x=x, L=1, A=2)
        ss(False, fn="diag_state_space", x=x, L=2, V=3)
        ss(False, fn="diag_state_space", x=x, L=2, Vinv=3)
        ss(False, fn="diag_state_space", x=x, L=1, V=3)
        ss(False, fn="diag_state_space", x=x, L=2, V=2)
        ss(False, fn="diag_state_space", x=x, L=3, V=4)
        for n in (1, 2, 3, 4):
            ss(False, fn="diag_state_space", x=x, L=1, V=2, B=n)
            ss(False, fn="diag_state_space", x=x, A=2, C=n, **ex)
            ss(False, fn="diag_state_space", x=x, A=2, C=1, D=n, **ex)

    # ------------------------------------------------------------------ recurrences
    for lpv in (False, True):
        ns, off = ("lpv", 1) if lpv else ("lti", 0)
        for u in (1, 2, 3, 0):
            for oi in (None, 0):
                for A in (2 + off, 3 + off) if u else (2 + off,):
                    for x in (2, 3):
                        def cons(d, E, strict, A=A, x=x, off=off, lpv=lpv, u=u):
                            if u < 1:
                                return None
                            M = d[f"A{A - 1}"]
                            return And(each(d, "A", E, *([d["x0"]] if A == 3 + off else []), *([d["x1"]] if lpv else []), M, M)
                                       + each(d, "zi", E, d["x0"], M) + ([E(d["x2"], M)] if x == 3 else []))
                        if oi is None or u == 2:
                            add(f"{ns}.state_space_recursion-A{A}-x{x}-u{u}-o{oi}", lambda t, ns=ns, u=u, oi=oi: getattr(L, ns).state_space_recursion(
                                t["A"], t["zi"], t["x"], unroll_factor=u, out_idx=oi), {"A": A, "zi": 2, "x": x}, cons)
        for A, zi, x in ((1 + off, 2, 2), (4 + off, 2, 2), (2 + off, 1, 2), (2 + off, 3, 2), (2 + off, 2, 1), (2 + off, 2, 4)):
            add(f"{ns}.state_space_recursion-A{A}-zi{zi}-x{x}", lambda t, ns=ns: getattr(L, ns).state_space_recursion(t["A"], t["zi"], t["x"]),
                {"A": A, "zi": zi, "x": x}, None)
        for a, i, u in itertools.product((0, 1) if not lpv else (1, 2), (0, 1), (1, 2, 3)):
            def cons(d, E, strict, a=a, i=i, lpv=lpv):
                c = []
                if lpv:
                    c += each(d, "a", E, *([d["x0"]] if a == 2 else []), d["x1"])
                elif a == 1:
                    c.append(Or(d["a0"] == d["x0"], d["a0"] == 1))
                if i:
                    c.append(Or(d["init0"] == d["x0"], d["init0"] == 1))
                return And(c) if c else z3.BoolVal(True)
            add(f"{ns}.linear_recurrence-a{a}-init{i}-u{u}", lambda t, ns=ns, u=u: getattr(L, ns).linear_recurrence(t["a"], t["init"], t["x"], unroll_factor=u),
                {"a": a, "init": i, "x": 2}, cons, hi=4)
        for a, i, x in ((3, 1, 2), (1 + off, 2, 2), (1 + off, 1, 1), (1 + off, 1, 3)) + (((2, 1, 2),) if not lpv else ((0, 1, 2),)):
            add(f"{ns}.linear_recurrence-a{a}-init{i}-x{x}", lambda t, ns=ns: getattr(L, ns).linear_recurrence(t["a"], t["init"], t["x"]),
                {"a": a, "init": i, "x": x}, None)

    # ------------------------------------------------------------------ filters
    def zmax(p, r):
        return z3.If(p >= r, p, r)

    def lfilter(ns, form, backend, kw=None, **r):
        off = 1 if ns == "lpv" else 0

        def cons(d, E, strict):
            if r["x"] not in (1, 2) or r["b"] not in (1 + off, 2 + off) or r["a"] not in (1 + off, 2 + off):
                return None
            if ns == "lpv" and backend == "torchlpc" and form == "tdf2":
                return None
            T = d[f"x{r['x'] - 1}"]
            c = []
            B = d["x0"] if r["x"] == 2 else z3.IntVal(1)
            for k in ("b", "a"):
                c += each(d, k, E, *([B] if r[k] == 2 + off else []), *([T] if off else []))
            order = zmax(d[f"b{r['b'] - 1}"] - 1, d[f"a{r['a'] - 1}"])
            if "zi" in r and form in ("df2", "tdf2"):
                if r["zi"] not in (1, 2):
                    return None
                z = each(d, "zi", E, *([B] if r["zi"] == 2 else []), order)
                if backend == "diag_ssm":       # the state is not used when the numerator is longer
                    long = d[f"b{r['b'] - 1}"] - 1 > d[f"a{r['a'] - 1}"]
                    z = [And(z + [z3.Not(long)])] if strict else [Or(And(z), long)]
                c += z
            return And(c) if c else z3.BoolVal(True)

        def call(t):
            return getattr(L, ns).lfilter(t["b"], t["a"], t["x"], zi=t.get("zi"), form=form, backend=backend, **(kw or {}))
        add(f"{ns}.lfilter-{form}-{backend}-{rk(r)}" + "".join(f"-{k}{v}" for k, v in (kw or {}).items()), call, r, cons)

    for ns, off in (("lti", 0), ("lpv", 1)):
        for form, backend in itertools.product(("df2", "tdf2", "df1", "tdf1"), ("ssm", "diag_ssm" if not off else "torchlpc")):
            if backend == "diag_ssm" and form in ("df1", "tdf1"):
                continue
            for b, a, x in ((1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2), (1, 1, 2)):
                # lti df1 / tdf1 need an explicit unroll factor
                kw = {"unroll_factor": 1} if not off and form in ("df1", "tdf1") or off and backend == "ssm" and form in ("df1", "tdf1") else None
                lfilter(ns, form, backend, kw, b=b + off, a=a + off, x=x)
                if form in ("df2", "tdf2") and (b, a, x) in ((1, 1, 1), (2, 2, 2), (1, 1, 2)):
                    lfilter(ns, form, backend, kw, b=b + off, a=a + off, x=x, zi=1)
                    lfilter(ns, form, backend, kw, b=b + off, a=a + off, x=x, zi=2)
        for b, a, x in ((0 + off, 1 + off, 2), (3 + off, 1 + off, 2), (1 + off, 0 + off, 2), (1 + off, 3 + off, 2), (1 + off, 1 + off, 3), (1 + off, 1 + off, 0)):
            lfilter(ns, "df2", "ssm", None, b=b, a=a, x=x)
        lfilter(ns, "tdf2", "ssm", None, b=1 + off, a=1 + off, x=2, zi=3)

    for tr in (True, False):
        M = (lambda d: d["b1"] - 1)
        add(f"lti.fir-t{tr:d}", lambda t, tr=tr: L.lti.fir(t["b"], t["x"], transpose=tr), {"b": 2, "x": 2}, lambda d, E, s: E(d["b0"], d["x0"]), hi=4)
        add(f"lti.fir-t{tr:d}-zi", lambda t, tr=tr: L.lti.fir(t["b"], t["x"], zi=t["zi"], transpose=tr), {"b": 2, "x": 2, "zi": 2},
            lambda d, E, s: And(E(d["b0"], d["x0"]), E(d["zi0"], d["x0"]), d["zi1"] == d["b1"] - 1), bounds={"zi1": (0, 3)}, hi=4)
        add(f"lpv.fir-t{tr:d}", lambda t, tr=tr: L.lpv.fir(t["b"], t["x"], transpose=tr), {"b": 3, "x": 2},
            lambda d, E, s: And(E(d["b0"], d["x0"]), E(d["b1"], d["x1"])), hi=4)
        add(f"lpv.fir-t{tr:d}-zi", lambda t, tr=tr: L.lpv.fir(t["b"], t["x"], zi=t["zi"], transpose=tr), {"b": 3, "x": 2, "zi": 2},
            lambda d, E, s: And(E(d["b0"], d["x0"]), E(d["b1"], d["x1"]), E(d["zi0"], d["x0"]), d["zi1"] == d["b2"] - 1), bounds={"zi1": (0, 3)})
        add(f"lpv.allpole-t{tr:d}", lambda t, tr=tr: L.lpv.allpole(t["a"], t["x"], transpose=tr), {"a": 3, "x": 2},
            lambda d, E, s: And(E(d["a0"], d["x0"]), E(d["a1"], d["x1"])), hi=4)
        add(f"lpv.allpole-t{tr:d}-zi", lambda t, tr=tr: L.lpv.allpole(t["a"], t["x"], zi=t["zi"], transpose=tr), {"a": 3, "x": 2, "zi": 2},
            lambda d, E, s: And(E(d["a0"], d["x0"]), E(d["a1"], d["x1"]), E(d["zi0"], d["x0"]), E(d["zi1"], d["a2"])))
        for ns, k, n in (("lti", "fir", 2), ("lpv", "fir", 3), ("lpv", "allpole", 3)):
            nm = "a" if k == "allpole" else "b"
            for c, x, z in ((n - 1, 2, None), (n + 1, 2, None), (n, 1, None), (n, 3, None), (n, 2, 1), (n, 2, 3)):
                r = {nm: c, "x": x, "zi": z}
                add(f"{ns}.{k}-t{tr:d}-{rk(r)}", lambda t, ns=ns, k=k, nm=nm, tr=tr: getattr(getattr(L, ns), k)(t[nm], t["x"], zi=t.get("zi"), transpose=tr), r, None)

    for delay, a in itertools.product((1, 2, 3), (0, 1)):
        for zi in (None, 1, 2, 0, 3):
            if zi == 0 and delay == 1:      # a scalar state broadcasts
                continue

            def cons(d, E, s, delay=delay, a=a, zi=zi):
                c = [Or(d["a0"] == d["x0"], d["a0"] == 1)] if a else []
                if zi in (0, 3):
                    return None
                if zi == 1:
                    c.append(E(d["zi0"], z3.IntVal(delay)))
                if zi == 2:
                    c += each(d, "zi", E, d["x0"], z3.IntVal(delay))
                return And(c) if c else z3.BoolVal(True)
            add(f"lti.comb_filter-D{delay}-a{a}-zi{zi}", lambda t, delay=delay: L.lti.comb_filter(t["a"], delay, t["x"], zi=t.get("zi")),
                {"a": a, "x": 2, "zi": zi}, cons, hi=4)
    add("lti.comb_filter-D0", lambda t: L.lti.comb_filter(t["a"], 0, t["x"]), {"a": 1, "x": 2}, None)
    add("lti.comb_filter-D-1", lambda t: L.lti.comb_filter(t["a"], -1, t["x"]), {"a": 1, "x": 2}, None)
    add("lti.comb_filter-a2", lambda t: L.lti.comb_filter(t["a"], 2, t["x"]), {"a": 2, "x": 2}, None)
    add("lti.comb_filter-x1", lambda t: L.lti.comb_filter(t["a"], 2, t["x"]), {"a": 1, "x": 1}, None)

    for b, a, y, x in ((1, 1, 1, None), (1, 1, 1, 1), (2, 2, 2, 2), (1, 1, 2, 2), (2, 2, 2, None), (2, 1, 2, 2)):
        r = {"b": b, "a": a, "y": y, "x": x}

        def cons(d, E, s, r=r):
            c = [E(d[f"y{r['y'] - 1}"], d[f"a{r['a'] - 1}"])]
            if r["x"]:
                c.append(d[f"x{r['x'] - 1}"] == d[f"b{r['b'] - 1}"] - 1)
            two = [k for k in r if r[k] == 2]
            c += [E(d[f"{two[0]}0"], d[f"{k}0"]) for k in two[1:]]
            # a broadcast size-1 entry next to two unequal others is inconsistent all the same
            c += [E(d[f"{k}0"], d[f"{j}0"]) for k, j in itertools.combinations(two, 2)]
            return And(c)
        add(f"lti.lfiltic-{rk(r)}", lambda t: L.lti.lfiltic(t["b"], t["a"], t["y"], t.get("x")), r, cons, bounds={f"x{(x or 1) - 1}": (0, 3)})
    for a, b, tr in ((1, 1, True), (1, 1, False), (2, 2, True), (2, 1, True), (1, 2, True), (2, None, False), (1, None, False), (2, 2, False)):
        def cons(d, E, s, a=a, b=b, tr=tr):     # untransposed: only the length of b matters
            return E(d["a0"], d["b0"]) if a == b == 2 and (tr or s) else z3.BoolVal(True)
        add(f"lti.lfilter_zi-a{a}-b{b}-t{tr:d}", lambda t, tr=tr: L.lti.lfilter_zi(t["a"], t.get("b"), transpose=tr), {"a": a, "b": b}, cons, hi=4)
    add("lti.lfilter_zi-a1-t1", lambda t: L.lti.lfilter_zi(t["a"]), {"a": 1}, None)
    for (b, a, x), mode, form in itertools.product(((1, 1, 1), (2, 2, 2), (1, 1, 2)), ("replicate", "reflect"), ("tdf2", "df2", "df1")):
        if q and mode == "reflect" and form != "tdf2":
            continue

        def cons(d, E, s, b=b, a=a, x=x):
            B = d["x0"] if x == 2 else z3.IntVal(1)
            return And([d[f"x{x - 1}"] > 2] + ([E(d["b0"], B)] if b == 2 else []) + ([E(d["a0"], B)] if a == 2 else []))
        kw = {"unroll_factor": 1} if form == "df1" else {}
        add(f"lti.filtfilt-b{b}-a{a}-x{x}-{mode}-{form}", lambda t, mode=mode, form=form, kw=kw: L.lti.filtfilt(
            t["b"], t["a"], t["x"], padmode=mode, padlen=2, form=form, **kw), {"b": b, "a": a, "x": x}, cons, bounds={f"x{x - 1}": (1, 4)})
    for nm, kw in (("method", {"method": "mean"}), ("gust", {"method": "gust"}), ("padmode", {"padmode": "odd_", "padlen": 1})):
        add(f"lti.filtfilt-{nm}", lambda t, kw=kw: L.lti.filtfilt(t["b"], t["a"], t["x"], **kw), {"b": 1, "a": 1, "x": 1}, None, bounds={"x0": (20, 21)})
    for ns, off in (("lti", 0), ("lpv", 1)):
        add(f"{ns}.lfilter-form", lambda t, ns=ns: getattr(L, ns).lfilter(t["b"], t["a"], t["x"], form="df3"), {"b": 1 + off, "a": 1 + off, "x": 1}, None)
        add(f"{ns}.lfilter-backend", lambda t, ns=ns: getattr(L, ns).lfilter(t["b"], t["a"], t["x"], backend="fft"), {"b": 1 + off, "a": 1 + off, "x": 1}, None)
        add(f"{ns}.state_space-C-out_idx", lambda t, ns=ns: getattr(L, ns).state_space(t["A"], t["x"], C=t["C"], out_idx=0), {"A": 2 + off, "x": 2, "C": 1}, None)
        for u in (0, -1):
            add(f"{ns}.linear_recurrence-u{u}", lambda t, ns=ns, u=u: getattr(L, ns).linear_recurrence(t["a"], t["init"], t["x"], unroll_factor=u),
                {"a": 1, "init": 1, "x": 2}, None)
    add("lti.diag_state_space-C-out_idx", lambda t: L.lti.diag_state_space(t["x"], A=t["A"], C=t["C"], out_idx=0), {"A": 2, "x": 2, "C": 1}, None)
    add("lti.lfilter-diag-form", lambda t: L.lti.lfilter(t["b"], t["a"], t["x"], form="df1", backend="diag_ssm"), {"b": 1, "a": 1, "x": 1}, None)
    add("lpv.lfilter-torchlpc-form", lambda t: L.lpv.lfilter(t["b"], t["a"], t["x"], form="df3", backend="torchlpc"), {"b": 2, "a": 2, "x": 1}, None)
    add("lti.cubic_spline-m0", lambda t: L.lti.cubic_spline(t["x"], 0), {"x": 2}, None)
    add("lti.cubic_spline-m-2", lambda t: L.lti.cubic_spline(t["x"], -2), {"x": 2}, None)
    add("lti.cubic_spline-m2.0", lambda t: L.lti.cubic_spline(t["x"], 2.0), {"x": 2}, None)
    add("lti.cspline-lamb", lambda t: L.lti__interp.cspline(t["x"], lamb=0.5), {"x": 2}, None)
    for r in (1, 3):
        add(f"lti.cspline-x{r}", lambda t: L.lti__interp.cspline(t["x"]), {"x": r}, None, hi=4)
        add(f"lti.cubic_spline-x{r}", lambda t: L.lti.cubic_spline(t["x"], 2), {"x": r}, None, hi=4)
    for par, sp in itertools.product((True, False), (True, False)):
        add(f"lti.cubic_spline-p{par:d}-s{sp:d}", lambda t, par=par, sp=sp: L.lti.cubic_spline(t["x"], 2, scipy_padding=sp, parallel_form=par), {"x": 2},
            lambda d, E, s: d["x1"] >= 3 if s else z3.BoolVal(True), hi=6)

    # ------------------------------------------------------------------ matrices, polynomials
    for A, e in ((2, 1), (3, 2), (3, 1), (2, 2)):
        def cons(d, E, s, A=A, e=e):
            n = d[f"A{A - 1}"]
            c = [d[f"A{A - 2}"] == n, d[f"ev{e - 1}"] == n] + ([E(d["A0"], d["ev0"])] if A == 3 and e == 2 else [])
            return And(c + ([z3.BoolVal(A - 1 == e)] if s else []))
        add(f"mat.find_eigenvectors-A{A}-ev{e}", lambda t: L.mat.find_eigenvectors(t["A"], t["ev"]), {"A": A, "ev": e}, cons, hi=4)
    add("mat.find_eigenvectors-A1", lambda t: L.mat.find_eigenvectors(t["A"], t["ev"]), {"A": 1, "ev": 1}, None)
    for r, n in itertools.product((2, 3), (-2, 0, 1, 2, 6)):
        add(f"mat.matrix_power_accumulate-A{r}-n{n}", lambda t, n=n: L.mat.matrix_power_accumulate(t["A"], n), {"A": r},
            lambda d, E, s, r=r: d[f"A{r - 1}"] == d[f"A{r - 2}"], hi=5)
    add("mat.matrix_power_accumulate-A1", lambda t: L.mat.matrix_power_accumulate(t["A"], 2), {"A": 1}, None)
    for r in (3, 4):
        add(f"mat.matrices_cumdot-A{r}", lambda t: L.mat.matrices_cumdot(t["A"]), {"A": r}, lambda d, E, s, r=r: d[f"A{r - 1}"] == d[f"A{r - 2}"], hi=4)
    add("mat.matrices_cumdot-A2", lambda t: L.mat.matrices_cumdot(t["A"]), {"A": 2}, None)
    add("mat.companion-a0", lambda t: L.mat.companion(t["a"]), {"a": 0}, None)
    add("mat.companion-a2", lambda t: L.mat.companion(t["a"]), {"a": 2}, lambda d, E, s: z3.BoolVal(True), hi=5)
    add("lpv.diag_shift-c1", lambda t: L.lpv__utils.diag_shift(t["c"]), {"c": 1}, None)
    for u, v in itertools.product((1, 2), (1, 2)):
        add(f"poly.polydiv-u{u}-v{v}", lambda t: L.poly.polydiv(t["u"], t["v"]), {"u": u, "v": v},
            lambda d, E, s, u=u, v=v: (Or(E(d["u0"], d["v0"]), d["u1"] < d["v1"]) if not s else E(d["u0"], d["v0"])) if u == v == 2 else z3.BoolVal(True), hi=4)
    add("poly.polydiv-u0", lambda t: L.poly.polydiv(t["u"], t["v"]), {"u": 0, "v": 1}, None)
    add("poly.polydiv-v0", lambda t: L.poly.polydiv(t["u"], t["v"]), {"u": 1, "v": 0}, None)
    add("prototype.polydiv-u2", lambda t: L.prototype__poly.polydiv(t["u"], t["v"]), {"u": 2, "v": 1}, None)
    add("prototype.polydiv-v2", lambda t: L.prototype__poly.polydiv(t["u"], t["v"]), {"u": 1, "v": 2}, None)
    add("prototype.roots-2", lambda t: L.prototype__poly.roots(t["p"]), {"p": 2}, None)
    for nm in ("residue", "residuez"):
        add(f"prototype.{nm}-b2", lambda t, nm=nm: getattr(L.prototype__signal, nm)(t["b"], t["a"]), {"b": 2, "a": 1}, None)
        add(f"prototype.{nm}-a2", lambda t, nm=nm: getattr(L.prototype__signal, nm)(t["b"], t["a"]), {"b": 1, "a": 2}, None)
    add("prototype.sos2pfe-2", lambda t: L.prototype__signal.sos2pfe(t["sos"]), {"sos": 2}, lambda d, E, s: d["sos1"] == 6 if not s else z3.BoolVal(False),
        bounds={"sos1": (4, 8), "sos0": (1, 2)})
    for r in (1, 3):
        add(f"prototype.sos2pfe-{r}", lambda t: L.prototype__signal.sos2pfe(t["sos"]), {"sos": r}, None)

    # ------------------------------------------------------------------ compiled operators
    ohi = 3 if q else 5

    def strict(a, b):
        return a == b

    def op(name, r, dtypes=None, cuda=False):
        lpv = name in ("recur2", "recurN")

        def cons(d, E, s):
            if dtypes:
                return None
            b = d.get("x0")
            if name == "lti_recur":
                if (r["A"] not in (0, 1)) or r["zi"] != 1 or r["x"] != 2:
                    return None
                return And([d["zi0"] == b] + ([Or(d["A0"] == b, d["A0"] == 1)] if r["A"] else []))
            off = int(lpv)
            if r["A"] not in (2 + off, 3 + off) or r["zi"] != 2 or r["x"] != 3:
                return None
            M = d["x2"]
            c = each(d, "A", strict, *([b] if r["A"] == 3 + off else []), *([d["x1"]] if lpv else []), M, M) + each(d, "zi", strict, b, M)
            if name.endswith("2"):
                c.append(M == 2)
            return And(c)

        def call(t):
            import torch
            f = getattr(torch.ops.philtorch, name)
            if cuda and type(t["x"]) is torch.Tensor:       # the kernels of the .cu files, compiled for the host
                return f.default._op_dk(torch._C.DispatchKey.CUDA, t["A"], t["zi"], t["x"])
            return f(t["A"], t["zi"], t["x"])
        add(f"{'cuda' if cuda else 'op'}.{name}-{rk(r)}" + ("-" + "-".join(f"{k}:{v}" for k, v in dtypes.items()) if dtypes else ""), call, r, cons, dtypes=dtypes, native=True, hi=ohi)

    for name, off, cu in (("lti_recur2", 0, False), ("lti_recurN", 0, False), ("recur2", 1, False), ("recurN", 1, False), ("lti_recur2", 0, True),
                          ("recur2", 1, True)):
        for A in (2 + off, 3 + off):
            op(name, {"A": A, "zi": 2, "x": 3}, cuda=cu)
        for A, zi, x in ((1 + off, 2, 3), (4 + off, 2, 3), (2 + off, 1, 3), (2 + off, 3, 3), (2 + off, 2, 2), (2 + off, 2, 4)):
            op(name, {"A": A, "zi": zi, "x": x}, cuda=cu)
        for k in ("A", "zi", "x"):
            for dt in ("float32", "complex128"):
                op(name, {"A": 2 + off, "zi": 2, "x": 3}, {k: dt}, cuda=cu)
    for cu in (False, True):
        for A in (0, 1):
            op("lti_recur", {"A": A, "zi": 1, "x": 2}, cuda=cu)
        for A, zi, x in ((2, 1, 2), (1, 0, 2), (1, 2, 2), (1, 1, 1), (1, 1, 3), (0, 2, 3)):
            op("lti_recur", {"A": A, "zi": zi, "x": x}, cuda=cu)
        for k in ("A", "zi", "x"):
            for dt in ("float32", "complex128"):
                op("lti_recur", {"A": 1, "zi": 1, "x": 2}, {k: dt}, cuda=cu)
    return out


def cases(tier):
    return []


def extra(tier, rep):
    return shapes_run.drive(__name__, PROPERTY, tier, rep)
