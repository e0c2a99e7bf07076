"""z3 encoding of expression DAGs and the equality queries.

Every query asks for inputs on which the code's output differs from the
specification; `unsat` means equal for every real / complex input (within the
shapes of the case).  Complex variables use the formal encoding: z and conj(z)
are independent unknowns (a polynomial in z, conj z with Gaussian-rational
coefficients vanishes on C^n iff it vanishes formally), `a + i b` is a pair.
Fractions are cleared: each value carries a multiset of denominators, which are
assumed non-zero (the inputs on which the code divides by zero are outside the
claim).
"""
import sys
import time
from collections import Counter
from fractions import Fraction

_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)
import z3  # noqa: E402

from . import expr as E  # noqa: E402

z3.set_param("memory_max_size", 20000)

stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "by_simplifier": 0,
         "feasibility": 0, "cvc5": 0}


def Q(f):
    return z3.RatVal(f.numerator, f.denominator)


class Enc:
    """Encodes nodes to (a, b, D): value (a + i b) / prod(D).  a, b: z3 terms or None (= 0)."""

    def __init__(self):
        self.memo = {}
        self.vars = {}      # z3 name -> (var id, conj?)
        self.side = []      # side constraints (definitions of sqrt)
        self.den = {}       # atom key -> z3 term
        self.uf = {}

    # -- helpers on z3-or-None terms
    @staticmethod
    def _add(x, y):
        if x is None:
            return y
        if y is None:
            return x
        return x + y

    @staticmethod
    def _neg(x):
        return None if x is None else -x

    @staticmethod
    def _mul(x, y):
        if x is None or y is None:
            return None
        return x * y

    def cmul(self, x, y):
        (a, b), (c, d) = x, y
        if b is None and d is None:
            return self._mul(a, c), None
        return (self._add(self._mul(a, c), self._neg(self._mul(b, d))),
                self._add(self._mul(a, d), self._mul(b, c)))

    def dprod(self, D):
        t = None
        for k, m in sorted(D.items(), key=lambda kv: str(kv[0])):
            for _ in range(m):
                t = self.den[k] if t is None else t * self.den[k]
        return t

    def scale(self, ab, D):
        t = self.dprod(D)
        if t is None:
            return ab
        return self._mul(ab[0], t), self._mul(ab[1], t)

    def common(self, x, y):
        D = x[2] | y[2]
        X = self.scale(x[:2], D - x[2])
        Y = self.scale(y[:2], D - y[2])
        return X, Y, D

    def enc(self, n, c=False):
        """iterative over topo order to avoid deep recursion"""
        if (n, c) in self.memo:
            return self.memo[(n, c)]
        need = [(n, c)]
        order = []
        seen = set()
        stack = [(n, c, 0)]
        while stack:
            m, cc, ph = stack.pop()
            if ph:
                order.append((m, cc))
                continue
            if (m, cc) in seen or (m, cc) in self.memo:
                continue
            seen.add((m, cc))
            stack.append((m, cc, 1))
            o = E.op[m]
            for k in E.children(m):
                if o == E.CONJ:
                    stack.append((k, not cc, 0))
                elif o in (E.RE, E.IM):
                    stack.append((k, False, 0))
                    stack.append((k, True, 0))
                else:
                    stack.append((k, cc and not E.real[k], 0))
        for m, cc in order:
            self.memo[(m, cc)] = self._enc1(m, cc)
        return self.memo[(n, c)]

    def get(self, k, c):
        return self.memo[(k, c and not E.real[k])] if (k, c and not E.real[k]) in self.memo else self.memo[(k, c)]

    def _enc1(self, n, c):
        o = E.op[n]
        a = E.arg[n]
        none = Counter()
        if o == E.C:
            r, i = a
            if c:
                i = -i
            return (Q(r) if r else None, Q(i) if i else None, none)
        if o == E.VAR:
            nm = a[0] + ("~" if (c and not a[1]) else "")
            v = z3.Real(nm)
            self.vars[nm] = (n, c and not a[1])
            return (v, None, none)
        if o == E.ADD:
            X, Y, D = self.common(self.get(a[0], c), self.get(a[1], c))
            return (self._add(X[0], Y[0]), self._add(X[1], Y[1]), D)
        if o == E.NEG:
            x = self.get(a[0], c)
            return (self._neg(x[0]), self._neg(x[1]), x[2])
        if o == E.MUL:
            x, y = self.get(a[0], c), self.get(a[1], c)
            p = self.cmul(x[:2], y[:2])
            return (p[0], p[1], x[2] + y[2])
        if o == E.CONJ:
            return self.get(a[0], not c)
        if o in (E.RE, E.IM):
            x, y = self.get(a[0], False), self.memo[(a[0], True)]
            X, Y, D = self.common(x, y)
            h = z3.RatVal(1, 2)
            if o == E.RE:
                r = (self._add(X[0], Y[0]), self._add(X[1], Y[1]))
                return (self._mul(r[0], h), self._mul(r[1], h), D)
            # (X - Y)/(2i) = (Xb - Yb)/2 - i (Xa - Ya)/2
            ra = self._add(X[1], self._neg(Y[1]))
            rb = self._add(X[0], self._neg(Y[0]))
            return (self._mul(ra, h), self._mul(self._neg(rb), h), D)
        if o == E.INV:
            x = self.get(a[0], c)
            num = self.scale((z3.RatVal(1, 1), None), x[2])
            if x[1] is None:
                key = (a[0], c and not E.real[a[0]])
                self.den[key] = x[0] if x[0] is not None else z3.RatVal(0, 1)
                return (num[0], None, Counter({key: 1}))
            key = (a[0], c, "n2")
            na, nb = x[0], x[1]
            self.den[key] = self._add(self._mul(na, na), self._mul(nb, nb))
            p = self.cmul(num, (na, self._neg(nb)))
            return (p[0], p[1], Counter({key: 1}))
        if o == E.SQRT:
            x = self.get(a[0], c)
            s = z3.Real(f"sqrt!{n}")
            d = self.dprod(x[2])
            lhs = s * s if d is None else s * s * d
            self.side.append(lhs == (x[0] if x[0] is not None else 0))
            self.side.append(s >= 0)
            return (s, None, none)
        if o == E.UF:
            name, args = a
            key = (n, c)
            vs = []
            simple = True
            for k in args:
                v = self.get(k, c)
                if v[1] is not None or v[2]:
                    simple = False
                vs.append(v[0] if v[0] is not None else z3.RatVal(0, 1))
            if args and simple:
                f = z3.Function(f"{name}{'~' if c else ''}/{len(args)}", *([z3.RealSort()] * (len(args) + 1)))
                return (f(*vs), None, none)
            return (z3.Real(f"uf!{name}!{n}" + ("~" if c and not E.real[n] else "")), None, none)
        if o in (E.LT, E.LE, E.EQ, E.NOT, E.AND, E.OR):
            return (z3.If(self.bool(n), z3.RatVal(1, 1), z3.RatVal(0, 1)), None, none)
        if o == E.ITE:
            b = self.bool(a[0])
            X, Y, D = self.common(self.get(a[1], c), self.get(a[2], c))
            z = z3.RatVal(0, 1)
            f = lambda p, q: None if p is None and q is None else z3.If(b, z if p is None else p, z if q is None else q)
            return (f(X[0], Y[0]), f(X[1], Y[1]), D)
        raise AssertionError(E.OPN[o])

    def real_of(self, n):
        v = self.enc(n)
        if v[1] is not None and E.real[n]:
            return (v[0], None, v[2])      # a real value whose imaginary part cancels
        assert v[1] is None, "order comparison of a complex value"
        return v

    def bool(self, n):
        o, a = E.op[n], E.arg[n]
        z = z3.RatVal(0, 1)
        if o == E.C:
            return z3.BoolVal(a[0] != 0)
        if o in (E.LT, E.LE):
            x, y = self.real_of(a[0]), self.real_of(a[1])
            X, Y, D = self.common(x, y)
            d = self.dprod(D)
            l, r = (z if X[0] is None else X[0]), (z if Y[0] is None else Y[0])
            if d is None:
                return l < r if o == E.LT else l <= r
            # sign of the denominator matters: multiply by d twice
            return (l * d < r * d) if o == E.LT else (l * d <= r * d)
        if o == E.EQ:
            X, Y, D = self.common(self.enc(a[0]), self.enc(a[1]))
            f = lambda p: z if p is None else p
            return z3.And(f(X[0]) == f(Y[0]), f(X[1]) == f(Y[1]))
        if o == E.NOT:
            return z3.Not(self.bool(a[0]))
        if o == E.AND:
            return z3.And(self.bool(a[0]), self.bool(a[1]))
        if o == E.OR:
            return z3.Or(self.bool(a[0]), self.bool(a[1]))
        v = self.real_of(n)
        return (z if v[0] is None else v[0]) != 0

    def diff_terms(self, g, w):
        """z3 terms that all vanish iff g == w (denominators non-zero)."""
        X, Y, D = self.common(self.enc(g), self.enc(w))
        out = []
        for p, q in zip(X, Y):
            d = self._add(p, self._neg(q))
            if d is not None:
                out.append(d)
        return out


class Result:
    def __init__(self, status, failing=None, model=None, detail=""):
        self.status = status      # 'unsat' | 'sat' | 'unknown'
        self.failing = failing    # index of a failing pair
        self.model = model
        self.detail = detail


def _solver(timeout_ms, nonlinear=True):
    s = z3.Tactic("qfnra-nlsat").solver() if nonlinear else z3.Solver()
    s.set("timeout", timeout_ms)
    return s


def feasible(conds, timeout_ms=5000):
    """Is the conjunction of (bool node, truth) satisfiable? 'sat'/'unsat'/'unknown'."""
    enc = Enc()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for n, v in conds:
        b = enc.bool(n)
        s.add(b if v else z3.Not(b))
    for x in enc.side:
        s.add(x)
    t0 = time.time()
    r = s.check()
    stats["solver_s"] += time.time() - t0
    stats["feasibility"] += 1
    return str(r)


def prove_equal(pairs, conds=(), timeout_ms=60000, chunk=64):
    """pairs: list of (got id, want id).  conds: list of (bool node id, truth).

    Asks z3 whether some assignment makes any pair differ."""
    todo = [(k, g, w) for k, (g, w) in enumerate(pairs) if g != w]
    if not pairs:
        return Result("unsat")
    # Pairs whose nodes coincide are syntactically the same term; they are part of
    # the query as trivially false disjuncts.
    base = 0
    while True:
        part = todo[base:base + chunk]
        r = _query(part, conds, timeout_ms)
        if r.status != "unsat":
            return r
        base += chunk
        if base >= len(todo):
            return Result("unsat")


def _query(part, conds, timeout_ms):
    enc = Enc()
    t0 = time.time()
    dis = []
    for k, g, w in part:
        for d in enc.diff_terms(g, w):
            dis.append((k, d))
    cnd = []
    for n, v in conds:
        b = enc.bool(n)
        cnd.append(b if v else z3.Not(b))
    stats["queries"] += 1
    left = []
    for k, d in dis:
        s = z3.simplify(d, som=True, hoist_mul=False, hoist_ite=False, max_steps=20000000)
        if z3.is_rational_value(s) and s.numerator_as_long() == 0:
            continue
        left.append((k, s))
    sv = z3.Solver()
    sv.set("timeout", timeout_ms)
    for c in cnd + enc.side:
        sv.add(c)
    used = set()
    _collect_den(enc, used)
    sv.add(z3.Or([s != 0 for _, s in left]) if left else z3.BoolVal(False))
    for key in used:
        sv.add(enc.den[key] != 0)
    r = sv.check()
    if not left:
        stats["by_simplifier"] += 1
    dt = time.time() - t0
    stats["solver_s"] += dt
    st = str(r)
    if st == "unknown":
        s2 = z3.Tactic("qfnra-nlsat").solver()
        s2.set("timeout", timeout_ms)
        s2.add(sv.assertions())
        t1 = time.time()
        st = str(s2.check())
        stats["solver_s"] += time.time() - t1
        sv = s2
    stats[st] += 1
    if st == "sat":
        m = sv.model()
        fail = None
        for k, s in left:
            v = m.eval(s, model_completion=True)
            try:
                if not (z3.is_rational_value(v) and v.numerator_as_long() == 0):
                    fail = k
                    break
            except Exception:
                pass
        env = {}
        for nm, (vid, cj) in enc.vars.items():
            v = m.eval(z3.Real(nm), model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            env.setdefault(vid, {})[cj] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return Result("sat", fail if fail is not None else left[0][0], env)
    if st == "unknown":
        return Result("unknown", left[0][0] if left else None, None, sv.reason_unknown())
    return Result("unsat")


def _collect_den(enc, used):
    for v in enc.memo.values():
        used.update(v[2].keys())


_lin = {}
_GRID = 1 << 120


def linform(root):
    """{variable node: coefficient, None: constant} of a real linear expression, or None.
    Coefficients are rounded to multiples of 2^-120; prove_close accounts for it."""
    stack = [root]
    while stack:
        n = stack[-1]
        if n in _lin:
            stack.pop()
            continue
        o, a = E.op[n], E.arg[n]
        r = None
        if o == E.C:
            r = {None: a[0]} if a[1] == 0 else False
        elif o == E.VAR:
            r = {n: Fraction(1)} if E.real[n] else False
        elif o in (E.ADD, E.MUL, E.NEG) or (o in (E.CONJ, E.RE) and E.real[a[0]]):
            todo = [k for k in a if k not in _lin]
            if todo:
                stack += todo
                continue
            f = [_lin[k] for k in a]
            if any(x is False for x in f):
                r = False
            elif o == E.ADD:
                r = dict(f[0])
                for k, v in f[1].items():
                    r[k] = r.get(k, 0) + v
            elif o == E.NEG:
                r = {k: -v for k, v in f[0].items()}
            elif o == E.MUL:
                if set(f[0]) - {None} and set(f[1]) - {None}:
                    r = False
                else:
                    x, y = (f[0], f[1]) if not set(f[0]) - {None} else (f[1], f[0])
                    c = x.get(None, Fraction(0))
                    r = {k: Fraction(round(c * v * _GRID), _GRID) for k, v in y.items()}
            else:
                r = f[0]
        else:
            r = False
        _lin[n] = r
        stack.pop()
    return None if _lin[root] is False else _lin[root]


def prove_close(pairs, tol, conds=(), bound=1, timeout_ms=60000):
    """|got - want| <= tol for every assignment of the real variables in [-bound, bound].

    Used where the code holds a floating point constant for an irrational number
    (linear real arithmetic)."""
    todo = [(k, g, w) for k, (g, w) in enumerate(pairs) if g != w]
    t0 = time.time()
    enc = Enc()
    sv = z3.Solver()
    sv.set("timeout", timeout_ms)
    terms = []
    tol = Fraction(tol)
    for k, g, w in todo:
        lg, lw = linform(g), linform(w)
        if lg is not None and lw is not None:
            d = dict(lg)
            for v, c in lw.items():
                d[v] = d.get(v, 0) - c
            t = [Q(d.pop(None, Fraction(0)))]
            for v, c in d.items():
                if c:
                    for z in (enc.enc(v)[0],):
                        t.append(Q(c) * z)
            terms.append((k, z3.Sum(t)))
        else:
            for d in enc.diff_terms(g, w):
                terms.append((k, z3.simplify(d, som=True)))
    tol -= Fraction(1, 10 ** 20)        # covers the coefficient rounding of linform
    for n, v in conds:
        b = enc.bool(n)
        sv.add(b if v else z3.Not(b))
    for x in enc.side:
        sv.add(x)
    for nm in enc.vars:
        sv.add(z3.Real(nm) <= bound, z3.Real(nm) >= -bound)
    eps = Q(Fraction(tol))
    # one query per obligation and sign: a single linear form over a box each time
    for k, d in terms:
        for viol in (d > eps, d < -eps):
            sv.push()
            sv.add(viol)
            st = str(sv.check())
            stats["queries"] += 1
            stats[st] += 1
            if st == "sat":
                m = sv.model()
                env = {}
                for nm, (vid, cj) in enc.vars.items():
                    v = m.eval(z3.Real(nm), model_completion=True)
                    env.setdefault(vid, {})[cj] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                stats["solver_s"] += time.time() - t0
                return Result("sat", k, env)
            if st != "unsat":
                stats["solver_s"] += time.time() - t0
                return Result(st, None, None, sv.reason_unknown())
            sv.pop()
    stats["solver_s"] += time.time() - t0
    return Result("unsat", None, None, "")
