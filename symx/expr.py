"""Hash-consed expression DAG over complex numbers.

A node is an integer id.  id 0 is the constant 0 and id 1 the constant 1.  Every
entry of a symbolic tensor is such an id.  Exact arithmetic only: constants are
Gaussian rationals; rounding (lossy dtype casts) and transcendental functions
appear as uninterpreted function nodes.
"""
from fractions import Fraction
import threading

C, VAR, ADD, MUL, INV, CONJ, RE, IM, UF, NEG = range(10)
OPN = ["c", "var", "+", "*", "inv", "conj", "re", "im", "uf", "neg"]

op = []      # opcode per node
arg = []     # payload per node
_cache = {}
real = []    # True when the node denotes a real number
lock = threading.RLock()


def _new(o, a, r):
    k = (o, a)
    n = _cache.get(k)
    if n is not None:
        return n
    n = len(op)
    op.append(o)
    arg.append(a)
    real.append(r)
    _cache[k] = n
    return n


_F0 = Fraction(0)
_F1 = Fraction(1)


def const(re, im=0):
    re = re if isinstance(re, Fraction) else Fraction(re)
    im = im if isinstance(im, Fraction) else Fraction(im)
    return _new(C, (re, im), im == 0)


ZERO = const(0)
ONE = const(1)
MINUS1 = const(-1)
IUNIT = const(0, 1)


def from_number(v):
    """Exact lift of a Python number (float -> its exact binary value)."""
    if isinstance(v, complex):
        return const(Fraction(v.real), Fraction(v.imag))
    if isinstance(v, bool):
        return ONE if v else ZERO
    return const(Fraction(v))


_nvar = [0]
var_info = {}   # id -> name


def var(name, is_real=True):
    n = _new(VAR, (name, is_real), is_real)
    var_info[n] = name
    return n


def fresh(prefix, is_real=True):
    _nvar[0] += 1
    return var(f"{prefix}!{_nvar[0]}", is_real)


def is_const(n):
    return op[n] == C


def cval(n):
    return arg[n]


def add(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if op[a] == C and op[b] == C:
        x, y = arg[a], arg[b]
        return const(x[0] + y[0], x[1] + y[1])
    if a > b:
        a, b = b, a
    return _new(ADD, (a, b), real[a] and real[b])


def neg(a):
    if op[a] == C:
        x = arg[a]
        return const(-x[0], -x[1])
    if op[a] == NEG:
        return arg[a][0]
    return _new(NEG, (a,), real[a])


def sub(a, b):
    if a == b:
        return 0
    return add(a, neg(b))


def mul(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if op[a] == C and op[b] == C:
        x, y = arg[a], arg[b]
        return const(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    if a == MINUS1:
        return neg(b)
    if b == MINUS1:
        return neg(a)
    if op[a] == INV or op[b] == INV:
        for x, y in ((a, b), (b, a)):      # (1/k) * k and (1/k) * (k * c); zero denominators are outside the claim
            if op[x] == INV:
                k = arg[x][0]
                s = op[y] == NEG
                y = arg[y][0] if s else y
                if y == k:
                    return MINUS1 if s else ONE
                if op[y] == MUL and k in arg[y]:
                    c = arg[y][1] if arg[y][0] == k else arg[y][0]
                    return neg(c) if s else c
    if a > b:
        a, b = b, a
    return _new(MUL, (a, b), real[a] and real[b])


def inv(a):
    if op[a] == C:
        x = arg[a]
        d = x[0] * x[0] + x[1] * x[1]
        if d == 0:
            return _new(UF, ("div0", ()), True)
        return const(x[0] / d, -x[1] / d)
    if op[a] == INV:
        return arg[a][0]
    if op[a] == NEG:
        return neg(inv(arg[a][0]))
    return _new(INV, (a,), real[a])


def div(a, b):
    return mul(a, inv(b))


def conj(a):
    if real[a]:
        return a
    if op[a] == C:
        x = arg[a]
        return const(x[0], -x[1])
    if op[a] == CONJ:
        return arg[a][0]
    return _new(CONJ, (a,), False)


def re(a):
    if real[a]:
        return a
    if op[a] == C:
        return const(arg[a][0])
    return _new(RE, (a,), True)


def im(a):
    if real[a]:
        return 0
    if op[a] == C:
        return const(arg[a][1])
    return _new(IM, (a,), True)


def mkcomplex(r, i):
    if op[r] == RE and op[i] == IM and arg[r] == arg[i]:
        return arg[r][0]
    return add(r, mul(IUNIT, i))


def powi(a, n):
    if n < 0:
        return inv(powi(a, -n))
    r = 1
    b = a
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def uf(name, args, is_real=True):
    return _new(UF, (name, tuple(args)), is_real)


def children(n):
    o = op[n]
    if o in (C, VAR):
        return ()
    if o == UF:
        return arg[n][1]
    return arg[n]


def topo(roots):
    """Topologically sorted list of all nodes reachable from roots."""
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        st = [(r, iter(children(r)))]
        seen.add(r)
        while st:
            n, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c)
                    st.append((c, iter(children(c))))
                    break
            else:
                out.append(n)
                st.pop()
    return out


def free_vars(roots):
    return [n for n in topo(roots) if op[n] == VAR]


class EvalError(Exception):
    pass


def _sqrt(x):
    """square root of a non-negative rational (60 significant digits when irrational)"""
    import math
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fraction(n, d)
    k = 10 ** 60
    return Fraction(math.isqrt(x.numerator * k * k * x.denominator), k * x.denominator)


def evaluate(roots, env, ufs=None):
    """Evaluate nodes under env: var id -> (Fraction re, Fraction im)."""
    val = {}
    for n in topo(roots):
        o = op[n]
        if o == C:
            v = arg[n]
        elif o == VAR:
            v = env[n]
        elif o == ADD:
            x, y = val[arg[n][0]], val[arg[n][1]]
            v = (x[0] + y[0], x[1] + y[1])
        elif o == MUL:
            x, y = val[arg[n][0]], val[arg[n][1]]
            if x[1] == 0 and y[1] == 0:
                v = (x[0] * y[0], _F0)
            else:
                v = (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
        elif o == NEG:
            x = val[arg[n][0]]
            v = (-x[0], -x[1])
        elif o == INV:
            x = val[arg[n][0]]
            d = x[0] * x[0] + x[1] * x[1]
            if d == 0:
                raise EvalError("division by zero")
            v = (x[0] / d, -x[1] / d)
        elif o == CONJ:
            x = val[arg[n][0]]
            v = (x[0], -x[1])
        elif o == RE:
            v = (val[arg[n][0]][0], _F0)
        elif o == IM:
            v = (val[arg[n][0]][1], _F0)
        elif o == UF:
            name, args = arg[n]
            if ufs is None or name not in ufs:
                raise EvalError("uninterpreted " + name)
            v = ufs[name](*[val[c] for c in args])
        elif o in (LT, LE, EQ):
            x, y = val[arg[n][0]], val[arg[n][1]]
            t = (x[0] < y[0]) if o == LT else (x[0] <= y[0]) if o == LE else x == y
            v = (_F1 if t else _F0, _F0)
        elif o == NOT:
            v = (_F1 if val[arg[n][0]][0] == 0 else _F0, _F0)
        elif o in (AND, OR):
            x, y = val[arg[n][0]][0] != 0, val[arg[n][1]][0] != 0
            v = (_F1 if ((x and y) if o == AND else (x or y)) else _F0, _F0)
        elif o == ITE:
            v = val[arg[n][1]] if val[arg[n][0]][0] != 0 else val[arg[n][2]]
        elif o == SQRT:
            x = val[arg[n][0]][0]
            if x < 0:
                raise EvalError("square root of a negative number")
            v = (_sqrt(x), _F0)
        else:
            raise EvalError(OPN[o])
        val[n] = v
    return [val[r] for r in roots]


def show(n, depth=6):
    o = op[n]
    if o == C:
        r, i = arg[n]
        return str(r) if i == 0 else f"({r}+{i}i)"
    if o == VAR:
        return arg[n][0]
    if depth == 0:
        return "…"
    if o == ADD:
        return f"({show(arg[n][0], depth-1)} + {show(arg[n][1], depth-1)})"
    if o == MUL:
        return f"{show(arg[n][0], depth-1)}*{show(arg[n][1], depth-1)}"
    if o == NEG:
        return f"-{show(arg[n][0], depth-1)}"
    if o == UF:
        return f"{arg[n][0]}({', '.join(show(c, depth-1) for c in arg[n][1])})"
    return f"{OPN[o]}({show(arg[n][0], depth-1)})"


def gradients(y, seeds, wrt):
    """Reverse-mode derivative of sum_k <seed_k, y_k> in torch's convention.

    y, seeds: lists of node ids.  Returns for every w in wrt the conjugate
    Wirtinger gradient  sum_k conj(dy_k/dw) g_k + (dy_k/d conj(w)) conj(g_k).
    """
    adj = {}
    for a, g in zip(y, seeds):
        adj[a] = add(adj.get(a, 0), g)
    wset = set(wrt)
    for n in reversed(topo(list(y))):
        g = adj.get(n, 0)
        if g == 0:
            continue
        if real[n]:
            g = re(g)
            adj[n] = g
            if g == 0:
                continue
        o = op[n]
        if o == ADD:
            for c in arg[n]:
                adj[c] = add(adj.get(c, 0), g)
        elif o == NEG:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), neg(g))
        elif o == MUL:
            a, b = arg[n]
            adj[a] = add(adj.get(a, 0), mul(g, conj(b)))
            adj[b] = add(adj.get(b, 0), mul(g, conj(a)))
        elif o == INV:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), neg(mul(g, conj(mul(n, n)))))
        elif o == CONJ:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), conj(g))
        elif o == RE:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), g)
        elif o == IM:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), mul(IUNIT, g))
        elif o == ITE:
            q, a, b = arg[n]
            adj[a] = add(adj.get(a, 0), ite(q, g, 0))
            adj[b] = add(adj.get(b, 0), ite(q, 0, g))
        elif o == SQRT:
            c = arg[n][0]
            adj[c] = add(adj.get(c, 0), div(g, mul(const(2), n)))
        elif o == UF:
            raise EvalError("derivative of uninterpreted " + arg[n][0])
    return [re(adj.get(w, 0)) if real[w] else adj.get(w, 0) for w in wrt]


def tangents(y, dot):
    """Forward-mode derivative of nodes y; dot maps var id -> tangent id."""
    d = {}
    for n in topo(list(y)):
        o = op[n]
        if o == C:
            t = 0
        elif o == VAR:
            t = dot.get(n, 0)
        elif o == ADD:
            t = add(d[arg[n][0]], d[arg[n][1]])
        elif o == NEG:
            t = neg(d[arg[n][0]])
        elif o == MUL:
            a, b = arg[n]
            t = add(mul(d[a], b), mul(a, d[b]))
        elif o == INV:
            t = neg(mul(d[arg[n][0]], mul(n, n)))
        elif o == CONJ:
            t = conj(d[arg[n][0]])
        elif o == RE:
            t = re(d[arg[n][0]])
        elif o == IM:
            t = im(d[arg[n][0]])
        elif o == ITE:
            t = ite(arg[n][0], d[arg[n][1]], d[arg[n][2]])
        elif o == SQRT:
            t = div(d[arg[n][0]], mul(const(2), n))
        elif o in (LT, LE, EQ, NOT, AND, OR):
            t = 0
        else:
            raise EvalError("derivative of uninterpreted " + arg[n][0])
        d[n] = t
    return [d[r] for r in y]


def reset():
    del op[10:]
    raise NotImplementedError


# ---------------------------------------------------------------- booleans / order
# Boolean nodes are real-valued 0/1 nodes; ITE selects.
LT, LE, EQ, NOT, AND, OR, ITE, SQRT = range(10, 18)
OPN += ["<", "<=", "=", "not", "and", "or", "ite", "sqrt"]


def _b(v):
    return ONE if v else ZERO


def _closed(n, fuel=40):
    """no variables and no uninterpreted parts below n (small nodes only)"""
    st = [n]
    while st:
        k = st.pop()
        fuel -= 1
        if fuel < 0 or op[k] in (VAR, UF):
            return False
        st.extend(children(k))
    return True


def _fold(n):
    """comparisons between constants that are not rational (square roots)"""
    if SQRT in (op[arg[n][0]], op[arg[n][1]]) and _closed(n):
        try:
            return _b(evaluate([n], {})[0][0] != 0)
        except EvalError:
            pass
    return n


def lt(a, b):
    if op[a] == C and op[b] == C:
        return _b(arg[a][0] < arg[b][0])
    if a == b:
        return ZERO
    return _fold(_new(LT, (a, b), True))


def le(a, b):
    if op[a] == C and op[b] == C:
        return _b(arg[a][0] <= arg[b][0])
    if a == b:
        return ONE
    return _fold(_new(LE, (a, b), True))


def eq(a, b):
    if a == b:
        return ONE
    if op[a] == C and op[b] == C:
        return _b(arg[a] == arg[b])
    if a > b:
        a, b = b, a
    return _fold(_new(EQ, (a, b), True))


def bnot(a):
    if op[a] == C:
        return _b(arg[a][0] == 0)
    if op[a] == NOT:
        return arg[a][0]
    return _new(NOT, (a,), True)


def band(a, b):
    if op[a] == C:
        return b if arg[a][0] != 0 else ZERO
    if op[b] == C:
        return a if arg[b][0] != 0 else ZERO
    if a == b:
        return a
    if a > b:
        a, b = b, a
    return _new(AND, (a, b), True)


def bor(a, b):
    if op[a] == C:
        return ONE if arg[a][0] != 0 else b
    if op[b] == C:
        return ONE if arg[b][0] != 0 else a
    if a == b:
        return a
    if a > b:
        a, b = b, a
    return _new(OR, (a, b), True)


def ite(c, a, b):
    if op[c] == C:
        return a if arg[c][0] != 0 else b
    if a == b:
        return a
    return _new(ITE, (c, a, b), real[a] and real[b])


def absv(a):
    if op[a] == C and arg[a][1] == 0:
        return const(abs(arg[a][0]))
    if real[a]:
        return ite(lt(a, 0), neg(a), a)
    return sqrt_pos(mul(a, conj(a)))


def sqrt_pos(a):
    """the non-negative square root of a non-negative real"""
    if op[a] == C and arg[a][1] == 0:
        r = arg[a][0]
        import math
        n, d = math.isqrt(abs(r.numerator)), math.isqrt(r.denominator)
        if r >= 0 and n * n == r.numerator and d * d == r.denominator:
            return const(Fraction(n, d))
    return _new(SQRT, (a,), True)
