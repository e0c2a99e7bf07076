"""Ex: operator-overloading wrapper around expression ids, used by specifications."""
from fractions import Fraction
from . import expr as E


class Ex:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    @staticmethod
    def of(v):
        return v if isinstance(v, Ex) else Ex(E.from_number(v))

    def __add__(self, o):
        return Ex(E.add(self.id, Ex.of(o).id))
    __radd__ = __add__

    def __sub__(self, o):
        return Ex(E.sub(self.id, Ex.of(o).id))

    def __rsub__(self, o):
        return Ex(E.sub(Ex.of(o).id, self.id))

    def __mul__(self, o):
        return Ex(E.mul(self.id, Ex.of(o).id))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Ex(E.div(self.id, Ex.of(o).id))

    def __rtruediv__(self, o):
        return Ex(E.div(Ex.of(o).id, self.id))

    def __neg__(self):
        return Ex(E.neg(self.id))

    def __pow__(self, n):
        return Ex(E.powi(self.id, n))

    def conj(self):
        return Ex(E.conj(self.id))

    @property
    def re(self):
        return Ex(E.re(self.id))

    @property
    def im(self):
        return Ex(E.im(self.id))

    def __repr__(self):
        return E.show(self.id)


ZERO = Ex(0)
ONE = Ex(1)


def nested(ids):
    """nested lists of Ex from an id tensor"""
    def go(v):
        return [go(k) for k in v] if isinstance(v, list) else Ex(v)
    return go(ids.tolist())


def shape_of(v):
    s = []
    while isinstance(v, list):
        s.append(len(v))
        if not v:
            break
        v = v[0]
    return tuple(s)


def flat(v):
    if isinstance(v, list):
        out = []
        for k in v:
            out += flat(k)
        return out
    return [Ex.of(v)]


# small linear algebra over nested lists of Ex ---------------------------------
def dot(a, b):
    acc = ZERO
    for x, y in zip(a, b):
        acc = acc + x * y
    return acc


def matvec(A, v):
    return [dot(r, v) for r in A]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def matmul(A, B):
    bt = list(zip(*B))
    return [[dot(r, c) for c in bt] for r in A]


def transpose(A):
    return [list(r) for r in zip(*A)]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
