"""SymTensor: a torch.Tensor subclass whose elements are expression ids.

The real Python code of the library, the real torch autograd engine and the real
C++ sources (see cxx.py) run on SymTensors.  Data movement ops run as the real
ATen op on the int64 id tensor (so views, aliasing and in-place writes behave
exactly as in torch); arithmetic ops are interpreted over expr.py.
"""
import itertools
import math
from fractions import Fraction

import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import expr as E

aten = torch.ops.aten


class Unsupported(Exception):
    pass


class DataDependent(Exception):
    pass


FLOATY = (torch.float64, torch.float32, torch.float16, torch.bfloat16)
CPLX = (torch.complex128, torch.complex64)

stats = {"ops": 0, "names": set(), "cxx_calls": 0, "elements": 0}


def is_num_dtype(dt):
    return dt in FLOATY or dt in CPLX


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype):
        assert ids.dtype == torch.int64
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            ids.size(),
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            device="cpu",
            requires_grad=False,
        )
        r._ids = ids
        return r

    def __repr__(self, *a, **k):
        return f"SymTensor({tuple(self._ids.shape)}, {self.dtype})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __tensor_flatten__(self):
        return ["_ids"], self.dtype

    @staticmethod
    def __tensor_unflatten__(inner, meta, size, stride):
        return SymTensor(inner["_ids"], meta)


def sym(name, shape, dtype=torch.float64, real=None):
    """Fresh tensor of named symbolic inputs."""
    if isinstance(shape, int):
        shape = (shape,)
    real = dtype not in CPLX if real is None else real
    n = math.prod(shape)
    ids = []
    for idx in itertools.product(*[range(s) for s in shape]):
        ids.append(E.var(name + "[" + ",".join(map(str, idx)) + "]", real))
    return SymTensor(torch.tensor(ids, dtype=torch.int64).reshape(shape), dtype)


def lit(values, dtype=torch.float64):
    """SymTensor of exact constants from nested lists of Fractions/ints/ids."""
    t = torch.tensor(values)
    raise NotImplementedError


def from_ids(nested, shape, dtype=torch.float64):
    return SymTensor(torch.tensor(list(nested), dtype=torch.int64).reshape(shape), dtype)


def lift_ids(t):
    """id tensor of a concrete tensor's exact values (same shape, contiguous)."""
    t = t.detach()
    if t.is_conj() or t.is_neg():
        t = t.resolve_conj().resolve_neg()
    if t._is_zerotensor():
        z = E.const(0)
        return torch.full(t.shape, z, dtype=torch.int64)
    flat = t.reshape(-1)
    if t.dtype in (torch.float16, torch.bfloat16):
        flat = flat.to(torch.float64)
    vals = flat.tolist()
    cache = {}
    out = []
    for v in vals:
        i = cache.get(v)
        if i is None:
            if isinstance(v, float) and not math.isfinite(v):
                i = E.uf("nonfinite:" + repr(v), ())
            elif isinstance(v, complex) and not (math.isfinite(v.real) and math.isfinite(v.imag)):
                i = E.uf("nonfinite:" + repr(v), ())
            else:
                i = E.from_number(v)
            cache[v] = i
        out.append(i)
    ids = torch.tensor(out, dtype=torch.int64).reshape(t.shape)
    r = torch.empty_strided(t.shape, t.stride(), dtype=torch.int64) if _dense(t) else None
    if r is not None:
        r.copy_(ids)
        return r
    return ids


def _dense(t):
    return t.numel() > 0 and all(s > 0 for s in t.stride())


def ids_of(t):
    if isinstance(t, SymTensor):
        return t._ids
    if isinstance(t, torch.Tensor):
        return lift_ids(t)
    return torch.tensor(E.from_number(t), dtype=torch.int64)


def tolist(t):
    """flat python list of ids"""
    return ids_of(t).reshape(-1).tolist()


def to_meta(a):
    if isinstance(a, SymTensor):
        i = a._ids
        return torch.empty_strided(i.size(), i.stride(), dtype=a.dtype, device="meta")
    if isinstance(a, torch.Tensor):
        if a.dim() == 0 and not isinstance(a, SymTensor):
            # keep wrapped-number semantics
            return a.to("meta")
        return torch.empty_strided(a.size(), a.stride(), dtype=a.dtype, device="meta")
    return a


_DISABLE = torch._C._DisableTorchDispatch if hasattr(torch._C, "_DisableTorchDispatch") else None


def run_meta(func, args, kwargs):
    kw = dict(kwargs)
    if "device" in kw and kw["device"] is not None:
        kw["device"] = torch.device("meta")
    return func(*tree_map(to_meta, args), **tree_map(to_meta, kw))


def mk(flat_ids, meta):
    ids = torch.empty_strided(meta.size(), meta.stride(), dtype=torch.int64)
    if meta.numel():
        src = torch.tensor(flat_ids, dtype=torch.int64).reshape(meta.size())
        dst = ids
        for d, (n, st) in enumerate(zip(meta.size(), meta.stride())):
            if st == 0 and n > 1:        # expanded dimension: one storage element
                src, dst = src.narrow(d, 0, 1), dst.narrow(d, 0, 1)
        dst.copy_(src)
    return SymTensor(ids, meta.dtype)


# --------------------------------------------------------------------------- casts
_PREC = {
    torch.float64: 53, torch.complex128: 53,
    torch.float32: 24, torch.complex64: 24,
    torch.float16: 11, torch.bfloat16: 8,
}
_RDT = {torch.complex128: torch.float64, torch.complex64: torch.float32}


def cast_id(i, src, dst):
    if src == dst:
        return i
    if dst in (torch.bool,):
        return E.uf("tobool", (i,)) if not E.is_const(i) else E.from_number(E.cval(i) != (0, 0))
    if not is_num_dtype(dst):
        if not is_num_dtype(src):
            return i
        if E.is_const(i):
            return E.from_number(int(E.cval(i)[0]))
        return E.uf("toint", (i,))
    if src in CPLX and dst not in CPLX:
        i = E.re(i)
    if is_num_dtype(src) and _PREC[dst] < _PREC[src]:
        if E.is_const(i):
            r, m = E.cval(i)
            rd = _RDT.get(dst, dst)
            q = lambda f: Fraction(torch.tensor(float(f), dtype=torch.float64).to(rd).item())
            return E.const(q(r), q(m))
        return E.uf("round_to_" + str(_RDT.get(dst, dst)).split(".")[-1], (i,), E.real[i])
    return i


def cast_ids(ids, src, dst):
    if src == dst:
        return ids
    flat = ids.reshape(-1).tolist()
    memo = {}
    out = []
    for f in flat:
        if f not in memo:
            memo[f] = cast_id(f, src, dst)
        out.append(memo[f])
    r = torch.empty_strided(ids.size(), ids.stride(), dtype=torch.int64) if _dense(ids) else torch.empty(ids.size(), dtype=torch.int64)
    r.copy_(torch.tensor(out, dtype=torch.int64).reshape(ids.size()))
    return r


# --------------------------------------------------------------------------- decisions
class Path:
    """Path-forking state for data dependent branches."""

    def __init__(self, oracle=None):
        self.oracle = oracle
        self.cond = []      # list of (bool node id, truth)

    def decide(self, b):
        if E.is_const(b):
            return E.cval(b)[0] != 0
        for (c, v) in self.cond:
            if c == b:
                return v
        if self.oracle is None:
            raise DataDependent("branch on symbolic value: " + E.show(b, 3))
        v = self.oracle(self, b)
        self.cond.append((b, v))
        return v


PATH = [Path()]


# --------------------------------------------------------------------------- op tables
MOVE = {
    "view", "_unsafe_view", "reshape", "_reshape_alias", "slice", "select", "cat", "stack",
    "flip", "roll", "unfold", "gather", "index", "index_select", "expand", "as_strided",
    "permute", "transpose", "t", "squeeze", "unsqueeze", "split", "split_with_sizes",
    "unbind", "clone", "contiguous", "alias", "detach", "repeat", "tril", "triu",
    "diag", "diagonal", "diag_embed", "slice_scatter", "select_scatter", "diagonal_scatter",
    "as_strided_scatter", "reflection_pad1d", "replication_pad1d", "slice_copy", "view_copy",
    "chunk", "movedim", "narrow", "take", "unflatten", "expand_copy", "permute_copy",
    "lift_fresh", "lift_fresh_copy", "lift", "_lazy_clone", "rot90", "unfold_copy",
    "repeat_interleave", "select_copy", "squeeze_copy", "unsqueeze_copy", "transpose_copy",
    "t_copy", "detach_copy", "alias_copy", "diagonal_copy", "as_strided_copy", "_conj_copy_placeholder",
    "block_diag", "pixel_shuffle", "take_along_dim", "reflection_pad2d", "replication_pad2d",
    "atleast_1d", "_reshape_copy", "positive", "masked_select", "view_as",
}
# in-place data movement: (first arg mutated)
MOVE_INPLACE = {"copy_", "index_copy_", "squeeze_", "unsqueeze_", "transpose_", "t_", "set_",
                "as_strided_", "resize_", "detach_", "zero_"}
VIEWISH = {"squeeze_", "unsqueeze_", "transpose_", "t_", "as_strided_", "detach_"}


def _unwrap_move(a):
    if isinstance(a, SymTensor):
        return a._ids
    if isinstance(a, torch.Tensor) and (a.dtype.is_floating_point or a.dtype.is_complex):
        return lift_ids(a)
    return a


def _data_dtype(args, kwargs):
    dts = [a.dtype for a in tree_flatten((args, kwargs))[0] if isinstance(a, torch.Tensor) and is_num_dtype(a.dtype)]
    return dts


def _contains_sym(x):
    return any(isinstance(a, SymTensor) for a in tree_flatten(x)[0])


ARITH = {}


def arith(*names):
    def deco(f):
        for n in names:
            ARITH[n] = f
        return f
    return deco


def _bcast(meta_shape, *ts):
    return [ids_of(t).expand(meta_shape).reshape(-1).tolist() if isinstance(t, torch.Tensor)
            else None for t in ts]


def ew(func, args, kwargs, f, n=1):
    """Generic elementwise op on the first n args."""
    meta = run_meta(func, args, kwargs)
    cols = []
    numel = math.prod(meta.shape)
    for a in args[:n]:
        if isinstance(a, torch.Tensor):
            cols.append(ids_of(a).expand(meta.shape).reshape(-1).tolist())
        else:
            cols.append([E.from_number(a)] * numel)
    return mk([f(*c) for c in zip(*cols)], meta)


def _scale(alpha):
    c = E.from_number(alpha)
    return lambda x: E.mul(c, x)


@arith("add")
def _add(func, args, kwargs):
    al = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    s = _scale(al)
    return ew(func, args, kwargs, lambda x, y: E.add(x, s(y)), 2)


@arith("sub")
def _sub(func, args, kwargs):
    al = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    s = _scale(al)
    return ew(func, args, kwargs, lambda x, y: E.sub(x, s(y)), 2)


@arith("rsub")
def _rsub(func, args, kwargs):
    al = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    s = _scale(al)
    return ew(func, args, kwargs, lambda x, y: E.sub(y, s(x)), 2)


@arith("mul")
def _mul(func, args, kwargs):
    return ew(func, args, kwargs, E.mul, 2)


@arith("div", "true_divide")
def _div(func, args, kwargs):
    if kwargs.get("rounding_mode") is not None:
        raise Unsupported("div rounding_mode")
    return ew(func, args, kwargs, E.div, 2)


@arith("neg", "_neg_view")
def _neg(func, args, kwargs):
    return ew(func, args, kwargs, E.neg, 1)


@arith("reciprocal")
def _recip(func, args, kwargs):
    return ew(func, args, kwargs, E.inv, 1)


@arith("square")
def _square(func, args, kwargs):
    return ew(func, args, kwargs, lambda x: E.mul(x, x), 1)


@arith("_conj", "conj_physical", "_conj_physical", "conj", "resolve_conj", "_conj_copy")
def _conj(func, args, kwargs):
    nm = func.overloadpacket.__name__
    a = args[0]
    if nm == "resolve_conj":
        return a
    ids = a._ids
    if not a.dtype.is_complex:
        return SymTensor(ids.clone() if nm != "_conj" else ids, a.dtype)
    out = torch.empty_strided(ids.size(), ids.stride(), dtype=torch.int64) if _dense(ids) else torch.empty(ids.size(), dtype=torch.int64)
    if nm in ("conj_physical", "_conj_physical"):
        m = run_meta(func, args, kwargs)
        return mk([E.conj(i) for i in tolist(a)], m)
    if ids.numel():
        out.copy_(torch.tensor([E.conj(i) for i in tolist(a)], dtype=torch.int64).reshape(ids.size()))
    return SymTensor(out, a.dtype)


@arith("view_as_real", "view_as_real_copy")
def _var(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    flat = []
    for i in tolist(args[0]):
        flat += [E.re(i), E.im(i)]
    return mk(flat, m)


@arith("view_as_complex", "view_as_complex_copy")
def _vac(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    f = tolist(args[0])
    return mk([E.mkcomplex(f[k], f[k + 1]) for k in range(0, len(f), 2)], m)


@arith("complex")
def _complex(func, args, kwargs):
    return ew(func, args, kwargs, E.mkcomplex, 2)


@arith("real", "imag")
def _real(func, args, kwargs):
    f = E.re if func.overloadpacket.__name__ == "real" else E.im
    return ew(func, args, kwargs, f, 1)


def _dims(d, nd):
    if d is None or (isinstance(d, (list, tuple)) and len(d) == 0):
        return list(range(nd))
    if isinstance(d, int):
        d = [d]
    return [x % nd if nd else 0 for x in d]


def _reduce(func, args, kwargs, dims, comb, init, post=None):
    a = args[0]
    meta = run_meta(func, args, kwargs)
    ids = ids_of(a)
    if isinstance(a, torch.Tensor) and a.dtype != meta.dtype and not (a.dtype.is_complex and not meta.dtype.is_complex):
        ids = cast_ids(ids, a.dtype, meta.dtype)   # (a norm of complex values is real: no cast)
    nd = ids.dim()
    if nd == 0:
        v = comb(init, ids.item())
        return mk([post(v, 1) if post else v], meta)
    keep = [k for k in range(nd) if k not in dims]
    p = ids.permute(keep + dims)
    cnt = math.prod([ids.shape[k] for k in dims])
    rows = math.prod([ids.shape[k] for k in keep])
    p = p.reshape(rows, cnt).tolist() if cnt and rows else [[] for _ in range(rows)]
    out = []
    for row in p:
        acc = init
        for v in row:
            acc = comb(acc, v)
        out.append(post(acc, cnt) if post else acc)
    return mk(out, meta)


@arith("sum")
def _sum(func, args, kwargs):
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, args[0].dim()), E.add, 0)


@arith("mean")
def _mean(func, args, kwargs):
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, args[0].dim()), E.add, 0,
                   lambda v, n: E.mul(v, E.const(Fraction(1, n))))


@arith("prod")
def _prod(func, args, kwargs):
    d = args[1] if len(args) > 1 and isinstance(args[1], int) else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, args[0].dim()), E.mul, 1)


def _cum(func, args, kwargs, comb):
    a, d = args[0], args[1]
    meta = run_meta(func, args, kwargs)
    ids = ids_of(a).clone(memory_format=torch.contiguous_format)
    if ids.dim() == 0:
        return mk([ids.item()], meta)
    m = ids.movedim(d, -1)
    shp = m.shape
    rows = m.reshape(-1, shp[-1]).tolist() if m.numel() else []
    out = []
    for r in rows:
        acc = None
        o = []
        for v in r:
            acc = v if acc is None else comb(acc, v)
            o.append(acc)
        out.append(o)
    res = torch.tensor(out, dtype=torch.int64).reshape(shp).movedim(-1, d)
    return mk(res.reshape(-1).tolist(), meta)


@arith("cumsum")
def _cumsum(func, args, kwargs):
    return _cum(func, args, kwargs, E.add)


@arith("cumprod")
def _cumprod(func, args, kwargs):
    return _cum(func, args, kwargs, E.mul)


def _dotrow(r, c):
    acc = 0
    for x, y in zip(r, c):
        if x and y:
            acc = E.add(acc, E.mul(x, y))
    return acc


def _mm2(a, b):
    """lists of lists"""
    bt = list(zip(*b)) if b else []
    return [[_dotrow(r, c) for c in bt] for r in a]


def _matmul_ids(A, Bm):
    """2-D id tensors"""
    n, k = A.shape
    k2, m = Bm.shape
    if n == 0 or m == 0:
        return []
    if k == 0:
        return [0] * (n * m)
    al = A.tolist()
    bl = Bm.t().tolist()
    return [_dotrow(r, c) for r in al for c in bl]


@arith("mm")
def _mm(func, args, kwargs):
    meta = run_meta(func, args, kwargs)
    return mk(_matmul_ids(ids_of(args[0]), ids_of(args[1])), meta)


@arith("bmm")
def _bmm(func, args, kwargs):
    meta = run_meta(func, args, kwargs)
    A, Bm = ids_of(args[0]), ids_of(args[1])
    out = []
    for i in range(A.shape[0]):
        out += _matmul_ids(A[i], Bm[i])
    return mk(out, meta)


@arith("mv")
def _mv(func, args, kwargs):
    meta = run_meta(func, args, kwargs)
    return mk(_matmul_ids(ids_of(args[0]), ids_of(args[1]).unsqueeze(1)), meta)


@arith("dot")
def _dot(func, args, kwargs):
    meta = run_meta(func, args, kwargs)
    return mk([_dotrow(tolist(args[0]), tolist(args[1]))], meta)


@arith("vdot")
def _vdot(func, args, kwargs):
    meta = run_meta(func, args, kwargs)
    return mk([_dotrow([E.conj(i) for i in tolist(args[0])], tolist(args[1]))], meta)


def _addmmlike(func, args, kwargs, prod):
    beta = kwargs.get("beta", 1)
    alpha = kwargs.get("alpha", 1)
    if len(args) > 3:
        beta = args[3]
    if len(args) > 4:
        alpha = args[4]
    meta = run_meta(func, args, kwargs)
    base = ids_of(args[0]).expand(meta.shape).reshape(-1).tolist()
    sb, sa = _scale(beta), _scale(alpha)
    return mk([E.add(sb(x), sa(y)) for x, y in zip(base, prod)], meta)


@arith("addmm")
def _addmm(func, args, kwargs):
    return _addmmlike(func, args, kwargs, _matmul_ids(ids_of(args[1]), ids_of(args[2])))


@arith("addmv")
def _addmv(func, args, kwargs):
    return _addmmlike(func, args, kwargs, _matmul_ids(ids_of(args[1]), ids_of(args[2]).unsqueeze(1)))


@arith("baddbmm")
def _baddbmm(func, args, kwargs):
    A, Bm = ids_of(args[1]), ids_of(args[2])
    out = []
    for i in range(A.shape[0]):
        out += _matmul_ids(A[i], Bm[i])
    return _addmmlike(func, args, kwargs, out)


@arith("addbmm")
def _addbmm(func, args, kwargs):
    A, Bm = ids_of(args[1]), ids_of(args[2])
    acc = None
    for i in range(A.shape[0]):
        o = _matmul_ids(A[i], Bm[i])
        acc = o if acc is None else [E.add(p, q) for p, q in zip(acc, o)]
    return _addmmlike(func, args, kwargs, acc)


@arith("addr")
def _addr(func, args, kwargs):
    u, v = tolist(args[1]), tolist(args[2])
    return _addmmlike(func, args, kwargs, [E.mul(x, y) for x in u for y in v])


@arith("addcmul")
def _addcmul(func, args, kwargs):
    s = _scale(kwargs.get("value", 1))
    return ew(func, args, kwargs, lambda a, b, c: E.add(a, s(E.mul(b, c))), 3)


@arith("addcdiv")
def _addcdiv(func, args, kwargs):
    s = _scale(kwargs.get("value", 1))
    return ew(func, args, kwargs, lambda a, b, c: E.add(a, s(E.div(b, c))), 3)


@arith("lerp")
def _lerp(func, args, kwargs):
    return ew(func, args, kwargs, lambda a, b, w: E.add(a, E.mul(w, E.sub(b, a))), 3)


@arith("pow")
def _pow(func, args, kwargs):
    a, b = args[0], args[1]
    meta = run_meta(func, args, kwargs)

    both = isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and meta.dtype.is_complex

    def f(x, y):
        if E.is_const(y):
            r, i = E.cval(y)
            if both and x == 0 and r == 0 and i == 0:
                return E.fresh("nan", False)      # complex 0 ** 0 is nan in torch
            if i == 0 and r.denominator == 1 and abs(r) <= 4096:
                return E.powi(x, int(r))
            if E.is_const(x) and i == 0 and E.cval(x)[1] == 0:
                return E.from_number(float(E.cval(x)[0]) ** float(r))
        return E.uf("pow", (x, y), False)
    cols = []
    numel = math.prod(meta.shape)
    for t in (a, b):
        if isinstance(t, torch.Tensor):
            cols.append(ids_of(t).expand(meta.shape).reshape(-1).tolist())
        else:
            cols.append([E.from_number(t)] * numel)
    return mk([f(x, y) for x, y in zip(*cols)], meta)


def _explog(x):
    """exp of a sum of logarithms with integer factors is the product of the powers (exact for
    complex numbers, zero included: exp(-inf) = 0)"""
    if E.op[x] == E.UF and E.arg[x][0] == "log":
        return E.arg[x][1][0]
    if x == 0:
        return 1
    if E.op[x] == E.ADD:
        a, b = (_explog(c) for c in E.arg[x])
        return None if a is None or b is None else E.mul(a, b)
    if E.op[x] == E.NEG:
        a = _explog(E.arg[x][0])
        return None if a is None else E.inv(a)
    if E.op[x] == E.MUL:
        for k, c in (E.arg[x], E.arg[x][::-1]):
            if E.is_const(k) and E.cval(k)[1] == 0 and E.cval(k)[0].denominator == 1:
                a = _explog(c)
                return None if a is None else E.powi(a, int(E.cval(k)[0]))
    return None


def _ufop(name, real_out=True):
    fn = getattr(math, name, None)

    def h(func, args, kwargs):
        cplx = args[0].dtype.is_complex

        def f(x):
            if E.is_const(x) and E.cval(x)[1] == 0 and name == "sqrt":
                v = E.cval(x)[0]
                r = E._sqrt(abs(v))
                if v >= 0 or cplx:
                    return E.const(r) if v >= 0 else E.const(0, r)
            if name == "log" and x != 1:
                # kept symbolic so that exp(sum of logs) is the exact product
                if not cplx:
                    x = E.ite(E.lt(0, x), x, E.fresh("nan"))
                return E.uf("log", (x,), not cplx)
            if name == "exp":
                pr = _explog(x)
                if pr is not None:
                    return pr
            if E.is_const(x) and E.cval(x)[1] == 0 and fn is not None:
                try:
                    return E.from_number(fn(float(E.cval(x)[0])))
                except (ValueError, OverflowError):
                    pass
            return E.uf(name, (x,), E.real[x])
        return ew(func, args, kwargs, f, 1)
    return h


for _n in ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "atan", "sinh", "cosh",
           "log1p", "expm1", "rsqrt", "sigmoid", "log2", "log10"):
    ARITH[_n] = _ufop(_n)


@arith("where")
def _where(func, args, kwargs):
    if len(args) == 1:
        return torch.where(concrete_index(args[0] if args[0].dtype == torch.bool else dispatch(aten.ne.Scalar, (args[0], 0), {})))
    meta = run_meta(func, args, kwargs)
    cond, a, b = args
    ca = ids_of(a).expand(meta.shape).reshape(-1).tolist() if isinstance(a, torch.Tensor) else [E.from_number(a)] * meta.numel()
    cb = ids_of(b).expand(meta.shape).reshape(-1).tolist() if isinstance(b, torch.Tensor) else [E.from_number(b)] * meta.numel()
    if isinstance(cond, SymTensor):
        cc = cond._ids.expand(meta.shape).reshape(-1).tolist()
    else:
        cc = [1 if v else 0 for v in cond.expand(meta.shape).reshape(-1).tolist()]
    return mk([E.ite(c, x, y) for c, x, y in zip(cc, ca, cb)], meta)


@arith("abs")
def _abs(func, args, kwargs):
    return ew(func, args, kwargs, E.absv, 1)


@arith("sgn", "sign")
def _sgn(func, args, kwargs):
    def f(x):
        if not E.real[x]:
            raise Unsupported("complex sgn")
        return E.ite(E.lt(0, x), 1, E.ite(E.lt(x, 0), E.MINUS1, 0))
    return ew(func, args, kwargs, f, 1)


def _cmpop(f):
    def h(func, args, kwargs):
        return ew(func, args, kwargs, f, 2)
    return h


ARITH["lt"] = _cmpop(lambda x, y: E.lt(x, y))
ARITH["gt"] = _cmpop(lambda x, y: E.lt(y, x))
ARITH["le"] = _cmpop(lambda x, y: E.le(x, y))
ARITH["ge"] = _cmpop(lambda x, y: E.le(y, x))
ARITH["eq"] = _cmpop(lambda x, y: E.eq(x, y))
ARITH["ne"] = _cmpop(lambda x, y: E.bnot(E.eq(x, y)))
ARITH["logical_and"] = _cmpop(lambda x, y: E.band(x, y))
ARITH["bitwise_and"] = ARITH["logical_and"]
ARITH["__and__"] = ARITH["logical_and"]
ARITH["logical_or"] = _cmpop(lambda x, y: E.bor(x, y))
ARITH["bitwise_or"] = ARITH["logical_or"]
ARITH["maximum"] = _cmpop(lambda x, y: E.ite(E.lt(x, y), y, x))
ARITH["minimum"] = _cmpop(lambda x, y: E.ite(E.lt(x, y), x, y))


@arith("logical_not", "bitwise_not")
def _lnot(func, args, kwargs):
    return ew(func, args, kwargs, E.bnot, 1)


def _close(x, y, rtol, atol):
    if not rtol and not atol:
        return E.eq(x, y)
    lim = E.add(E.from_number(float(atol)), E.mul(E.from_number(float(rtol)), E.absv(y)))
    return E.le(E.absv(E.sub(x, y)), lim)


@arith("isclose")
def _isclose(func, args, kwargs):
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    return ew(func, args, kwargs, lambda x, y: _close(x, y, rtol, atol), 2)


@arith("allclose")
def _allclose(func, args, kwargs):
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    shp = torch.broadcast_shapes(args[0].shape, args[1].shape)
    a, b = (ids_of(t).expand(shp).reshape(-1).tolist() for t in args[:2])
    c = 1
    for x, y in zip(a, b):
        c = E.band(c, _close(x, y, rtol, atol))
    return c == 1 or (c != 0 and bool(PATH[-1].decide(c)))


@arith("isfinite")
def _isfinite(func, args, kwargs):
    return ew(func, args, kwargs, lambda x: 1, 1)


@arith("isnan", "isinf")
def _isnan(func, args, kwargs):
    return ew(func, args, kwargs, lambda x: 0, 1)


@arith("all")
def _all(func, args, kwargs):
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, args[0].dim()), E.band, 1)


@arith("any")
def _any(func, args, kwargs):
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, args[0].dim()), E.bor, 0)


@arith("_local_scalar_dense")
def _lsd(func, args, kwargs):
    a = args[0]
    i = a._ids.item()
    if a.dtype == torch.bool:
        return PATH[-1].decide(i)
    if E.is_const(i):
        r, m = E.cval(i)
        if a.dtype.is_complex:
            return complex(float(r), float(m))
        if not a.dtype.is_floating_point:
            return int(r)
        return float(r)
    if not a.dtype.is_floating_point and not a.dtype.is_complex:
        return decide_int(i)
    raise DataDependent("item() of a symbolic value " + E.show(i, 3))


def decide_int(i):
    """an integer built from truth values: decides each of them"""
    o = E.op[i]
    if o == E.C:
        return int(E.cval(i)[0])
    if o in (E.LT, E.LE, E.EQ, E.NOT, E.AND, E.OR):
        return int(PATH[-1].decide(i))
    if o == E.ADD:
        return decide_int(E.arg[i][0]) + decide_int(E.arg[i][1])
    if o == E.MUL:
        return decide_int(E.arg[i][0]) * decide_int(E.arg[i][1])
    if o == E.NEG:
        return -decide_int(E.arg[i][0])
    if o == E.ITE:
        return decide_int(E.arg[i][1] if PATH[-1].decide(E.arg[i][0]) else E.arg[i][2])
    raise DataDependent("integer " + E.show(i, 3))


@arith("is_nonzero")
def _isnz(func, args, kwargs):
    i = args[0]._ids.item()
    if args[0].dtype == torch.bool:
        return PATH[-1].decide(i)
    return PATH[-1].decide(E.bnot(E.eq(i, 0)))


@arith("equal")
def _equal(func, args, kwargs):
    x, y = args
    if x.shape != y.shape:
        return False
    r = 1
    for a, b in zip(tolist(x), tolist(y)):
        r = E.band(r, E.eq(a, b))
    return PATH[-1].decide(r)


@arith("sort", "argsort")
def _sort(func, args, kwargs):
    """sorts by deciding comparisons (a fork for each undecided one); the order of equal elements
    is kept, as it is for stable sorts and, in practice, for short unstable ones"""
    import functools
    a = args[0]
    nm = func.overloadpacket.__name__
    names = [x.name for x in func._schema.arguments]
    kw = {x.name: x.default_value for x in func._schema.arguments if x.has_default_value()}
    kw.update(zip(names, args))
    kw.update(kwargs)
    dim, desc = kw.get("dim", -1), kw.get("descending", False)
    ids = ids_of(a).movedim(dim, -1) if a.dim() else ids_of(a).reshape(1)
    env = {}

    def less(x, y):
        if x == y:
            return False
        b = E.lt(x, y)
        if not E.is_const(b) and not E.free_vars([b]):
            return E.evaluate([b], env)[0][0] != 0
        return PATH[-1].decide(b)

    def cmp(u, v):
        x, y = (v, u) if desc else (u, v)
        return -1 if less(x[0], y[0]) else 1 if less(y[0], x[0]) else 0
    vals, inds = [], []
    for row in ids.reshape(-1, ids.shape[-1]).tolist():
        o = sorted([(v, i) for i, v in enumerate(row)], key=functools.cmp_to_key(cmp))
        vals.append([v for v, _ in o])
        inds.append([i for _, i in o])
    shp = ids.shape
    back = (lambda t: t.reshape(shp).movedim(-1, dim)) if a.dim() else (lambda t: t.reshape(()))
    ind = back(torch.tensor(inds, dtype=torch.int64))
    if nm == "argsort":
        return ind
    return SymTensor(back(torch.tensor(vals, dtype=torch.int64)).contiguous(), a.dtype), ind


@arith("nonzero")
def _nonzero(func, args, kwargs):
    a = args[0]
    flat = tolist(a)
    mask = []
    for i in flat:
        if a.dtype == torch.bool:
            mask.append(PATH[-1].decide(i))
        else:
            mask.append(PATH[-1].decide(E.bnot(E.eq(i, 0))))
    return torch.tensor(mask).reshape(a.shape).nonzero()


# ---- convolution
def _conv_triples(xs, ws, os, stride, padding, dilation, groups):
    """(out_idx, in_idx, w_idx) triples for a (non-transposed) conv in N-d."""
    Nb, Ci = xs[0], xs[1]
    Co, Cig = ws[0], ws[1]
    sp = len(xs) - 2
    cog = Co // groups
    for n in range(Nb):
        for o in range(Co):
            g = o // cog
            for pos in itertools.product(*[range(k) for k in os[2:]]):
                for c in range(Cig):
                    for ker in itertools.product(*[range(k) for k in ws[2:]]):
                        ip = tuple(pos[d] * stride[d] - padding[d] + ker[d] * dilation[d] for d in range(sp))
                        if all(0 <= ip[d] < xs[2 + d] for d in range(sp)):
                            yield (n, o) + pos, (n, g * Cig + c) + ip, (o, c) + ker


def _convT_triples(xs, ws, os, stride, padding, dilation, groups):
    Nb, Ci = xs[0], xs[1]
    Cog = ws[1]
    sp = len(xs) - 2
    cig = Ci // groups
    for n in range(Nb):
        for ci in range(Ci):
            g = ci // cig
            for pos in itertools.product(*[range(k) for k in xs[2:]]):
                for co in range(Cog):
                    for ker in itertools.product(*[range(k) for k in ws[2:]]):
                        op = tuple(pos[d] * stride[d] - padding[d] + ker[d] * dilation[d] for d in range(sp))
                        if all(0 <= op[d] < os[2 + d] for d in range(sp)):
                            yield (n, g * Cog + co) + op, (n, ci) + pos, (ci, co) + ker


def _flatidx(shape):
    st = [1] * len(shape)
    for k in range(len(shape) - 2, -1, -1):
        st[k] = st[k + 1] * shape[k + 1]
    return lambda idx: sum(i * s for i, s in zip(idx, st))


def _norm(v, sp):
    v = list(v)
    return v * sp if len(v) == 1 and sp > 1 else v


def _conv_common(xs, ws, os, stride, padding, dilation, transposed, groups):
    sp = len(xs) - 2
    stride, padding, dilation = _norm(stride, sp), _norm(padding, sp), _norm(dilation, sp)
    return (_convT_triples if transposed else _conv_triples)(xs, ws, os, stride, padding, dilation, groups)


@arith("convolution", "_convolution")
def _convolution(func, args, kwargs):
    x, w, b, stride, padding, dilation, transposed, outpad, groups = args[:9]
    meta = run_meta(func, args, kwargs)
    fx, fw = tolist(x), tolist(w)
    ix, iw, io = _flatidx(x.shape), _flatidx(w.shape), _flatidx(meta.shape)
    out = [0] * meta.numel()
    for o, i, k in _conv_common(x.shape, w.shape, meta.shape, stride, padding, dilation, transposed, groups):
        j = io(o)
        out[j] = E.add(out[j], E.mul(fx[ix(i)], fw[iw(k)]))
    if b is not None:
        fb = tolist(b)
        n = meta.numel() // (meta.shape[0] * meta.shape[1]) if meta.numel() else 0
        for j in range(len(out)):
            out[j] = E.add(out[j], fb[(j // n) % meta.shape[1]])
    return mk(out, meta)


@arith("convolution_backward")
def _convolution_backward(func, args, kwargs):
    g, x, w, bs, stride, padding, dilation, transposed, outpad, groups, mask = args[:11]
    metas = run_meta(func, args, kwargs)
    fg, fx, fw = tolist(g), tolist(x), tolist(w)
    ix, iw, io = _flatidx(x.shape), _flatidx(w.shape), _flatidx(g.shape)
    gx = [0] * len(fx)
    gw = [0] * len(fw)
    for o, i, k in _conv_common(x.shape, w.shape, g.shape, stride, padding, dilation, transposed, groups):
        go = fg[io(o)]
        a, b = ix(i), iw(k)
        gx[a] = E.add(gx[a], E.mul(go, E.conj(fw[b])))
        gw[b] = E.add(gw[b], E.mul(go, E.conj(fx[a])))
    rs = []
    for on, flat, m in zip(mask, (gx, gw, None), metas):
        if not on:
            rs.append(None)
        elif flat is None:
            n = g.numel() // (g.shape[0] * g.shape[1]) if g.numel() else 0
            acc = [0] * g.shape[1]
            for j, v in enumerate(fg):
                c = (j // n) % g.shape[1]
                acc[c] = E.add(acc[c], v)
            rs.append(mk(acc, m))
        else:
            rs.append(mk(flat, m))
    return tuple(rs)


# ---- linear algebra (exact rational stubs of the documented contract)
def _minor(M, i, j):
    return [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    acc = 0
    for j in range(n):
        if M[0][j] == 0:
            continue
        t = E.mul(M[0][j], det(_minor(M, 0, j)))
        acc = E.add(acc, t if j % 2 == 0 else E.neg(t))
    return acc


def inverse(M):
    n = len(M)
    if n == 0:
        return []
    d = det(M)
    di = E.inv(d)
    out = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            c = det(_minor(M, i, j))
            if (i + j) % 2:
                c = E.neg(c)
            out[j][i] = E.mul(c, di)
    return out


def _batched_mats(ids):
    n, m = ids.shape[-2:]
    k = math.prod(ids.shape[:-2])
    return [t.tolist() for t in ids.reshape(k, n, m)]


@arith("linalg_inv_ex", "linalg_inv")
def _inv_ex(func, args, kwargs):
    metas = run_meta(func, args, kwargs)
    A = ids_of(args[0])
    out = []
    for M in _batched_mats(A):
        for r in inverse(M):
            out += r
    if isinstance(metas, torch.Tensor):
        return mk(out, metas)
    info = torch.zeros(metas[1].shape, dtype=metas[1].dtype)
    return mk(out, metas[0]), info


@arith("_linalg_solve_ex")
def _solve_ex(func, args, kwargs):
    A, Bt = args[0], args[1]
    left = kwargs.get("left", True)
    if not left:
        raise Unsupported("solve left=False")
    mets = run_meta(func, args, kwargs)
    Ai, Bi = ids_of(A), ids_of(Bt)
    vec = Bi.dim() == 1 or (Ai.dim() - 1 == Bi.dim() and list(Ai.shape[:-1]) == list(Bi.shape))
    if vec:
        Bi = Bi.unsqueeze(-1)
    bshape = torch.broadcast_shapes(Ai.shape[:-2], Bi.shape[:-2])
    Ai = Ai.expand(*bshape, *Ai.shape[-2:])
    Bi = Bi.expand(*bshape, *Bi.shape[-2:])
    out = []
    for M, R in zip(_batched_mats(Ai), _batched_mats(Bi)):
        for r in _mm2(inverse(M), R):
            out += r
    res = mk(out, mets[0])
    # LU / pivots / info are only used by torch's own backward (linalg_lu_solve)
    lu = SymTensor(ids_of(A).clone(), A.dtype)
    lu._is_stub_lu = True
    SOLVE_LU[id(lu._ids)] = ids_of(A)
    piv = torch.ones(mets[2].shape, dtype=mets[2].dtype)
    info = torch.zeros(mets[3].shape, dtype=mets[3].dtype)
    return res, lu, piv, info


SOLVE_LU = {}


@arith("linalg_lu_solve")
def _lu_solve(func, args, kwargs):
    # LU stub stores the original matrix A (see _solve_ex)
    LU, piv, Bt = args[0], args[1], args[2]
    left = kwargs.get("left", True)
    adjoint = kwargs.get("adjoint", False)
    meta = run_meta(func, args, kwargs)
    Ai, Bi = ids_of(LU), ids_of(Bt)
    bshape = torch.broadcast_shapes(Ai.shape[:-2], Bi.shape[:-2])
    Ai = Ai.expand(*bshape, *Ai.shape[-2:])
    Bi = Bi.expand(*bshape, *Bi.shape[-2:])
    out = []
    for M, R in zip(_batched_mats(Ai), _batched_mats(Bi)):
        I = inverse(M)
        if adjoint:
            n = len(I)
            I = [[E.conj(I[j][i]) for j in range(n)] for i in range(n)]
        P = _mm2(I, R) if left else _mm2(R, I)
        for r in P:
            out += r
    return mk(out, meta)


EIG_HOOK = [None]


@arith("linalg_eigvals", "_linalg_eigvals", "linalg_eig")
def _eigvals(func, args, kwargs):
    if EIG_HOOK[0] is None:
        raise Unsupported("eigvals without contract hook")
    meta = run_meta(func, args, kwargs)
    flat = EIG_HOOK[0](args[0])
    if isinstance(meta, tuple):
        n = args[0].shape[-1]
        # eigenvectors are not part of the contract: whoever uses them gets unconstrained values
        vec = [E.fresh("eigvec", False) for _ in range(len(flat) * n)]
        return mk(flat, meta[0]), mk(vec, meta[1])
    return mk(flat, meta)


@arith("_cdist_forward", "cdist")
def _cdist(func, args, kwargs):
    a, b = args[0], args[1]
    p = args[2] if len(args) > 2 else kwargs.get("p", 2)
    if p != 2 or a.dtype.is_complex:
        raise Unsupported("cdist p")
    meta = run_meta(func, args, kwargs)
    A = ids_of(a).expand(*meta.shape[:-2], *a.shape[-2:]).reshape(-1, *a.shape[-2:]).tolist()
    Bm = ids_of(b).expand(*meta.shape[:-2], *b.shape[-2:]).reshape(-1, *b.shape[-2:]).tolist()
    out = []
    for x, y in zip(A, Bm):
        for u in x:
            for v in y:
                s = 0
                for i, j in zip(u, v):
                    d = E.sub(i, j)
                    s = E.add(s, E.mul(d, d))
                out.append(E.sqrt_pos(s))
    return mk(out, meta)


@arith("linalg_vector_norm")
def _vnorm(func, args, kwargs):
    a = args[0]
    ordv = args[1] if len(args) > 1 else kwargs.get("ord", 2)
    if ordv != 2:
        raise Unsupported("vector_norm ord")
    d = args[2] if len(args) > 2 else kwargs.get("dim")
    return _reduce(func, args, kwargs, _dims(d, a.dim()),
                   lambda acc, v: E.add(acc, E.mul(v, E.conj(v))), 0,
                   lambda v, n: E.sqrt_pos(v))


@arith("_has_same_storage_numel")
def _hssn(func, args, kwargs):
    n = [a._ids.untyped_storage().nbytes() // 8 if isinstance(a, SymTensor) else a.untyped_storage().nbytes() // a.element_size() for a in args]
    return n[0] == n[1]


@arith("_new_zeros_with_same_feature_meta")
def _nzfm(func, args, kwargs):
    self, other = args[0], args[1]
    ids = torch.zeros_like(ids_of(other))
    return SymTensor(ids, self.dtype)


@arith("constant_pad_nd")
def _cpad(func, args, kwargs):
    a, pad = args[0], args[1]
    val = args[2] if len(args) > 2 else kwargs.get("value", 0)
    ids = aten.constant_pad_nd(a._ids, pad, E.from_number(val))
    return SymTensor(ids, a.dtype)


@arith("masked_fill")
def _mfill(func, args, kwargs):
    a, mask, v = args
    meta = run_meta(func, args, kwargs)
    vid = ids_of(v).item() if isinstance(v, torch.Tensor) else E.from_number(v)
    if isinstance(mask, SymTensor):
        mk_ = mask._ids.expand(meta.shape).reshape(-1).tolist()
    else:
        mk_ = [1 if t else 0 for t in mask.expand(meta.shape).reshape(-1).tolist()]
    src = ids_of(a).expand(meta.shape).reshape(-1).tolist()
    return mk([E.ite(m, vid, s) for m, s in zip(mk_, src)], meta)


@arith("index_put", "_index_put_impl_", "_unsafe_index_put")
def _index_put(func, args, kwargs):
    a, idx, v = args[0], args[1], args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    ids = ids_of(a).clone()
    idx = [concrete_index(i) for i in idx]
    vi = cast_ids(ids_of(v), v.dtype, a.dtype)
    if not acc:
        ids = aten.index_put(ids, idx, vi)
    else:
        pos = torch.arange(ids.numel()).reshape(ids.shape)
        sel = aten.index(pos, idx)
        flat = ids.reshape(-1).tolist()
        for p, x in zip(sel.reshape(-1).tolist(), vi.expand(sel.shape).reshape(-1).tolist()):
            flat[p] = E.add(flat[p], x)
        ids = torch.tensor(flat, dtype=torch.int64).reshape(ids.shape)
    return SymTensor(ids, a.dtype)


@arith("index_add")
def _index_add(func, args, kwargs):
    a, dim, index, src = args[:4]
    s = _scale(kwargs.get("alpha", 1))
    ids = ids_of(a).clone(memory_format=torch.contiguous_format)
    pos = torch.arange(ids.numel()).reshape(ids.shape).index_select(dim, index)
    flat = ids.reshape(-1).tolist()
    for p, x in zip(pos.reshape(-1).tolist(), tolist(src)):
        flat[p] = E.add(flat[p], s(x))
    return SymTensor(torch.tensor(flat, dtype=torch.int64).reshape(ids.shape), a.dtype)


@arith("scatter_add")
def _scatter_add(func, args, kwargs):
    a, dim, index, src = args[:4]
    ids = ids_of(a).clone(memory_format=torch.contiguous_format)
    pos = torch.arange(ids.numel()).reshape(ids.shape)
    sl = tuple(slice(0, s) for s in index.shape)
    # positions along other dims are the index' own coordinates
    grid = torch.meshgrid(*[torch.arange(s) for s in index.shape], indexing="ij")
    co = [g for g in grid]
    co[dim] = index
    p = pos[tuple(co)]
    flat = ids.reshape(-1).tolist()
    for q, x in zip(p.reshape(-1).tolist(), src._ids[sl].reshape(-1).tolist() if isinstance(src, SymTensor) else lift_ids(src)[sl].reshape(-1).tolist()):
        flat[q] = E.add(flat[q], x)
    return SymTensor(torch.tensor(flat, dtype=torch.int64).reshape(ids.shape), a.dtype)


@arith("slice_backward", "select_backward", "diagonal_backward", "unfold_backward",
       "reflection_pad1d_backward", "replication_pad1d_backward", "as_strided_backward_")
def _movement_backward(func, args, kwargs):
    """Transposed data movement: replay the forward movement on positions, add up."""
    nm = func.overloadpacket.__name__
    g = args[0]
    meta = run_meta(func, args, kwargs)
    shape = list(meta.shape)
    pos = torch.arange(math.prod(shape)).reshape(shape)
    if nm == "slice_backward":
        p = aten.slice(pos, args[2], args[3], args[4], args[5])
    elif nm == "select_backward":
        p = aten.select(pos, args[2], args[3])
    elif nm == "diagonal_backward":
        p = aten.diagonal(pos, args[2], args[3], args[4])
    elif nm == "unfold_backward":
        p = aten.unfold(pos, args[2], args[3], args[4])
    elif nm == "reflection_pad1d_backward":
        p = aten.reflection_pad1d(pos.double(), args[2]).long()
    else:
        p = aten.replication_pad1d(pos.double(), args[2]).long()
    flat = [0] * math.prod(shape)
    for q, x in zip(p.reshape(-1).tolist(), tolist(g)):
        flat[q] = E.add(flat[q], x)
    return mk(flat, meta)


@arith("_to_copy", "to")
def _to_copy(func, args, kwargs):
    a = args[0]
    meta = run_meta(func, args, kwargs)
    ids = cast_ids(ids_of(a), a.dtype, meta.dtype)
    r = torch.empty_strided(meta.size(), meta.stride(), dtype=torch.int64)
    r.copy_(ids)
    return SymTensor(r, meta.dtype)


def _fill_like(func, args, kwargs, val):
    meta = run_meta(func, args, kwargs)
    ids = torch.empty_strided(meta.size(), meta.stride(), dtype=torch.int64)
    if val is None:
        poison_fill(ids)
    else:
        ids.fill_(val)
    return SymTensor(ids, meta.dtype)


def poison_fill(ids):
    flat = [E.fresh("uninit") for _ in range(ids.numel())]
    if flat:
        ids.copy_(torch.tensor(flat, dtype=torch.int64).reshape(ids.size()))


@arith("new_zeros", "zeros_like", "zeros")
def _nz(func, args, kwargs):
    return _fill_like(func, args, kwargs, 0)


@arith("new_ones", "ones_like", "ones")
def _no(func, args, kwargs):
    return _fill_like(func, args, kwargs, 1)


@arith("new_empty", "empty_like", "empty", "empty_strided", "new_empty_strided")
def _ne(func, args, kwargs):
    return _fill_like(func, args, kwargs, None)


@arith("new_full", "full_like", "full")
def _nf(func, args, kwargs):
    v = args[2] if func.overloadpacket.__name__ == "new_full" else args[1]
    return _fill_like(func, args, kwargs, E.from_number(v))


@arith("fill")
def _fill(func, args, kwargs):
    a, v = args[0], args[1]
    vid = ids_of(v).reshape(-1)[0].item() if isinstance(v, torch.Tensor) else E.from_number(v)
    return SymTensor(torch.full_like(a._ids, vid), a.dtype)


@arith("native_dropout", "bernoulli", "rand_like", "randn_like")
def _rand(func, args, kwargs):
    raise Unsupported("random op")


@arith("max", "amax")
def _max(func, args, kwargs):
    if func.overloadpacket.__name__ == "max" and len(args) > 1:
        raise Unsupported("max(dim)")
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    a = args[0]
    return _reduce(func, args, kwargs, _dims(d, a.dim()),
                   lambda acc, v: v if acc is None else E.ite(E.lt(acc, v), v, acc), None)


@arith("min", "amin")
def _min(func, args, kwargs):
    if func.overloadpacket.__name__ == "min" and len(args) > 1:
        raise Unsupported("min(dim)")
    d = args[1] if len(args) > 1 else kwargs.get("dim")
    a = args[0]
    return _reduce(func, args, kwargs, _dims(d, a.dim()),
                   lambda acc, v: v if acc is None else E.ite(E.lt(v, acc), v, acc), None)


# --------------------------------------------------------------------------- torchlpc stubs
@arith("lpc")
def _lpc(func, args, kwargs):
    """Contract of torchlpc::lpc: y[t] = x[t] - sum_i A[t,i] y[t-1-i]; zi[i] = y[-1-i]."""
    x, A, zi = args
    if not (x.dim() == 2 and A.dim() == 3 and A.shape[0] == x.shape[0] and A.shape[1] == x.shape[1]
            and zi.shape == (x.shape[0], A.shape[2])):
        raise RuntimeError("torchlpc::lpc called with inconsistent shapes")
    if not (x.dtype == A.dtype == zi.dtype):
        raise RuntimeError("torchlpc::lpc called with mixed dtypes")
    xs, As, zs = ids_of(x).tolist(), ids_of(A).tolist(), ids_of(zi).tolist()
    out = []
    for b in range(x.shape[0]):
        h = list(zs[b])
        for t in range(x.shape[1]):
            v = xs[b][t]
            for i in range(A.shape[2]):
                v = E.sub(v, E.mul(As[b][t][i], h[i]))
            h = ([v] + h)[: A.shape[2]]
            out.append(v)
    return SymTensor(torch.tensor(out, dtype=torch.int64).reshape(x.shape), x.dtype)


@arith("scan")
def _scan(func, args, kwargs):
    """Contract of torchlpc::scan(x, a, init): y[t] = a[t] y[t-1] + x[t]."""
    x, a, z = args
    if not (x.dim() == 2 and a.shape == x.shape and z.shape == (x.shape[0],)):
        raise RuntimeError("torchlpc::scan called with inconsistent shapes")
    xs, As, zs = ids_of(x).tolist(), ids_of(a).tolist(), ids_of(z).tolist()
    out = []
    for b in range(x.shape[0]):
        h = zs[b]
        for t in range(x.shape[1]):
            h = E.add(E.mul(As[b][t], h), xs[b][t])
            out.append(h)
    return SymTensor(torch.tensor(out, dtype=torch.int64).reshape(x.shape), x.dtype)


# --------------------------------------------------------------------------- dispatcher
CXX_DISPATCH = [None]     # set by cxx.py: callable(func, args)

_decomp = None


def decomps():
    global _decomp
    if _decomp is None:
        from torch._decomp import decomposition_table
        _decomp = decomposition_table
    return _decomp


def dispatch(func, args, kwargs):
    stats["ops"] += 1
    ns = func.namespace
    nm = func.overloadpacket.__name__
    stats["names"].add(f"{ns}::{nm}")
    if ns == "philtorch":
        return cxx_call(func, args, kwargs)
    if ns == "symx":
        return args[0]._ids
    if ns == "torchlpc":
        return ARITH[nm](func, args, kwargs)
    if nm in ARITH:
        return ARITH[nm](func, args, kwargs)
    if nm in MOVE:
        return move(func, args, kwargs)
    if nm in MOVE_INPLACE:
        return move_inplace(func, nm, args, kwargs)
    if nm.endswith("_") and not nm.endswith("__") and (nm[:-1] in ARITH or nm[:-1] in MOVE):
        return inplace(func, nm, args, kwargs)
    if func in decomps():
        r = decomps()[func](*args, **kwargs)
        if r is not NotImplemented:
            return r
    r = func.decompose(*args, **kwargs)
    if r is not NotImplemented:
        return r
    raise Unsupported(f"op {func}")


def functional(nm, func):
    pk = getattr(torch.ops.aten, nm[:-1])
    ov = func._overloadname
    if hasattr(pk, ov):
        return getattr(pk, ov)
    return pk.default


def inplace(func, nm, args, kwargs):
    dst = args[0]
    if not isinstance(dst, SymTensor):
        raise Unsupported(f"in-place {nm} of a symbolic value into a concrete tensor")
    f2 = functional(nm, func)
    base = nm[:-1]
    if base in ("fill",):
        r = ARITH["fill"](func, args, kwargs)
    else:
        r = (ARITH[base] if base in ARITH else move)(f2, args, kwargs)
    if tuple(r.shape) != tuple(dst.shape):
        raise RuntimeError(f"in-place {nm}: output shape {tuple(r.shape)} does not match {tuple(dst.shape)}")
    if r.dtype.is_complex and not dst.dtype.is_complex:
        raise RuntimeError("result type Complex can't be cast to the desired output type")
    dst._ids.copy_(cast_ids(r._ids, r.dtype, dst.dtype))
    return dst


def move_inplace(func, nm, args, kwargs):
    dst = args[0]
    if not isinstance(dst, SymTensor):
        raise Unsupported(f"in-place {nm} of a symbolic value into a concrete tensor")
    if nm == "copy_":
        src = args[1]
        ids = cast_ids(ids_of(src), src.dtype, dst.dtype)
        dst._ids.copy_(ids)
        return dst
    if nm == "zero_":
        dst._ids.zero_()
        return dst
    if nm in VIEWISH:
        raise Unsupported(nm)
    raise Unsupported(nm)


def concrete_index(t):
    """an index or mask tensor whose entries are decided (a fork for each undecided mask entry)"""
    if not isinstance(t, SymTensor):
        return t
    flat = tolist(t)
    if t.dtype == torch.bool:
        v = [bool(PATH[-1].decide(i)) for i in flat]
    elif t.dtype.is_floating_point or t.dtype.is_complex:
        return t
    else:
        v = []
        for i in flat:
            if not E.is_const(i):
                raise DataDependent("index " + E.show(i, 3))
            v.append(int(E.cval(i)[0]))
    return torch.tensor(v, dtype=t.dtype).reshape(t.shape)


INDEXED = {"index": 1, "index_select": 2, "gather": 2, "masked_select": 1, "take": 1, "take_along_dim": 1, "repeat_interleave": 1,
           "index_put": 1, "index_copy": 2}


def move(func, args, kwargs):
    if func is aten.repeat_interleave.Tensor:
        return func(concrete_index(args[0]), *args[1:], **kwargs)
    k = INDEXED.get(func.overloadpacket.__name__)
    if k is not None and len(args) > k:
        args = list(args)
        args[k] = [concrete_index(i) for i in args[k]] if isinstance(args[k], (list, tuple)) else concrete_index(args[k])
        if not _contains_sym((args, kwargs)):
            return func(*args, **kwargs)
    dts = set(_data_dtype(args, kwargs))
    if len(dts) == 0 and k is not None:
        odt = args[0].dtype
        uw = lambda a: a._ids if isinstance(a, SymTensor) else a
    elif len(dts) > 1 or (len(dts) == 0):
        meta = run_meta(func, args, kwargs)
        if isinstance(meta, (list, tuple)) and not meta:
            return meta
        odt = (meta[0] if isinstance(meta, (list, tuple)) else meta).dtype

        def uw(a):
            if isinstance(a, SymTensor):
                return cast_ids(a._ids, a.dtype, odt)
            if isinstance(a, torch.Tensor) and (k is None or is_num_dtype(a.dtype)):
                return cast_ids(lift_ids(a), a.dtype, odt)
            return a
    else:
        odt = next(iter(dts))
        uw = _unwrap_move
    a2, k2 = tree_map(uw, args), tree_map(uw, kwargs)
    try:
        r = func(*a2, **k2)
    except (NotImplementedError, RuntimeError) as e:
        if "not implemented for 'Long'" not in str(e):
            raise
        tod = lambda a: a.double() if isinstance(a, torch.Tensor) and a.dtype == torch.int64 else a
        r = func(*tree_map(tod, a2), **tree_map(tod, k2))
        r = tree_map(lambda a: a.long() if isinstance(a, torch.Tensor) else a, r)
    return tree_map(lambda a: SymTensor(a, odt) if isinstance(a, torch.Tensor) else a, r)


def py_op(func):
    """Python implementation of a custom operator defined with torch.library.custom_op"""
    from torch._library.custom_ops import OPDEFS
    d = OPDEFS.get(func._schema.name)
    return None if d is None else d._backend_fns.get(None) or d._backend_fns.get("cpu")


def cxx_call(func, args, kwargs):
    f = py_op(func)
    if f is not None:
        with torch._C._AutoDispatchBelowAutograd():
            return f(*args, **kwargs)
    if CXX_DISPATCH[0] is None:
        raise Unsupported("C++ symbolic library not loaded")
    stats["cxx_calls"] += 1
    args, kwargs = tree_map(lambda a: a if isinstance(a, SymTensor) or not isinstance(a, torch.Tensor) else SymTensor(lift_ids(a), a.dtype), (args, kwargs))
    return CXX_DISPATCH[0](func, args, kwargs)


FACTORY = {"zeros", "ones", "empty", "full", "eye", "arange", "linspace", "scalar_tensor",
           "empty_strided", "zeros_like", "ones_like", "empty_like", "full_like",
           "_efficientzerotensor", "rand", "randn", "new_zeros", "new_ones", "new_empty", "new_full",
           "new_empty_strided", "hann_window", "logspace"}


class FunctionMode(torch.overrides.TorchFunctionMode):
    """Ops whose ATen derivative branches on the data (is there a zero?) are
    replaced, before autograd, by the products that define them."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.cumprod, torch.Tensor.cumprod) and isinstance(args[0], SymTensor):
            dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
            parts = list(itertools.accumulate(args[0].unbind(dim), torch.mul))
            r = torch.stack(parts, dim=dim) if parts else args[0].clone()
            dt = kwargs.get("dtype")
            return r if dt is None else r.to(dt)
        if func in (torch.prod, torch.Tensor.prod) and isinstance(args[0], SymTensor) and not isinstance(kwargs.get("dim", args[1] if len(args) > 1 else None), (tuple, list)):
            dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
            x = args[0].reshape(-1) if dim is None else args[0]
            d = 0 if dim is None else dim
            parts = x.unbind(d)
            if parts:
                r = parts[0]
                for q in parts[1:]:
                    r = r * q
                return r.unsqueeze(d) if kwargs.get("keepdim") else r
        return func(*args, **kwargs)


class SymMode(TorchDispatchMode):
    """Makes floating point factory functions return SymTensors, so that buffers
    allocated by the code under test can hold symbolic values."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm = func.overloadpacket.__name__
        if func.namespace == "symx":
            return args[0]._ids
        if _contains_sym((args, kwargs)):
            return dispatch(func, args, kwargs)
        dev = kwargs.get("device")
        if dev is not None and torch.device(dev).type == "meta":
            return func(*args, **kwargs)
        if any(isinstance(a, torch.Tensor) and a.device.type == "meta" for a in tree_flatten((args, kwargs))[0]):
            return func(*args, **kwargs)
        if func.namespace == "philtorch":
            return cxx_call(func, tree_map(lambda a: SymTensor(lift_ids(a), a.dtype) if isinstance(a, torch.Tensor) else a, args), kwargs)
        if func.namespace == "torchlpc":
            return ARITH[nm](func, args, kwargs)
        r = func(*args, **kwargs)
        if nm in FACTORY and isinstance(r, torch.Tensor) and is_num_dtype(r.dtype):
            stats["ops"] += 1
            if nm.startswith("empty") or nm.startswith("new_empty"):
                ids = torch.empty_strided(r.size(), r.stride(), dtype=torch.int64)
                poison_fill(ids)
                return SymTensor(ids, r.dtype)
            if nm in ("rand", "randn"):
                raise Unsupported("random op")
            ids = lift_ids(r)
            return SymTensor(ids, r.dtype)
        return r
