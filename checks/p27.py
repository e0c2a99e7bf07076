"""P27: the GPU scans reproduce the recurrence for every bracketing."""
import math
from symx.cxx import Cuda
from symx.harness import In
from .util import Cases, tag
from . import spec as S

PROPERTY = "P27"
CUDA_STUB = True
FUNCTIONS = ["recur2.cuh: recur2_binary_op, output_unary_op, share_A_input_op, lti_batch_A_input_op, lti_share_A_input_op, index2key",
             "lti_recur.cu: recur_binary_op, take_second, lti_*_recur_input_op, lti_recur_cuda_impl",
             "lti_recur2.cu: lti_mat_recur_second_order_cuda_impl", "recur2.cu: mat_recur_second_order_cuda_impl"]
BOUNDS = ("batch 1..4 and length 1..5 (thorough: 1..6 and 1..6), all element values; all bracketings of the scan of up to 4 (thorough 5) elements and the left, right, "
          "balanced and 24 further bracketings of longer ones; contiguous, transposed, strided, offset and expanded arguments")
ASSUME = ["thrust::inclusive_scan_by_key combines the elements of a run of equal keys in order with an unspecified bracketing; "
          "iterators, tuples and guards of Thrust/libcu++ are replaced by a host header with their documented meaning"]
OUTSIDE = ["device code generation, CUDA launch behaviour, the 32-bit index types, rounding"]


def balanced(n):
    """code of the balanced bracketing of n elements (mixed radix, see thrust_host.h)"""
    digits = []

    def rec(m):
        if m == 1:
            return
        k = m // 2
        digits.append((k - 1, m - 1))
        rec(k)
        rec(m - k)
    rec(n)
    c = 0
    for d, r in reversed(digits):
        c = c * r + d
    return c


def right(n):
    """1 + (2 + (3 + ...)): every split after the first element is digit 0"""
    return 0


def left(n):
    """((1 + 2) + 3) + ...: every split before the last element"""
    digits = [(m - 2, m - 1) for m in range(n, 1, -1)]
    c = 0
    for d, r in reversed(digits):
        c = c * r + d
    return c


def catalan_codes(n):
    """one code per bracketing of n elements"""
    def trees(m):
        if m == 1:
            return [[]]
        out = []
        for k in range(1, m):
            for a in trees(k):
                for b in trees(m - k):
                    out.append([(k - 1, m - 1)] + a + b)
        return out
    res = []
    for digits in trees(n):
        c = 0
        for d, r in reversed(digits):
            c = c * r + d
        res.append(c)
    return res


def codes(n, full, extra):
    if n <= full:
        return sorted(set(catalan_codes(n)))
    f = math.factorial(n - 1)
    return sorted({left(n), right(n), balanced(n)} | {(7919 * k + 13) % f for k in range(extra)})


def cases(tier):
    q = tier == "quick"
    cs = Cases()
    full, extra = (4, 24) if q else (5, 60)
    BS = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)
    NS = (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6)

    def add(op, kA, B, N, code, lay=(None, None, None), dtype=None):
        M = () if op == "lti_recur" else (2,)
        d = dict(B=B, N=N, M=2, **{"1": 1})

        def ref(t):
            out = []
            for b in range(B):
                if op == "lti_recur":
                    a = t["A"] if kA == "" else t["A"][b] if kA == "B" else t["A"][0]
                    h, y = t["zi"][b], []
                    for v in t["x"][b]:
                        h = a * h + v
                        y.append(h)
                    out.append(y)
                    continue
                out.append(S.mat_rec(t["A"][b] if kA[0] == "B" else t["A"], t["zi"][b], t["x"][b]))
            return out
        cs.add(tag(op=op, A=kA, B=B, N=N, scan=code, l=lay if any(lay) else None, d=dtype),
               {"A": In(*[d[k] for k in kA], layout=lay[0], dtype=dtype), "zi": In(B, *M, layout=lay[1], dtype=dtype),
                "x": In(B, N, *M, layout=lay[2], dtype=dtype)},
               lambda L, t: getattr(L.ops, op)(t["A"], t["zi"], t["x"]), ref,
               setup=lambda L: Cuda(code), tol=1e-8 if dtype is None else 1e-4)
    for op, kinds in (("recur2", ("NMM", "BNMM")), ("lti_recur2", ("MM", "BMM")), ("lti_recur", ("", "B", "1"))):
        for kA in kinds:
            for B in BS:
                for N in NS:
                    for c in codes(N + 1, full, extra):
                        if B > 2 and N > 3 and c % 3:
                            continue
                        add(op, kA, B, N, c)
            b = balanced(4)
            if kA:
                for l in ("T", "gap", "off", "rev") if len(kA) > 1 else ("gap", "off", "rev"):
                    add(op, kA, 2, 3, b, (l, None, None))
                if kA[0] == "B":
                    add(op, kA, 3, 3, b, ("expand0", None, None))
            for l in ("T", "gap", "off", "rev"):
                add(op, kA, 2, 3, b, (None, None, l))
            for l in ("gap", "off"):
                add(op, kA, 2, 3, b, (None, l, None))
            add(op, kA, 3, 3, b, (None, "expand0", "expand0"))
            for d in ("complex128", "float32", "complex64"):
                add(op, kA, 2, 3, b, dtype=d)
    return cs.list
