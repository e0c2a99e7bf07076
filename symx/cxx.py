"""Builds the real /repo/philtorch/csrc/*.cpp with scalar_t = symbolic scalar and
loads the result as philtorch._C, so that the library's own kernels execute on
SymTensors.  Nothing is cached: every run compiles the current sources."""
import ctypes
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import atexit
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PHILTORCH_REPO", "/repo")
CSRC = os.path.join(REPO, "philtorch", "csrc")

info = {"files": [], "compile_s": 0.0}


class CompileError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="symx_")
    atexit.register(shutil.rmtree, d, True)
    return d


def torch_paths():
    base = os.path.dirname(importlib.util.find_spec("torch").origin)
    return os.path.join(base, "include"), os.path.join(base, "lib")


KEY = ["CPU"]       # dispatch key under which the kernels are looked up


class Cuda:
    """context in which the operators run the kernels of the .cu files"""

    def __init__(self, scan=0):
        self.scan = scan

    def __enter__(self):
        KEY[0] = "CUDA"
        os.environ["SYMX_SCAN"] = str(self.scan)

    def __exit__(self, *a):
        KEY[0] = "CPU"
        os.environ.pop("SYMX_SCAN", None)


def cu_sources():
    return sorted(glob.glob(os.path.join(CSRC, "*.cu")))


CU_FLAGS = ["-I" + os.path.join(HERE, "cxx", "cuda"), "-x", "c++"]


def start_build(cuda=False):
    """Start compiling in background threads; returns a handle for finish_build.
    Does not import torch, so it overlaps with the import.  With `cuda` the .cu files
    are compiled too, as host C++ against the stand-in for Thrust."""
    d = scratch()
    inc, lib = torch_paths()
    srcs = sorted(glob.glob(os.path.join(CSRC, "*.cpp")))
    if cuda:
        srcs = srcs + cu_sources()
    info["files"] = [os.path.relpath(s, REPO) for s in srcs]
    srcs_all = srcs + [os.path.join(HERE, "cxx", "support.cpp")]
    pyinc = os.path.join(sys.base_prefix, "include", f"python{sys.version_info.major}.{sys.version_info.minor}")
    import sysconfig
    pyinc = sysconfig.get_paths()["include"]
    base = ["g++", "-std=c++20", "-O0", "-fPIC", "-w", "-c",
            "-I" + os.path.join(HERE, "cxx", "shadow"), "-I" + inc,
            "-I" + os.path.join(inc, "torch", "csrc", "api", "include"), "-I" + pyinc, "-I" + CSRC]
    objs = []
    t0 = time.time()

    def comp(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        p = subprocess.run(base[:1] + (CU_FLAGS if s.endswith(".cu") else []) + base[1:] + [s, "-o", o], capture_output=True, text=True)
        return s, o, p

    ex = ThreadPoolExecutor(8)
    futs = [ex.submit(comp, s) for s in srcs_all]
    return dict(d=d, futs=futs, lib=lib, t0=t0)


def finish_build(h):
    objs = []
    for f in h["futs"]:
        s, o, p = f.result()
        if p.returncode:
            raise CompileError(f"{s}:\n{p.stderr[-4000:]}")
        objs.append(o)
    so = os.path.join(h["d"], "_C.so")
    p = subprocess.run(["g++", "-shared", "-o", so] + objs +
                       ["-L" + h["lib"], "-ltorch", "-ltorch_cpu", "-lc10", "-Wl,-rpath," + h["lib"]],
                       capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-4000:])
    info["compile_s"] = round(time.time() - h["t0"], 2)
    return so


_keep = []
errors = []


def load(so):
    """Load the symbolic extension as philtorch._C and hook the dispatcher."""
    import torch
    from . import expr as E
    from . import tensor as T

    torch.set_num_threads(1)
    BIN = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int, ctypes.c_int64, ctypes.c_int64)
    CON = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_double, ctypes.c_double)

    def binop(op, a, b):
        try:
            n = len(E.op)
            if not (0 <= a < n and 0 <= b < n):
                # a value that was never a valid element: uninitialised or out-of-range read
                errors.append(f"kernel used an invalid element ({a}, {b})")
                a = a if 0 <= a < n else E.fresh("garbage")
                b = b if 0 <= b < n else E.fresh("garbage")
            if op == 0:
                return E.add(a, b)
            if op == 1:
                return E.sub(a, b)
            if op == 2:
                return E.mul(a, b)
            if op == 3:
                return E.div(a, b)
            if op == 4:
                return E.neg(a)
            if op == 5:
                return E.conj(a)
            if op == 6:
                return E.re(a)
            if op == 7:
                return E.im(a)
            if op >= 10:
                c = {10: lambda: E.eq(a, b), 11: lambda: E.bnot(E.eq(a, b)), 12: lambda: E.lt(a, b),
                     13: lambda: E.le(a, b), 14: lambda: E.lt(b, a), 15: lambda: E.le(b, a)}[op]()
                return 1 if T.PATH[-1].decide(c) else 0
        except Exception as e:  # ctypes callbacks cannot propagate
            errors.append(repr(e))
            return E.fresh("error")
        errors.append(f"bad op {op}")
        return 0

    def cst(r, i):
        return E.from_number(complex(r, i)) if i else E.from_number(r)

    b, c = BIN(binop), CON(cst)
    _keep.extend([b, c])
    loader = importlib.machinery.ExtensionFileLoader("philtorch._C", so)
    spec = importlib.util.spec_from_loader("philtorch._C", loader, origin=so)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules["philtorch._C"] = mod
    dll = ctypes.CDLL(so)
    dll.symx_set(b, c)


    def call(func, args, kwargs):
        n0 = len(errors)
        r = func._op_dk(getattr(torch._C.DispatchKey, KEY[0]), *args, **kwargs)
        if len(errors) > n0:
            raise T.Unsupported("C++ kernel: " + errors[n0])
        if not isinstance(r, T.SymTensor):
            raise T.Unsupported("C++ op returned a non-symbolic tensor")
        bad = [i for i in r._ids.reshape(-1).tolist() if not 0 <= i < len(E.op)]
        if bad:
            ids = r._ids
            flat = [i if 0 <= i < len(E.op) else E.fresh("garbage") for i in ids.reshape(-1).tolist()]
            ids.copy_(torch.tensor(flat, dtype=torch.int64).reshape(ids.shape))
        return r

    T.CXX_DISPATCH[0] = call
    return mod


def block_extension():
    """Make `from . import _C` fail, as when the compiled extension is absent."""
    sys.modules["philtorch._C"] = None
