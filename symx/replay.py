"""Replays recorded inputs on the real library (kernels compiled from the current
csrc, ordinary scalars).  Usage: python -m symx.replay file.json ... | --batch file.json

Prints `REPLAY <file> reproduced|not-reproduced <message>` for each file."""
import importlib
import json
import math
import os
import subprocess
import sys
import warnings

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
from . import cxx  # noqa: E402
from .harness import REPO, run_call, storage, In  # noqa: E402


def real_build(cuda=False):
    import glob
    import sysconfig
    from concurrent.futures import ThreadPoolExecutor
    d = cxx.scratch()
    inc, lib = cxx.torch_paths()
    pyinc = sysconfig.get_paths()["include"]
    srcs = sorted(glob.glob(os.path.join(cxx.CSRC, "*.cpp")))
    if cuda:
        srcs += cxx.cu_sources()
    base = ["g++", "-std=c++20", "-O1", "-fPIC", "-w", "-fopenmp", "-c", "-I" + inc,
            "-I" + os.path.join(inc, "torch", "csrc", "api", "include"), "-I" + pyinc, "-I" + cxx.CSRC,
            "-DTORCH_EXTENSION_NAME=_C"]

    def comp(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        p = subprocess.run(base[:1] + (cxx.CU_FLAGS if s.endswith(".cu") else []) + base[1:] + [s, "-o", o], capture_output=True, text=True)
        if p.returncode:
            raise SystemExit("compile failed: " + p.stderr[-2000:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    so = os.path.join(d, "_C.so")
    subprocess.run(["g++", "-shared", "-fopenmp", "-o", so] + objs +
                   ["-L" + lib, "-ltorch", "-ltorch_cpu", "-ltorch_python", "-lc10", "-Wl,-rpath," + lib], check=True)
    return so


def load_real(cuda=False):
    import importlib.machinery
    import importlib.util
    so = real_build(cuda)
    import torch  # noqa
    loader = importlib.machinery.ExtensionFileLoader("philtorch._C", so)
    spec = importlib.util.spec_from_loader("philtorch._C", loader, origin=so)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    sys.modules["philtorch._C"] = m
    sys.path.insert(0, REPO)


_cases = {}


def find_case(desc):
    key = (desc["module"], desc["tier"])
    if key not in _cases:
        mod = importlib.import_module(desc["module"])
        _cases[key] = {c.name: c for c in mod.cases(desc["tier"])}
    return _cases[key][desc["case"]]


def mk_tensor(spec, vals):
    import torch
    dt = getattr(torch, spec.dtype)
    if vals is None:
        g = torch.Generator().manual_seed(3)
        if not (dt.is_complex or dt.is_floating_point):
            t = torch.randint(-2, 3, spec.shape, generator=g)
            return t.to(dt)
        t = torch.randn(spec.shape, dtype=torch.float64, generator=g)
        return t.to(dt)
    flat = [complex(v[0][0], v[0][1]) for v in vals]
    t = torch.tensor(flat, dtype=torch.complex128).reshape(spec.shape)
    if dt.is_complex:
        return t.to(dt)
    return t.real.clone().to(dt)


def one(desc):
    """returns (reproduced?, message)"""
    import torch
    case = find_case(desc)
    tensors = {}
    for k, s in case.inputs.items():
        v = desc["inputs"].get(k)
        if s.values is not None:
            t = torch.tensor(s.values, dtype=torch.complex128 if "complex" in s.dtype else torch.float64).reshape(s.shape)
            tensors[k] = t.to(getattr(torch, s.dtype))
        else:
            tensors[k] = mk_tensor(s, v)
    exp = dict((a, b) for a, b in desc["expected"])
    before = {k: v.clone() for k, v in tensors.items()}
    for k, v in desc["inputs"].items():
        if k.startswith("$g"):
            i = int(k[2:])
            n = f"out{i}"
            tensors[k] = (k, v)
        elif k.startswith("$"):
            nm = k[3:]
            t = mk_tensor(case.inputs[nm], v)
            tensors[k] = t
    # cotangent shapes follow the actual outputs
    class G(dict):
        pass
    try:
        if any(k.startswith("$g") for k in tensors):
            probe = run_call(_nograd(case), {k: t for k, t in tensors.items() if not k.startswith("$")}, "real")
            for k in list(tensors):
                if k.startswith("$g"):
                    i = int(k[2:])
                    y = probe[i][1]
                    flat = [complex(q[0][0], q[0][1]) for q in tensors[k][1]]
                    t = torch.tensor(flat, dtype=torch.complex128)
                    if t.numel() != y.numel():
                        return True, f"out{i} has {y.numel()} elements, specified {t.numel()}"
                    t = t.reshape(y.shape)
                    tensors[k] = t.to(y.dtype) if y.is_complex() else t.real.to(y.dtype)
        outs = run_call(case, tensors, "real")
    except Exception as e:
        if case.raises:
            return False, f"raised {type(e).__name__}: {str(e)[:200]}"
        return True, f"raised {type(e).__name__}: {str(e)[:200]}"
    if case.raises:
        return True, "accepted: " + str([tuple(o.shape) for _, o in outs])
    if case.post:
        outs = case.post(outs)
    for k, v in before.items():
        if case.no_mutate and not torch.equal(v, tensors[k].detach()):
            return True, f"input {k} was modified in place"
    for k, v, was in case.watch:
        now = storage(v)
        if not torch.equal(now, was) and not torch.equal(now.isnan(), was.isnan()):
            return True, f"the memory of input {k} was modified in place"
        if not torch.equal(now.nan_to_num(), was.nan_to_num()):
            return True, f"the memory of input {k} was modified in place"
    if desc.get("detail", "").find("returned") == 0 and len(outs) != len(exp):
        return True, f"returned {len(outs)} values"
    m = desc.get("detail", "")
    for lab, o in outs:
        if m.startswith(lab + ": shape"):
            want = m.split("specified ")[1]
            if str(tuple(o.shape)) != want:
                return True, f"{lab} has shape {tuple(o.shape)}, specified {want}"
        if m.startswith(lab + ": dtype"):
            want = m.split("specified ")[1]
            if str(o.dtype) != want:
                return True, f"{lab} has dtype {o.dtype}, specified {want}"
        if m.startswith(lab + ": got") and not isinstance(o, torch.Tensor):
            return True, f"{lab} is {o!r}"
    worst = (0.0, "")
    for lab, o in outs:
        e = exp.get(lab)
        if e is None:
            continue
        w = torch.tensor([complex(*v) for v in e], dtype=torch.complex128)
        if not isinstance(o, torch.Tensor):
            o = torch.tensor(o)
        g = o.detach().reshape(-1).to(torch.complex128)
        if g.numel() != w.numel():
            return True, f"{lab}: {g.numel()} elements, specified {w.numel()}"
        err = (g - w).abs() / (1.0 + w.abs())
        err = torch.where(torch.isnan(err), torch.full_like(err, math.inf), err)
        if err.numel() and err.max() > worst[0]:
            j = int(err.argmax())
            worst = (float(err.max()), f"{lab}[{j}] = {complex(g[j])} expected {complex(w[j])}")
    if worst[0] > case.tol:
        return True, worst[1]
    return False, f"max relative error {worst[0]:.3g}"


def _nograd(case):
    import copy
    c = copy.copy(case)
    c.grad = ()
    c.jvp = ()
    return c


def main():
    args = sys.argv[1:]
    first = json.load(open(args[1] if args[0] == "--batch" else args[0]))
    first = first[0] if isinstance(first, list) else first
    mod = importlib.import_module(first["module"]) if "module" in first else None
    if mod is not None and not getattr(mod, "NEEDS_CXX", True):
        cxx.block_extension()
        sys.path.insert(0, REPO)
    else:
        load_real(getattr(mod, "CUDA_STUB", False))
    if getattr(mod, "HELION_STUB", False):
        from . import helion_stub
        helion_stub.install()
    import torch
    torch.utils.deterministic.fill_uninitialized_memory = True
    torch.use_deterministic_algorithms(True, warn_only=True)
    if args and args[0] == "--batch":
        bad = 0
        for d in json.load(open(args[1])):
            try:
                r, msg = one(d)
            except Exception as e:
                r, msg = True, repr(e)
            print(("INVALID " if r else "VALID ") + d["case"] + " " + msg)
            bad |= r
        return 1 if bad else 0
    rc = 0
    for f in args:
        d = json.load(open(f))
        try:
            r, msg = one(d)
            print(f"REPLAY {f} {'reproduced' if r else 'not-reproduced'} {msg}".replace("\n", " "))
            rc |= r
        except Exception as e:
            print(f"REPLAY {f} error {e!r}".replace("\n", " "))
    return rc


if __name__ == "__main__":
    sys.exit(main())
