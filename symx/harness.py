"""Case runner shared by all checks.

A check module defines PROPERTY (id), TITLE-level constants and `cases(tier)`
yielding Case objects.  For every case the real code runs once on symbolic
inputs; the solver is asked for inputs on which an output element differs from
the specification.  Counterexamples are replayed on the real library (real
kernels compiled from the current csrc) in a separate process before they are
reported.
"""
import argparse
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PHILTORCH_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


class In:
    """A symbolic input tensor."""

    def __init__(self, *shape, cplx=False, dtype=None, values=None, layout=None, grad=True, real_valued=False, scale=None):
        self.shape = tuple(shape)
        self.cplx = cplx
        self.dtype = dtype or ("complex128" if cplx else "float64")
        self.values = values      # nested list of numbers -> concrete (not symbolic)
        self.layout = layout
        self.grad = grad
        self.real_valued = real_valued
        self.scale = scale


class Case:
    def __init__(self, name, inputs, call, ref=None, grad=(), jvp=(), grad2=False, raises=False,
                 assume=None, dtype="auto", unordered=False, tol=1e-8, shapes=None, no_mutate=True,
                 setup=None, bounds=None, post=None, rand=None, check_dtype=True, ref_exact=True,
                 tol_solver=None, where=None, path_budget=None):
        self.name = name
        self.inputs = inputs
        self.call = call            # call(L, t) with t: dict name -> tensor
        self.ref = ref              # ref(t) with t: dict name -> nested Ex lists
        self.grad = grad            # names of inputs whose reverse-mode gradient is checked
        self.jvp = jvp              # names of inputs given tangents
        self.grad2 = grad2          # also check second-order (grad of grad)
        self.raises = raises
        self.assume = assume        # assume(t) -> list of bool node ids
        self.dtype = dtype
        self.tol = tol
        self.shapes = shapes
        self.no_mutate = no_mutate
        self.setup = setup
        self.bounds = bounds
        self.post = post
        self.rand = rand
        self.check_dtype = check_dtype
        self.tol_solver = tol_solver
        self.where = where
        self.path_budget = path_budget   # explore at most this many paths, those of generic inputs first
        self.truncated = 0


# ------------------------------------------------------------------ tensors
def apply_layout(t, layout):
    import torch
    if layout is None:
        return t
    if layout == "T":            # transposed storage of the last two dims
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if layout == "T01":
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    if layout == "rev":          # reversed dimension order
        n = t.dim()
        p = list(range(n))[::-1]
        return t.permute(p).contiguous().permute(p)
    if layout == "gap":          # every second element of a larger buffer along the last dim
        u = torch.stack([t, torch.zeros_like(t)], dim=-1).flatten(-2)
        return u[..., ::2]
    if layout == "off":          # non-zero storage offset
        u = torch.cat([torch.zeros_like(t[:1]), t], dim=0)
        return u[1:]
    if layout == "expand0":      # stride-0 batch
        return t[:1].expand(t.shape)
    if layout == "expand1":      # stride-0 second dimension
        return t[:, :1].expand(t.shape)
    raise ValueError(layout)


def layout_ref(n, layout):
    """nested list seen through the layout (only expand0 changes values)"""
    if layout == "expand1":
        return [[r[0]] * len(r) for r in n]
    return [n[0]] * len(n) if layout == "expand0" else n


def storage(t):
    """the whole memory behind a tensor, elements outside the view included"""
    import torch
    s = getattr(t, "_ids", None)
    s = t.detach() if s is None else s
    return torch.empty(0, dtype=s.dtype).set_(s.untyped_storage())


class KeyOps:
    """Calls the kernels registered under a given dispatch key (replays of the CUDA sources)."""

    def __init__(self, key):
        self.key = key

    def __getattr__(self, k):
        import torch
        op = getattr(torch.ops.philtorch, k).default
        return lambda *a: op._op_dk(self.key, *a)


class Lib:
    """Lazy namespace of library modules."""

    def __getattr__(self, k):
        if k == "ops":
            import torch
            from . import cxx
            t = sys.modules.get("symx.tensor")
            if cxx.KEY[0] != "CPU" and not (t and t.CXX_DISPATCH[0]):
                return KeyOps(getattr(torch._C.DispatchKey, cxx.KEY[0]))
            return torch.ops.philtorch
        m = importlib.import_module("philtorch" + ("" if k == "root" else "." + k.replace("__", ".")))
        return m


L = Lib()


def as_tuple(r):
    import torch
    if isinstance(r, torch.Tensor):
        return (r,)
    if isinstance(r, (tuple, list)):
        return tuple(r)
    return (r,)


def _nan_uninit():
    import torch
    torch.utils.deterministic.fill_uninitialized_memory = True
    torch.use_deterministic_algorithms(True, warn_only=True)


# ------------------------------------------------------------------ evaluation of a case
def run_call(case, tensors, mode):
    """Runs the code under test; mode 'sym' or 'real'. Returns list of (label, tensor)."""
    import torch
    want = set(case.grad) | set(case.jvp)
    t = {}
    base = {}
    for k, v in tensors.items():
        if k.startswith("$"):
            continue
        spec = case.inputs[k]
        if k in case.grad:
            v = v.detach().requires_grad_() if not v.requires_grad else v
        base[k] = v
        t[k] = apply_layout(v, spec.layout)
    case.watch = [(k, v, storage(v).clone()) for k, v in t.items() if case.inputs[k].layout and not case.grad and case.no_mutate]
    ctx = case.setup(L) if case.setup else None
    outs = []
    try:
        if ctx is not None:
            ctx.__enter__()
        if case.jvp:
            import torch.autograd.forward_ad as fw
            with fw.dual_level():
                td = {k: (fw.make_dual(v.detach(), tensors["$d_" + k]) if k in case.jvp else v.detach() if v.requires_grad else v)
                      for k, v in t.items()}
                r = as_tuple(case.call(L, td))
                for i, y in enumerate(r):
                    p, d = fw.unpack_dual(y)
                    if d is None:
                        d = torch.zeros_like(p)
                    outs.append((f"jvp{i}", d))
            return outs
        r = as_tuple(case.call(L, t))
        for i, y in enumerate(r):
            outs.append((f"out{i}", y))
        if case.grad:
            ys = [(i, y) for i, y in enumerate(r) if isinstance(y, torch.Tensor) and y.requires_grad]
            gs = [tensors[f"$g{i}"] for i, _ in ys]
            names = list(case.grad)
            gr = torch.autograd.grad([y for _, y in ys], [base[k] for k in names], gs,
                                     allow_unused=True, create_graph=case.grad2)
            gr = [torch.zeros_like(base[k]) if g is None else g for k, g in zip(names, gr)]
            for k, g in zip(names, gr):
                outs.append((f"grad_{k}", g))
            if case.grad2:
                hs = [tensors[f"$h_{k}"] for k in names]
                sel = [(g, h) for g, h in zip(gr, hs) if g.requires_grad]
                if sel:
                    g2 = torch.autograd.grad([g for g, _ in sel], [base[k] for k in names],
                                             [h for _, h in sel], allow_unused=True)
                else:
                    g2 = [None] * len(names)
                for k, g in zip(names, g2):
                    outs.append((f"grad2_{k}", torch.zeros_like(base[k]) if g is None else g))
        return outs
    finally:
        if ctx is not None:
            ctx.__exit__(None, None, None)


class CaseFailure(Exception):
    pass


def sym_inputs(case, suffix=""):
    """symbolic tensors for the inputs"""
    import torch
    from . import tensor as T, expr as E
    out = {}
    for k, s in case.inputs.items():
        dt = getattr(torch, s.dtype)
        if s.values is not None:
            t = torch.tensor(s.values, dtype=torch.complex128 if dt.is_complex else torch.float64).reshape(s.shape)
            out[k] = T.SymTensor(T.lift_ids(t), dt)
        else:
            out[k] = T.sym(k, s.shape, dt, real=(not s.cplx) or s.real_valued)
    return out


def expected_dtype(case):
    import torch
    if case.dtype not in ("auto", None):
        return getattr(torch, case.dtype)
    dts = [getattr(torch, s.dtype) for s in case.inputs.values()]
    r = dts[0]
    for d in dts[1:]:
        r = torch.promote_types(r, d)
    return r


class Obligations:
    """Everything to prove for one case on one path."""

    def __init__(self):
        self.pairs = []    # (label, index, got id, want id)
        self.errors = []   # structural mismatches (shape, dtype, mutation)
        self.env_vars = []


def prepare(case):
    """Symbolic inputs and the specification's expectations (no code under test runs)."""
    import torch
    from . import tensor as T, expr as E
    from .ex import nested, shape_of, flat
    ob = Obligations()
    tensors = sym_inputs(case)
    refs_in = {}
    for k, v in tensors.items():
        refs_in[k] = layout_ref(nested(v._ids), case.inputs[k].layout)
    ids_in = {k: v._ids.reshape(-1).tolist() for k, v in tensors.items()}
    ref = case.ref(refs_in)
    if not isinstance(ref, tuple):
        ref = (ref,)
    shapes = case.shapes or [None] * len(ref)
    wants = []
    for i, (r, sh) in enumerate(zip(ref, shapes)):
        wants.append((f"out{i}", tuple(sh) if sh is not None else shape_of(r), [e.id for e in flat(r)]))
    edt = expected_dtype(case)
    odts = {f"out{i}": (edt if not isinstance(case.dtype, (list, tuple)) else getattr(torch, case.dtype[i]))
            for i in range(len(ref))}
    allw = list(wants)
    all_out_ids = [w for _, _, ids in wants for w in ids]
    if case.jvp:
        dot = {}
        for k in case.jvp:
            s = case.inputs[k]
            d = T.sym("d_" + k, s.shape, getattr(torch, s.dtype), real=not s.cplx)
            d = T.SymTensor(apply_layout(d, s.layout)._ids, d.dtype) if s.layout else d
            tensors["$d_" + k] = d
            for a, b in zip(ids_in[k], d._ids.reshape(-1).tolist()):
                dot[a] = b
        allw = [(f"jvp{i}", sh, E.tangents(ids, dot)) for i, (_, sh, ids) in enumerate(wants)]
        odts = {f"jvp{i}": odts[f"out{i}"] for i in range(len(ref))}
    elif case.grad:
        seeds = []
        for i, (lab, sh, ids) in enumerate(wants):
            g = T.sym(f"g{i}", sh, odts[lab], real=not odts[lab].is_complex)
            tensors[f"$g{i}"] = g
            seeds += g._ids.reshape(-1).tolist()
        wrt = [v for k in case.grad for v in ids_in[k]]
        gr = E.gradients(all_out_ids, seeds, wrt)
        p = 0
        for k in case.grad:
            n = len(ids_in[k])
            allw.append((f"grad_{k}", case.inputs[k].shape, gr[p:p + n]))
            odts[f"grad_{k}"] = getattr(torch, case.inputs[k].dtype)
            p += n
        if case.grad2:
            hs = []
            for k in case.grad:
                s = case.inputs[k]
                h = T.sym("h_" + k, s.shape, getattr(torch, s.dtype), real=not s.cplx)
                tensors["$h_" + k] = h
                hs += h._ids.reshape(-1).tolist()
            g2 = E.gradients(gr, hs, wrt)
            p = 0
            for k in case.grad:
                n = len(ids_in[k])
                allw.append((f"grad2_{k}", case.inputs[k].shape, g2[p:p + n]))
                odts[f"grad2_{k}"] = getattr(torch, case.inputs[k].dtype)
                p += n
    ob.var_ids = {k: ids_in[k] for k in ids_in}
    for k, v in tensors.items():
        if k.startswith("$"):
            ob.var_ids[k] = v._ids.reshape(-1).tolist()
    ob.assume = [(b, True) for b in (case.assume(refs_in) if case.assume else [])]
    return ob, tensors, allw, odts


def expectations(case):
    """Obligations whose pairs only carry the specification (for replays)."""
    ob, _, allw, _ = prepare(case)
    for wl, sh, ids in allw:
        for j, w in enumerate(ids):
            ob.pairs.append((wl, j, w, w))
    return ob


def build(case, path):
    """Symbolic run + specification -> Obligations."""
    import torch
    from . import tensor as T, expr as E
    ob, tensors, allw, odts = prepare(case)
    path.base = list(ob.assume)
    before = {k: v._ids.clone() for k, v in tensors.items()}
    with T.FunctionMode(), T.SymMode():
        outs = run_call(case, tensors, "sym")
    if case.post:
        outs = case.post(outs)
    if len(outs) != len(allw):
        ob.errors.append(f"returned {len(outs)} values, expected {len(allw)}")
    for (lab, t), (wl, sh, ids) in zip(outs, allw):
        if not isinstance(t, torch.Tensor):
            if t is None or isinstance(t, (int, float, bool)):
                w = ids[0] if len(ids) == 1 else None
                if t is None or w is None or sh != ():
                    ob.errors.append(f"{wl}: got {t!r} where a tensor of shape {sh} is specified")
                else:
                    ob.pairs.append((wl, (), E.from_number(t), w))
                continue
            ob.errors.append(f"{wl}: unexpected result {type(t)}")
            continue
        if tuple(t.shape) != tuple(sh) and not (t.numel() == 0 and len(ids) == 0 and case.shapes is None):
            ob.errors.append(f"{wl}: shape {tuple(t.shape)}, specified {tuple(sh)}")
            continue
        if case.check_dtype and wl in odts and t.dtype != odts[wl]:
            ob.errors.append(f"{wl}: dtype {t.dtype}, specified {odts[wl]}")
        got = T.tolist(t)
        for j, (g, w) in enumerate(zip(got, ids)):
            ob.pairs.append((wl, j, g, w))
    if case.no_mutate:
        for k, v in before.items():
            if not torch.equal(v, tensors[k]._ids):
                ob.errors.append(f"input {k} was modified in place")
        for k, v, was in case.watch:
            if not torch.equal(storage(v), was):
                ob.errors.append(f"the memory of input {k} was modified in place")
    return ob


def explore(case, max_paths=200):
    """All feasible paths of the case. Yields (Obligations, path conditions)."""
    from . import tensor as T, solve, expr as E
    stack = [[]]
    n = 0
    budget = getattr(case, "path_budget", None)
    generic = {}

    def first(b):
        """the truth value a generic input gives is explored first when the paths are budgeted"""
        if not budget:
            return True
        try:
            r = random.Random(7)
            for v in E.free_vars([b]):
                if v not in generic:
                    h = random.Random(E.arg[v][0])
                    generic[v] = (Fraction(h.randint(3, 97), 7), Fraction(0) if E.real[v] else Fraction(h.randint(3, 97), 7))
            return E.evaluate([b], generic)[0][0] != 0
        except (E.EvalError, KeyError):
            return True
    while stack:
        prefix = stack.pop() if not budget else stack.pop(0)
        taken = []

        def oracle(path, b):
            i = len(path.cond)
            if i < len(prefix):
                taken.append(prefix[i])
                return prefix[i]
            fs = []
            f0 = first(b)
            for v in (f0, not f0):
                if solve.feasible(getattr(path, "base", []) + path.cond + [(b, v)]) != "unsat":
                    fs.append(v)
            if not fs:
                fs = [True]
            if len(fs) == 2:
                stack.append(list(taken) + [fs[1]])
            taken.append(fs[0])
            return fs[0]
        p = T.Path(oracle)
        case.last_path = p
        T.PATH.append(p)
        try:
            ob = build(case, p)
        finally:
            T.PATH.pop()
        n += 1
        yield ob, p.cond
        if budget and n >= budget and stack:
            case.truncated = len(stack)
            return
        if n > max_paths:
            raise RuntimeError("too many paths")


def random_env(ids, rng, spread=2, cplx=True):
    from . import expr as E
    env = {}
    for v in ids:
        r = Fraction(rng.randint(-spread, spread))
        i = Fraction(rng.randint(-spread, spread)) if not E.real[v] else Fraction(0)
        env[v] = (r, i)
    return env


def concretise(ob, conds, model, rng, tries=400):
    """Small rational assignment on which the outputs differ (exact evaluation)."""
    from . import expr as E
    roots = []
    for _, _, g, w in ob.pairs:
        roots += [g, w]
    cn = [b for b, _ in conds]
    allv = set(v for vs in ob.var_ids.values() for v in vs if E.op[v] == E.VAR)
    fv = [v for v in E.free_vars(roots + cn) if v not in allv]
    vs = sorted(allv) + fv
    cands = []
    if model is not None:
        env = {}
        for v in vs:
            m = model.get(v)
            if m is None:
                env[v] = (Fraction(1), Fraction(0))
            elif True in m and False in m and not E.real[v]:
                # z and conj(z) independent in the formal model: take real part average
                env[v] = ((m[False] + m[True]) / 2, (m[False] - m[True]) / 2)
            else:
                env[v] = (list(m.values())[0], Fraction(0))
        cands.append(env)
    pairs = [(k, p) for k, p in enumerate(ob.pairs) if p[2] != p[3]]
    sub = []
    for _, p in pairs:
        sub += [p[2], p[3]]
    for k in range(tries):
        env = random_env(vs, rng, 1 + k // 100) if k or not cands else cands[0]
        if k == 1 and cands:
            env = random_env(vs, rng, 2)
        try:
            vals = E.evaluate(sub + cn, env, SPECIAL)
        except (E.EvalError, ZeroDivisionError):
            continue
        ok = all((vals[len(sub) + i][0] != 0) == v for i, (_, v) in enumerate(conds))
        if not ok:
            continue
        for i in range(len(pairs)):
            a, b = vals[2 * i], vals[2 * i + 1]
            if abs(a[0] - b[0]) + abs(a[1] - b[1]) > Fraction(1, 1000):
                return env, pairs[i][1], vals[2 * i], vals[2 * i + 1]
    return None


def _f(x):
    return Fraction(x)


import math  # noqa: E402

SPECIAL = {}


def replay_json(case, ob, env, module, tier, detail, failing=None):
    """Concrete replay description: inputs and exactly evaluated expected outputs."""
    from . import expr as E
    d = {"module": module, "tier": tier, "case": case.name, "detail": detail, "inputs": {}, "expected": []}
    if env is not None:
        for k, vs in ob.var_ids.items():
            d["inputs"][k] = [[_num(env[v] if E.op[v] == E.VAR else E.cval(v))] for v in vs]
        labs = {}
        for lab, j, g, w in ob.pairs:
            labs.setdefault(lab, []).append(w)
        for lab, ws in labs.items():
            try:
                vals = E.evaluate(ws, env, SPECIAL)
                d["expected"].append([lab, [_num(v) for v in vals]])
            except E.EvalError as e:
                d["expected"].append([lab, None])
    if failing is not None:
        d["failing"] = [failing[0], failing[1]]
    return d


def _num(v):
    return [float(v[0]), float(v[1])]


# ------------------------------------------------------------------ main driver
class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known = []
        self.errors = []         # the machinery failed
        self.inconclusive = []   # a case neither decided nor refuted
        self.cases = 0
        self.paths = 0
        self.obligations = 0
        self.samples = []
        self.distinct = 0
        self.nontrivial = 0
        self.validated = 0
        self.truncated = 0
        self.units = 0           # pieces of work decided by extra()


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]


def do_case(case, modname, tier, seed):
    """Runs one case; returns a result dict (picklable)."""
    from . import tensor as T, solve, expr as E
    rng = random.Random(f"{seed}:{case.name}")
    res = dict(name=case.name, status="ok", paths=0, obligations=0, nontrivial=0, detail="", replay=None, sample=None)
    try:
        if case.raises:
            tensors = sym_inputs(case)
            try:
                with T.SymMode():
                    outs = run_call(case, tensors, "sym")
            except (T.Unsupported, T.DataDependent):
                raise
            except Exception as e:
                res["paths"] = 1
                res["obligations"] = 1
                res["nontrivial"] = 1
                res["sample"] = f"rejected with {type(e).__name__}"
                return res
            shp = [tuple(o.shape) for _, o in outs]
            res.update(status="viol", detail=f"inconsistent arguments accepted, returned shapes {shp}",
                       replay={"module": modname, "tier": tier, "case": case.name, "detail": "must raise", "inputs": {}, "expected": []})
            return res
        for ob, conds in explore(case):
            res["paths"] += 1
            res["obligations"] += len(ob.pairs)
            res["nontrivial"] += sum(1 for p in ob.pairs if p[2] != p[3])
            allc = list(conds) + ob.assume
            if ob.errors:
                env = random_env([v for vs in ob.var_ids.values() for v in vs if E.op[v] == E.VAR], rng)
                res.update(status="viol", detail="; ".join(ob.errors),
                           replay=replay_json(case, ob, env, modname, tier, ob.errors[0]))
                return res
            pairs = [(g, w) for _, _, g, w in ob.pairs]
            if case.tol_solver is not None:
                r = solve.prove_close(pairs, case.tol_solver, allc)
            else:
                r = solve.prove_equal(pairs, allc)
            if res["sample"] is None and ob.pairs:
                lab, j, g, w = ob.pairs[min(len(ob.pairs) - 1, len(ob.pairs) // 2)]
                res["sample"] = f"{lab}[{j}] = {E.show(g, 7)[:300]}  vs  {E.show(w, 7)[:300]}: {r.status}"
            if r.status == "unsat":
                continue
            if r.status == "unknown":
                env = random_env([v for vs in ob.var_ids.values() for v in vs if E.op[v] == E.VAR], rng)
                res.update(status="error", detail="solver answered unknown: " + r.detail,
                           replay=replay_json(case, ob, env, modname, tier, "solver unknown"))
                return res
            c = concretise(ob, allc, r.model, rng)
            if c is None:
                res.update(status="error", detail="solver reported sat but no concrete witness was found")
                return res
            env, failing, gv, wv = c
            det = f"{failing[0]}[{failing[1]}] = {_num(gv)} but the specification gives {_num(wv)}"
            res.update(status="viol", detail=det, replay=replay_json(case, ob, env, modname, tier, det, failing))
            return res
        res["truncated"] = case.truncated
        if res["paths"] and not res["obligations"] and not (case.shapes and not any(math.prod(s) for s in case.shapes)):
            res["vacuous"] = True
        return res
    except Exception as e:
        # either the engine cannot follow the code, or the code raised on inputs it
        # must accept: the replay on the real library decides which
        tb = traceback.format_exc(limit=-4)
        eng = isinstance(e, (T.Unsupported, T.DataDependent))
        rp = None
        try:
            ob = expectations(case)
            ids = [v for vs in ob.var_ids.values() for v in vs if E.op[v] == E.VAR]
            env = None
            for cnd in (ob.assume + (list(case.last_path.cond) if getattr(case, "last_path", None) else []), ob.assume):
                for k in range(400):
                    e2 = random_env(ids, rng, 1 + k % 3)
                    try:
                        a = E.evaluate([b for b, _ in cnd], e2)
                    except (E.EvalError, KeyError):
                        continue
                    if all((v[0] != 0) == w for v, (_, w) in zip(a, cnd)):
                        env = e2
                        break
                if env is not None:
                    break
            if env is None:
                raise RuntimeError("no concrete input satisfies the assumptions")
            rp = replay_json(case, ob, env, modname, tier, f"raised {type(e).__name__}: {e}")
        except Exception:
            tb += traceback.format_exc(limit=-3)
        res.update(status="error" if eng else "raise", replay=rp, tb=tb,
                   detail=("engine: " if eng else "raised ") + f"{type(e).__name__}: {str(e)[:300]}")
        return res


def run_check(modname, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    rep = Report(prop)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    from . import cxx
    fatal = None
    build_h = cxx.start_build(getattr(mod, "CUDA_STUB", False)) if getattr(mod, "NEEDS_CXX", True) else None
    sys.path.insert(0, REPO)
    try:
        import torch
        torch.set_num_threads(1)
        from . import tensor as T, solve, expr as E
        if build_h:
            so = cxx.finish_build(build_h)
            cxx.load(so)
        else:
            cxx.block_extension()
        if getattr(mod, "HELION_STUB", False):
            from . import helion_stub
            helion_stub.install()
        import philtorch  # noqa: F401
        pf = os.path.realpath(philtorch.__file__)
        assert pf.startswith(os.path.realpath(REPO)), pf
        cases = list(mod.cases(a.tier))
    except cxx.CompileError as e:
        print("ERROR: the symbolic build of csrc failed:\n" + str(e)[-3000:])
        write_evidence(mod, rep, a.tier, seed, t0, fatal="compile error")
        return 2
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names: " + str([n for n in names if names.count(n) > 1][:3])
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    results = run_pool(cases, modname, a.tier, seed, a.jobs)
    for case, r in zip(cases, results):
        rep.cases += 1
        rep.paths += r["paths"]
        rep.obligations += r["obligations"]
        rep.nontrivial += r["nontrivial"]
        rep.truncated += bool(r.get("truncated"))
        if a.v:
            print(case.name, r["status"], r["obligations"], f"{r.get('time', 0):.2f}s", r["detail"][:200], flush=True)
        if r["sample"] and len(rep.samples) < 8 and (len(rep.samples) < 3 or rep.cases % max(1, len(cases) // 6) == 0):
            rep.samples.append({"case": case.name, "obligation": r["sample"]})
        if r["status"] == "ok" and r.get("vacuous"):
            rep.errors.append(f"{case.name}: no obligation was generated")
    cand = [(c, r) for c, r in zip(cases, results) if r["status"] != "ok"]
    if cand:
        confirm(cand, rep, modname, a.tier)
    extra = {}
    if hasattr(mod, "extra"):
        try:
            extra = mod.extra(a.tier, rep) or {}
        except Exception as e:
            rep.errors.append("extra: " + repr(e) + traceback.format_exc(limit=-3))
    if a.tier == "thorough" and getattr(mod, "VALIDATE", True) and not cand and not a.only:
        validate(cases, rep, modname, a.tier, seed)
    write_evidence(mod, rep, a.tier, seed, t0, extra=extra)
    for k in rep.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for v, path in rep.violations:
        print(f"  {v}")
    print(f"{prop}: cases={rep.cases} paths={rep.paths} obligations={rep.obligations} queries={STATS()['queries']} "
          f"unsat={STATS()['unsat']} solver_s={STATS()['solver_s']:.2f} wall={time.time()-t0:.1f}s")
    for e in rep.errors[:10]:
        print("ERROR:", e)
    for e in rep.inconclusive[:10]:
        print("INCONCLUSIVE:", e)
    if rep.violations:
        print(f"VIOLATION property={prop} replay={rep.violations[0][1]}")
        return 1
    strict = os.environ.get("SYMX_STRICT")
    if rep.errors or len(rep.inconclusive) > (0 if strict else (len(cases) + rep.units) // 2):
        return 2
    return 0


_pool_stats = {}


def STATS():
    from . import solve
    s = dict(solve.stats)
    for k, v in _pool_stats.items():
        if isinstance(v, (int, float)):
            s[k] = s.get(k, 0) + v
    return s


_pool_ops = set()


BUDGET = {"quick": 600.0, "thorough": 7200.0}     # seconds for all cases; what is left is reported as not explored
CASE_LIMIT = {"quick": 150, "thorough": 900}       # seconds for one case


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def timed_case(case, modname, tier, seed):
    import signal
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT.get(tier, 150))
    t = time.time()
    try:
        r = do_case(case, modname, tier, seed)
    except CaseTimeout:
        r = blank(case, "case time limit reached")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    r["time"] = time.time() - t
    return r


def blank(case, why):
    return dict(name=case.name, status="error", paths=0, obligations=0, nontrivial=0, detail=why, replay=None, sample=None, time=0.0)


def run_pool(cases, modname, tier, seed, jobs):
    """Fork workers after import; each takes the next case from a shared counter and
    streams its results back; the budget bounds the whole run."""
    from . import solve, tensor as T
    if jobs <= 1 or len(cases) < 8:
        return [timed_case(c, modname, tier, seed) for c in cases]
    import pickle
    import multiprocessing as mp
    import signal
    import struct
    import threading
    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    limit = time.time() + BUDGET.get(tier, 600.0)
    procs = []
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                f = os.fdopen(wfd, "wb")

                def send(x):
                    b = pickle.dumps(x)
                    f.write(struct.pack("<Q", len(b)) + b)
                    f.flush()
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= len(cases) or time.time() > limit:
                        break
                    send((i, timed_case(cases[i], modname, tier, seed)))
                send((-1, (dict(solve.stats), T.stats["names"], T.stats["ops"], T.stats["cxx_calls"])))
                f.close()
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
        os.close(wfd)
        procs.append((pid, r))
    results = [None] * len(cases)
    lock = threading.Lock()

    def drain(fd):
        with os.fdopen(fd, "rb") as f:
            while True:
                h = f.read(8)
                if len(h) < 8:
                    return
                n = struct.unpack("<Q", h)[0]
                b = f.read(n)
                if len(b) < n:
                    return
                i, x = pickle.loads(b)
                with lock:
                    if i >= 0:
                        results[i] = x
                        continue
                    st, names, ops, cx = x
                    for k, v in st.items():
                        if isinstance(v, (int, float)):
                            _pool_stats[k] = _pool_stats.get(k, 0) + v
                    _pool_ops.update(names)
                    T.stats["ops"] += ops
                    T.stats["cxx_calls"] += cx
    th = [threading.Thread(target=drain, args=(r,)) for _, r in procs]
    [t.start() for t in th]
    for t in th:
        t.join(max(1.0, limit + 40 - time.time()))
    for pid, _ in procs:
        if any(t.is_alive() for t in th):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    [t.join(10) for t in th]
    for i, r in enumerate(results):
        if r is None:
            late = time.time() > limit
            results[i] = blank(cases[i], "not explored within the time budget" if late else "worker process died")
    return results


def confirm(cand, rep, modname, tier):
    """Replay candidate violations on the real library in one separate process."""
    known = known_findings(rep.prop)
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    todo = []
    for c, r in cand:
        if r["replay"] is None:
            rep.inconclusive.append(f"{c.name}: {r['detail']} (no replay)\n{r.get('tb','')}")
            continue
        p = os.path.join(d, f"{rep.prop}-{len(todo)}.json")
        json.dump(r["replay"], open(p, "w"), indent=1)
        todo.append((c, r, p))
    verdict = {}
    sel = todo[:40]
    left = [x[2] for x in sel]
    while left:
        p = subprocess.run([PY, "-m", "symx.replay"] + left, cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=VERIF))
        n = 0
        for line in p.stdout.splitlines():
            if line.startswith("REPLAY "):
                _, path, v, *msg = line.split(" ", 3)
                verdict[path] = (v, msg[0] if msg else "")
                n += 1
        rest = [x for x in left if x not in verdict]
        if rest and p.returncode < 0:     # the real library crashed on this one
            verdict[rest[0]] = ("reproduced", f"the process died with signal {-p.returncode}")
            rest = rest[1:]
        elif rest:
            for x in rest:
                verdict[x] = ("missing", p.stderr[-1500:])
            rest = []
        left = rest
    for c, r, path in sel:
        v, msg = verdict.get(path, ("missing", ""))
        if v == "reproduced":
            kf = [k for k in known if c.name in k.get("cases", [])]
            if kf:
                rep.known.append(f"{c.name}: {kf[0]['what']}")
            else:
                rep.violations.append((f"{c.name}: {r['detail']} | real run: {msg}", path))
        else:
            rep.inconclusive.append(f"{c.name}: {r['detail']} (real run: {v} {msg})\n{r.get('tb','')}")
    if len(todo) > len(sel) and not rep.violations:
        for c, r, path in todo[len(sel):]:
            rep.inconclusive.append(f"{c.name}: {r['detail']} (not replayed)")


def validate(cases, rep, modname, tier, seed):
    """Translator validation: random concrete inputs through the real library and
    through the evaluated specification, in a separate process."""
    rng = random.Random(seed)
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    sel = [c for c in cases if not c.raises and not c.assume]
    rng.shuffle(sel)
    sel = sel[:60]
    descs = []
    from . import expr as E, tensor as T
    for c in sel:
        try:
            for ob, conds in explore(c):
                env = random_env([v for vs in ob.var_ids.values() for v in vs if E.op[v] == E.VAR], rng, 3)
                if conds:
                    break
                descs.append(replay_json(c, ob, env, modname, tier, "validation"))
                break
        except Exception as e:
            continue
    path = os.path.join(d, f"{rep.prop}-validate.json")
    json.dump(descs, open(path, "w"))
    p = subprocess.run([PY, "-m", "symx.replay", "--batch", path], cwd=VERIF, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=VERIF))
    for line in p.stdout.splitlines():
        if line.startswith("VALID "):
            rep.validated += 1
        if line.startswith("INVALID "):
            rep.errors.append("translator validation: " + line)
    if p.returncode not in (0, 1):
        rep.errors.append("translator validation failed: " + p.stderr[-800:])


def write_evidence(mod, rep, tier, seed, t0, extra=None, fatal=None):
    st = STATS() if fatal is None else {}
    from . import cxx
    ops = []
    try:
        from . import tensor as T
        ops = sorted(T.stats["names"] | _pool_ops)
        nops = T.stats["ops"]
        ncx = T.stats["cxx_calls"]
    except Exception:
        nops = ncx = 0
    cov = {
        "explanation": ("Bounded symbolic execution of the real code with SMT: for each listed shape/configuration the "
                        "tensors' elements are symbolic, so each obligation is decided by z3 for every input value; "
                        "shapes, orders and lengths are bounded as stated in `bounds`."),
        "functions_encoded": getattr(mod, "FUNCTIONS", []),
        "csrc_compiled": cxx.info["files"],
        "csrc_compile_s": cxx.info["compile_s"],
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_the_claim": getattr(mod, "OUTSIDE", OUTSIDE),
        "cases": rep.cases,
        "paths": rep.paths,
        "obligations": rep.obligations,
        "obligations_not_syntactically_equal": rep.nontrivial,
        "queries": st.get("queries", 0),
        "queries_unsat": st.get("unsat", 0),
        "queries_sat": st.get("sat", 0),
        "queries_unknown": st.get("unknown", 0),
        "queries_closed_by_z3_simplifier": st.get("by_simplifier", 0),
        "feasibility_queries": st.get("feasibility", 0),
        "solver_s": round(st.get("solver_s", 0.0), 3),
        "aten_ops_interpreted": nops,
        "cxx_kernel_calls": ncx,
        "distinct_ops": ops,
        "real_runs_validating_the_encoding": rep.validated,
        "cases_with_paths_left_unexplored": rep.truncated,
        "samples": rep.samples,
        "errors": rep.errors[:20],
        "inconclusive_cases": [e.split("\n")[0] for e in rep.inconclusive[:40]],
    }
    if fatal:
        cov["fatal"] = fatal
    if extra:
        cov.update(extra)
    ev = {"property": mod.PROPERTY, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
          "coverage": cov, "assumptions": ASSUME + getattr(mod, "ASSUME", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(rep.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", mod.PROPERTY + ".json"), "w"), indent=1)


OUTSIDE = ("Shapes, orders and lengths beyond the bounds; floating point rounding, overflow, inf and nan "
           "(arithmetic is exact over the reals / complex numbers); inputs on which a denominator is zero; CUDA.")
ASSUME = [
    "ATen data-movement ops run as the real ops on element ids; ATen arithmetic ops follow their documented meaning (symx/tensor.py).",
    "torchlpc ops and torch.linalg inverse/solve/eigvals are replaced by their documented contracts.",
    "C++ kernels are the current csrc compiled with scalar_t replaced by a symbolic scalar, single-threaded.",
    "z3 5.3 is trusted for unsat answers.",
]
