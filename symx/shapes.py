"""Symbolic execution of the library's Python code over tensor *shapes*.

Every dimension is a symbolic integer.  One run executes the real function on
fake tensors (PyTorch's own meta semantics of every ATen operation) while the
branches taken on dimensions are recorded as a path condition; z3 then picks
dimensions outside all path conditions seen so far, until none are left inside
the stated bounds.  A condition z3 cannot express narrows the path to the single
point that was run.  The outcome of every path is confirmed on the real code
with ordinary tensors."""
import logging
import warnings

from . import solve  # noqa: F401  (makes z3 importable)
import z3

warnings.filterwarnings("ignore")


class Untranslatable(Exception):
    pass


def tr(e, env):
    if isinstance(e, bool) or not e.args:
        return tr1(e, env)
    memo = env.setdefault("$memo", {})
    r = memo.get(e)
    if r is None:
        r = memo[e] = tr1(e, env)
    return r


def tr1(e, env):
    import sympy
    from torch.utils._sympy import functions as F
    n = type(e).__name__
    if e is sympy.true or e is sympy.false or isinstance(e, bool):
        return z3.BoolVal(bool(e))
    if e.is_Symbol:
        return env[str(e)]
    if e.is_Integer:
        return z3.IntVal(int(e))
    if n == "ToFloat":
        return z3.ToReal(tr(e.args[0], env))
    if getattr(e, "is_Float", False) or getattr(e, "is_Rational", False):
        return z3.RealVal(str(e))
    a = e.args
    if e.is_Add:
        return z3.Sum([tr(x, env) for x in a])
    if e.is_Mul:
        r = tr(a[0], env)
        for x in a[1:]:
            r = r * tr(x, env)
        return r
    if e.is_Pow and a[1].is_Integer and 0 <= int(a[1]) <= 4:
        r = z3.IntVal(1)
        b = tr(a[0], env)
        for _ in range(int(a[1])):
            r = r * b
        return r
    if n in ("Equality", "Unequality", "StrictLessThan", "LessThan", "StrictGreaterThan", "GreaterThan"):
        x, y = tr(a[0], env), tr(a[1], env)
        return {"Equality": lambda: x == y, "Unequality": lambda: x != y, "StrictLessThan": lambda: x < y,
                "LessThan": lambda: x <= y, "StrictGreaterThan": lambda: x > y, "GreaterThan": lambda: x >= y}[n]()
    if n == "And":
        return z3.And([tr(x, env) for x in a])
    if n == "Or":
        return z3.Or([tr(x, env) for x in a])
    if n == "Not":
        return z3.Not(tr(a[0], env))
    if n in ("Max", "Min"):
        r = tr(a[0], env)
        for x in a[1:]:
            y = tr(x, env)
            r = z3.If(r > y, r, y) if n == "Max" else z3.If(r < y, r, y)
        return r
    if n in ("Mod", "PythonMod", "ModularIndexing") and len(a) == 2:
        return tr(a[0], env) % tr(a[1], env)      # dims are positive: SMT-LIB mod agrees
    if n in ("FloorDiv", "CleanDiv"):
        return tr(a[0], env) / tr(a[1], env)
    return table(e, env)


def table(e, env):
    """an expression over at most two dimensions, tabulated over their (finite) bounds"""
    import itertools
    import sympy
    syms = sorted(e.free_symbols, key=str)
    if not 1 <= len(syms) <= 2:
        raise Untranslatable(type(e).__name__)
    doms = [range(*env["$" + str(s)]) for s in syms]
    rel = getattr(e, "is_Boolean", False) or isinstance(e, sympy.logic.boolalg.Boolean)
    out = None
    for vals in itertools.product(*doms):
        try:
            v = e.xreplace({s: sympy.Integer(x) for s, x in zip(syms, vals)})
            if rel:
                v = z3.BoolVal(bool(v))
            else:
                if float(v) != int(v):
                    raise Untranslatable("fraction")
                v = z3.IntVal(int(v))
        except Untranslatable:
            raise
        except Exception as ex:  # noqa: BLE001
            if isinstance(ex, (ZeroDivisionError, AssertionError)):
                continue
            raise Untranslatable(repr(ex))
        c = z3.And([env[str(s)] == x for s, x in zip(syms, vals)])
        out = v if out is None else z3.If(c, v, out)
    if out is None:
        raise Untranslatable("empty table")
    return out


class Path:
    def __init__(self, cond, dims, outcome, detail, points, err):
        self.cond, self.dims, self.outcome, self.detail, self.point, self.err = cond, dims, outcome, detail, points, err


def fast_static(ShapeEnv):
    """no range analysis: what is not a constant after substitution becomes a guard (z3 decides it here)"""
    if getattr(ShapeEnv, "_symx", False):
        return

    full = ShapeEnv._maybe_evaluate_static

    def static(self, expr, **k):
        import sympy
        if k.get("compute_hint") or k.get("axioms") is not None:
            return full(self, expr, **k)
        e = self.replace(expr)
        return e if isinstance(e, (bool, sympy.logic.boolalg.BooleanAtom)) or getattr(e, "is_number", False) else None
    static.cache_clear = full.cache_clear
    ShapeEnv._maybe_evaluate_static = static
    ShapeEnv._symx = True


def run_fake(fn, ranks, hint, opts, bounds):
    """one run on fake tensors; returns (outcome, detail, guards as z3 or None)"""
    import torch
    from torch._dispatch.python import enable_python_dispatcher
    from torch._dynamo.source import ConstantSource
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch.fx.experimental.symbolic_shapes import DimDynamic, ShapeEnv
    fast_static(ShapeEnv)
    se = ShapeEnv(specialize_zero_one=False, duck_shape=False)
    env, ts = {}, {}
    mode = FakeTensorMode(shape_env=se, allow_non_fake_inputs=True)
    mode.cache_enabled = False
    with mode as m:
        for k, r in ranks.items():
            if r is None:
                continue
            dims = []
            for i in range(r):
                v = hint[f"{k}{i}"]
                src = ConstantSource(f"{k}{i}")
                sym = se.create_symbol(v, src, dynamic_dim=DimDynamic.DYNAMIC, constraint_dim=None, do_not_specialize_zero_one=True)
                env[str(sym)] = z3.Int(f"{k}{i}")
                env["$" + str(sym)] = bounds(f"{k}{i}")
                dims.append(se.create_symintnode(sym, hint=v, source=src))
            ts[k] = torch.empty(dims, dtype=opts.get(k, torch.float64))
        res = None
        try:
            with enable_python_dispatcher():
                res = fn(ts)
            outcome, detail = "accept", ""
        except Exception as e:      # noqa: BLE001
            outcome, detail = "reject", f"{type(e).__name__}: {e}"[:160]
    conds = []
    ok = True
    for g in se.guards:
        try:
            conds.append(tr(g.expr, env))
        except Untranslatable as u:
            ok = False
            detail += f" [untranslatable: {u}: {g.expr}]"
    run_fake.env = env
    # replacements found by equality guards are implied by the guards themselves
    return outcome, detail, conds if ok else None, res


def real_tensors(ranks, dims, opts):
    import torch
    g = torch.Generator().manual_seed(1)
    ts = {}
    for k, r in ranks.items():
        if r is None:
            continue
        d = opts.get(k, torch.float64)
        t = 0.3 * torch.randn([dims[f"{k}{i}"] for i in range(r)], dtype=torch.float64, generator=g)
        ts[k] = t.to(d)
    return ts


def run_real(fn, ranks, dims, opts):
    try:
        r = fn(real_tensors(ranks, dims, opts))
        return "accept", r
    except Exception as e:      # noqa: BLE001
        return "reject", f"{type(e).__name__}: {e}"[:160]


class Explorer:
    """explores fn over all dims lo..hi; calls visit(path) for every path"""

    def __init__(self, fn, ranks, lo=1, hi=4, dtypes=None, max_paths=2000, bounds=None, real=run_real):
        self.fn, self.ranks, self.opts = fn, ranks, dtypes or {}
        self.vars = {f"{k}{i}": z3.Int(f"{k}{i}") for k, r in ranks.items() if r is not None for i in range(r)}
        self.solver = z3.Solver()
        bounds = bounds or {}
        self.bound = lambda n: (bounds.get(n, (lo, hi))[0], bounds.get(n, (lo, hi))[1] + 1)
        for n, v in self.vars.items():
            a, b = bounds.get(n, (lo, hi))
            self.solver.add(v >= a, v <= b)
        self.domain = list(self.solver.assertions())
        self.max_paths = max_paths
        self.paths = []
        self.complete = False
        self.real = real
        self.queries, self.solver_s, self.deadline = 0, 0.0, None

    def check(self):
        import time
        t = time.time()
        r = self.solver.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return r

    def explore(self, targets):
        """covers every point of the given regions (taken in turn); complete when none is left"""
        logging.disable(logging.CRITICAL)
        import time
        targets = list(targets)
        while len(self.paths) < self.max_paths and not (self.deadline and time.time() > self.deadline):
            if not targets:
                self.complete = True
                break
            goal = targets.pop(0)
            self.solver.push()
            self.solver.add(goal)
            r = self.check()
            mdl = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if r == z3.unsat:
                continue
            targets.append(goal)
            if r != z3.sat:
                break
            dims = {n: mdl.eval(v, model_completion=True).as_long() for n, v in self.vars.items()}
            fo, fd, conds, fres = run_fake(self.fn, self.ranks, dims, self.opts, self.bound)
            ro, rd = self.real(self.fn, self.ranks, dims, self.opts)
            point = z3.And([v == dims[n] for n, v in self.vars.items()]) if self.vars else z3.BoolVal(True)
            narrowed = conds is None or fo != ro
            if not narrowed:
                cond = z3.And(conds) if conds else z3.BoolVal(True)
                # the run must satisfy its own path condition
                s = z3.Solver()
                s.add(point, z3.Not(cond))
                if s.check() != z3.unsat:
                    narrowed = True
                    fd += " [own condition fails]"
            if narrowed:
                cond = point
            self.solver.add(z3.Not(cond))
            self.paths.append(Path(cond, dims, ro, rd if ro == "reject" else "", narrowed, fd))
            self.paths[-1].fake = (fo, fd, fres)
            self.paths[-1].result = rd if ro == "accept" else None
        return self.paths
