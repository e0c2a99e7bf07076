"""The compiled operators as functions on shapes: the paths of the real host code (symx.mini, sizes unbounded) against
the paths of the abstract (fake) kernels (symx.shapes) for P12, and against the consistency conditions for P24."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

from . import solve as _solve  # noqa: F401
import z3

from . import mini

ARGS = ("A", "zi", "x")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAP = 2 ** 20
OPS = {"CPU/recur2": 3, "CPU/recurN": 3, "CPU/lti_recur2": 3, "CPU/lti_recurN": 3, "CPU/lti_recur": 2,
       "CUDA/recur2": 3, "CUDA/lti_recur2": 3, "CUDA/lti_recur": 2}


# ------------------------------------------------------------------ memory layouts of the arguments
def layout(kind, t):
    """the tensor with another memory layout; works on fake tensors too"""
    import torch
    if kind == "c" or t.dim() == 0:
        return t
    if kind[0] == "t":
        i, j = int(kind[1]), int(kind[2])
        return t.transpose(i, j).clone(memory_format=torch.contiguous_format).transpose(i, j)
    if kind == "gap":
        return torch.cat([t, t], -1)[..., :t.shape[-1]]
    if kind == "exp":
        return t[:1].expand(t.shape)
    raise KeyError(kind)


def layout_constraints(kind, n, r, T):
    """what the layout says about the strides and contiguity symbols of the model"""
    d = [T.var(f"{n}{i}") for i in range(r)]
    st = [T.var(f"{n}_s{i}") for i in range(r)]
    c = T.var(f"contig_{n}")

    def dense(order):
        out, k = {}, z3.IntVal(1)
        for i in reversed(order):
            out[i] = k
            k = d[i] * k
        return [st[i] == out[i] for i in range(r)]
    if r == 0:
        return [c]
    if kind == "c":
        return [c] + dense(list(range(r)))
    if kind[0] == "t":
        i, j = int(kind[1]), int(kind[2])
        o = list(range(r))
        o[i], o[j] = o[j], o[i]
        s = dense(o)
        return s + [c == z3.Or(d[i] == 1, d[j] == 1)] if abs(i - j) == 1 else s
    if kind == "gap":
        k = 2 * d[-1]
        out = [st[-1] == 1]
        for i in range(r - 2, -1, -1):
            out.append(st[i] == k)
            k = d[i] * k
        return out + [c == z3.And([v == 1 for v in d[:-1]])]
    if kind == "exp":
        return dense(list(range(r)))[1:] + [st[0] == 0, c == (d[0] == 1)]
    raise KeyError(kind)


# ------------------------------------------------------------------ fake side
def fake_paths(fn, ranks, opts, stat, limit=80):
    from . import shapes
    import logging
    logging.disable(logging.CRITICAL)
    var = {f"{n}{i}": z3.Int(f"{n}{i}") for n, r in ranks.items() for i in range(r)}
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add([z3.And(v >= 1, v <= CAP) for v in var.values()])
    out, done = [], False
    while len(out) < limit:
        t = time.time()
        s.push()
        s.add([v <= 3 for v in var.values()])
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        if m is None:
            r = s.check()
            m = s.model() if r == z3.sat else None
        stat["queries"] += 2
        stat["solver_s"] += time.time() - t
        if m is None:
            done = r == z3.unsat
            stat["unsat"] += done
            break
        dims = {n: m.eval(v, model_completion=True).as_long() for n, v in var.items()}
        o, det, conds, res = shapes.run_fake(fn, ranks, dims, opts, lambda n: (1, 5))
        env = shapes.run_fake.env
        point = z3.And([v == dims[n] for n, v in var.items()]) if var else z3.BoolVal(True)
        cond = point if conds is None else z3.And(conds) if conds else z3.BoolVal(True)
        if conds is not None:
            q = z3.Solver()
            q.add(point, z3.Not(cond))
            if q.check() != z3.unsat:
                cond = point

        def ex(x):
            import torch
            if isinstance(x, torch.SymInt):
                return shapes.tr(x.node.expr, env)
            return z3.IntVal(int(x))
        p = {"cond": cond, "outcome": o, "detail": det, "dims": dims, "point": cond is point}
        if o == "accept":
            p["size"] = [ex(x) for x in res.shape]
            p["stride"] = [ex(x) for x in res.stride()]
            p["dtype"] = str(res.dtype)[6:]
        out.append(p)
        s.add(z3.Not(cond))
    return out, done


# ------------------------------------------------------------------ running the real thing
def op_call(op, lay):
    import torch
    key, name = op.split("/")

    def call(ts, real=True):
        a = [layout(k, ts[n]) for n, k in zip(ARGS, lay)]
        f = getattr(torch.ops.philtorch, name)
        if real and key == "CUDA":
            return f.default._op_dk(torch._C.DispatchKey.CUDA, *a)
        return f(*a)
    return call


def real(op, ranks, lay, dims, opts):
    from .shapes_run import forked, desc
    from .shapes import real_tensors

    def go():
        import torch
        ts = real_tensors(ranks, dims, opts)
        try:
            with torch.no_grad():
                r = op_call(op, lay)(ts)
            return ["accept", desc(r)]
        except Exception as e:      # noqa: BLE001
            return ["reject", f"{type(e).__name__}: {e}"[:160]]
    return forked(go)


def fake_at(op, ranks, lay, dims, opts):
    """the abstract result at concrete sizes"""
    import torch
    from torch._subclasses.fake_tensor import FakeTensorMode
    from .shapes_run import desc
    with FakeTensorMode(allow_non_fake_inputs=True):
        ts = {n: torch.empty([dims[f"{n}{i}"] for i in range(r)], dtype=opts.get(n, torch.float64)) for n, r in ranks.items()}
        try:
            return ["accept", desc(op_call(op, lay)(ts, False))]
        except Exception as e:      # noqa: BLE001
            return ["reject", f"{type(e).__name__}: {e}"[:160]]


def same(a, b):
    """two results (size, dtype, stride) agree; strides of dimensions of size one do not count"""
    return a[0] == b[0] and a[1] == b[1] and all(s == t for n, s, t in zip(a[0], a[2], b[2]) if n != 1)


# ------------------------------------------------------------------ P12
def dims_of(mod, ranks):
    return {f"{n}{i}": mod.eval(z3.Int(f"{n}{i}"), model_completion=True).as_long() for n, r in ranks.items() for i in range(r)}


def small_model(m, cs, ranks, stat):
    """a model, with small dimensions if there is one"""
    vs = [z3.Int(f"{n}{i}") for n, r in ranks.items() for i in range(r)]
    for b, ms in ((3, 2000), (6, 2000), (None, 5000)):
        r, mod = m.check(cs + ([v <= b for v in vs] if b else []), ms)
        if r == z3.sat:
            return r, mod
    return r, None


def p12(job, exe):
    import torch
    op, rk, dts, lay = job
    ranks = dict(zip(ARGS, rk))
    opts = {n: getattr(torch, d) for n, d in zip(ARGS, dts)}
    m = mini.Mini(exe)
    stat = {"queries": 0, "unsat": 0, "solver_s": 0.0}
    out = {"job": job, "viol": [], "inc": [], "pairs": 0, "samples": []}
    lc = [c for n, k in zip(ARGS, lay) for c in layout_constraints(k, n, ranks[n], m.T)]
    rp, dom, done = m.explore(op, rk, dts, lo=1, extra=lc)
    dom = dom + [z3.Int(f"{n}{i}") <= CAP for n, r in ranks.items() for i in range(r)]
    if not done:
        out["inc"].append("path limit (real code)")
    call = op_call(op, lay)
    fp, fdone = fake_paths(lambda ts: call(ts, False), ranks, opts, stat)
    if not fdone:
        out["inc"].append("abstract paths do not cover all sizes")
    INV = {v: k for k, v in mini.DT.items()}
    # the model of the real code against the real code, at one point per path
    for q in rp:
        if q.outcome in ("unsupported", "crash"):
            out["inc"].append(f"{q.outcome}: {q.detail}")
            continue
        r, mod = small_model(m, dom + q.conds, ranks, stat)
        if mod is None:
            continue
        dims = dims_of(mod, ranks)
        if any(v > 64 for v in dims.values()):
            continue
        o = real(op, ranks, lay, dims, opts)
        out["confirmed"] = out.get("confirmed", 0) + 1
        if o[0] != q.outcome:
            out["inc"].append(f"model: {q.outcome}, real: {o} at {dims}")
        elif o[0] == "accept" and not q.result["layout_unknown"]:
            ev = [[mod.eval(e, model_completion=True).as_long() for e in q.result[k]] for k in ("size", "stride")]
            if not same([ev[0], "torch." + INV[q.result["dtype"]], ev[1]], o[1]):
                out["inc"].append(f"model result {ev}, real: {o} at {dims}")

    def report(what, mod):
        dims = dims_of(mod, ranks)
        if any(v > 64 for v in dims.values()):
            out["inc"].append(f"{what}: only for large sizes {dims}")
            return
        a, b = real(op, ranks, lay, dims, opts), fake_at(op, ranks, lay, dims, opts)
        if a[0] != b[0] or a[0] == "accept" and not same(a[1], b[1]):
            out["viol"].append({"what": what, "op": op, "dims": dims, "layouts": lay, "dtypes": dts, "real": a, "abstract": b})
        else:
            out["inc"].append(f"{what} at {dims}: not reproduced")
    acc = 0
    for f in fp:
        for q in rp:
            if q.outcome in ("unsupported", "crash") or len(out["viol"]) >= 3:
                continue
            out["pairs"] += 1
            base = dom + q.conds + [f["cond"]]
            if f["outcome"] != q.outcome:
                r, mod = small_model(m, base, ranks, stat)
                if mod is not None:
                    report(f"abstract execution {f['outcome']}s, the real code {q.outcome}s", mod)
                elif r == z3.unknown:
                    out["inc"].append("z3 unknown")
                continue
            if q.outcome != "accept":
                continue
            acc += 1
            R = q.result
            if len(f["size"]) != len(R["size"]) or f["dtype"] != INV[R["dtype"]]:
                bad = z3.BoolVal(True)
            else:
                bad = z3.Or([a != b for a, b in zip(f["size"], R["size"])] +
                            ([] if R["layout_unknown"] else [z3.And(n != 1, a != b) for n, a, b in zip(R["size"], f["stride"], R["stride"])]))
            if R["layout_unknown"]:
                out["inc"].append("the layout of the result is not modelled")
            r, mod = small_model(m, base + [bad], ranks, stat)
            if mod is not None:
                report("shape, dtype or strides differ", mod)
            elif r == z3.unknown:
                # nonlinear: decide for sizes up to 8
                vs = [z3.Int(f"{n}{i}") for n, k in ranks.items() for i in range(k)]
                r2, mod = m.check(base + [bad] + [v <= 8 for v in vs], 20000)
                if r2 == z3.unsat:
                    out["bounded"] = out.get("bounded", 0) + 1
                elif r2 == z3.sat:
                    report("shape, dtype or strides differ", mod)
                else:
                    out["inc"].append("z3 unknown")
            if len(out["samples"]) < 1:
                out["samples"].append(f"abstract size {f['size']} stride {f['stride']} == real size {R['size']} stride {R['stride']}")
    out.update(paths=len(rp), fake=len(fp), accepting=acc, queries=m.queries + stat["queries"], unsat=m.unsat + stat["unsat"],
               solver_s=round(m.solver_s + stat["solver_s"], 3), points=sum(f["point"] for f in fp))
    return out


def p12_jobs(tier):
    q = tier == "quick"
    jobs = []
    f64 = ["float64"] * 3
    for op, xr in OPS.items():
        lti = "lti" in op
        base = [(2, 2, 3), (3, 2, 3)] if xr == 3 and lti else [(3, 2, 3), (4, 2, 3)] if xr == 3 else [(0, 1, 2), (1, 1, 2)]
        xl = ["t12", "t01", "gap", "exp"] if xr == 3 else ["t01", "gap", "exp"]
        for r in base:
            jobs.append((op, r, f64, ("c", "c", "c")))
            for k in xl:
                jobs.append((op, r, f64, ("c", "c", k)))
            if r[0] >= 2:
                jobs.append((op, r, f64, (f"t{r[0] - 2}{r[0] - 1}", "c", "c")))
                jobs.append((op, r, f64, ("exp", "c", xl[0])))
            jobs.append((op, r, f64, ("c", "t01" if r[1] == 2 else "exp", xl[1])))
            for d in ("float32", "complex64", "complex128", "float16", "bfloat16"):
                jobs.append((op, r, [d] * 3, ("c", "c", "c")))
            for i in range(3):
                d = ["float64"] * 3
                d[i] = "complex128"
                jobs.append((op, r, d, ("c", "c", "c")))
                if not q:
                    d = ["float32"] * 3
                    d[i] = "float64"
                    jobs.append((op, r, d, ("c", "c", "c")))
        for a in range(0, 6 if not q else 5):
            for z in range(1, 4):
                for x in range(1, 5):
                    if (a, z, x) not in base and (not q or abs(z - base[0][1]) + abs(x - base[0][2]) <= 1):
                        jobs.append((op, (a, z, x), f64, ("c", "c", "c")))
    return jobs


# ------------------------------------------------------------------ P24
def p24(sig, exe):
    """one operator signature of P24, all sizes"""
    import torch
    from . import shapes_run
    key, rest = sig.name.split(".", 1)
    op = ("CUDA/" if key == "cuda" else "CPU/") + rest.split("-")[0]
    rk = tuple(sig.ranks[n] for n in ARGS)
    dts = tuple((sig.dtypes or {}).get(n, "float64") for n in ARGS)
    opts = {k: getattr(torch, v) for k, v in (sig.dtypes or {}).items()}
    m = mini.Mini(exe)
    out = {"sig": "host." + sig.name, "viol": [], "inc": []}
    paths, dom, done = m.explore(op, rk, dts, lo=1, extra=[])
    var = {f"{n}{i}": z3.Int(f"{n}{i}") for n, r in sig.ranks.items() for i in range(r)}
    may, must = shapes_run.conditions(sig, var)
    if not done:
        out["inc"].append(out["sig"] + ": path limit")
    for q in paths:
        if q.outcome in ("unsupported", "crash"):
            out["inc"].append(f"{out['sig']}: {q.outcome} {q.detail}")
            continue
        bad = must if q.outcome == "reject" else z3.Not(may)
        r, mod = small_model(m, dom + q.conds + [bad], sig.ranks, None)
        if r == z3.unknown:
            out["inc"].append(out["sig"] + ": z3 unknown")
        if mod is None:
            continue
        dims = dims_of(mod, sig.ranks)
        if any(v > 64 for v in dims.values()):
            out["inc"].append(f"{out['sig']}: only for large sizes {dims}")
            continue
        o, det = real(op, sig.ranks, ("c", "c", "c"), dims, opts)
        if o == q.outcome or o == "crash":
            out["viol"].append({"sig": sig.name, "dims": dims, "outcome": o, "detail": str(det)[:200] if o != "accept" else ""})
        else:
            out["inc"].append(f"{out['sig']}: the model {q.outcome}s, the real code {o}s at {dims}")
        if len(out["viol"]) >= 2:
            break
    out.update(paths=len(paths), accepting=sum(q.outcome == "accept" for q in paths), points=0, complete=done, queries=m.queries,
               unsat=m.unsat, solver_s=round(m.solver_s, 3), s=0, why=[])
    return out


# ------------------------------------------------------------------ pool (forked: torch is loaded once)
def pool(fns, budget):
    tmp = tempfile.mkdtemp(prefix="opc_")
    live, res, todo = {}, {}, list(range(len(fns)))
    end = time.time() + budget
    try:
        while todo or live:
            while todo and len(live) < 8 and time.time() < end:
                i = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        r = fns[i]()
                    except BaseException:       # noqa: BLE001
                        import traceback
                        r = {"error": traceback.format_exc(limit=-4)}
                    json.dump(r, open(f"{tmp}/{i}", "w"), default=str)
                    os._exit(0)
                live[pid] = i
            if not live:
                break
            pid, st = os.wait()
            if pid in live:
                i = live.pop(pid)
                p = f"{tmp}/{i}"
                res[i] = json.load(open(p)) if os.path.exists(p) else {"error": f"worker died ({st})"}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [res.get(i, {"skipped": True}) for i in range(len(fns))]


def main():
    what, tier, outf, tmp = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    from . import shapes_run
    try:
        exe, _ = mini.build(tmp, True)
    except mini.MiniError as e:
        json.dump({"build": str(e)[:1500]}, open(outf, "w"))
        return
    shapes_run.setup()
    if what == "P12":
        jobs = [j for j in p12_jobs(tier) if only in str(j)]
        rs = pool([lambda j=j: p12(j, exe) for j in jobs], 600 if tier == "quick" else 3000)
        for j, r in zip(jobs, rs):
            r.setdefault("job", j)
    else:
        sigs = [g for g in importlib.import_module("checks.p24").shape_sigs(tier) if g.native and only in g.name]
        rs = pool([lambda g=g: p24(g, exe) for g in sigs], 300 if tier == "quick" else 2000)
        for g, r in zip(sigs, rs):
            r.setdefault("sig", "host." + g.name)
    json.dump({"res": rs}, open(outf, "w"))


def drive_p24(tier, rep):
    """results in the format of shapes_run"""
    tmp = tempfile.mkdtemp(prefix="opc_")
    try:
        env = dict(os.environ, PYTHONPATH=HERE, OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "-B", "-m", "symx.opcheck", "P24", tier, tmp + "/out.json", tmp, os.environ.get("SYMX_ONLY", "")],
                           cwd=HERE, env=env, capture_output=True, text=True)
        if not os.path.exists(tmp + "/out.json"):
            rep.errors.append("operator exploration failed: " + p.stderr[-1500:])
            return []
        d = json.load(open(tmp + "/out.json"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "build" in d:
        rep.inconclusive.append("the sources do not compile against the model: " + d["build"])
        return []
    return d["res"]


def drive_p12(tier, rep):
    tmp = tempfile.mkdtemp(prefix="opc_")
    try:
        env = dict(os.environ, PYTHONPATH=HERE, OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "-B", "-m", "symx.opcheck", "P12", tier, tmp + "/out.json", tmp, os.environ.get("SYMX_ONLY", "")],
                           cwd=HERE, env=env, capture_output=True, text=True)
        if not os.path.exists(tmp + "/out.json"):
            rep.errors.append("operator comparison failed: " + p.stderr[-1500:])
            return {}
        d = json.load(open(tmp + "/out.json"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "build" in d:
        rep.inconclusive.append("the sources do not compile against the model: " + d["build"])
        return {}
    n, table = 0, []
    for r in d["res"]:
        op, rk, dts, lay = r["job"]
        tag = f"{op} ranks {tuple(rk)} {'/'.join(sorted(set(dts)))} layouts {'/'.join(lay)}"
        if r.get("skipped"):
            rep.inconclusive.append(tag + ": not reached within the time budget")
            continue
        if "error" in r:
            rep.errors.append(tag + ": " + r["error"])
            continue
        rep.cases += 1
        rep.units += r["pairs"]
        rep.paths += r["paths"] + r["fake"]
        rep.obligations += r["pairs"]
        rep.nontrivial += r["pairs"]
        for k in ("queries", "unsat", "solver_s"):
            _solve.stats[k] = _solve.stats.get(k, 0) + r[k]
        rep.inconclusive += [f"{tag}: {i}" for i in r["inc"]]
        if r["samples"] and len(rep.samples) < 6:
            rep.samples.append({"case": tag, "obligation": r["samples"][0]})
        table.append([tag, r["paths"], r["fake"], r["pairs"], r.get("bounded", 0), r.get("confirmed", 0)])
        for v in r["viol"]:
            dd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(dd, exist_ok=True)
            path = os.path.join(dd, f"P12-{n}.json")
            n += 1
            json.dump({"property": "P12", "ranks": rk, **v, "replay": "torch.ops.philtorch.<op> on real and on fake tensors of these sizes"}, open(path, "w"), indent=1)
            rep.violations.append((f"{tag} sizes {v['dims']}: {v['what']}: real {v['real']}, abstract {v['abstract']}", path))
    return {"columns": "case, real paths, abstract paths, pairs, pairs decided only for sizes <= 8, real paths confirmed on real tensors", "table": table}


if __name__ == "__main__":
    main()
