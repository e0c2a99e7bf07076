"""Runs the shape explorer over a list of signatures, in parallel, with the kernels compiled from the current csrc.

A signature states for which dimensions a call is consistent.  `cons(d, E, strict)` returns a z3 condition (None: never):
with strict=True the calls that must be accepted, otherwise the calls that may be; E(a, b) is a == b, or, when not strict,
also true if one of the two is 1 (broadcasting)."""
import importlib
import json
import os
import subprocess
import sys
import time

from . import solve as _solve  # noqa: F401  (makes z3 importable)


class Sig:
    def __init__(self, name, call, ranks, cons=None, bounds=None, dtypes=None, native=False, hi=None, post=None, region=None):
        self.name, self.call, self.ranks, self.cons = name, call, ranks, cons
        self.bounds, self.dtypes, self.native, self.hi, self.post, self.region = bounds, dtypes, native, hi, post, region


def conditions(sig, d):
    import z3

    def loose(a, b):
        return z3.Or(a == b, a == 1, b == 1)

    def strict(a, b):
        return a == b
    F = z3.BoolVal(False)
    if sig.cons is None:
        return F, F
    may, must = sig.cons(d, loose, False), sig.cons(d, strict, True)
    return F if may is None else may, F if must is None else must


def forked(fn):
    """runs fn() -> json-able in a child; a death of the child is the outcome 'crash'"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = fn()
        except BaseException as e:      # noqa: BLE001
            out = ["reject", repr(e)[:160]]
        os.write(w, json.dumps(out).encode()[:60000])
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) or not buf:
        return ["crash", f"signal {os.WTERMSIG(st) if os.WIFSIGNALED(st) else '?'}"]
    return json.loads(buf)


def desc(r):
    """a short description of a real result: shape, dtype, strides of every tensor in it"""
    import torch
    if isinstance(r, torch.Tensor):
        return [list(r.shape), str(r.dtype), list(r.stride())]
    if isinstance(r, (tuple, list)):
        return [desc(v) for v in r]
    return repr(r)[:60]


def real_in_child(fn, ranks, dims, opts):
    from .shapes import run_real

    def go():
        o, r = run_real(fn, ranks, dims, opts)
        return [o, desc(r) if o == "accept" else r]
    o, r = forked(go)
    return o, r


def run_sig(sig, hi, max_paths, seconds, progress):
    import torch
    import z3
    from . import shapes
    opts = {k: getattr(torch, v) for k, v in (sig.dtypes or {}).items()}
    queries, unsat = [0], [0]

    def real(fn, ranks, dims, o):
        with open(progress, "w") as f:
            json.dump(dims, f)
        return real_in_child(fn, ranks, dims, o) if sig.native else shapes.run_real(fn, ranks, dims, o)
    e = shapes.Explorer(sig.call, sig.ranks, lo=1, hi=sig.hi if sig.hi else hi, max_paths=max_paths, bounds=sig.bounds, dtypes=opts, real=real)
    may, must = conditions(sig, e.vars)
    t0 = time.time()
    e.deadline = t0 + seconds
    e.explore([must, z3.Not(may)] if sig.region is None else [sig.region(e.vars)])
    viol, inc = [], []
    t1 = 0.0
    for p in e.paths:
        bad = must if p.outcome == "reject" else z3.Not(may)
        s = z3.Solver()
        s.add(e.domain)
        s.add(p.cond, bad)
        for _ in range(12):
            queries[0] += 1
            t = time.time()
            r = s.check()
            t1 += time.time() - t
            if r != z3.sat:
                unsat[0] += r == z3.unsat
                break
            m = s.model()
            dims = {n: m.eval(v, model_completion=True).as_long() for n, v in e.vars.items()}
            o, det = real(e.fn, sig.ranks, dims, opts)
            if (o == "reject") == (p.outcome == "reject"):
                viol.append({"sig": sig.name, "dims": dims, "outcome": o, "detail": str(det)[:200] if o != "accept" else ""})
                break
            s.add(z3.Or([v != dims[n] for n, v in e.vars.items()]))
        else:
            inc.append(f"{sig.name}: the real code disagrees with the explored path at every witness tried")
        if r == z3.unknown:
            inc.append(f"{sig.name}: z3 unknown")
        if len(viol) >= 3:
            break
    fail = []
    if sig.post and not viol:
        for p in e.paths:
            f = sig.post(e, p)
            if f:
                fail.append(f)
                if len(fail) >= 3:
                    break
    return {"sig": sig.name, "paths": len(e.paths), "accepting": sum(p.outcome == "accept" for p in e.paths),
            "points": sum(bool(p.point) for p in e.paths), "complete": e.complete, "queries": e.queries + queries[0], "unsat": unsat[0] + e.complete,
            "solver_s": round(e.solver_s + t1, 3), "viol": viol + fail, "inc": inc, "s": round(time.time() - t0, 1),
            "why": [p.err for p in e.paths if p.point][:1]}


def fakes():
    """shape semantics of torchlpc's operators (it registers none)"""
    import torch
    import torchlpc  # noqa: F401
    for n in ("lpc", "scan"):
        try:
            torch.library.register_fake(f"torchlpc::{n}", lambda *a: torch.empty_like(a[0]))
        except Exception:       # noqa: BLE001
            pass


def setup():
    os.environ["OMP_NUM_THREADS"] = "1"
    import warnings
    warnings.filterwarnings("ignore")
    from . import replay
    replay.load_real(True)
    import torch
    torch.set_num_threads(1)
    from .harness import L
    for n in ("lti", "lpv", "mat", "poly", "prototype__poly", "prototype__signal", "lti__interp", "lpv__utils"):
        getattr(L, n)
    fakes()
    return L


def main():
    mod, tier, outf = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    setup()
    q = tier == "quick"
    sigs = [s for s in importlib.import_module(mod).shape_sigs(tier) if only in s.name]
    import tempfile
    tmp = os.environ["SYMX_TMP"]
    todo = list(range(len(sigs)))
    live, res = {}, {}
    hi, mp, secs = (3, 30, 8) if q else (4, 1500, 500)
    end = time.time() + (500 if q else 3300)
    while todo or live:
        while todo and len(live) < 8 and time.time() < end:
            i = todo.pop(0)
            o, pr = f"{tmp}/{i}.json", f"{tmp}/{i}.dims"
            pid = os.fork()
            if pid == 0:
                try:
                    r = run_sig(sigs[i], hi, mp, secs, pr)
                except BaseException:       # noqa: BLE001
                    import traceback
                    r = {"sig": sigs[i].name, "error": traceback.format_exc(limit=-4)}
                json.dump(r, open(o, "w"))
                os._exit(0)
            live[pid] = i
        if not live:
            break
        pid, st = os.wait()
        if pid not in live:
            continue
        i = live.pop(pid)
        o, pr = f"{tmp}/{i}.json", f"{tmp}/{i}.dims"
        if os.path.exists(o) and not os.WIFSIGNALED(st):
            res[i] = json.load(open(o))
        else:
            dims = json.load(open(pr)) if os.path.exists(pr) else {}
            res[i] = {"sig": sigs[i].name, "paths": 0, "accepting": 0, "points": 0, "complete": False, "queries": 0, "solver_s": 0, "inc": [],
                      "viol": [{"sig": sigs[i].name, "dims": dims, "outcome": "crash", "detail": f"the process died (status {st})"}], "s": 0, "why": []}
    for i in todo:
        res[i] = {"sig": sigs[i].name, "skipped": True}
    json.dump([res[i] for i in sorted(res)], open(outf, "w"))


def replay_one(path):
    r = json.load(open(path))
    setup()
    sig = [s for s in importlib.import_module(r["module"]).shape_sigs("thorough") if s.name == r["sig"]]
    sig = sig or [s for s in importlib.import_module(r["module"]).shape_sigs("quick") if s.name == r["sig"]]
    import torch
    opts = {k: getattr(torch, v) for k, v in (sig[0].dtypes or {}).items()}
    o, d = real_in_child(sig[0].call, sig[0].ranks, r["dims"], opts)
    print("REPLAY", path, "reproduced" if o == r["outcome"] else "not-reproduced", r["sig"], r["dims"], o, d)


def drive(module, prop, tier, rep):
    import tempfile
    import shutil
    from . import solve
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    tmp = tempfile.mkdtemp(prefix="shapes_")
    only = os.environ.get("SYMX_ONLY", "")
    try:
        env = dict(os.environ, SYMX_TMP=tmp, PYTHONPATH=here, OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "-B", "-m", "symx.shapes_run", module, tier, tmp + "/out.json", only], cwd=here, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if not os.path.exists(tmp + "/out.json"):
            rep.errors.append("shape explorer failed: " + p.stderr[-1500:])
            return {}
        res = json.load(open(tmp + "/out.json"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if prop == "P24":
        from . import opcheck
        res += opcheck.drive_p24(tier, rep)
    n = 0
    for r in res:
        if r.get("skipped"):
            rep.inconclusive.append(f"{r['sig']}: not reached within the time budget")
            continue
        if "error" in r:
            rep.errors.append(f"{r['sig']}: {r['error']}")
            continue
        rep.cases += 1
        rep.units += r["paths"]
        rep.paths += r["paths"]
        rep.obligations += r["paths"]
        rep.nontrivial += r["paths"]
        solve.stats["queries"] = solve.stats.get("queries", 0) + r["queries"]
        solve.stats["unsat"] = solve.stats.get("unsat", 0) + r.get("unsat", 0)
        solve.stats["solver_s"] = solve.stats.get("solver_s", 0.0) + r["solver_s"]
        rep.inconclusive += r["inc"]
        for v in r["viol"]:
            d = os.path.join(here, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{n}.json")
            n += 1
            what = v.get("what") or {"accept": "accepted although inconsistent", "reject": "rejected although consistent",
                                     "crash": "crashed"}[v["outcome"]]
            json.dump({"property": prop, "module": module, "replay": "python -m symx.shapes_run --replay <file>", "what": what, **v}, open(path, "w"), indent=1)
            rep.violations.append((f"{v['sig']} {v['dims']}: {what} {v['detail']}", path))
    rep.samples.append({"case": "lti.state_space-A2-x2-B2", "obligation": "forall dims in bounds: accepted => may_be_consistent(dims), consistent(dims) => accepted"})
    keep = ("sig", "paths", "accepting", "points", "complete", "queries", "solver_s", "s")
    return {"signatures": [{k: r[k] for k in keep if k in r} for r in res],
            "signatures_fully_explored": sum(bool(r.get("complete")) for r in res), "signatures_total": len(res),
            "incomplete": [r["sig"] for r in res if not r.get("complete")]}


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay_one(sys.argv[2])
    else:
        main()
