"""P23: the compiled CPU kernels stay inside their buffers, are race-free and do not overflow, for every size."""
import json
import multiprocessing as mp
import os
import sys
import time

PROPERTY = "P23"
FUNCTIONS = ["philtorch::recur2, recurN, lti_recur2, lti_recurN, lti_recur (CPU): host functions and the kernels they call, from the current csrc/*.cpp"]
BOUNDS = ("all batch sizes, lengths and orders (no upper bound for bounds and races; index arithmetic: arrays of at most 2^40 elements), all rank "
          "combinations of the three arguments (A 0..4, zi and x 1..3), contiguous and not; loops are summarised by an arbitrary iteration; a loop that "
          "carries an index or pointer from one iteration to the next is unrolled up to 4 iterations instead; an obligation the unbounded argument "
          "does not settle is decided for dimensions up to 4 (evidence: bounded_obligations)")
OUTSIDE = ["the kernels of the .cu files (their values are P27's subject)", "memory safety inside ATen",
           "code that is compiled but not registered for any operator", "floating-point effects of a different schedule"]
ASSUME = ["OpenMP and at::parallel_for run every iteration / chunk exactly once, in any order and concurrently",
          "ATen allocates exactly the elements of a tensor's shape; the model of the ATen calls used by the host functions (symx/cxx/mini)"]
NEEDS_CXX = False
HERE = os.path.dirname(os.path.abspath(__file__))


def cases(tier):
    return []


def work(a):
    from symx import safety
    exe, nat, op, combos = a
    out = []
    for r in combos:
        try:
            out.append(safety.one(exe, nat, op, r))
        except Exception:       # noqa: BLE001
            import traceback
            out.append({"op": op, "ranks": r, "error": traceback.format_exc(limit=-4)})
    return out


def extra(tier, rep):
    import shutil
    import subprocess
    import tempfile
    from symx import mini, safety, solve
    tmp = tempfile.mkdtemp(prefix="mini_")
    try:
        t0 = time.time()
        try:
            exe, files = mini.build(tmp)
        except mini.MiniError as e:
            rep.inconclusive.append("the sources do not compile against the model: " + str(e)[:800])
            return {}
        nat = safety.Native(tmp)
        if nat.err:
            rep.inconclusive.append("native replay build: " + nat.err[:400])
        ops = [o for o in subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split() if o.startswith("CPU/")]
        if not ops:
            rep.errors.append("no registered CPU operator found")
        jobs = []
        for o in ops:
            cs = list(safety.combos(o))
            jobs += [(exe, nat, o, [c]) for c in cs if c[2] in (2, 3) and c[1] in (1, 2)] + [(exe, nat, o, [c for c in cs if not (c[2] in (2, 3) and c[1] in (1, 2))])]
        with mp.get_context("fork").Pool(8) as pool:
            res = [r for rs in pool.imap_unordered(work, jobs, chunksize=1) for r in rs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    n, bounded, kinds, acc = 0, 0, {}, set()
    table = []
    for r in sorted(res, key=lambda r: (r["op"], r["ranks"])):
        tag = f"{r['op']} ranks {tuple(r['ranks'])}"
        if "error" in r:
            rep.errors.append(tag + ": " + r["error"])
            continue
        rep.cases += 1
        rep.units += r["paths"]
        rep.paths += r["paths"]
        k = sum(r["obl"].values())
        rep.obligations += k
        rep.nontrivial += k
        bounded += r["bounded"]
        for x, c in r["obl"].items():
            kinds[x] = kinds.get(x, 0) + c
        solve.stats["queries"] = solve.stats.get("queries", 0) + r["queries"]
        solve.stats["unsat"] = solve.stats.get("unsat", 0) + r["unsat"]
        solve.stats["solver_s"] = solve.stats.get("solver_s", 0.0) + r["solver_s"]
        rep.inconclusive += [f"{tag}: {i}" for i in r["inc"]]
        if r["samples"] and len(rep.samples) < 6:
            rep.samples.append({"case": tag, "obligation": r["samples"][0]})
        if r["accept"]:
            acc.add(r["op"])
            table.append({"op": r["op"], "ranks": r["ranks"], "kernels": r["frames"], "paths": r["paths"], "obligations": r["obl"], "unrolled_loops": r["unrolled"]})
        for v in r["viol"]:
            d = os.path.join(os.path.dirname(HERE), "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"P23-{n}.json")
            n += 1
            json.dump({"property": "P23", "op": r["op"], "ranks": r["ranks"], **v, "replay": "python -m symx.safety <file>"}, open(path, "w"), indent=1)
            rep.violations.append((f"{tag} sizes {v['dims']}: {v['confirmed'][0]} ({v['what'][:160]})", path))
    for o in ops:
        if o not in acc:
            rep.inconclusive.append(f"{o}: no accepting path found")
    return {"operators": table, "obligation_kinds": kinds, "bounded_obligations": bounded, "build_s": round(time.time() - t0, 1)}
