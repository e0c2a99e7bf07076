"""Runs one CrossHair condition (symbolic execution of Python with z3) and prints a JSON verdict.

usage: python chair.py <module file> <function> <seconds> [json globals]
The function carries its contract in its docstring.  `confirmed` is only reported when
CrossHair exhausted every path."""
import collections
import importlib.util
import json
import sys
import time

import z3

_n = [0, 0.0]
_check = z3.Solver.check


def _counted(self, *a):
    t = time.time()
    r = _check(self, *a)
    _n[0] += 1
    _n[1] += time.time() - t
    return r


z3.Solver.check = _counted


def main():
    path, fn, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    spec = importlib.util.spec_from_file_location("chair_target", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["chair_target"] = m
    for k, v in (json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}).items():
        setattr(m, k, v)
    spec.loader.exec_module(m)
    from crosshair.core_and_libs import analyze_function, run_checkables
    from crosshair.options import AnalysisOptionSet
    st = collections.Counter()
    cs = analyze_function(getattr(m, fn), AnalysisOptionSet(
        report_all=True, per_condition_timeout=secs, per_path_timeout=secs, max_uninteresting_iterations=10 ** 9))
    for c in cs:
        if hasattr(c, "options"):
            c.options.stats = st
    out = {"state": "none", "message": ""}
    try:
        for r in run_checkables(cs):
            out = {"state": r.state.name, "message": r.message}
    except BaseException as e:
        out = {"state": "ENGINE", "message": f"{type(e).__name__}: {e}"}
    out.update(paths=st.get("num_paths", 0), queries=_n[0], solver_s=_n[1])
    print("CHAIR " + json.dumps(out), flush=True)


if __name__ == "__main__":
    main()
