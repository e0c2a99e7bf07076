"""P29: branch names are formatted to valid version labels or rejected (CrossHair: symbolic execution of Python with z3)."""
import ast
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

PROPERTY = "P29"
NEEDS_CXX = False
FUNCTIONS = ["philtorch/_version.py format_branch_name, executed symbolically from source by CrossHair (its model of re included)"]
BOUNDS = "all strings of length 0-24 (quick) / 0-44 (thorough), one symbolic run per length, and all strings up to length 14 / 24 in one run"
OUTSIDE = "longer names; names containing a line feed (git forbids control characters in branch names)"
ASSUME = ["CrossHair's model of str and re is faithful; `confirmed` means that it exhausted every path."]
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"


def cases(tier):
    return []


def one(job):
    fn, n, secs = job
    cmd = [VT, os.path.join(os.path.dirname(HERE), "symx", "chair.py"), os.path.join(HERE, "p29_target.py"), fn, str(secs), json.dumps({"LENGTH": n})]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 2 + 60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        for line in p.stdout.splitlines():
            if line.startswith("CHAIR "):
                return job, json.loads(line[6:])
        return job, {"state": "ENGINE", "message": p.stderr[-300:], "paths": 0, "queries": 0, "solver_s": 0.0}
    except subprocess.TimeoutExpired:
        return job, {"state": "TIMEOUT", "message": "", "paths": 0, "queries": 0, "solver_s": 0.0}


def replay(name):
    """the real function on the concrete name; returns a message when the mapping is violated"""
    from . import p29_target as t
    want = t.oracle(name)
    try:
        got = t.format_branch_name(name)
    except ValueError:
        got = None
    except Exception as e:
        return f"format_branch_name({name!r}) raised {type(e).__name__}: {e}"
    if got != want:
        return f"format_branch_name({name!r}) {'is rejected' if got is None else 'gives ' + repr(got)}, specified: {'rejected' if want is None else repr(want)}"
    return None


def extra(tier, rep):
    from symx import solve
    q = tier == "quick"
    secs = 150 if q else 600
    jobs = [("check_upto", 14 if q else 24, secs)] + [("check", n, secs) for n in range(24 if q else 44, -1, -1)]
    detail = []
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    ok = 0
    for (fn, n, _), r in res:
        rep.cases += 1
        rep.units += 1
        rep.paths += r["paths"]
        rep.obligations += r["paths"]
        rep.nontrivial += r["paths"]
        solve.stats["queries"] = solve.stats.get("queries", 0) + r["queries"]
        solve.stats["solver_s"] = solve.stats.get("solver_s", 0.0) + r["solver_s"]
        detail.append({"run": fn, "length": n, **r})
        if r["state"] == "CONFIRMED":
            ok += 1
            continue
        msg = None
        if r["state"] in ("POST_FAIL", "EXEC_ERR", "POST_ERR"):
            m = re.search(r"when calling check(?:_upto)?\((.*?)\)(?: \(which|$)", r["message"], re.S)
            if m:
                try:
                    name = ast.literal_eval(m.group(1).split("name=", 1)[-1] if m.group(1).startswith("name=") else m.group(1))
                    msg = replay(name)
                except Exception:
                    msg = None
        if msg:
            d = os.path.join(os.path.dirname(HERE), "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "P29-0.json")
            json.dump({"property": "P29", "name": name, "what": msg}, open(path, "w"), indent=1)
            rep.violations.append((msg, path))
        else:
            rep.inconclusive.append(f"{fn} length {n}: {r['state']} {r['message'][:200]}")
    rep.samples.append({"case": "length 9", "obligation": "agrees(name) for every string of that length"})
    return {"runs": detail, "confirmed_runs": ok}
