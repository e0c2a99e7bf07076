"""Development helper: make a planted bug from a spec file and confirm it in a scratch copy of /repo.

usage: plant.py SPEC.py [--checks P01,P02] [--nocheck] [--notest]
A spec defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
/repo itself is never touched: everything runs in a private mount namespace with the copy bound over /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
spec = runpy.run_path(sys.argv[1])
ID, PROP = spec["ID"], spec["PROP"]
args = sys.argv[2:]
checks = [PROP]
if "--checks" in args:
    checks = args[args.index("--checks") + 1].split(",")
out = f"/verif/seeded/{ID}"
tmp = tempfile.mkdtemp(prefix="plant_" + ID + "_", dir="/tmp")
work = tmp + "/repo"
subprocess.run(["cp", "-a", "/repo/.", work + "/"] if os.path.isdir(work) else ["cp", "-a", "/repo", work], check=True)


def ns(cmd, timeout=1500, cwd="/repo"):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {work} /repo && cd {cwd} && {cmd}"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


try:
    subprocess.run(["git", "-C", work, "checkout", "-q", "--", "."], check=True)
    for f, old, new in spec["EDITS"]:
        p = f"{work}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", work, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write('#!/bin/bash\ncd /repo && exec /opt/venv/bin/python -B "$(dirname "$(realpath "$0")")/demo.py"\n' if False else
                                      '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\ncd /repo && PYTHONPATH=/repo exec /opt/venv/bin/python -B "$here/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    res = {"id": ID, "prop": PROP}
    if "--notest" not in args:
        rc, o = ns(f"bash /opt/vp/test.sh {tmp}/o.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base["stable"])
        got = json.load(open(tmp + "/o.json"))
        missing = base - set(got["passed"])
        res["tests_lost"] = len(missing)
        if missing:
            print("TESTS LOST", list(missing)[:5]); print(o[-1500:])
    else:
        ns("bash /opt/vp/build.sh")
    rc, o = ns(f"bash {out}/demo.sh", 300)
    res["demo_patched"] = rc
    print("demo patched:", rc, o[-400:])
    if "--nocheck" not in args:
        for c in checks:
            t = time.time()
            rc, o = ns(f"./run.sh {c} quick", 900, "/verif")
            v = [l for l in o.splitlines() if "VIOLATION" in l]
            res.setdefault("checks", {})[c] = (rc, len(v), round(time.time() - t))
            print(c, rc, v[:2], o[-300:] if not v else "")
    subprocess.run(["git", "-C", work, "checkout", "-q", "--", "."], check=True)
    if any(f.startswith("philtorch/csrc") for f, _, _ in spec["EDITS"]):
        ns("bash /opt/vp/build.sh")
    rc, o = ns(f"bash {out}/demo.sh", 300)
    res["demo_clean"] = rc
    if rc: print("demo clean FAILS", o[-800:])
    print(json.dumps(res))
    open("/tmp/bugs/results.jsonl", "a").write(json.dumps(res) + "\n")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
