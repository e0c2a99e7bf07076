"""Obligations of the compiled kernels (bounds, integer ranges, data races) over the symbolic accesses recorded by
symx.mini, decided by z3 for *all* sizes, and their replay on the natively compiled sources."""
import itertools
from math import prod
import os
import re
import subprocess
import time

from . import solve as _solve  # noqa: F401
import z3

from . import mini

SMALL = 4


# ------------------------------------------------------------------ polynomials over integer variables
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + c * d
            if r[t] == 0:
                del r[t]
    return r


def poly(e, opaque):
    """z3 integer term -> {monomial: coefficient}; div / mod become opaque variables"""
    k = e.decl().kind()
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    a = [poly(x, opaque) for x in e.children()] if k not in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in a:
            r = padd(r, x)
        return r
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r = padd(r, x, -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, a[0], -1)
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for x in a:
            r = pmul(r, x)
        return r
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        return {(e.decl().name(),): 1}
    n = f"opq{len(opaque)}"
    for m, x in opaque.items():
        if x.eq(e):
            n = m
            break
    opaque[n] = e
    return {(n,): 1}


def psub(p, v, q):
    """p with variable v replaced by polynomial q"""
    r = {}
    for m, c in p.items():
        n = m.count(v)
        t = {tuple(x for x in m if x != v): c}
        for _ in range(n):
            t = pmul(t, q)
        r = padd(r, t)
    return r


def flat(cs):
    for c in cs:
        if z3.is_and(c):
            yield from flat(c.children())
        else:
            yield c


class Prover:
    def __init__(self, m, ranks, lo=0):
        self.m = m
        self.lo = lo
        self.dom = m.domain(ranks, lo, None)
        self.caps = m.domain(ranks, lo)
        self.ranks = ranks
        T = m.T
        for n, r in zip(("A", "zi", "x"), ranks):
            p = z3.IntVal(1)
            for i in reversed(range(r)):
                p = T.var(f"{n}{i}") * p
                self.caps.append(p <= 2 ** 40)
        self.dims = [T.var(f"{n}{i}") for n, r in zip(("A", "zi", "x"), ranks) for i in range(r)]

    def slack(self, ctx, goals):
        """z3 shows one of the goals (polynomials >= 0) from ctx after turning every variable into a bound plus a
        non-negative slack and every product of slacks into a non-negative unknown"""
        opaque = {}
        eqs, ups, los = {}, [], {}
        for c in flat(ctx):
            neg = z3.is_not(c)
            a = c.children()[0] if neg else c
            k = a.decl().kind()
            if a.num_args() != 2 or not z3.is_int(a.children()[0]):
                continue
            l, r = (poly(x, opaque) for x in a.children())
            if k == z3.Z3_OP_EQ and not neg:
                d = padd(l, r, -1)
                vs = [m for m in d if len(m) == 1 and abs(d[m]) == 1 and not any(m[0] in n for n in d if n != m)]
                if vs:
                    v = sorted(vs)[-1]
                    eqs_v = {m: -c2 * d[v] for m, c2 in d.items() if m != v}
                    for u in list(eqs):
                        eqs[u] = psub(eqs[u], v[0], eqs_v)
                    for u, q in eqs.items():
                        eqs_v = psub(eqs_v, u, q)
                    if v[0] not in eqs:
                        eqs[v[0]] = eqs_v
                continue
            if neg:
                k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                l, r = r, l
                k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                ups.append(padd(padd(r, l, -1), {(): 1 if k == z3.Z3_OP_LT else 0}, -1))       # >= 0
        for u in list(eqs):
            for v, q in eqs.items():
                if u != v:
                    eqs[u] = psub(eqs[u], v, q)

        def norm(p):
            for v, q in eqs.items():
                p = psub(p, v, q)
            return p
        ups = [norm(p) for p in ups]
        goals = [norm(g) for g in goals]
        names = {v for p in ups + goals for m in p for v in m}
        # lower bounds of single variables
        low = {}
        for v in names:
            if re.fullmatch(r"(A|zi|x)(_s)?\d+", v):
                low[v] = self.lo if "_s" not in v else 0
        for p in ups:
            vs = [m for m in p if m]
            if len(vs) == 1 and len(vs[0]) == 1 and p[vs[0]] == 1:
                v = vs[0][0]
                low[v] = max(low.get(v, -10 ** 18), -p.get((), 0))
        # upper bounds  D >= rest: a dimension with coefficient 1 that is not itself bounded above elsewhere
        cand = {}
        for p in ups:
            for m, c in p.items():
                if len(m) == 1 and c == 1 and any(d == -1 and len(n) == 1 for n, d in p.items()):
                    cand.setdefault(m[0], []).append(p)
        opts = []
        for v, ps in sorted(cand.items()):
            opts.append([None] + [(v, p) for p in ps])
        n = 1
        for o in opts:
            n *= len(o)
        if n > 4096:
            opts = opts[:6]
        for choice in sorted(itertools.product(*opts), key=lambda c: sum(x is None for x in c)):
            sub = []
            for i, ch in enumerate(choice):
                if ch is not None:
                    v, p = ch
                    rest = {m: -c for m, c in p.items() if m != (v,)}
                    if any(v in m for m in rest):
                        break
                    sub.append((v, padd(rest, {(f"s{i}",): 1})))
            else:
                used = {v for v, _ in sub}
                ok = True
                gs = [dict(g) for g in goals]
                # apply repeatedly (substitutions may introduce further bounded variables)
                for _ in range(len(sub) + 1):
                    for v, q in sub:
                        gs = [psub(g, v, q) for g in gs]
                if any(v in m for g in gs for m in g for v in used):
                    ok = False
                if not ok:
                    continue
                for g in gs:
                    vs = {v for m in g for v in m}
                    if any(not v.startswith("s") and v not in low for v in vs):
                        continue
                    for v in vs:
                        if not re.fullmatch(r"s\d+", v):
                            g = psub(g, v, {(v + "^",): 1, (): low[v]} if low[v] else {(v + "^",): 1})
                    mv = {m: z3.Int("m!" + "*".join(m)) for m in g if m}
                    s = z3.Solver()
                    s.add([x >= 0 for x in mv.values()])
                    s.add(z3.Sum([z3.IntVal(g.get((), 0))] + [c * mv[m] for m, c in g.items() if m]) < 0)
                    self.m.queries += 1
                    t = time.time()
                    r = s.check()
                    self.m.solver_s += time.time() - t
                    if r == z3.unsat:
                        self.m.unsat += 1
                        return True
        return False

    def decide(self, ctx, ways, neg):
        """ways: lists of terms that must be >= 0 (any way suffices); neg: its negation.
        -> 'proved' | 'bounded' (no counterexample up to SMALL) | ('cex', dims) | 'unknown'"""
        ctx = list(ctx)
        op = {}
        for w in ways:
            if all(self.slack(ctx, [poly(z3.simplify(t), op)]) for t in w):
                return "proved"
        r, m = self.m.check(self.dom + ctx + [neg] + [z3.And(d <= SMALL) for d in self.dims], 8000)
        if r == z3.sat:
            return "cex", {str(d): m.eval(d, model_completion=True).as_long() for d in self.dims}
        small = r
        r, m = self.m.check(self.caps + ctx + [neg], 3000)
        if r == z3.unsat:
            return "proved"
        if r == z3.sat:
            return "cex", {str(d): m.eval(d, model_completion=True).as_long() for d in self.dims}
        return "bounded" if small == z3.unsat else "unknown"


# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, tmp):
        import concurrent.futures as cf
        import glob
        import sysconfig
        csrc = os.path.join(mini.REPO, "philtorch", "csrc")
        base = ["clang++", "-std=c++20", "-O1", "-w", "-DSYMX_IR", "-I" + mini.MINI, "-I" + sysconfig.get_paths()["include"]]
        jobs = [(base + ["-fopenmp", "-fsanitize=thread", "-c", s, "-o", os.path.join(tmp, "n_" + os.path.basename(s) + ".o")])
                for s in sorted(glob.glob(csrc + "/*.cpp"))]
        jobs.append(base + ["-c", mini.MINI + "/replay_main.cpp", "-o", os.path.join(tmp, "n_main.o")])
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs))
        self.err = "\n".join(r.stderr[-800:] for r in rs if r.returncode)
        self.exe = os.path.join(tmp, "native")
        if not self.err:
            stub = os.path.join(tmp, "nstub.cpp")
            open(stub, "w").write('extern "C" { void* PyModule_Create2(void*, int){return 0;} }\n')
            r = subprocess.run(["clang++"] + [j[-1] for j in jobs] + [stub, "-o", self.exe], capture_output=True, text=True)
            self.err = r.stderr[-800:] if r.returncode else ""

    def run(self, op, dims, ranks):
        a = [",".join(str(dims[f"{n}{i}"]) for i in range(r)) for n, r in zip(("A", "zi", "x"), ranks)]
        try:
            p = subprocess.run([self.exe, op] + a, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return ["TIMEOUT"]
        out = p.stdout.splitlines()
        if p.returncode < 0:
            out.append(f"CRASH signal {-p.returncode}")
        return out


BAD = ("OOB", "RACE", "INPUT", "CRASH")


# ------------------------------------------------------------------ obligations of one path
def overlap(a, b, reg, P):
    """[(context, index, index')]: the accesses a and b in two different iterations; None: not understood"""
    T = P.m.T

    def rename(e, vs):
        return z3.substitute(e, [(T.var(v), z3.Int(v + "_2")) for v in vs])
    c2 = [rename(c, b.rv) for c in b.ctx]
    i1, i2 = T.z(a.arg), rename(T.z(b.arg), b.rv)
    if reg["kind"] == "c":
        diff = [[T.var(a.rv[1]) <= z3.Int(b.rv[0] + "_2")]]
    else:
        n = reg["n"]
        v1, v2 = loopvars(a.rv)[:n], loopvars(b.rv)[:n]
        if len(v1) < n or len(v2) < n:
            return None
        x1, x2 = [T.var(v) for v in v1], [z3.Int(v + "_2") for v in v2]
        diff = [[x1[j] == x2[j] for j in range(i)] + [x1[i] < x2[i]] for i in range(n)]
    return [(a.ctx + c2 + reg["cond"] + d, i1, i2) for d in diff]


def loopvars(vs):
    return [v for v in vs if v.startswith("k")]


def obligations(q, P):
    """yields (kind, description, context, ways, negation)"""
    T = P.m.T
    seen = set()
    for a in q.accs:
        if a.kind in ("R", "W"):
            s = q.stos[a.sto]
            i = T.z(a.arg)
            if s["input"]:
                n, r = s["input"], P.ranks[("A", "zi", "x").index(s["input"])]
                ext = z3.IntVal(1)
                for j in range(r):
                    ext = ext + (T.var(f"{n}{j}") - 1) * T.var(f"{n}_s{j}")
                ctx = a.ctx + [z3.Implies(T.var(f"contig_{n}"), ext == s["numel"])]
                if any(c.eq(T.var(f"contig_{n}")) for c in a.ctx):
                    ext, ctx = s["numel"], a.ctx
                if a.kind == "W":
                    yield "input", f"{a.frame}: no write to the input {n}", a.ctx, [[z3.IntVal(-1)]], z3.BoolVal(True)
            else:
                ext, ctx = s["numel"], a.ctx
            key = (a.sto, a.arg, tuple(c.get_id() for c in a.ctx), "m")
            if key not in seen:
                seen.add(key)
                yield "bounds", f"{a.frame}: 0 <= {a.arg} < {ext}", ctx, [[i, ext - 1 - i]], z3.Or(i < 0, i >= ext)
        elif a.kind in ("I", "O"):
            if a.frame is None and a.kind == "O":
                continue        # ATen's own size arithmetic
            key = (a.arg, tuple(c.get_id() for c in a.ctx), a.kind)
            if key in seen:
                continue
            seen.add(key)
            t = T.z(a.arg)
            b = 2 ** 31 if a.kind == "I" else 2 ** 63
            ways = [] if a.kind == "I" else [[t, s["numel"] - t] for s in q.stos.values()] + [[t + s["numel"], s["numel"] - t] for s in q.stos.values()]
            yield "range", f"{a.frame}: {a.arg} fits {'32' if a.kind == 'I' else '64'} bits", a.ctx + [d >= 1 for d in P.dims], ways, z3.Or(t >= b, t < -b)
        elif a.kind == "S":
            vs = loopvars(a.rv)[:1]
            two = [T.var(v) != z3.Int(v + "_2") for v in vs]
            ren = [z3.substitute(c, [(T.var(v), z3.Int(v + "_2")) for v in a.rv]) for c in a.ctx]
            yield "shared", f"{a.frame}: no {a.arg} variable shared by the iterations is written", a.ctx + ren + two + (a.reg["cond"] if a.reg else []), [[z3.IntVal(-1)]], z3.BoolVal(True)
    regs = {}
    for a in q.accs:
        if a.kind in ("R", "W") and a.reg is not None:
            regs.setdefault(a.reg["id"], (a.reg, []))[1].append(a)
    for reg, acc in regs.values():
        for w in acc:
            if w.kind != "W":
                continue
            for o in acc:
                if o.sto != w.sto or (o.kind == "W" and acc.index(o) < acc.index(w)):
                    continue
                key = ("race", w.sto, w.arg, o.arg, tuple(c.get_id() for c in w.ctx), tuple(c.get_id() for c in o.ctx))
                if key in seen:
                    continue
                seen.add(key)
                for x, y in ((w, o), (o, w)) if w.arg != o.arg or w.vars != o.vars else ((w, o),):
                    r = overlap(x, y, reg, P)
                    if r is None:
                        yield "unknown", "parallel loop not understood", [], [], None
                        continue
                    for ctx, i1, i2 in r:
                        yield ("race", f"{w.frame}: iterations k < k': [{x.arg}] and [{y.arg}]' are different elements", ctx,
                               [[i2 - i1 - 1], [i1 - i2 - 1]], i1 == i2)


def uninit(q):
    """a buffer that is read although nothing was ever stored in it"""
    out = []
    for i, s in q.stos.items():
        if s["init"] or i not in {a.sto for a in q.accs}:
            continue
        acc = [a for a in q.accs if a.kind in ("R", "W") and a.sto == i]
        if any(a.kind == "R" for a in acc) and not any(a.kind == "W" for a in acc):
            out.append(f"buffer {i} is read but never initialised")
        elif any(a.kind == "R" for a in acc) and acc[0].kind == "R":
            out.append(f"buffer {i} is read before it is written")
    return out


# ------------------------------------------------------------------ all operators
def combos(op):
    for r in itertools.product(range(0, 5), range(1, 4), range(1, 4)):
        yield r


def one(exe, native, op, ranks, lo=0):
    """explores one operator for one choice of ranks; returns a json-able summary"""
    m = mini.Mini(exe)
    out = {"op": op, "ranks": ranks, "paths": 0, "obl": {}, "viol": [], "inc": [], "bounded": 0, "frames": [], "unrolled": []}
    unroll = set()
    for _ in range(6):
        paths, dom, done = m.explore(op, ranks, ("float64",) * 3, lo=lo, unroll=sorted(unroll))
        new = {c for q in paths for c in q.carried} - unroll
        if not new:
            break
        unroll |= new
    else:
        out["inc"].append("loop-carried index state not resolved")
    if not done:
        out["inc"].append("path limit")
    out["unrolled"] = sorted(unroll)
    P = Prover(m, ranks, lo)
    out["paths"] = len(paths)
    out["accept"] = 0
    samples = []
    for q in paths:
        if q.outcome in ("unsupported", "crash") and not q.cut:
            out["inc"].append(f"{q.outcome}: {q.detail}")
        if q.skipped:
            out["inc"].append("kernel outside the model: " + ", ".join(q.skipped))
        if q.outcome == "accept":
            out["accept"] += 1
            out["frames"] = sorted(set(out["frames"]) | set(q.frames))
        if not q.accs or q.outcome == "reject":
            continue
        for u in uninit(q):
            r, mod = m.check(P.dom + q.conds + [d >= 1 for d in P.dims] + [z3.And([d <= SMALL for d in P.dims])], 5000)
            if r == z3.sat:
                out["viol"].append({"what": u, "dims": {str(d): mod.eval(d, model_completion=True).as_long() for d in P.dims}, "confirmed": [u], "kind": "uninit"})
        for kind, text, ctx, ways, neg in obligations(q, P):
            if neg is None:
                out["inc"].append(text)
                continue
            r = P.decide(ctx, ways, neg)
            out["obl"][kind] = out["obl"].get(kind, 0) + 1
            if len(samples) < 3:
                samples.append(f"{kind}: {text}")
            if r == "bounded":
                out["bounded"] += 1
            elif r == "unknown":
                out["inc"].append(f"{text}: z3 unknown")
            elif r != "proved":
                if len(out["viol"]) >= 4:
                    continue
                dims = r[1]
                if kind == "range":
                    # concrete: the term at these sizes (for the largest loop counters) leaves the range
                    out["viol"].append({"what": text, "dims": dims, "confirmed": ["integer overflow"], "kind": kind})
                    continue
                if any(v > 10 ** 5 for v in dims.values()) or any(prod(dims[f"{n}{i}"] for i in range(r)) > 10 ** 6 for n, r in zip(("A", "zi", "x"), ranks)):
                    out["inc"].append(f"{text}: counterexample {dims} too large to replay")
                    continue
                lines = native.run(op, dims, ranks)
                hit = [x for x in lines if x.startswith(BAD)]
                if hit:
                    out["viol"].append({"what": text, "dims": dims, "confirmed": hit[:4], "kind": kind})
                else:
                    out["inc"].append(f"{text}: counterexample {dims} not confirmed natively")
    out.update(queries=m.queries, unsat=m.unsat, solver_s=round(m.solver_s, 2), runs=m.runs, samples=samples)
    return out


if __name__ == "__main__":
    import json
    import sys
    import tempfile
    import shutil
    v = json.load(open(sys.argv[1]))
    tmp = tempfile.mkdtemp(prefix="mini_")
    try:
        n = Native(tmp)
        print("REPLAY", sys.argv[1], v["op"], v["dims"], n.err or n.run(v["op"], v["dims"], v["ranks"]) if v["kind"] not in ("range", "uninit") else v["confirmed"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
