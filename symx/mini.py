"""Symbolic execution of the C++ operators over symbolic *sizes*.

The current sources of philtorch/csrc are compiled against a small model of ATen (symx/cxx/mini) in which sizes,
strides, pointers and scalars are symbolic.  A run follows one path; it prints the decisions it took on dimensions,
every array access of the kernels (in terms of symbolic loop counters) and the shape of the result.  This module
rewrites the sources for that (loop headers, OpenMP pragmas, pointer declarators), drives the paths with z3 and gives
back the events."""
import glob
import os
import re
import subprocess
import time

from . import solve as _solve  # noqa: F401
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
MINI = os.path.join(HERE, "cxx", "mini")
REPO = os.environ.get("PHILTORCH_REPO", "/repo")
DT = {"uint8": 0, "int64": 4, "float16": 5, "float32": 6, "float64": 7, "complex64": 9, "complex128": 10, "bfloat16": 12}


class MiniError(Exception):
    pass


# ------------------------------------------------------------------ source rewriting
def strip(src):
    out, i = [], 0
    while i < len(src):
        two = src[i:i + 2]
        if two == "//":
            j = src.find("\n", i)
            i = len(src) if j < 0 else j
        elif two == "/*":
            j = src.find("*/", i) + 2
            out.append("\n" * src.count("\n", i, j))
            i = j
        elif src[i] in "\"'":
            j = i + 1
            while j < len(src) and src[j] != src[i]:
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def match(s, i, o="(", c=")"):
    """index after the bracket that closes the one at i"""
    d = 0
    while i < len(s):
        if s[i] in "\"'" and not (s[i] == "'" and s[i - 1].isdigit()):
            j = i + 1
            while j < len(s) and s[j] != s[i]:
                j += 2 if s[j] == "\\" else 1
            i = j
        elif s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise MiniError("unbalanced " + o)


def split_top(s, sep):
    parts, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == sep and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    return parts + [cur]


INT32 = {"int", "int32_t", "std::int32_t"}


def for_header(h):
    """(type, var, lo, op, hi, step) of a counted loop, or None"""
    p = split_top(h, ";")
    if len(p) != 3:
        return None
    m = re.fullmatch(r"\s*(?:const\s+)?([\w:]+(?:\s+[\w:]+)*)\s+(\w+)\s*(?:=\s*(.+)|\{(.+)\}|\((.+)\))\s*", p[0], re.S)
    if not m:
        return None
    ty, v, lo = m[1], m[2], m[3] or m[4] or m[5]
    if len(split_top(lo, ",")) > 1 or "unsigned" in ty or "size_t" in ty or "uint" in ty:
        return None
    c = p[1].strip()
    m = re.fullmatch(rf"{v}\s*(<=|>=|!=|<|>)\s*(.+)", c, re.S)
    if m:
        op, hi = m[1], m[2]
    else:
        m = re.fullmatch(rf"(.+?)\s*(<=|>=|!=|<|>)\s*{v}", c, re.S)
        if not m:
            return None
        op, hi = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[m[2]], m[1]
    if re.search(rf"\b{v}\b|&&|\|\|", hi):
        return None
    s = p[2].strip()
    if s in (f"++{v}", f"{v}++"):
        step = "1"
    elif s in (f"--{v}", f"{v}--"):
        step = "-1"
    else:
        m = re.fullmatch(rf"{v}\s*([+-])=\s*(.+)", s, re.S) or re.fullmatch(rf"{v}\s*=\s*{v}\s*([+-])\s*(.+)", s, re.S)
        if not m or re.search(rf"\b{v}\b", m[2]):
            return None
        step = ("" if m[1] == "+" else "-") + f"({m[2]})"
    return ty, v, lo, op, hi, step


def whiles(s):
    """`T v = lo; ... while (c(v)) { ...; ++v; }` becomes a counted loop where that is the same; any other while loop is bounded"""
    out, i, n = [], 0, 0
    for m in re.finditer(r"\bwhile\s*\(", s):
        if m.start() < i:
            continue
        e = match(s, m.end() - 1)
        if re.match(r"\s*;", s[e:]):     # do { } while (c);
            continue
        n += 1
        head = s[m.end():e - 1]
        b = re.compile(r"\s*\{").match(s, e)
        pre = s[i:m.start()]
        # the variable is declared right before (possibly with other declarations between)
        d = None
        if b:
            be = match(s, b.end() - 1, "{", "}")
            body = s[b.end():be - 1]
            for d in reversed(list(re.finditer(r"(?<=[;{}])\s*((?:std::)?(?:int64_t|int32_t|int|long|auto))\s+(\w+)\s*(?:=\s*([^;{}]+)|\{([^;{}]+)\});", pre))):
                v, mid, init = d[2], pre[d.end():], d[3] or d[4]
                inc = re.search(rf"(\+\+{v}|{v}\+\+|--{v}|{v}--|{v}\s*[+-]=\s*[^;]+|{v}\s*=\s*{v}\s*[+-][^;]+);\s*$", body)
                after = s[be:]
                depth, k = 0, 0
                while k < len(after) and depth >= 0:
                    depth += (after[k] == "{") - (after[k] == "}")
                    k += 1
                rest = body[:inc.start()] if inc else body
                if re.search(rf"\b{v}\b", head) and inc and not re.search(rf"\b{v}\b", mid + after[:k]) and mid.count("{") == mid.count("}") == 0 \
                        and not re.search(rf"\bcontinue\b|(\+\+|--|&)\s*{v}\b|\b{v}\s*(\+\+|--|[-+*/%]?=(?!=))", rest) \
                        and for_header(f"{d[1]} {v} = {init}; {head}; {inc[1]}"):
                    break
                d = None
        if b and d:
            out += [pre[:d.start()], " ", mid, f" for ({d[1]} {v} = {init}; {head}; {inc[1]}) {{"]
            s = s[:b.end()] + whiles(rest) + "}" + " " * 0 + s[be:]
            return "".join(out) + whiles(s[b.end():])
        out += [pre, f"for (symx::While symxW{n}; symxW{n}.more() && (", head, "); )"]
        i = e
    return "".join(out) + s[i:]


def pragma(line):
    """(collapse count, condition) of a parallel loop, count 0: nothing to do, None: not understood"""
    t = line.split("omp", 1)[1].strip()
    m = re.match(r"((?:parallel\s+for(?:\s+simd)?)|simd)\b", t)
    if not m:
        return None
    i, n, cond = m.end(), 1, ""
    while True:
        c = re.compile(r"[\s,]*(\w+)\s*").match(t, i)
        if not c:
            break
        i, a = c.end(), ""
        if t[i:i + 1] == "(":
            e = match(t, i)
            a, i = t[i + 1:e - 1], e
        if c[1] == "collapse":
            n = int(a)
        elif c[1] == "if":
            a = re.sub(r"^\s*(parallel|simd)\s*:(?!:)", "", a)
            cond = f"({cond}) && ({a})" if cond else a
        elif c[1] not in ("schedule", "num_threads", "default", "shared", "firstprivate", "proc_bind"):
            return None
    return (0, "") if m[1] == "simd" else (n, cond)


BAD = re.compile(r"valarray|thrust::|inclusive_scan|exclusive_scan|transform_reduce|std::transform|std::bind")


def transform(src):
    s = strip(src)
    # pragmas
    ifs = []

    def prag(m):
        r = pragma(m[0].replace("\\\n", " "))
        if r is None:
            return ' throw symx::Unsupported{"pragma"};'
        ifs.append(r[1] or "true")
        return f" SYMX_PAR{r[0]}_{len(ifs) - 1} " if r[0] else " "
    s = re.sub(r"^[ \t]*#\s*pragma\s+omp\b(?:[^\n]*\\\n)*[^\n]*", prag, s, flags=re.M)
    # function templates
    out, i = [], 0
    names = []
    for m in re.finditer(r"\btemplate\s*<", s):
        if m.start() < i:
            continue
        e = match(s, m.end() - 1, "<", ">")
        ts = re.findall(r"(?:typename|class)\s+(\w+)", s[m.end():e])
        h = re.compile(r"[^;{}()]*?\b(\w+)\s*\(").match(s, e)
        if not h or re.match(r"\s*(struct|class|using)\b", s[e:]):
            continue
        pe = match(s, h.end() - 1)
        b = re.compile(r"\s*(?:noexcept\s*)?\{").match(s, pe)
        if not b:
            continue
        be = match(s, b.end() - 1, "{", "}")
        params, body = s[h.end():pe - 1], s[b.end():be - 1]
        if BAD.search(body):
            body = f' symx::Frame symx_frame("{h[1]}"); symx::note("K"); '
        else:
            body = f' symx::Frame symx_frame("{h[1]}"); ' + body
        f = s[h.start():h.end()] + params + s[pe - 1:b.end()] + body + "}"
        for t in ts:
            if not re.search(rf"[\w>&]\s+{t}\s*(,|$|\))", params) and t != "scalar_t":
                f = ptrs(f, t)
        names.append(h[1])
        out += [s[i:h.start()], f]
        i = be
    s = "".join(out) + s[i:]
    s = ptrs(s, "scalar_t")
    s = whiles(s)
    # loops
    out, i, n = [], 0, 0
    for m in re.finditer(r"(?:SYMX_PAR(\d+)_(\d+)\s*)?\bfor\s*\(", s):
        e = match(s, m.end() - 1)
        head = s[m.end():e - 1]
        par, cond = (m[1], ifs[int(m[2])]) if m[1] else ("0", "true")
        f = for_header(head)
        n += 1
        if f is None:
            if m[1]:
                raise MiniError("parallel loop not understood: " + head)
            out += [s[i:m.end()], head + ")"]
        else:
            ty, v, lo, op, hi, step = f
            w = "32" if ty in INT32 or ty == "auto" and re.fullmatch(r"\s*\d+\s*", lo) else "64"
            out += [s[i:m.start()], f'for (symx::Loop symxL{n}({n}, symx::SInt({lo}), "{op}", symx::SInt({hi}), symx::SInt({step}), {par}, symx::SBool({cond})); symxL{n}.more(); )'
                    f' for (symx::SInt{w} {v} = symxL{n}.value(); symxL{n}.once(); )']
        i = e
    s = "".join(out) + s[i:]
    s = re.sub(r"\b(?:std::)?int64_t\b|\b(?<!unsigned )long(?: long)?(?: int)?\b", "symx::SInt64", s)
    s = re.sub(r"(?<!unsigned )\b(?:std::)?int32_t\b|(?<!unsigned )\bint\b(?!\s*\))|(?<=\()int(?=\)\s*[\w(])", "symx::SInt32", s)
    if "SYMX_PAR" in s:
        raise MiniError("pragma without a loop")
    return s, names


def ptrs(s, t):
    s = re.sub(rf"\bconst\s+{t}\s*\*(?:\s*(?:const\b|__restrict__|__restrict|restrict))*", f"c10::Ptr<const {t}> ", s)
    s = re.sub(rf"\b{t}\s+const\s*\*(?:\s*(?:const\b|__restrict__|__restrict|restrict))*", f"c10::Ptr<const {t}> ", s)
    return re.sub(rf"(?<![\w.])\b{t}\s*\*(?:\s*(?:const\b|__restrict__|__restrict|restrict))*(?=\s*\w*\s*[=,;)>({{])", f"c10::Ptr<{t}> ", s)


def build(tmp, cuda=False):
    """compiles the current sources against the model; returns {key: path of the executable}"""
    import sysconfig
    import concurrent.futures as cf
    csrc = os.path.join(REPO, "philtorch", "csrc")
    pyinc = sysconfig.get_paths()["include"]
    jobs, files = [], {}
    for s in sorted(glob.glob(csrc + "/*.cpp")) + (sorted(glob.glob(csrc + "/*.cu")) if cuda else []):
        text, names = transform(open(s).read())
        cu = s.endswith(".cu")
        p = os.path.join(tmp, os.path.basename(s) + ".cpp")
        open(p, "w").write(text)
        files[os.path.basename(s)] = names
        jobs.append((s, p, p + ".o", ["-I" + os.path.join(HERE, "cxx", "cuda"), "-include", "thrust_host.h"] if cu else []))
    for s in glob.glob(csrc + "/*.cuh") + glob.glob(csrc + "/*.h") + glob.glob(csrc + "/*.hpp"):
        open(os.path.join(tmp, os.path.basename(s)), "w").write(transform(open(s).read())[0])
    jobs.append((MINI + "/mini_main.cpp", MINI + "/mini_main.cpp", os.path.join(tmp, "main.o"), []))

    def comp(j):
        src, p, o, extra = j
        base = ["g++", "-std=c++20", "-O0", "-w", "-c", "-x", "c++", "-I" + MINI, "-I" + tmp, "-I" + csrc, "-I" + pyinc]
        r = subprocess.run(base + extra + [p, "-o", o], capture_output=True, text=True)
        if r.returncode == 0:
            return None
        return f"{os.path.basename(src)}: " + "\n".join(x for x in r.stderr.splitlines() if "error" in x)[:1500]
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        raise MiniError("\n".join(errs))
    exe = os.path.join(tmp, "mini")
    # symbols of the Python module stub are not needed
    stub = os.path.join(tmp, "stub.cpp")
    open(stub, "w").write('extern "C" { void* PyModule_Create2(void*, int){return 0;} }\n')
    r = subprocess.run(["g++", "-o", exe] + [j[2] for j in jobs] + ["-x", "c++", stub], capture_output=True, text=True)
    if r.returncode:
        raise MiniError(r.stderr[-1500:])
    return exe, files


# ------------------------------------------------------------------ terms
def sexpr(t):
    toks = re.findall(r"[()]|[^\s()]+", t)
    pos = [0]

    def p():
        x = toks[pos[0]]
        pos[0] += 1
        if x != "(":
            return x
        l = []
        while toks[pos[0]] != ")":
            l.append(p())
        pos[0] += 1
        return l
    return p()


class Terms:
    def __init__(self):
        self.memo, self.vars = {}, {}

    def var(self, n):
        if n not in self.vars:
            self.vars[n] = z3.Bool(n) if re.fullmatch(r"(d|layout)\d+|contig_\w+", n) else z3.Int(n)
        return self.vars[n]

    def z(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._z(sexpr(t))
        return r

    def _z(self, e):
        if isinstance(e, str):
            if re.fullmatch(r"\d+", e):
                return z3.IntVal(int(e))
            if e in ("true", "false"):
                return z3.BoolVal(e == "true")
            return self.var(e)
        a = [self._z(x) for x in e[1:]]
        o = e[0]
        if o == "-":
            return -a[0] if len(a) == 1 else a[0] - a[1]
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(a)
        if o == "or":
            return z3.Or(a)
        x, y = a
        return {"+": lambda: x + y, "*": lambda: x * y, "div": lambda: x / y, "mod": lambda: x % y, "=": lambda: x == y, "<": lambda: x < y,
                "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[o]()


class Acc:
    def __init__(self, kind, arg, ctx, reg, frame, sto=None, nvars=(), stack=()):
        self.kind, self.arg, self.ctx, self.reg, self.frame, self.sto, self.vars = kind, arg, ctx, reg, frame, sto, nvars
        self.rv = [v for s in stack[reg["depth"] - 1:] for v in s[1]] if reg and reg["depth"] else []


class Path:
    """one path of an operator: conds (on dimensions), events, outcome and result"""


class Mini:
    def __init__(self, exe):
        self.exe, self.T = exe, Terms()
        self.queries = self.unsat = self.runs = 0
        self.solver_s = 0.0

    def check(self, cs, ms=300):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(cs)
        self.queries += 1
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.unsat += r == z3.unsat
        return (r, s.model() if r == z3.sat else None)

    def run(self, op, ranks, dts, prefix, unroll):
        self.runs += 1
        p = subprocess.run([self.exe, op] + [f"{r}:{DT[d]}" for r, d in zip(ranks, dts)] + [prefix] + [str(u) for u in unroll],
                           capture_output=True, text=True, timeout=60)
        return p.stdout.splitlines()

    def parse(self, lines, q):
        """turns the output of one run into a Path"""
        T = self.T
        q.conds, q.accs, q.stos, q.inputs, q.carried, q.frames, q.skipped = [], [], {}, {}, set(), [], []
        q.question = q.result = None
        q.outcome, q.detail = "crash", ""
        stack = []           # (loop id, variables, conditions)
        regs, frame, nreg, reg = [], [], 0, None
        scoped = set()

        def ctx():
            return list(q.conds) + [c for s in stack for c in s[2]]

        def svars():
            return [v for s in stack for v in s[1]]
        for l in lines:
            k, _, a = l.partition(" ")
            if k == "B":
                t, _, c = a.partition(" ")
                e = T.z(c)
                e = e if t == "1" else z3.Not(e)
                names = set(re.findall(r"[A-Za-z_]\w*", c)) & scoped
                (stack[-1][2] if names and stack else q.conds).append(e)
            elif k == "Q":
                q.question, q.outcome = a, "question"
                q.qctx = ctx()
            elif k == "{":
                stack.append((int(a), [], []))
                if reg is not None and reg["depth"] is None:
                    reg["depth"] = len(stack)
            elif k == "}":
                s = stack.pop()
                scoped -= set(s[1])
            elif k == "E":
                (stack[-1][1] if stack else []).append(a)
                scoped.add(a)
            elif k == "a":
                stack[-1][2].append(T.z(a))
            elif k == "P":
                kind, n = a.split()
                reg = {"id": nreg, "kind": kind, "n": int(n), "depth": None, "cond": [], "frame": frame[-1] if frame else "?"}
                regs.append(reg)
                nreg += 1
            elif k == "F":
                reg["cond"].append(T.z(a))
            elif k == "p":
                reg = None
            elif k == "D":
                i, init, n = a.split(" ", 2)
                q.stos[int(i)] = {"init": init == "1", "numel": T.z(n), "text": n, "input": None}
            elif k == "T":
                i, n = a.split()
                q.stos[int(i)]["input"] = n
            elif k == "N":
                frame.append(a)
                q.frames.append(a)
            elif k == "n":
                frame.pop()
            elif k in ("I", "O", "S", "A"):
                q.accs.append(Acc(k, a, ctx(), reg, frame[-1] if frame else None, None, svars(), stack))
            elif k == "M":
                rw, sto, idx = a.split(" ", 2)
                q.accs.append(Acc(rw, idx, ctx(), reg, frame[-1] if frame else None, int(sto), svars(), stack))
            elif k == "C":
                q.carried.add(int(a))
            elif k == "X":
                q.outcome, q.detail = "reject", a
            elif k == "U":
                q.outcome, q.detail = "unsupported", a
            elif k == "K":
                q.skipped.append(q.frames[-1])
            elif k == "Z":
                q.cut = True
            elif k == "R":
                q.outcome = "accept"
                sz, st, rest, off = [x.strip() for x in a.split("|")]
                f = [[T.z(t.strip()) for t in x.split(";") if t.strip()] for x in (sz, st)]
                r = rest.split()
                q.result = {"size": f[0], "stride": f[1], "dtype": int(r[0]), "layout_unknown": r[1] == "1", "sto": int(r[2]),
                            "input": r[3] == "1", "init": r[4] == "1", "written": r[5] == "1", "offset": T.z(off)}
        return q

    def domain(self, ranks, lo, cap=2 ** 40):
        T = self.T
        c = []
        for n, r in zip(("A", "zi", "x"), ranks):
            p = z3.IntVal(1)
            for i in range(r):
                v = T.var(f"{n}{i}")
                c += [v >= lo, v <= (cap or 2 ** 40), T.var(f"{n}_s{i}") >= 0]
                p = v * p
            if r > 1 and cap:
                c.append(p <= cap)
        return c

    def explore(self, op, ranks, dts, lo=1, extra=(), unroll=(), max_paths=400, cap=2 ** 40, max_s=60):
        """all paths of the operator for dimensions >= lo"""
        dom = self.domain(ranks, lo, None) + list(extra)
        todo, out, t0 = [""], [], time.time()
        while todo:
            if time.time() - t0 > max_s:
                return out, dom, False
            pre = todo.pop()
            q = Path()
            q.cut = False
            q.prefix = pre
            self.parse(self.run(op, ranks, dts, pre, unroll), q)
            if q.question is None:
                out.append(q)
                if len(out) >= max_paths:
                    return out, dom, False
                continue
            c = self.T.z(q.question)
            f = [b for b, e in (("1", c), ("0", z3.Not(c))) if self.check(dom + q.qctx + [e])[0] != z3.unsat]
            for b in f or ["0"]:      # neither: a loop body that is never reached
                todo.append(pre + b)
        return out, dom, True
