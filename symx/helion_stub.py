"""Stand-in for the `helion` package: a kernel runs as ordinary Python, and the
loop constructs enumerate tiles in a chosen size and order.  Only the iteration
constructs are replaced; the kernel bodies are the library's own code.

Per top-level construct the tile size and the visiting order come from PLAN."""
import sys
import types

PLAN = {"sizes": (), "order": "fwd", "n": 0}


class Tile:
    def __init__(self, begin, end, block, tid):
        self.begin, self.end, self.block_size, self.id = begin, end, block, tid

    @property
    def index(self):
        import torch
        return torch.arange(self.begin, self.end)

    def as_slice(self):
        return slice(self.begin, self.end)


def _conv(k):
    if isinstance(k, Tile):
        return k.as_slice()
    if isinstance(k, tuple):
        return tuple(_conv(i) for i in k)
    return k


def _has(k):
    return isinstance(k, Tile) or (isinstance(k, tuple) and any(isinstance(i, Tile) for i in k))


def _perm(items):
    o = PLAN["order"]
    if o == "rev":
        return items[::-1]
    if o == "rot":
        return items[1:] + items[:1]
    if o == "eo":
        return items[1::2] + items[::2]
    return items


def _sizes(n):
    """block size for an extent: PLAN maps extents to block sizes, default the whole extent"""
    b = PLAN["sizes"].get(n) if isinstance(PLAN["sizes"], dict) else None
    return b or max(n, 1)


def _norm(begin, end):
    return (0, begin) if end is None else (begin, end)


def tile(begin_or_end, end_or_none=None, block_size=None, **_):
    b, e = _norm(begin_or_end, end_or_none)
    if isinstance(e, (list, tuple)):
        import itertools
        bs = [0] * len(e) if not isinstance(b, (list, tuple)) else b
        per = [list(tile(x, y)) for x, y in zip(bs, e)]
        return list(itertools.product(*per))
    b, e = int(b), int(e)
    bl = int(block_size) if block_size else _sizes(e - b)
    return _perm([Tile(i, min(i + bl, e), bl, k) for k, i in enumerate(range(b, e, bl))])


def grid(begin_or_end, end_or_none=None, step=None):
    """hl.grid: as the outermost loop its iterations are independent programs, as an inner
    loop it is an ordinary sequential loop; see `kernel` for how the nesting level is known."""
    b, e = _norm(begin_or_end, end_or_none)
    if isinstance(e, (list, tuple)):
        import itertools
        bs = [0] * len(e) if not isinstance(b, (list, tuple)) else b
        return list(itertools.product(*[range(int(x), int(y)) for x, y in zip(bs, e)]))
    r = list(range(int(b), int(e), int(step or 1)))
    f = sys._getframe(1)
    return r if f.f_lineno not in _outer_lines(f.f_code) else _perm(r)


def _outer_lines(code):
    """line numbers of the outermost `for` loops of the kernel"""
    if code not in _cache:
        import ast
        import inspect
        import textwrap
        src, first = inspect.getsourcelines(code)
        tree = ast.parse(textwrap.dedent("".join(src)))
        lines = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)):
                for s in n.body:
                    if isinstance(s, ast.For):
                        lines.add(s.iter.lineno + first - 1)
        _cache[code] = lines
    return _cache[code]


_cache = {}


def kernel(fn=None, **_):
    def deco(f):
        def run(*a, **k):
            import torch
            g, s = torch.Tensor.__getitem__, torch.Tensor.__setitem__

            def getitem(self, key):
                return g(self, _conv(key) if _has(key) else key)

            def setitem(self, key, v):
                return s(self, _conv(key) if _has(key) else key, v)
            torch.Tensor.__getitem__, torch.Tensor.__setitem__ = getitem, setitem
            try:
                return f(*a, **k)
            finally:
                torch.Tensor.__getitem__, torch.Tensor.__setitem__ = g, s
        run.fn = f
        run.__name__ = f.__name__
        run.__doc__ = f.__doc__
        return run
    return deco(fn) if callable(fn) else deco


class Plan:
    """context manager selecting the tiling"""

    def __init__(self, sizes, order):
        self.new = {"sizes": sizes, "order": order}

    def __enter__(self):
        self.old = dict(PLAN)
        PLAN.update(self.new)

    def __exit__(self, *a):
        PLAN.update(self.old)


def install():
    if "helion" in sys.modules and getattr(sys.modules["helion"], "_symx", False):
        return
    h = types.ModuleType("helion")
    hl = types.ModuleType("helion.language")
    h.__path__ = []
    h._symx = True
    h.kernel = h.jit = kernel
    h.Config = lambda *a, **k: None
    h.language = hl
    h.cdiv = lambda a, b: -(-a // b)
    hl.tile, hl.grid, hl.Tile = tile, grid, Tile
    hl.static_range = lambda *a, **k: range(*a)
    hl.specialize = lambda x: x
    hl.register_block_size = lambda *a, **k: 1
    hl.constexpr = int

    def full(shape, value, dtype=None, device=None):
        import torch
        return torch.full([s.end - s.begin if isinstance(s, Tile) else s for s in shape], value, dtype=dtype)
    hl.full = full
    hl.zeros = lambda shape, dtype=None, device=None: full(shape, 0, dtype)

    def dot(a, b, acc=None, **_):
        r = a @ b
        return r if acc is None else acc + r
    hl.dot = dot
    hl.load = lambda t, idx, **k: t[_conv(tuple(idx))]
    sys.modules["helion"] = h
    sys.modules["helion.language"] = hl
