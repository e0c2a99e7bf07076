"""Small helpers shared by the check modules."""
from symx.harness import Case, In


class Cases:
    """Collects cases; a repeated name is dropped."""

    def __init__(self):
        self.list = []
        self.seen = set()

    def add(self, name, inputs, call, ref=None, **k):
        if name in self.seen:
            return
        self.seen.add(name)
        self.list.append(Case(name, inputs, call, ref, **k))


def sh(batch, *dims):
    return ((batch,) if batch else ()) + dims


def tag(**k):
    return "-".join(f"{a}{v}" for a, v in k.items() if v not in (None, False, "", "default"))
