"""Small drawing helper on top of hypothesis.  All randomness of a case comes from here."""
from __future__ import annotations

from hypothesis import strategies as st

_INTS: dict = {}


class D:
    """Wraps hypothesis' draw function; every choice shrinks towards the first / smallest alternative."""

    __slots__ = ("draw",)

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo: int, hi: int) -> int:
        if lo == hi:
            return lo
        s = _INTS.get((lo, hi))
        if s is None:
            s = _INTS[(lo, hi)] = st.integers(lo, hi)
        return self.draw(s)

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def flag(self, pct: int) -> bool:
        """True with about pct percent; shrinks to False."""
        return self.int(0, 99) >= 100 - pct

    def weighted(self, pairs):
        """pairs: (weight, value); shrinks towards the first."""
        total = sum(w for w, _ in pairs)
        x = self.int(0, total - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def subset(self, seq, pct: int = 50):
        return [x for x in seq if self.flag(pct)]

    def some(self, seq, lo: int, hi: int):
        """An ordered sample without replacement of size lo..hi."""
        seq = list(seq)
        n = self.int(lo, min(hi, len(seq)))
        out = []
        for _ in range(n):
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def permutation(self, seq):
        return self.some(seq, len(list(seq)), len(list(seq)))

    def any(self, strategy):
        return self.draw(strategy)


def composite(fn):
    """Decorator: fn(d, *args) -> value becomes a strategy factory."""
    @st.composite
    def inner(draw, *args, **kwargs):
        return fn(D(draw), *args, **kwargs)
    inner.__name__ = fn.__name__
    return inner
