"""Boards of 70000 to 140000 workshifts: what goes wrong only at positions or
counts beyond 2**7, 2**8, 2**15 or 2**16."""
import bisect

from . import boards, model, real
from .cal import at
from .model import ModelError, OOB

HUGE = [
    ('T', at(2019, 12, 1), 140000, {'pat': [1, 1, 1, 0, 1, 0, 2]}),
    ('T', at(2019, 12, 1), 105000, {
        'marker': {'each': 'H', 'at': [{'minutes': k + k // 2}
                                       for k in range(40)]},
        'structure': [{'s': 1}, {'s': 0}, {'s': 0}, {'s': 3}]}),
    ('S', at(2016, 2, 28, 12), 70000, {'marker': 'T', 'structure': [
        {'p': [1, 0, 0]}, {'p': [2]}]}),
]
N = len(HUGE)


class Board(model.Board):
    """The same model, with positions of either duty listed once."""

    def _members(self, duty, sch):
        c = self.__dict__.setdefault('_cache', {})
        if (duty, sch) not in c:
            c[duty, sch] = model.Board.members(self, 0, len(self) - 1, duty,
                                               sch)
        return c[duty, sch]

    def members(self, lo, hi, duty, sch):
        m = self._members(duty, sch)
        return m[bisect.bisect_left(m, lo):bisect.bisect_right(m, hi)]

    def referred(self, s, e):
        r = self.__dict__.get('_refs')
        if r is None:
            r = self._refs = [self.ws_ref(i) for i in range(len(self))]
        return range(bisect.bisect_left(r, s), bisect.bisect_right(r, e))

    def roll(self, i, steps, duty, sch, back=False):
        if duty in ('same', 'alt'):
            duty = 'on' if self.on(i, sch) == (duty == 'same') else 'off'
        m = self._members(duty, sch)
        k = bisect.bisect_right(m, i) - 1 - steps if back else \
            bisect.bisect_left(m, i) + steps
        none = (not m or m[0] > i) if back else (not m or m[-1] < i)
        if none or not 0 <= k < len(m):
            raise ModelError(OOB)
        return m[k]


def both(k, **kw):
    """Real board and model of number k."""
    freq, start, n, l = HUGE[k]
    kw.setdefault('more', [['inv', 'not'], ['gt1', 'gt1']])
    sp = boards.spec(freq, start, n, layout=l, **kw)
    return real.build(sp), Board(sp)


def edges(n, width=1):
    """Positions next to powers of two and to the ends."""
    at_ = [0, 128, 256, 32768, 65536, n]
    return sorted({x + d for x in at_ for d in range(-width, width + 1)
                   if 0 <= x + d < n})


def ivls(n):
    """Intervals of positions: between the edges, and short ones at them."""
    e = [0, 127, 32767, 32768, 65535, 65536, n - 1]
    return [(a, b) for a in e for b in e if a <= b]
