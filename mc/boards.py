"""Building blocks of the enumerated spaces."""
import itertools

from . import cal
from .cal import at, NS, DAY, HOUR


def compositions(n):
    """All ways to cut n units into consecutive groups: tuples of the first
    units of the groups (always starting with 0)."""
    for mask in range(2 ** (n - 1)):
        yield (0,) + tuple(i + 1 for i in range(n - 1) if mask >> i & 1)


def unit_starts(freq, start, n):
    m, b, a = cal.parse(freq)
    o = cal.ordinal(b, a, start)
    return [cal.ordinal_start(b, a, o + k * m) for k in range(n + 1)]


def spec(freq, start, n, **kw):
    """n base units of freq, the first one containing start."""
    s = unit_starts(freq, start, n)
    d = dict(freq=freq, start=s[0], end=s[n] - 1)
    d.update(kw)
    return d


def composed(freq, start, n, firsts, labels, **kw):
    """Workshifts beginning at the given units, with the given labels."""
    s = unit_starts(freq, start, n)
    lay = {'marks': [s[i] for i in firsts[1:]],
           'structure': [{'s': x} for x in labels]}
    return spec(freq, start, n, layout=lay, **kw)


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


# base units with starting points chosen at calendar irregularities
FREQS = [
    ('D', at(2017, 9, 29)),           # month end, weekend
    ('H', at(2017, 12, 31, 22)),      # new year's eve
    ('8H', at(2017, 2, 27, 16)),
    ('W', at(2016, 12, 20)),
    ('M', at(2015, 11, 3)),           # leap February ahead
    ('Q', at(1999, 8, 1)),
    ('A', at(1998, 5, 5)),
    ('T', at(2016, 2, 29, 23, 58)),
    ('S', at(2016, 2, 28, 23, 59, 58)),
    ('30T', at(2017, 10, 1, 22, 30)),
    ('2D', at(2016, 2, 27)),
    ('3D', at(2100, 2, 26)),          # no leap day in 2100
    ('W-WED', at(2017, 2, 21)),
    ('A-MAR', at(1899, 7, 7)),        # before the epoch
    ('Q-FEB', at(2019, 12, 31)),
    ('2M', at(2017, 12, 1)),
    ('min', at(1969, 12, 31, 23, 58)),    # crosses the epoch
    ('2W', at(1969, 12, 15)),
    ('12H', at(1800, 2, 28)),
    ('D', at(1969, 12, 30)),
    ('D', at(2200, 2, 27)),
    # sums and fractions
    ('1D12H', at(2016, 2, 28, 10)), ('1.5H', at(2017, 12, 31, 21)),
    ('0.5D', at(2017, 3, 31, 10)),
]
# parts of seconds; next to the ends of what timestamps can tell
EDGES = [
    ('L', at(2016, 12, 31, 23, 59, 59) + 998 * 10 ** 6),
    ('us', at(1969, 12, 31, 23, 59, 59) + 999998 * 1000),
    ('N', at(2020, 2, 28, 23, 59, 59) + 999999998),
    ('250L', at(2016, 2, 28, 23, 59, 59) + 500 * 10 ** 6),
    ('D', at(1677, 9, 22)), ('D', at(2262, 4, 6)), ('H', at(1677, 9, 21, 1)),
    ('T', at(2262, 4, 11, 23, 40)), ('W', at(1677, 9, 27)),
    ('M', at(1677, 10, 5)), ('A', at(1678, 5, 5)), ('M', at(2261, 12, 1)),
]
