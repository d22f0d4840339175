"""C02: layout rules."""
import collections
import itertools

import numpy as np
import pandas as pd
import timeboard as tb

from .. import boards, cal, kinds, lay, model, real
from ..cal import at, DAY

ID = 'C02'
CHUNK = 20
BOUNDS = {
    'quick': 'base unit/period pairs of the alphabet x starting points at '
             'period bounds and off them x lengths around one and two periods '
             'x structures of 1..3 elements over {pattern, longer pattern, '
             'empty pattern, label, organizer}; all mark sets over 5 base '
             'units with offsets inside the unit, duplicates and outsiders; '
             'organizers nested up to 3 deep; all refused pairs; all ordered '
             'pairs of labels of 44 kinds in 9 layouts, 15 kinds of iterables '
             'as patterns, structures and layouts',
    'thorough': 'same with more lengths, all starts of a period, all mark '
                'sets over 8 base units and all structures of 1..3 elements '
                'for every pair',
}

P3 = {'p': [1, 2, 3]}
P2 = {'p': [7, 8]}
P9 = {'p': [11, 12, 13, 14, 15, 16, 17, 18, 19]}
P0 = {'p': []}
S5 = {'s': 5}
SA = {'s': 'A'}

# base unit, period, starting points, lengths
PAIRS = [
    ('D', 'W', [at(2017, 1, d) for d in range(1, 9)], [1, 2, 6, 7, 8, 15]),
    ('D', 'W-WED', [at(2016, 12, d) for d in (27, 28, 29, 30, 31)], [1, 5, 7, 9, 16]),
    ('D', 'M', [at(2016, 1, 31), at(2016, 2, 1), at(2016, 2, 2),
                at(2016, 2, 29), at(2015, 2, 28), at(2016, 12, 31)],
     [1, 2, 29, 30, 61]),
    ('D', '2W', [at(2017, 1, 1), at(2017, 1, 4)], [1, 13, 14, 30]),
    ('D', '2D', [at(2017, 1, 1), at(2017, 1, 2)], [1, 2, 5]),
    ('D', '2M', [at(2017, 1, 31), at(2017, 2, 1)], [1, 58, 95]),
    ('D', 'Q', [at(2015, 12, 31), at(2016, 1, 1), at(2016, 2, 15)], [1, 2, 95]),
    ('D', 'Q-FEB', [at(2015, 11, 30), at(2015, 12, 1), at(2016, 3, 2)], [1, 2, 95]),
    ('D', 'A', [at(2015, 12, 30), at(2016, 1, 1), at(2016, 12, 31),
                at(1999, 3, 1)], [1, 2, 3, 366]),
    ('D', 'A-MAR', [at(2016, 3, 31), at(2016, 4, 1), at(2017, 1, 1)], [2, 100, 367]),
    ('H', 'D', [at(2017, 2, 28, h) for h in (0, 1, 12, 23)], [1, 2, 23, 24, 25, 49]),
    ('H', 'W', [at(2017, 1, 1, 22), at(2017, 1, 2), at(2017, 1, 4, 7)], [1, 3, 170]),
    ('H', 'M', [at(2016, 2, 29, 22), at(2016, 3, 1)], [3, 50]),
    ('H', '12H', [at(2016, 2, 29, 22), at(2016, 3, 1)], [3, 12, 25]),
    ('T', 'H', [at(2016, 12, 31, 23, 58), at(2017, 1, 1)], [1, 3, 61, 122]),
    ('T', '30T', [at(2016, 12, 31, 23, 28), at(2017, 1, 1)], [3, 31, 61]),
    ('S', 'T', [at(1969, 12, 31, 23, 59, 58), at(2017, 1, 1)], [1, 3, 61]),
    ('M', 'Q', [at(2016, m, 1) for m in (1, 2, 3)], [1, 2, 3, 4, 7]),
    ('M', 'Q-FEB', [at(2016, m, 1) for m in (1, 2, 3)], [1, 3, 7]),
    ('M', 'A', [at(1999, m, 1) for m in (1, 2, 12)], [1, 2, 12, 13, 25]),
    ('M', 'A-MAR', [at(1999, m, 1) for m in (3, 4, 12)], [1, 2, 13, 25]),
    ('Q', 'A', [at(1999, m, 1) for m in (1, 4, 10)], [1, 2, 4, 5, 9]),
    ('W', '2W', [at(1999, 1, 4), at(1999, 1, 11)], [1, 2, 5]),
    ('2D', '4D', [at(2017, 1, 1), at(2017, 1, 2)], [1, 2, 5]),
    ('8H', '24H', [at(2017, 1, 1), at(2017, 1, 1, 16)], [1, 2, 4, 7]),
    ('2H', '6H', [at(2017, 1, 1), at(2017, 1, 1, 16)], [1, 2, 4, 7]),
    ('M', '2M', [at(2017, 1, 1), at(2017, 2, 1)], [1, 2, 5]),
    ('A', '5A', [at(2017, 1, 1)], [1, 5, 7]),
    # other names of the frequencies
    ('D', 'Y', [at(2015, 12, 30), at(2016, 1, 1)], [1, 3, 366]),
    ('D', '2Y', [at(2015, 12, 30)], [3, 740]),
    ('min', 'H', [at(2016, 12, 31, 23, 58)], [1, 3, 61]),
    ('min', '30min', [at(2016, 12, 31, 23, 28)], [3, 31, 61]),
    ('T', '60min', [at(2016, 12, 31, 23, 28)], [3, 31, 61]),
    ('M', 'Y', [at(1999, 2, 1)], [1, 12, 25]),
    ('Q', 'Y', [at(1999, 4, 1)], [1, 4, 9]),
    ('ms', 'S', [at(2016, 12, 31, 23, 59, 59) + 999 * 10 ** 6], [1, 301]),
    ('d', 'w', [at(2017, 1, 4)], [1, 8]),
    ('h', '1D', [at(2017, 1, 4, 5)], [1, 40]),
    ('D', '1W', [at(2017, 1, 4)], [1, 8]),
    # sums and fractions of units
    ('H', '1D12H', [at(2017, 1, 4, 5)], [1, 36, 80]),
    ('T', '1.5H', [at(2016, 12, 31, 23, 28)], [3, 91]),
    ('30T', '1H30T', [at(2016, 12, 31, 23, 30)], [1, 3, 7]),
    ('1.5H', '4.5H', [at(2016, 12, 31, 23)], [1, 3, 7]),
    ('D', '1D24H', [at(2017, 1, 1)], [1, 2, 5]),
    ('H', '0.5D', [at(2017, 1, 1, 22)], [1, 12, 25]),
    ('L', 'S', [at(2016, 12, 31, 23, 59, 59) + k * 10 ** 6
                for k in (0, 700, 999)], [1, 2, 301, 1002]),
    ('U', 'L', [at(2016, 12, 31, 23, 59, 59) + 998 * 10 ** 6 + k * 1000
                for k in (0, 700, 999)], [1, 2, 301, 1002]),
    ('N', 'U', [at(2016, 12, 31, 23, 59, 59) + 999998 * 1000 + k
                for k in (0, 700, 999)], [1, 2, 301, 1002]),
]

REFUSED = [('D', 'H'), ('D', 'S'), ('W', 'M'), ('W', 'Q'), ('W', 'A'),
           ('W', 'D'), ('W', 'W-WED'), ('W-WED', 'W'), ('M', 'W'),
           ('M', 'D'), ('Q', 'M'), ('Q-FEB', 'A'), ('Q-DEC', 'A-JAN'),
           ('A', 'Q'), ('A', 'M'), ('A', 'A-MAR'), ('2D', 'D'), ('2D', '3D'),
           ('3D', '2D'), ('4D', '2D'), ('H', 'T'), ('2H', 'H'), ('2H', '3H'),
           ('T', 'S'), ('M', 'T'), ('8H', '12H'), ('A', 'W'),
           ('1.5H', 'H'), ('1D12H', 'D'), ('D', '1D12H'), ('1.5H', '2H')]
# pairs close to the refused ones which must be accepted
TWINS = [('D', 'D'), ('H', 'H'), ('W', 'W'), ('W-WED', 'W-WED'), ('2D', '2D'),
         ('2D', '6D'), ('Q-FEB', 'A-FEB'), ('Q-FEB', 'A-MAY'), ('Q-DEC', 'A-MAR'),
         ('4H', '12H'), ('W-WED', '3W-WED'), ('M', 'A-JAN'), ('M', 'Q-JAN'),
         ('S', 'S'), ('T', 'T')]


def inner(base, each):
    """Organizers to nest below a marker of `each`."""
    fine = {'D': 'W', 'H': 'D', 'T': 'H', 'S': 'T', 'M': 'Q'}.get(base)
    out = []
    if fine and fine != each and model.fits(base, fine):
        out.append({'marker': fine, 'structure': [P3]})
        out.append({'marker': fine, 'structure': [SA, P2]})
    return out


def structs(base, each):
    base_list = [[P3], [P9], [P3, P2], [S5], [S5, P3], [P0], [],
                 [P3, P0, S5], [P2, SA, S5]]
    base_list += [[o] for o in inner(base, each)]
    base_list += [[o, S5] for o in inner(base, each)[:1]]
    base_list += [[P3, o] for o in inner(base, each)[1:]]
    return base_list


def elements(base, each):
    return [P3, P2, S5, P0] + inner(base, each)[:1] + [
        {'marks': [], 'structure': [P9]}]


def cases(tier):
    for base, each in REFUSED + TWINS:
        for st in ([P3], [S5]):
            yield {'base': base, 'each': each, 'start': at(2015, 11, 1),
                   'n': 4, 'structs': [st], 'dl': None}
    for base, each, starts, ns in PAIRS:
        if tier != 'quick':
            ns = sorted(set(ns + [n + 1 for n in ns] + [3, 4, 5]))
        for s in starts:
            for n in ns:
                yield {'base': base, 'each': each, 'start': s, 'n': n,
                       'structs': structs(base, each), 'dl': None}
    # all structures up to 3 elements
    for base, each, starts, ns in (PAIRS[:3] if tier == 'quick' else PAIRS):
        el = elements(base, each)
        for k in (1, 2, 3):
            for st in itertools.product(el, repeat=k):
                yield {'base': base, 'each': each, 'start': starts[-1],
                       'n': 24 if base == 'D' and each[0] == 'W' else
                       min(ns[-1], 70), 'structs': [list(st)], 'dl': -1}
    # marks
    top = 5 if tier == 'quick' else 8
    for n in range(1, top + 1):
        for firsts in boards.compositions(n):
            yield {'marks': list(firsts), 'n': n}
    # nesting
    for c in nested(tier):
        yield c
    # labels and containers of every kind
    for i in range(kinds.N):
        yield {'kind': i}
    yield {'containers': 1}


def nested(tier):
    """Organizers three deep, spans of every phase."""
    summer = {'each': 'A', 'at': [{'months': 4}, {'months': 8, 'days': 15}]}
    lays = []
    for st in ([P3], [S5], [P0], [P9, S5]):
        wk = {'marker': 'W', 'structure': st}
        mo = {'marker': 'M', 'structure': [wk]}
        q = {'marker': 'Q', 'structure': [wk, {'s': 'Q'}]}
        lays += [
            {'marker': 'A', 'structure': [mo]},
            {'marker': 'M', 'structure': [wk, S5]},
            {'marker': 'A', 'structure': [q, wk]},
            {'marker': summer, 'structure': [wk, mo]},
            {'marker': summer, 'structure': [S5, wk]},
            {'marks': [at(2016, 12, 30), at(2017, 1, 4, 5)],
             'structure': [wk, mo]},
            {'marks': [at(2016, 12, 30), at(2017, 1, 4, 5),
                       at(2017, 1, 30, 23)],
             'structure': [{'marks': [at(2016, 12, 29), at(2017, 1, 7)],
                            'structure': [wk, S5, P3]}, mo]},
            {'marker': 'M', 'structure': [
                {'marks': [at(2017, 1, 10), at(2017, 2, 3)],
                 'structure': [wk, P2]}]},
        ]
    for l in lays:
        for start in (at(2016, 4, 29), at(2016, 12, 27), at(2017, 1, 1)):
            for n in (9, 40) + ((400,) if tier != 'quick' or
                                start == at(2016, 12, 27) else ()):
                yield {'layout': l, 'freq': 'D', 'start': start, 'n': n}
    hourly = [
        {'marker': 'W', 'structure': [
            {'marker': 'D', 'structure': [st, S5]}]} for st in (P3, SA, P9)]
    hourly += [
        {'marker': 'M', 'structure': [
            {'marker': 'W', 'structure': [
                {'marker': 'D', 'structure': [P9]}, SA]}]}]
    for l in hourly:
        for start in (at(2016, 12, 31, 22), at(2017, 1, 30, 3)):
            for n in (5, 60, 200):
                yield {'layout': l, 'freq': 'H', 'start': start, 'n': n}


def containers(log):
    """A list of labels is any iterable, a structure too."""
    def forms(x):
        yield 'list', list(x)
        yield 'tuple', tuple(x)
        yield 'array', np.array(x, dtype=object)
        for idx in (range(len(x)), range(5, 5 + len(x)),
                    ['r%d' % k for k in range(len(x))],
                    range(len(x) - 1, -1, -1)):
            yield 'series', pd.Series(x, index=list(idx), dtype=object)
        yield 'index', pd.Index(x, dtype=object)
        yield 'deque', collections.deque(x)
        yield 'keys', dict.fromkeys(x).keys()
        yield 'dict', dict.fromkeys(x)
        yield 'values', dict(enumerate(x)).values()
        if len(set(x)) == 1 == len(x):
            yield 'set', set(x)
            yield 'frozenset', frozenset(x)
        if all(x[k] == k for k in range(len(x))):
            yield 'range', range(len(x))
    for n in (1, 2, 5, 9):
        for x in ([1], [0], ['a'], [0, 1], [3, 1, 2], [0, 1, 2, 3],
                  list('abcdefgh')):
            for name, f in forms(x):
                s = boards.unit_starts('D', at(2017, 1, 30), n)
                what = lambda: '%s %r on %d days' % (name, x, n)
                log.compare(
                    real.obs(lambda: [w.label for w in tb.Timeboard(
                        'D', real.ts(s[0]), real.ts(s[n - 1]), f)()]),
                    ('ok', [x[k % len(x)] for k in range(n)]), what)
                log.compare(
                    real.obs(lambda: [w.label for w in tb.Timeboard(
                        'D', real.ts(s[0]), real.ts(s[n - 1]), tb.Organizer(
                            marks=[real.ts(s[n // 2])], structure=[f]))()]),
                    ('ok', [x[k % len(x)] for k in range(n // 2)] +
                     [x[k % len(x)] for k in range(n - n // 2)]), what)
                log.compare(
                    real.obs(lambda: [w.label for w in tb.Timeboard(
                        'D', real.ts(s[0]), real.ts(s[n - 1]), tb.Organizer(
                            marker='D', structure=f))()]),
                    ('ok', [x[k % len(x)] for k in range(n)]), what)


def run(case, log):
    if 'kind' in case:
        return kinds.explore(case['kind'], kinds.layouts, [kinds.labels], log)
    if 'containers' in case:
        return containers(log)
    if 'each' in case:
        for st in case['structs']:
            sp = boards.spec(case['base'], case['start'], case['n'],
                             layout={'marker': case['each'],
                                     'structure': st})
            if case['dl'] is not None:
                sp['dl'] = case['dl']
            lay.check_board(sp, log)
            if st == [P3]:
                sp = dict(sp, layout={'marker': {'each': case['each'],
                                                 'at': []},
                                      'structure': [P3]}, dl=0)
                lay.check_board(sp, log)
    elif 'marks' in case:
        n, firsts = case['n'], case['marks']
        for freq, start in (('D', at(2017, 1, 30)), ('8H', at(2016, 2, 28, 8)),
                            ('M', at(2016, 1, 1)), ('2D', at(2017, 1, 30))):
            s = boards.unit_starts(freq, start, n)
            for off, form in ((0, 'ts'), (1, 'str'), (s[1] - s[0] - 1, 'np'),
                              ((s[1] - s[0]) // 2 // 1000 * 1000, 'dt')):
                # the first unit and places outside are no marks
                pts = [s[i] + min(off, s[i + 1] - s[i] - 1)
                       for i in firsts]
                more = list(reversed(pts)) + pts + [s[0] - 1 - off,
                                                    s[n], s[n] + 10 ** 6]
                if form == 'dt':
                    more = [x // 1000 * 1000 for x in more]
                for st in ([S5, SA], [P3], [P2, S5, P9], [P0, S5], []):
                    lay.check_board(boards.spec(
                        freq, start, n,
                        layout={'marks': more if off else pts,
                                'structure': st, 'form': form},
                        dl='dflt'), log)
        for form in ('list', 'tuple', 'np', 'ser'):
            for pat in ([], [1], [1, 0], [1, 2, 3, 4, 5, 6, 7, 8, 9],
                        ['a', None, 2.5]):
                if form == 'ser' and not pat:
                    continue
                lay.check_board(boards.spec(
                    'D', at(2017, 1, 30), n,
                    layout={'pat': pat, 'form': form}), log)
    else:
        m, b = lay.check_board(boards.spec(
            case['freq'], case['start'], case['n'], layout=case['layout']),
            log)
        if m is not None:
            log.samples.append({'case': case, 'spans': m.cuts[:8],
                                'labels': m.labels[:12]})
