"""C08: intervals from two points, from a point and a length."""
import itertools

from .. import boards, cal, model, real, vast
from ..cal import at, DAY
import numpy as np
import pandas as pd
import timeboard as tb

ID = 'C08'
CHUNK = 1
BOUNDS = {
    'quick': 'all partitions of 1..5 days and of 1..3 units of 32 other base '
             'units x all ordered pairs of points (first and last instant of '
             'every unit, neighbours and far instants outside, null) x 4 '
             'closings; all points x lengths -n-2..n+2 x 4 closings; whole '
             'board x 4 closings; direct call and explicit method; forms of '
             'points and of pairs (5 containers); meaningless arguments; boards of 60..400 '
             'units and of 70000..140000 workshifts',
    'thorough': 'same with 1..7 days and 1..4 other units',
}
CLOSED = ('11', '01', '10', '00')
BASES = boards.FREQS + boards.EDGES
OTHER = list(range(1, len(BASES)))
# what a timestamp can tell
LEAST, MOST = cal.at(1677, 9, 21, 1), cal.at(2262, 4, 11, 23)


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 6 if quick else 8):
        for firsts in boards.compositions(n):
            yield {'f': 0, 'n': n, 'firsts': list(firsts)}
    for n in range(1, 4 if quick else 5):
        for k in OTHER:
            for firsts in boards.compositions(n):
                yield {'f': k, 'n': n, 'firsts': list(firsts)}
    for k in range(8):
        yield {'long': k}
    for k in range(vast.N):
        yield {'vast': k}


def same_interval(m, st, en, e, sched='on_duty'):
    def cmp(v, _):
        return (isinstance(v, tb.Interval) and
                st.get(real.ns(v.start_time)) == e[0] and
                en.get(real.ns(v.end_time)) == e[1] and
                len(v) == v.length == e[1] - e[0] + 1 and
                v.schedule.name == sched)
    return cmp


class Driver(object):
    def __init__(self, b, m, log):
        self.b, self.m, self.log = b, m, log
        self.st = {m.ws_start(i): i for i in range(len(m))}
        self.en = {m.ws_end(i): i for i in range(len(m))}

    def check(self, exp, what, *args, **kw):
        sched = kw.pop('expect_schedule', 'on_duty')
        call = kw.pop('call', True)
        cmp = same_interval(self.m, self.st, self.en, exp[1], sched) \
            if exp[0] == 'ok' else None
        got = real.obs(lambda: self.b.get_interval(*args, **kw))
        self.log.compare(got, exp, lambda: 'get_interval%s on %d workshifts '
                         'of %s' % (what, len(self.m), self.b.compact_str),
                         cmp=cmp)
        if call:
            got = real.obs(lambda: self.b(*args, **kw))
            self.log.compare(got, exp, lambda: 'call with %s on %d '
                             'workshifts of %s' % (
                                 what, len(self.m), self.b.compact_str),
                             cmp=cmp)


def pairs(p, q, a, c):
    """Two points in other containers."""
    yield 'list', [a, c]
    x = np.empty(2, dtype=object)
    x[:] = a, c
    yield 'array', x
    x = [real.ts(p), real.ts(q)]
    yield 'times', pd.DatetimeIndex(x).values
    yield 'index', pd.DatetimeIndex(x)
    yield 'series', pd.Series(x)


def run(case, log):
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    freq, start = BASES[case['f']]
    n, firsts = case['n'], case['firsts']
    sp = boards.composed(freq, start, n, firsts,
                         [k % 2 for k in range(len(firsts))],
                         more=[['inv', 'not']],
                         ref=('start', 'end')[len(firsts) % 2])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    D = Driver(b, m, log)
    pts = [m.start - 400 * DAY, m.start - 1]
    for u, v in m.units:
        pts += [u, v - 1]
    pts += [m.end + 1, m.end + 400 * DAY]
    pts = [t for t in pts if LEAST <= t <= MOST]
    forms = ('ts', 'str', 'obj', 'np')
    # two points
    k = 0
    for p in pts + [None]:
        for q in pts + [None]:
            for cl in CLOSED:
                k += 1
                exp = real.expect(lambda: m.by_points(p, q, cl))
                f, g = (forms[k % 4], forms[k // 4 % 4]) if k % 3 == 0 else (
                    'ts', 'ts')
                nul = ('none', 'nat', 'nan')[k % 3]
                a = real.pt(p, f if p is not None else nul)
                c = real.pt(q, g if q is not None else nul)
                kw = {} if cl == '11' and k % 2 else {'closed': cl}
                D.check(exp, '((%s, %s), closed=%s)' % (a, c, cl), (a, c),
                        call=k % 2 == 0 or cl == '00', **kw)
                if k % 4 == len(firsts) % 4 and n < 4:
                    for nm, x in pairs(p, q, a, c):
                        D.check(exp, '(%s %r, closed=%s)' % (nm, x, cl), x,
                                closed=cl)
    # a point and a length
    N = len(m)
    for p in pts:
        for ln in range(-N - 2, N + 3):
            for cl in CLOSED:
                exp = real.expect(lambda: m.by_length(p, ln, cl))
                a = real.pt(p, forms[ln % 4] if ln % 3 == 0 else 'ts')
                kw = {} if cl == '11' and ln % 2 else {'closed': cl}
                D.check(exp, '(%s, length=%d, closed=%s)' % (a, ln, cl), a,
                        length=ln, call=ln % 2 == 1, **kw)
    # the board's own workshifts as points
    for i in range(N):
        w = tb.Workshift(b, i)
        for j in range(N):
            cl = CLOSED[(i + j) % 4]
            D.check(real.expect(lambda: m.by_points(
                m.ws_start(i), m.ws_start(j), cl)),
                '((workshift %d, workshift %d), closed=%s)' % (i, j, cl),
                (w, tb.Workshift(b, j)), closed=cl)
        for ln in (1, -1, 2, -N):
            D.check(real.expect(lambda: m.by_length(m.ws_start(i), ln, '11')),
                    '(workshift %d, length=%d)' % (i, ln), w, length=ln)
    # null point with a length
    for nul in ('none', 'nat'):
        D.check(('err', {model.OOB, 'TypeError'}), '(null, length=1)',
                real.pt(None, nul), length=1)
    # the whole board
    for cl in CLOSED:
        exp = real.expect(lambda: m.by_points(None, None, cl))
        D.check(exp, '(closed=%s)' % cl, closed=cl)
        D.check(exp, '(None, closed=%s)' % cl, None, closed=cl)
        D.check(exp, '((None, None), closed=%s)' % cl, (None, None),
                closed=cl)
        D.check(exp, '(closed=%s, schedule)' % cl, closed=cl,
                schedule=b.schedules['inv'], expect_schedule='inv')
    D.check(('ok', (0, N - 1)), '()')
    # schedules
    inv = b.schedules['inv']
    t0, t1 = real.ts(m.start), real.ts(m.end)
    D.check(('ok', (0, N - 1)), '(points, schedule)', (t0, t1), schedule=inv,
            expect_schedule='inv')
    D.check(('ok', (0, N - 1)), '(length, schedule)', t0, length=N,
            schedule=inv, expect_schedule='inv')
    # meaningless arguments
    bad = [
        ('closed 2', 'ValueError', ((t0, t1),), {'closed': '2'}),
        ('closed empty', 'ValueError', ((t0, t1),), {'closed': ''}),
        ('closed 12', 'ValueError', (t0,), {'length': 1, 'closed': '12'}),
        ('closed 012', 'ValueError', (), {'closed': '012'}),
        ('closed number', 'ValueError', (), {'closed': 11}),
        ('closed None', 'ValueError', ((t0, t1),), {'closed': None}),
        ('length and period', 'TypeError', (t0,), {'length': 1,
                                                   'period': 'M'}),
        ('length 1.0', 'TypeError', (t0,), {'length': 1.0}),
        ('length text', 'TypeError', (t0,), {'length': '1'}),
        ('a number', 'TypeError', (t0,), {'length': t1}),
        ('one-element reference', 'TypeError', ((t0,),), {}),
        ('empty reference', 'TypeError', ((),), {}),
    ]
    for what, kind, args, kw in bad:
        D.check(('err', {kind}), '(%s)' % what, *args, call=False, **kw)
        if kw:
            D.check(('err', {kind}), '(%s)' % what, *args, **kw)
    for ref in (t0, '2017-10-01', 5):
        log.compare(real.obs(lambda: b.get_interval(ref)),
                    ('err', {'TypeError'}), 'get_interval(%r)' % (ref,))
    # a single point in a call means a workshift
    def single(what, e, x):
        log.compare(real.obs(lambda: b(x())),
                    ('ok', e) if e is not None else ('err', {model.OOB}),
                    lambda: 'call with %s' % what,
                    cmp=lambda w, y: isinstance(w, tb.Workshift) and
                    D.st.get(real.ns(w.start_time)) == y)
    for p in pts:
        for f in forms:
            single('a point (%s) %s' % (f, real.ts(p)), m.find(p),
                   lambda: real.pt(p, f))
    for i in range(N):
        for S in b.schedules.values():
            single('workshift %d' % i, m.find(m.ws_ref(i)),
                   lambda: tb.Workshift(b, i, S))
    log.samples.append({'spec': sp, 'points': len(pts)})


def run_long(k, log):
    freq, start, n, gap = [
        ('D', at(2016, 2, 20), 400, 7), ('H', at(2017, 12, 30), 120, 5),
        ('M', at(1990, 1, 1), 60, 2), ('W', at(2017, 1, 1), 60, 3)][k % 4]
    s = boards.unit_starts(freq, start, n)
    sp = {'freq': freq, 'start': s[0], 'end': s[n] - 1,
          'layout': {'marks': s[0:n:gap] + s[1:n:gap + 2],
                     'structure': [{'s': 1}, {'s': 0}]}}
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    D = Driver(b, m, log)
    idx = list(range(0, n, max(1, n // 12))) + [n - 1]
    pts = [s[i] + (0 if i % 2 else s[i + 1] - s[i] - 1) for i in idx]
    for p in pts:
        for q in pts:
            cl = CLOSED[(p // DAY + q // DAY + k // 4) % 4]
            D.check(real.expect(lambda: m.by_points(p, q, cl)),
                    '(%s, %s, %s)' % (real.ts(p), real.ts(q), cl),
                    (real.ts(p), real.ts(q)), closed=cl)
        for ln in (1, -1, 5, -5, 40, -40, 200, -200):
            for cl in CLOSED:
                D.check(real.expect(lambda: m.by_length(p, ln, cl)),
                        '(%s, length %d, %s)' % (real.ts(p), ln, cl),
                        real.ts(p), length=ln, closed=cl)


def run_vast(k, log):
    b, m = vast.both(k)
    log.state(('vast', k))
    n = len(m)
    D = Driver(b, m, log)
    pos = vast.edges(n)
    for i in pos:
        for j in pos:
            cl = CLOSED[(i + j) % 4]
            p, q = m.ws_start(i), m.ws_end(j)
            D.check(real.expect(lambda: m.by_points(p, q, cl)),
                    '(%s, %s, %s)' % (real.ts(p), real.ts(q), cl),
                    (real.ts(p), real.ts(q)), closed=cl)
            for ln in (j - i, i - j, j - i + 1, j + 1, -j - 1):
                D.check(real.expect(lambda: m.by_length(p, ln, cl)),
                        '(%s, length %d, %s)' % (real.ts(p), ln, cl),
                        real.ts(p), length=ln, closed=cl)
    for cl in CLOSED:
        D.check(real.expect(lambda: m.by_points(None, None, cl)),
                '(closed=%s)' % cl, closed=cl)
