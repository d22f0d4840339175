"""C09: intervals from calendar periods."""
from .. import boards, cal, model, real, vast
from ..cal import at, DAY
from .c08 import Driver, CLOSED
import pandas as pd
import timeboard as tb

ID = 'C09'
CHUNK = 1
BOUNDS = {
    'quick': 'all partitions of 1..4 base units of 20 frequencies, both '
             'reference times, x 13 period frequencies x points from two '
             'periods before to two after at first and last instants x 4 '
             'closings x clipping on and off x period given by point and '
             'frequency, by call, and as a period object, before and after '
             'workshifts and intervals at the bounds of the periods; boards of 40..800 '
             'units and of 70000..140000 workshifts',
    'thorough': 'same with 1..6 base units',
}
PER = ['D', 'W', 'M', 'Q', 'A', 'H', 'W-WED', 'A-MAR', 'Q-FEB', '2D', '3M',
       'T', '1D12H']
BASES = [
    ('D', at(2017, 9, 29)), ('D', at(2016, 2, 28)), ('D', at(2016, 12, 30)),
    ('H', at(2016, 12, 31, 22)), ('8H', at(2017, 2, 27, 16)),
    ('W', at(2016, 12, 20)), ('M', at(2015, 11, 3)), ('Q', at(1999, 8, 1)),
    ('A', at(1998, 5, 5)), ('T', at(2016, 2, 29, 23, 58)),
    ('2D', at(2016, 2, 27)), ('W-WED', at(2017, 2, 21)),
    ('A-MAR', at(1899, 7, 7)), ('12H', at(1969, 12, 31)),
    ('S', at(2016, 12, 31, 23, 59, 58)),
    ('L', at(2016, 12, 31, 23, 59, 59) + 998 * 10 ** 6),
    ('us', at(1969, 12, 31, 23, 59, 59) + 999998 * 1000),
    ('N', at(2020, 2, 28, 23, 59, 59) + 999999998),
    ('D', at(1677, 9, 23)), ('H', at(2262, 4, 10, 22)),
]
FINE = ['D', 'M', 'H', 'T', 'S', 'L', 'us', 'N', '7L', '2N']
# what a timestamp can tell
LEAST, MOST = cal.at(1677, 9, 21, 1), cal.at(2262, 4, 11, 23)


def cases(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for k in range(len(BASES)):
            if n >= 4 and tier == 'quick' and k not in (0, 1, 5):
                continue
            for firsts in boards.compositions(n):
                for ref in ('start', 'end'):
                    yield {'b': k, 'n': n, 'firsts': list(firsts),
                           'ref': ref}
    for k in range(10):
        yield {'long': k}
    for k in range(2 * vast.N):
        yield {'vast': k}


def periods(m, freq):
    """Base-period starts from two before the board to two after; for fine
    periods those at the edges of base units."""
    _, b, a = cal.parse(freq)
    o0, o1 = cal.ordinal(b, a, m.start), cal.ordinal(b, a, m.end)
    if o1 - o0 <= 12:
        os = range(o0 - 2, o1 + 3)
    else:
        os = {o0 - 2, o0 - 1, o0, o0 + 1, o1 - 1, o1, o1 + 1, o1 + 2}
        for u, v in m.units:
            for t in (u - 1, u, v - 1, (u + v) // 2):
                os.add(cal.ordinal(b, a, t))
        os = sorted(os)
        if len(os) > 24:
            os = os[:12] + os[-12:]
    ps = [cal.ordinal_start(b, a, o) for o in os]
    return [t for t in ps if LEAST <= t and cal.period(freq, t)[1] <= MOST]


def run(case, log):
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    freq, start = BASES[case['b']]
    n, firsts = case['n'], case['firsts']
    sp = boards.composed(freq, start, n, firsts,
                         [(k + 1) % 2 for k in range(len(firsts))],
                         ref=case['ref'], more=[['inv', 'not']])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    D = Driver(b, m, log)
    per = PER if n < 4 else PER[:8]
    if 13 < case['b'] < 18:
        per = FINE
    if sum(firsts) % 2:
        edges(m, b, D, per, log)
    explore(m, b, D, per, n <= 2, log)
    edges(m, b, D, per, log)
    log.samples.append({'spec': sp})


def edges(m, b, D, freqs, log):
    """Workshifts and intervals at the bounds of the periods, asked before and
    after the periods themselves."""
    ts = sorted({t for pf in freqs for ps in periods(m, pf)
                 for t in (ps, cal.period(pf, ps)[1] - 1)})
    ts = [t for t in ts if m.start - DAY <= t <= m.end + DAY]
    for k, t in enumerate(ts):
        e = m.find(t)
        log.compare(real.obs(lambda: b(real.ts(t))),
                    ('ok', e) if e is not None else ('err', {model.OOB}),
                    lambda: 'call with %s' % real.ts(t),
                    cmp=lambda w, x: isinstance(w, tb.Workshift) and
                    D.st.get(real.ns(w.start_time)) == x)
        q = ts[-1 - k]
        D.check(real.expect(lambda: m.by_points(t, q, '11')),
                '((%s, %s))' % (real.ts(t), real.ts(q)),
                (real.ts(t), real.ts(q)), call=False)


def explore(m, b, D, freqs, full, log):
    k = 0
    inv = b.schedules.get('inv')
    for pf in freqs:
        for ps in periods(m, pf):
            s, e = cal.period(pf, ps)
            inner = cal.period(cal.single(pf), ps)[1]
            for cl in CLOSED:
                for clip in (True, False):
                    k += 1
                    exp = real.expect(lambda: m.by_period(s, e - 1, clip, cl))
                    # the point may be anywhere in the period
                    t = (s, inner - 1, (s + inner) // 2)[k % 3]
                    kw = {'closed': cl}
                    if not clip or k % 5 == 0:
                        kw['clip_period'] = clip
                    if cl == '11' and k % 2:
                        del kw['closed']
                    es = 'on_duty'
                    if inv is not None and k % 7 == 0:
                        kw['schedule'], es = inv, 'inv'
                    what = '(%s, period=%s, %r)' % (real.ts(t), pf, kw)
                    D.check(exp, what, real.pt(t, ('ts', 'str', 'obj')[k % 3]),
                            period=pf, call=full or k % 4 == 0,
                            expect_schedule=es, **kw)
                    D.check(exp, what + ' as a period object',
                            pd.Period(real.ts(t), freq=pf), call=False,
                            expect_schedule=es, **kw)


def run_long(k, log):
    freq, start, n, lay, freqs = [
        ('D', at(2016, 2, 20), 400, {'marker': 'W', 'structure': [
            {'s': 1}, {'s': 0}]}, ['M', 'W', 'Q', 'A', 'D']),
        ('D', at(2016, 2, 20), 800, {'pat': [1, 0, 0]},
         ['M', 'W', 'A', 'W-WED']),
        ('H', at(2017, 12, 30, 5), 120, {'marker': {'each': 'D', 'at': [
            {'hours': 2}, {'hours': 8}, {'hours': 18}]},
            'structure': [{'s': 1}, {'s': 0}]}, ['D', 'W', 'M', 'H', '6H']),
        ('M', at(1990, 1, 1), 60, {'marker': 'Q', 'structure': [
            {'s': 1}, {'p': [0]}]}, ['A', 'Q', 'M', 'A-MAR']),
        ('D', at(2017, 1, 1), 90, {'marks': [at(2017, 1, 20),
                                            at(2017, 3, 15)],
                                   'structure': [{'s': 1}]},
         ['M', 'W', 'D', 'Q']),
    ][k % 5]
    sp = boards.spec(freq, start, n, layout=lay,
                     ref=('start', 'end')[k // 5])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    D = Driver(b, m, log)
    if k % 2:
        edges(m, b, D, freqs, log)
    explore(m, b, D, freqs, False, log)
    edges(m, b, D, freqs, log)


def run_vast(k, log):
    b, m = vast.both(k // 2, ref=('start', 'end')[k % 2])
    log.state(('vast', k))
    n = len(m)
    D = Driver(b, m, log)
    for pf in ('M', 'W', 'D', 'H', 'T', 'A'):
        ts = {m.ws_start(i) for i in vast.edges(n)} | {
            m.start - DAY, m.end + DAY}
        for j, t in enumerate(sorted(ts)):
            s, e = cal.period(pf, t)
            for cl in CLOSED:
                clip = bool((j + k + int(cl)) % 2)
                D.check(real.expect(lambda: m.by_period(s, e - 1, clip, cl)),
                        '(%s, period=%s, closed=%s, clip_period=%s)' % (
                            real.ts(t), pf, cl, clip), real.ts(t),
                        period=pf, closed=cl, clip_period=clip)
