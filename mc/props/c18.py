"""C18: definitions and arguments which must be refused, next to acceptable
ones: full products of good and bad values of every argument."""
import itertools

import numpy as np
import pandas as pd

from .. import boards, cal, lay, model, real
from ..cal import at, DAY, HOUR
from .c08 import same_interval
import timeboard as tb

ID = 'C18'
CHUNK = 1
BOUNDS = {
    'quick': 'Timeboard(): full product of 8 base unit values, 3 ranges, 12 '
             'layouts, 10 amendments, 6 work time sources, 2 reference times '
             'over 7 starting points; Organizer(): full product of 5 markers,'
             ' 6 marks, 8 structures; all pairs of 35 base units and 39 '
             'marker periods, whole and nested; marker rules with bad '
             'arguments; Workshift() and Interval(): all positions from two '
             'before to two after the board, as numbers, workshifts and of '
             'wrong types, x schedules, on all partitions of 1..4 units of 8 '
             'frequencies; get_interval(): full product of 24 references, 8 '
             'lengths, 5 periods, 8 closings, 5 schedules, clipping; duty '
             'arguments of all methods; count_periods frequencies; schedule '
             'names; distinctness of the error classes',
    'thorough': 'same on all partitions of 1..6 units of 12 frequencies',
}
ABSENT = 'absent'
ANY = {'TypeError', 'ValueError', 'LookupError', 'AssertionError',
       'AttributeError', 'OutOfBoundsError', 'UnacceptablePeriodError',
       'VoidIntervalError'}
real.KINDS.setdefault('AttributeError', AttributeError)

TB_BASES = [0, 1, 2, 4, 9, 10, 12]
IVL_BASES = [0, 2, 3, 4, 12, 1, 5, 6, 7, 10, 13, 15]


def cases(tier):
    quick = tier == 'quick'
    yield {'errors': 1}
    for k in range(4):
        yield {'org': k}
    for k in range(len(boards.FREQS) + len(MORE_BASES)):
        yield {'fit': k}
    yield {'rules': 1}
    for f in TB_BASES:
        for l in range(len(LAYOUTS)):
            yield {'tb': f, 'l': l}
    for n in range(1, 5 if quick else 7):
        for f in IVL_BASES[:8 if quick else 12]:
            for firsts in boards.compositions(n):
                yield {'f': f, 'n': n, 'firsts': list(firsts)}
                if n == 3 or (not quick and n < 5):
                    for part in range(4):
                        yield {'f': f, 'n': n, 'firsts': list(firsts),
                               'gi': part}


def run(case, log):
    if 'errors' in case:
        return errors(log)
    if 'org' in case:
        return organizers(case['org'], log)
    if 'fit' in case:
        return fit(case['fit'], log)
    if 'rules' in case:
        return rules(log)
    if 'tb' in case:
        return timeboards(case['tb'], case['l'], log)
    freq, start = boards.FREQS[case['f']]
    n, firsts = case['n'], case['firsts']
    k = len(firsts)
    sp = boards.composed(freq, start, n, firsts, [i % 2 for i in range(k)],
                         more=[['inv', 'not']], ref=('start', 'end')[k % 2])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    before = lay.rows_of(b)
    if 'gi' in case:
        get_intervals(b, m, case['gi'], log)
    else:
        positions(b, m, log)
        duties(b, m, log)
        names(b, m, log)
    log.check(real.same(lay.rows_of(b), before) and
              sorted(b.schedules) == sorted(m.schedules),
              'refused requests changed the timeboard')
    log.samples.append({'spec': sp})


# ------------------------------------------------------------ error classes

def errors(log):
    import timeboard.exceptions as ex
    names = ['OutOfBoundsError', 'PartialOutOfBoundsError',
             'VoidIntervalError', 'UnacceptablePeriodError']
    cl = [getattr(ex, x) for x in names]
    for x, y in itertools.permutations(range(4), 2):
        log.check(not issubclass(cl[x], cl[y]),
                  '%s passes for %s' % (names[x], names[y]))
    for x, c in zip(names, cl):
        log.check(getattr(tb, x, None) is c, 'timeboard.%s' % x)
        log.check(issubclass(c, Exception) and not issubclass(
            c, (TypeError, KeyError)), '%s' % x)
    for x in cl[1:]:
        log.check(issubclass(x, ValueError), '%s is a ValueError' % x)
    log.check(issubclass(cl[0], LookupError), 'OutOfBounds is a LookupError')


# --------------------------------------------------------------- organizers

def organizers(part, log):
    """Each accepted organizer has to lay out a board as the model does."""
    T = pd.Timestamp
    t1, t2 = at(2017, 10, 2), at(2017, 10, 5)
    markers = [ABSENT, None, 'W', tb.Marker('W'), tb.Marker('W', at=[])]
    marks = [ABSENT, None, [], [T(t1), T(t2)], (T(t1),), cal.iso(t1)]
    mmarks = [None, None, [], [t1, t2], [t1], [t1]]
    structs = [ABSENT, None, 5, 'ab', [], [[1, 2], [3]], ['x', 'y'],
               ('x', [1, 2])]
    mstr = [None, None, None, None, [], [{'p': [1, 2]}, {'p': [3]}],
            [{'s': 'x'}, {'s': 'y'}], [{'s': 'x'}, {'p': [1, 2]}]]
    for (i, a), (j, b), (k, c) in itertools.product(
            enumerate(markers), enumerate(marks), enumerate(structs)):
        if (i + j + k) % 4 != part:
            continue
        kw = {}
        if a is not ABSENT:
            kw['marker'] = a
        if b is not ABSENT:
            kw['marks'] = b
        if c is not ABSENT:
            kw['structure'] = c
        kinds = set()
        if (i < 2) == (j < 2):
            kinds.add('ValueError')
        if k < 4:
            kinds.add('TypeError')
        got = real.obs(lambda: tb.Organizer(**kw))
        log.compare(got, ('err', kinds) if kinds else ('ok', None),
                    lambda: 'Organizer(%r)' % (kw,),
                    cmp=lambda v, _: isinstance(v, tb.Organizer))
        if not kinds and got[0] == 'ok':
            l = {'structure': mstr[k]}
            if i >= 2:
                l['marker'] = 'W'
            else:
                l['marks'] = mmarks[j]
            sp = boards.spec('D', at(2017, 9, 29), 12, layout=l)
            lay.check_board(sp, log, layout=got[1])


# ---------------------------------------------------- markers against bases

PERIODS = ['S', 'T', 'H', 'D', 'W', 'M', 'Q', 'A', '2S', '30T', '60T', '90T',
           '2H', '8H', '12H', '24H', '2D', '3D', '4D', '6D', '7D', '2W', '4W',
           'W-WED', '2M', '3M', '4M', '6M', 'Q-FEB', 'Q-JAN', 'A-MAR',
           'A-JAN', '2A', '2Q', '5M', '14D', '36H', 'A-NOV', 'Q-MAR',
           # other names of the same
           'min', '30min', 'Y', '2Y', 'W-SUN', 'Q-DEC', 'A-DEC',
           '1D', '1W', '1M', '2Q-DEC', 'ms', 'L', 'us', 'd', 'h']


MORE_BASES = [(f, at(2017, 12, 31, 20)) for f in (
    '90T', '5H', '36H', '7D', '14D', '5M', '3M', '2Q', '4Q', '2A', '5S',
    '2W-WED', 'A-JAN', 'Q-JAN', 'Y', '2Y', 'W-SUN', 'ms', 'L', '15min',
    'Q-DEC')]
SMALL = ['S', '2S', 'ms', 'L', 'us', 'N', 'XX', 'foo', '', 'Y-MAR']
FINE = ['S', 'T', 'H', 'D', '2S', '30T', '60T', '90T', '2H', 'XX', 'foo', '',
        'min', '30min', '1D', 'ms', 'L', 'us', 'd', 'h']


def fit(k, log):
    freq, start = (boards.FREQS + MORE_BASES)[k]
    for each in PERIODS + ['XX', '', 'foo', 'Y-MAR']:
        ok = each in PERIODS and model.fits(freq, each)
        if freq in ('S', '5S') and each not in FINE or \
                freq in ('ms', 'L') and each not in SMALL or \
                freq in ('T', 'min') and each in ('2A', '2Y'):
            # millions of units to count
            log.undecided += 1
            continue
        for lv in range(3):
            o = {'marker': each, 'structure': [{'p': [1, 2]}, {'s': 3}]}
            if lv == 1:
                o = {'marks': [], 'structure': [o]}
            elif lv == 2:
                s = boards.unit_starts(freq, start, 3)
                o = {'marks': [s[2]], 'structure': [{'p': [5]}, o]}
            sp = boards.spec(freq, start, 3, layout=o)
            if ok is None:
                log.undecided += 1
                continue
            if ok:
                log.compare(real.obs(lambda: real.build(sp)), ('ok', None),
                            lambda: 'markup %r' % (sp,),
                            cmp=lambda v, _: isinstance(v, tb.Timeboard))
            else:
                log.compare(real.obs(lambda: real.build(sp)),
                            ('err', {model.UNACC}),
                            lambda: 'markup %r' % (sp,))


def rules(log):
    def board(m):
        o = tb.Organizer(marker=m, structure=[1, 2])
        return tb.Timeboard('D', '2017-01-01', '2018-02-01', o)

    def nth(**kw):
        return board(tb.Marker('A', at=[kw], how='nth_weekday_of_month'))
    good = []
    for h in ('from_start_of_each', 'nth_weekday_of_month',
              'from_easter_western', 'from_easter_orthodox', real.last_day):
        good.append(('how=%r' % (h,), lambda h=h: tb.Marker('A', how=h)))
    for mo, w, d in itertools.product((1, 2, 12), (-5, -1, 1, 5), (1, 4, 7)):
        good.append(('nth %d %d %d' % (mo, w, d),
                     lambda mo=mo, w=w, d=d: nth(month=mo, week=w,
                                                 weekday=d)))
        good.append(('nth %d %d %d shifted' % (mo, w, d),
                     lambda mo=mo, w=w, d=d: nth(month=mo, week=w, weekday=d,
                                                 shift=-1)))
    for what, f in good:
        log.compare(real.obs(f), ('ok', None), what, cmp=lambda v, _: True)
    bad = []
    for h in ('x', '', 'from_easter', None, 5):
        bad.append(('how=%r' % (h,), lambda h=h: tb.Marker('A', how=h)))
    for mo, w, d in itertools.product((0, 1, 12, 13), (-6, -1, 0, 1, 6),
                                      (0, 1, 7, 8)):
        if mo in (1, 12) and w in (-1, 1) and d in (1, 7):
            continue
        bad.append(('nth %d %d %d' % (mo, w, d),
                    lambda mo=mo, w=w, d=d: nth(month=mo, week=w,
                                                weekday=d)))
    bad += [('nth without weekday', lambda: nth(month=1, week=1)),
            ('nth without week', lambda: nth(month=1, weekday=1))]
    for how in ('from_start_of_each', 'from_easter_western',
                'from_easter_orthodox'):
        bad.append(('nonsense offset %s' % how, lambda how=how: board(
            tb.Marker('A', at=[{'foo': 1}], how=how))))
        bad.append(('at of text %s' % how, lambda how=how: board(
            tb.Marker('A', at=['x'], how=how))))
    for what, f in bad:
        log.compare(real.obs(f), ('err', ANY), what)


# --------------------------------------------------------------- timeboards

FREQV = [None, None, 'BM', 'B', 'XX', '', '0D', 'MS']   # None: the base
RANGEV = ['ok', 'one', 'reversed']
# (real layout factory, model layout or error kinds)
LAYOUTS = ['pat', 'empty', 'tuple', 'org', 'nested', 'rp', 'none', 'number',
           'text', 'marker', 'unfit', 'nested unfit']
AMENDV = [None, 'empty', 'one', 'series', 'outside', 'two', 'list', 'number',
          'dup', 'dup outside']
WTV = ['duration', 'labels', 'label', None, '', 5]


def layout_of(kind, freq, s):
    """(real layout, model layout or set of error kinds)"""
    _, b, _ = cal.parse(freq)
    if kind in ('pat', 'empty', 'tuple'):
        p = {'pat': [1, 0], 'empty': [], 'tuple': [3, 4, 5]}[kind]
        return (tuple(p) if kind == 'tuple' else p), {'pat': p}
    if kind in ('org', 'nested'):
        l = {'marks': [s[1]], 'structure': [{'p': [1, 2]}, {'s': 3}]}
        if kind == 'nested':
            l = {'marks': [s[2]], 'structure': [l, {'p': [7]}]}
        return real.Parts().layout(l), l
    if kind == 'rp':
        return tb.RememberingPattern([1, 2, 3]), {'pat': [1, 2, 3]}
    if kind == 'none':
        return None, {'TypeError'}
    if kind == 'number':
        return 5, {'TypeError'}
    if kind == 'text':
        return 'ab', {'TypeError'}
    if kind == 'marker':
        return tb.Marker('W'), {'TypeError'}
    o = tb.Organizer(marker='S' if b != 'S' else 'XX', structure=[[1]])
    if kind == 'nested unfit':
        o = tb.Organizer(marks=[], structure=[o])
    return o, {model.UNACC}


def amend_of(kind, s, n):
    """(real amendments, model's list or None, error kinds)"""
    T = pd.Timestamp
    if kind is None:
        return None, [], None
    if kind == 'empty':
        return {}, [], None
    if kind == 'one':
        return {T(s[0] + 1): 9}, [(s[0] + 1, 9)], None
    if kind == 'series':
        return pd.Series({T(s[0]): 9}), [(s[0], 9)], None
    if kind == 'outside':
        return {T(s[0] - 1): 9, T(s[n]): 8}, [], None
    if kind == 'two':
        return ({T(s[0]): 9, T(s[n] - 1): 8},
                [(s[0], 9), (s[n] - 1, 8)], None)
    if kind == 'list':
        return [(T(s[0]), 9)], None, {'TypeError'}
    if kind == 'number':
        return 5, None, {'TypeError'}
    if kind == 'dup':
        return ({T(s[0]): 9, T(s[0] + 1): 9}, [(s[0], 9), (s[0] + 1, 9)],
                None)
    return ({T(s[0] - 1): 9, T(s[0] - 2): 9, T(s[0]): 6}, [(s[0], 6)], None)


def timeboards(k, li, log):
    freq, start = boards.FREQS[k]
    s = boards.unit_starts(freq, start, 3)
    T = pd.Timestamp
    for fv, rv, av, wv, ref in itertools.product(
            range(len(FREQV)), RANGEV, AMENDV, WTV, ('start', 'end')):
        if fv == 1:
            continue
        n = 1 if rv == 'one' else 3
        kinds = set()
        if FREQV[fv] is not None:
            kinds.add(model.UNACC)
        if rv == 'ok':
            st, en = s[0], s[3] - 1
        elif rv == 'one':
            st, en = s[0], s[0]
        else:
            st, en = s[2], s[1] - 1
            kinds.add(model.VOID)
        rl, ml = layout_of(LAYOUTS[li], freq, s)
        if isinstance(ml, set):
            kinds |= ml
        am, mam, bad = amend_of(av, s, n)
        if bad:
            kinds |= bad
        if wv not in ('duration', 'labels'):
            kinds.add('ValueError')
        if av == 'dup':
            kinds2 = kinds | {'KeyError'}
        else:
            kinds2 = kinds
        kw = {'amendments': am} if av is not None else {}
        if wv != 'duration' or ref == 'end':
            kw['worktime_source'] = wv
        if ref == 'end':
            kw['workshift_ref'] = ref
        got = real.obs(lambda: tb.Timeboard(
            freq if FREQV[fv] is None else FREQV[fv], T(st), T(en), rl, **kw))

        def what():
            return 'Timeboard(%r, %s, %s, layout=%s, %r)' % (
                FREQV[fv] or freq, T(st), T(en), LAYOUTS[li], kw)
        if kinds:
            log.compare(got, ('err', kinds2), what)
            continue
        sp = dict(freq=freq, start=st, end=en, layout=ml, amend=mam, ref=ref,
                  wt=wv)
        m = real.expect(lambda: model.Board(sp))
        if m[0] == 'err':
            log.compare(got, m, what)
            continue
        m = m[1]
        log.state(m.state())

        def cmp(b, _):
            return real.same(lay.rows_of(b), [
                real.model_row(m, i) for i in range(len(m))]) and \
                b.worktime_source == wv
        log.compare(got, ('ok', 'as described'), what, cmp=cmp)


# ---------------------------------------------------------------- positions

class Fake(object):
    """Looks like a schedule."""
    name = 'fake'
    on_duty_index = off_duty_index = np.array([0])

    def label(self, n):
        return 1

    def is_on_duty(self, n):
        return True

    def is_off_duty(self, n):
        return False


def positions(b, m, log):
    N = len(m)
    D, S = b.default_schedule, b.schedules['inv']
    scheds = [(None, 'on_duty'), (D, 'on_duty'), (S, 'inv'), ('inv', None),
              (5, None), (bool, None), (Fake(), None)]
    locs = list(range(-N - 2, N + 3))
    other = [1.0, '0', None, 'x']
    for (sch, nm), loc in itertools.product(scheds, locs + other + ['np']):
        kinds, key = set(), None
        if nm is None:
            kinds.add('TypeError')
        if loc == 'np':
            loc = np.int64(N - 1)
        if not isinstance(loc, (int, np.integer)):
            kinds.add('TypeError')
        elif not 0 <= loc < N:
            kinds.add(model.OOB)
            if -N <= loc < 0 and nm is not None:
                key = 'negative-workshift-location'
        args = (b, loc) if sch is None else (b, loc, sch)
        if kinds:
            exp = ('err', kinds)
        else:
            exp = ('ok', (m.ws_start(loc), m.ws_end(loc), nm))
        log.compare(real.obs(lambda: tb.Workshift(*args)), exp,
                    lambda: 'Workshift(board of %d, %r, %r)' % (N, loc, sch),
                    cmp=lambda w, e: isinstance(w, tb.Workshift) and (
                        real.ns(w.start_time), real.ns(w.end_time),
                        w.schedule.name) == e, key=key)
    W = [tb.Workshift(b, i, S if i % 2 else D) for i in range(N)]
    bounds = [(i, i) for i in range(-2, N + 3)] + [
        (w, i) for i, w in enumerate(W)] + [(1.0, None), ('0', None),
                                            (None, None), (real.ts(m.start),
                                                           None)]
    n = 0
    for (p, i), (q, j) in itertools.product(bounds, bounds):
        n += 1
        for c, (sch, nm) in enumerate(scheds):
            if c > 2 and (n + c) % 4:
                continue
            kinds = set()
            if nm is None:
                kinds.add('TypeError')
            for x in (i, j):
                if x is None:
                    kinds.add('TypeError')
                elif not 0 <= x < N:
                    kinds.add(model.OOB)
            if i is not None and j is not None and not (
                    kinds & {model.OOB}) and i > j:
                kinds.add(model.VOID)
            bd = [p, q] if (n + c) % 3 == 0 else (p, q)
            args = (b, bd) if sch is None else (b, bd, sch)
            if kinds:
                exp, cmp = ('err', kinds), None
            else:
                exp = ('ok', (m.ws_start(i), m.ws_end(j), j - i + 1, nm))

                def cmp(v, e):
                    return isinstance(v, tb.Interval) and (
                        real.ns(v.start_time), real.ns(v.end_time), len(v),
                        v.schedule.name) == e
            log.compare(real.obs(lambda: tb.Interval(*args)), exp,
                        lambda: 'Interval(board of %d, %r, %r)' % (N, bd,
                                                                   sch),
                        cmp=cmp)
    for bd, kind in ((5, 'TypeError'), (None, 'TypeError'),
                     (W[0], 'TypeError'), ({0, 1}, 'TypeError'),
                     ((), 'IndexError'), ((0,), 'IndexError'),
                     ([W[0]], 'IndexError')):
        log.compare(real.obs(lambda: tb.Interval(b, bd)), ('err', {kind}),
                    lambda: 'Interval(board, %r)' % (bd,))


# ------------------------------------------------------------------- duties

def duties(b, m, log):
    N = len(m)
    S = b.schedules['inv']
    w, v = tb.Workshift(b, N // 2), b()
    bad = ['x', '', None, 'ON', 'On', 'o', 1, True]
    ivl_bad = bad + ['same', 'alt']
    for sch in (None, S):
        nm = 'on_duty' if sch is None else 'inv'
        kw = {} if sch is None else {'schedule': sch}
        i = N // 2
        for duty in bad:
            for f, what in (
                    (lambda: w.rollforward(duty=duty, **kw), 'rollforward'),
                    (lambda: w.rollback(duty=duty, **kw), 'rollback'),
                    (lambda: w.rollback(1, duty, **kw), 'rollback 1'),
                    (lambda: w.rollforward(-1, duty, **kw), 'forward -1')):
                log.compare(real.obs(f), ('err', {'ValueError'}),
                            lambda: '%s with duty %r' % (what, duty))
        for duty in ivl_bad:
            for f, what in (
                    (lambda: w.worktime(duty, **kw), 'workshift worktime'),
                    (lambda: v.first(duty, **kw), 'first'),
                    (lambda: v.last(duty, **kw), 'last'),
                    (lambda: v.nth(0, duty, **kw), 'nth'),
                    (lambda: v.count(duty, **kw), 'count'),
                    (lambda: list(v.workshifts(duty, **kw)), 'workshifts'),
                    (lambda: v.worktime(duty, **kw), 'worktime'),
                    (lambda: v.total_duration(duty, **kw), 'duration'),
                    (lambda: v.what_portion_of(v, duty, **kw), 'portion'),
                    (lambda: v.count_periods('A', duty, **kw), 'periods')):
                kinds = {'ValueError'}
                if what == 'periods':
                    kinds.add(model.UNACC)
                log.compare(real.obs(f), ('err', kinds),
                            lambda: '%s with duty %r' % (what, duty))
        for duty in ('on', 'off', 'same', 'alt', 'any'):
            for st in (0, 1, -1):
                for back in (False, True):
                    e = real.expect(lambda: m.roll(i, st, duty, nm, back))
                    f = w.rollback if back else w.rollforward
                    log.compare(real.obs(lambda: f(st, duty, **kw)), e,
                                lambda: 'roll %d %r' % (st, duty),
                                cmp=lambda x, y: real.ns(x.start_time) ==
                                m.ws_start(y))
        for duty in ('on', 'off', 'any'):
            log.compare(real.obs(lambda: v.count(duty, **kw)), (
                'ok', len(m.members(0, N - 1, duty, nm))), 'count')
    for fr in ('x', '', '2W', '3M', 'W-MON', 'W-SUN', 'MS', 'BM', 'B', 'QS',
               'A-MAR', 'Q-FEB', 'A-DEC', 'YS', 'BH', None, 5, 'L', 'ms'):
        log.compare(real.obs(lambda: v.count_periods(fr)),
                    ('err', {model.UNACC}),
                    lambda: 'count_periods(%r)' % (fr,))
    for other in (1.5, 'x', None, w):
        for f, what in ((lambda: w + other, '+'), (lambda: w - other, '-')):
            log.compare(real.obs(f), ('err', {'TypeError'}),
                        lambda: 'workshift %s %r' % (what, other))
    for p in (None, pd.NaT):
        log.compare(real.obs(lambda: b.get_workshift(p)),
                    ('err', {model.OOB}), 'get_workshift(%r)' % (p,))
    for p in ('zz', ''):
        log.compare(real.obs(lambda: b.get_workshift(p)),
                    ('err', {'ValueError', model.OOB}), 'get_workshift(%r)' %
                    (p,))
    for p in ([], v, {}):
        log.compare(real.obs(lambda: b.get_workshift(p)),
                    ('err', {'TypeError'}), 'get_workshift(%s)' % type(p))
    for sch in ('inv', 5, bool, w, v, Fake()):
        log.compare(real.obs(lambda: b.get_workshift(real.ts(m.start), sch)),
                    ('err', {'TypeError'}), 'get_workshift, schedule %r' %
                    (sch,))
        log.compare(real.obs(lambda: v.overlap(v, schedule=sch)),
                    ('err', {'TypeError'}), 'overlap, schedule %r' % (sch,))


def names(b, m, log):
    for nm in ('on_duty', 'inv'):
        for sel in (bool, real.selector('not')):
            log.compare(real.obs(lambda: b.add_schedule(nm, sel)),
                        ('err', {'KeyError'}), 'adding %r again' % nm)
    for f in (lambda: 1, lambda x, y: 1):
        log.compare(real.obs(lambda: b.add_schedule('z', f)),
                    ('err', {'TypeError'}), 'selector of wrong arity')
        log.check('z' not in b.schedules, 'refused schedule was added')
    z = b.add_schedule('z', bool)
    b.drop_schedule(z)
    log.compare(real.obs(lambda: b.drop_schedule(z)), ('err', {'KeyError'}),
                'dropping twice')
    log.compare(real.obs(lambda: b.add_schedule(5, bool).name), ('ok', '5'),
                'numeric name')
    for nm in (5, '5'):
        log.compare(real.obs(lambda: b.add_schedule(nm, bool)),
                    ('err', {'KeyError'}), 'adding 5 again')
    b.drop_schedule(b.schedules['5'])


# ------------------------------------------------------------- get_interval

def get_intervals(b, m, part, log):
    N = len(m)
    T = real.ts
    st = {m.ws_start(i): i for i in range(N)}
    en = {m.ws_end(i): i for i in range(N)}
    p0, p1, lo, hi = m.start, m.end, m.start - DAY, m.end + 1
    far = m.end + 4000 * DAY
    mid = m.units[len(m.units) // 2][0]
    pairs = [(p0, p1), (p1, p0), (mid, p1), (lo, p1), (p0, hi), (lo, hi),
             (lo - 1, lo), (hi, hi + 1), (hi, lo), (None, None), (mid, None),
             (None, mid), (None, lo), (hi, None)]
    refs = [('pair', x) for x in pairs]
    refs += [('point', p) for p in (p0, mid, lo, hi)]
    refs += [('null', None), ('absent', None), ('number', 5), ('empty', ()),
             ('one', (T(p0),)), ('text', 'zz')]
    lengths = [ABSENT, 1, N, N + 1, -1, 0, 1.0, '1']
    pers = [ABSENT, 'M', 'A', 'XX', 'BM']
    closes = [ABSENT, '11', '01', '00', '1', 'x', None, 11]
    scheds = [(ABSENT, 'on_duty'), (None, 'on_duty'),
              (b.schedules['inv'], 'inv'), ('inv', None), (5, None)]
    n = 0
    for (kind, r), ln, pr, cl, (sch, nm), clip in itertools.product(
            refs, lengths, pers, closes, scheds, (True, False)):
        n += 1
        if n % 4 != part:
            continue
        if not clip and pr == ABSENT and n % 3:
            continue
        if kind == 'number' and (pr != ABSENT or ln != ABSENT):
            continue        # a number may be read as a point in time
        if kind == 'point' and pr in ('M', 'A') and ln == ABSENT and \
                not -10 < (r - p0) // (400 * DAY) < 10:
            continue
        kinds = set()
        kw = {}
        if ln != ABSENT:
            kw['length'] = ln
        if pr != ABSENT:
            kw['period'] = pr
        if cl != ABSENT:
            kw['closed'] = cl
        if sch != ABSENT:
            kw['schedule'] = sch
        if not clip:
            kw['clip_period'] = False
        c = '11' if cl == ABSENT else cl
        if c not in ('11', '01', '10', '00'):
            kinds.add('ValueError')
            c = '11'
        if nm is None:
            kinds.add('TypeError')
        args = ()
        if kind == 'pair':
            args = (tuple(T(x) if x is not None else None for x in r),)
        elif kind == 'point':
            args = (T(r),)
        elif kind != 'absent':
            args = (r,)
        exp = None
        if ln != ABSENT and pr != ABSENT:
            kinds.add('TypeError')
        elif ln != ABSENT:
            if not isinstance(ln, int):
                kinds.add('TypeError')
            elif ln == 0:
                kinds.add(model.VOID)
            if kind in ('pair', 'empty', 'one'):
                kinds.add('TypeError')
            elif kind in ('null', 'absent'):
                kinds |= {'TypeError', model.OOB}
            elif kind == 'text':
                kinds.add('ValueError')
            elif isinstance(ln, int):
                exp = real.expect(lambda: m.by_length(r, ln, c))
        elif pr != ABSENT:
            if pr in ('XX', 'BM'):
                kinds |= {'ValueError', model.UNACC}
            if kind in ('pair', 'empty', 'one'):
                kinds.add('TypeError')
            elif kind in ('null', 'absent'):
                kinds |= ANY
            elif kind == 'text':
                kinds.add('ValueError')
            elif pr in ('M', 'A'):
                _, bb, aa = cal.parse(pr)
                o = cal.ordinal(bb, aa, r)
                exp = real.expect(lambda: m.by_period(
                    cal.ordinal_start(bb, aa, o),
                    cal.ordinal_start(bb, aa, o + 1) - 1, clip, c))
        elif kind == 'pair':
            exp = real.expect(lambda: m.by_points(r[0], r[1], c))
        elif kind in ('null', 'absent'):
            exp = real.expect(lambda: m.by_points(None, None, c))
        else:
            kinds.add('TypeError')
        if exp is not None and exp[0] == 'err':
            kinds |= set(exp[1])
        if kinds:
            exp, cmp = ('err', kinds), None
        else:
            cmp = same_interval(m, st, en, exp[1], nm)

        def what():
            return 'get_interval(%s, %r) of %d workshifts of %s' % (
                ', '.join(map(repr, args)), kw, N, b.compact_str)
        log.compare(real.obs(lambda: b.get_interval(*args, **kw)), exp, what,
                    cmp=cmp)
        if kw and n % 5 == 0:
            log.compare(real.obs(lambda: b(*args, **kw)), exp, what, cmp=cmp)
