"""C15: helpers for building calendars; user calendars on the template."""
import calendar as _cal
import datetime
import itertools

from .. import cal, model, real
from ..cal import day, at, DAY, HOUR
import timeboard as tb
from timeboard.calendars.calendarbase import (
    CalendarBase, extend_weekends, from_easter, nth_weekday_of_month)

ID = 'C15'
CHUNK = 2
BOUNDS = {
    'quick': 'nth_weekday_of_month: 14 years (every weekday of 1 January, '
             'leap and common) x 12 months x 7 weekdays x 10 ordinals x 7 '
             'shifts, both error modes, plus years 1700-2250 x 12 months x '
             'weekday, ordinal and shift in turn; from_easter: all years '
             '1700-2250 (Orthodox 1900-2099) x shifts -60..60; '
             'extend_weekends: all sets of 0..3 holidays in 9 days and all '
             '2^9 sets for the usual weekend x 3 directions x 7 weekends x '
             'given label or not, key forms; a user calendar: all pairs of '
             'bounds on 9 points x all combinations of options',
    'thorough': 'same with all years 1900-2100 complete, and all 2^11 sets of '
                'holidays for every weekend',
}
KINDS = [y for y in range(1990, 2018)]
WEEKENDS = [None, [5, 6], [6], [4, 5], [3, 4, 5], [5, 6, 0], [6, 0], [0, 1, 2]]


def year_kinds():
    seen, out = set(), []
    for y in range(1990, 2030):
        k = (cal.weekday(day(y, 1, 1)), cal.leap(y))
        if k not in seen:
            seen.add(k)
            out.append(y)
    return out


def cases(tier):
    quick = tier == 'quick'
    ys = year_kinds() if quick else year_kinds() + list(range(1900, 2101))
    for y in ys:
        for m in range(1, 13):
            yield {'nth': y, 'month': m}
    for y in range(1700, 2251, 10):
        yield {'years': [y, min(y + 9, 2250)]}
    for n in range(0, 4):
        for c in itertools.combinations(range(9), n):
            yield {'ext': list(c), 'weekends': list(range(len(WEEKENDS)))}
    span = 9 if quick else 11
    for k in range(2 ** span):
        c = [i for i in range(span) if k >> i & 1]
        if len(c) > 3:
            yield {'ext': c, 'weekends': [0] if quick else
                   list(range(len(WEEKENDS)))}
    pts = range(9)
    for i in pts:
        for j in pts:
            yield {'user': [i, j]}
    yield {'misc': 1}


# ------------------------------------------------------------ nth weekday

def nth(case, log):
    y, m = case['nth'], case['month']
    every = []
    for wd in range(1, 8):
        for n in list(range(1, 6)) + list(range(-5, 0)):
            exp = cal.nth_weekday(y, m, wd, n)
            every.append((exp, (m, wd, n)))
            for sh in ((None, 0, 1, -1, 7, -10, 40) if y < 2030 and
                       case['nth'] in year_kinds() else (None, 3)):
                tup = (m, wd, n) if sh is None else (m, wd, n, sh)
                e = {} if exp is None else {exp + (sh or 0) * DAY: 'x'}
                got = real.obs(lambda: nth_weekday_of_month(y, [tup], 'x'))
                log.compare(got, ('ok', e), lambda: 'nth_weekday(%d, %r)' % (
                    y, tup), cmp=same_table)
            got = real.obs(lambda: nth_weekday_of_month(
                y, [(m, wd, n)], errors='raise'))
            log.compare(got, ('err', {model.OOB}) if exp is None else
                        ('ok', {exp: 0}), lambda: 'nth_weekday(%d, %r), '
                        'raising' % (y, (m, wd, n)), cmp=same_table)
    e = {t: 5 for t, _ in every if t is not None}
    log.state((y, m, sorted(e)))
    for form in (list, tuple, iter):
        log.compare(real.obs(lambda: nth_weekday_of_month(
            y, form([t for _, t in every]), label=5)), ('ok', e),
            'nth_weekday(%d) of month %d at once' % (y, m), cmp=same_table)


def same_table(got, exp):
    """Real table (Timestamp keys) against ns keys."""
    try:
        g = {real.ns(k): v for k, v in got.items()}
    except AttributeError:
        return False
    return (len(got) == len(g) and set(g) == set(exp) and
            all(real.same(g[k], exp[k]) for k in g))


def years(case, log):
    a, b = case['years']
    for y in range(a, b + 1):
        for m in range(1, 13):
            k = y * 12 + m
            wd, n, sh = k % 7 + 1, (k // 7 % 10) - 5, k % 9 - 4
            n += n >= 0
            t = cal.nth_weekday(y, m, wd, n)
            log.compare(real.obs(lambda: nth_weekday_of_month(
                y, [(m, wd, n, sh)])), ('ok', {} if t is None else {
                    t + sh * DAY: 0}), lambda: 'nth_weekday(%d, %r)' % (
                    y, (m, wd, n, sh)), cmp=same_table)
        for kind in ('western', 'orthodox'):
            if kind == 'orthodox' and not 1900 <= y < 2100:
                continue
            e = cal.easter(y, kind)
            log.state((kind, e))
            for shifts, kw in (([0], {}), ([-2, 1], {}), ([], {}),
                               (list(range(-60, 61)), {'label': 'e'})):
                if kind == 'orthodox' or y % 2:
                    kw = dict(kw, easter_type=kind)
                log.compare(real.obs(lambda: from_easter(y, shifts, **kw)),
                            ('ok', {e + s * DAY: kw.get('label', 0)
                                    for s in shifts}),
                            lambda: 'from_easter(%d, %r, %r)' % (
                                y, shifts[:3], kind), cmp=same_table)
            log.compare(real.obs(lambda: from_easter(
                y, (s for s in (3, 50)), kind, 7)),
                ('ok', {e + 3 * DAY: 7, e + 50 * DAY: 7}),
                'from_easter(%d), positional' % y, cmp=same_table)


# ------------------------------------------------------- extended weekends

def extended(table, how, label, weekend):
    wend = [5, 6] if weekend is None else weekend
    out = dict(table)
    for t in sorted(table):
        wd = cal.weekday(t)
        if wd not in wend:
            continue
        # distances to the nearest weekdays before and after
        b = 1
        while cal.weekday(t - b * DAY) in wend:
            b += 1
        a = 1
        while cal.weekday(t + a * DAY) in wend:
            a += 1
        step = {'previous': -1, 'next': 1,
                'nearest': -1 if b < a else 1}[how]
        x = t
        while x in out or cal.weekday(x) in wend:
            x += step * DAY
        out[x] = table[t] if label is None else label
    return out


def extend(case, log):
    for k in case['weekends']:
        wend = WEEKENDS[k]
        # the window starts so that weekends lie inside
        start = day(2017, 12, 13) + (k % 3) * DAY
        holidays = [start + i * DAY for i in case['ext']]
        for v in range(3):
            table = {t: (5 if v == 0 else 10 + i)
                     for i, t in enumerate(holidays)}
            for how in ('previous', 'next', 'nearest', None):
                for label in (None, 0, 'z'):
                    if label == 'z' and v:
                        continue
                    kw = {}
                    if how is not None:
                        kw['how'] = how
                    if label is not None:
                        kw['label'] = label
                    if wend is not None:
                        kw['weekend'] = list(wend)
                    f = ('ts', 'str', 'dt', 'date')[
                        (len(holidays) + k + v) % 4]
                    order = sorted(table) if v == 1 else sorted(table)[::-1]
                    given = {real.pt(t, f): table[t] for t in order}
                    before = dict(given)
                    exp = extended(table, how or 'nearest', label, wend)
                    log.state(sorted(exp.items(), key=str))
                    got = real.obs(lambda: extend_weekends(given, **kw))
                    log.compare(got, ('ok', exp), lambda: (
                        'extend_weekends(%r, %r)' % (
                            {cal.iso(t): l for t, l in table.items()}, kw)),
                        cmp=same_table)
                    log.check(given == before and list(given) == list(before),
                              'extend_weekends modified the table given')
                    log.check(kw.get('weekend') == wend or wend is None,
                              'extend_weekends modified the weekend')
                    if got[0] == 'ok':
                        log.check(got[1] is not given,
                                  'extend_weekends returned the same table')


# --------------------------------------------------------- user calendars

POINTS = [None, at(2016, 12, 30), at(2017, 1, 1), at(2017, 1, 1, 12),
          at(2017, 1, 10), at(2017, 2, 28), at(2017, 3, 31),
          at(2017, 3, 31, 23, 59, 59), at(2017, 4, 1)]
LO, HI = at(2017, 1, 1), at(2017, 3, 31, 23, 59, 59)
OWN = {at(2017, 1, 9): 0, at(2017, 2, 4): 6, at(2017, 3, 8): 0}


class MyCalendar(CalendarBase):
    seen = []
    form = 'ts'                         # how its bounds are written

    @classmethod
    def parameters(cls):
        return {'base_unit_freq': 'D', 'start': real.pt(LO, MyCalendar.form),
                'end': real.pt(HI, MyCalendar.form),
                'layout': tb.Organizer(marker='W', structure=[
                    [8, 8, 8, 8, 8, 0, 0]]),
                'worktime_source': 'labels'}

    @classmethod
    def amendments(cls, custom_start=None, custom_end=None,
                   custom_amendments=None, half=False):
        cls.seen.append((real.ns(custom_start), real.ns(custom_end), half))
        out = {real.ts(t): (v / 2. if half else v) for t, v in OWN.items()}
        if custom_amendments:
            out.update(custom_amendments)
        return out


class Bare(CalendarBase):
    """Default amendments: just the custom ones."""

    @classmethod
    def parameters(cls):
        return dict(MyCalendar.parameters(), layout=[1, 0],
                    worktime_source='duration')


FORMS = ['ts', 'str', 'dt', 'obj', 'np', 'date', 'per:D']


def user(case, log):
    for form in FORMS:
        MyCalendar.form = form
        try:
            user_form(case, log, LO, HI // DAY * DAY if form in (
                'date', 'per:D') else HI, form)
        finally:
            MyCalendar.form = 'ts'


def user_form(case, log, LO, HI, form):
    s, e = [POINTS[i] for i in case['user']]
    custom = [None, {}, {at(2017, 1, 9): 4, at(2017, 3, 15): 1}]
    for cl in (MyCalendar, Bare):
        for dna, only, cu, half in itertools.product(
                (False, True), (False, True), range(3), (False, True)):
            if half and cl is Bare:
                continue
            kw = {}
            if s is not None:
                kw['custom_start'] = real.pt(s, 'str' if half else 'ts')
            if e is not None:
                kw['custom_end'] = real.pt(e, 'ts' if half else 'str')
            if dna:
                kw['do_not_amend'] = True
            if only:
                kw['only_custom_amendments'] = True
            if custom[cu] is not None:
                kw['custom_amendments'] = {real.ts(t): v for t, v in
                                           custom[cu].items()}
            if half:
                kw['half'] = True
            what = '%s[bounds: %s](%r)' % (cl.__name__, form, kw)
            del MyCalendar.seen[:]
            got = real.obs(lambda: cl(**kw))
            if any(x is not None and not LO <= x <= HI for x in (s, e)):
                log.compare(got, ('err', {model.OOB}), what)
                continue
            b0, b1 = LO if s is None else s, HI if e is None else e
            if b0 // DAY > b1 // DAY:
                log.compare(got, ('err', {model.VOID}), what)
                continue
            if got[0] == 'err':
                log.fail('%s: %s' % (what, real.show(got)))
                continue
            table = {}
            if not dna:
                if not only and cl is MyCalendar:
                    table = {t: v / 2. if half else v
                             for t, v in OWN.items()}
                    log.check(MyCalendar.seen == [(b0, b1, half)],
                              '%s: amendments() called with %r' % (
                                  what, MyCalendar.seen))
                table.update(custom[cu] or {})
            exp = []
            t = b0 // DAY * DAY
            i = 0
            while t // DAY <= b1 // DAY:
                base = (0 if cal.weekday(t) >= 5 else 8) if \
                    cl is MyCalendar else (i + 1) % 2
                exp.append((t, table.get(t, base)))
                t += DAY
                i += 1
            log.state((cl.__name__, exp[0], exp[-1], sorted(table.items())))
            b = got[1]
            log.transitions += len(exp)
            g = [(real.ns(w.start_time), real.plain(w.label))
                 for w in b()] if len(exp) < 12 else [
                (r[0], r[3]) for r in real.table_rows(b.to_dataframe())]
            if not real.same(g, exp):
                d = [(x, y) for x, y in zip(g, exp) if not real.same(x, y)]
                log.fail('%s: %d days, expected %d; first differences %r' % (
                    what, len(g), len(exp), d[:2]))
            log.check(b.worktime_source == cl.parameters()
                      ['worktime_source'], 'source of work time')


def misc(log):
    b = real.obs(lambda: CalendarBase())
    log.check(b[0] == 'ok' and len(b[1]()) ==
              (day(2031, 1, 1) - day(2001, 1, 1)) // DAY and
              all(x == 1 for x in b[1].to_dataframe()['label']),
              'template calendar')
    b = real.obs(lambda: CalendarBase(
        custom_start='1 Feb 2003', custom_end='4 Feb 2003',
        custom_amendments={'02 Feb 2003': 0}))
    log.check(b[0] == 'ok' and [real.plain(w.label) for w in b[1]()] ==
              [1, 0, 1, 1], 'template calendar with bounds')
    for bad in ('north', '', None, 0):
        log.compare(real.obs(lambda: from_easter(2017, [0], bad)),
                    ('err', {'AssertionError', 'ValueError', 'TypeError'}),
                    'from_easter type %r' % (bad,))
        log.compare(real.obs(lambda: extend_weekends({}, how=bad)),
                    ('err', {'AssertionError', 'ValueError', 'TypeError'}),
                    'extend_weekends how %r' % (bad,))
    for bad in ((0, 1, 1), (13, 1, 1), (1, 0, 1), (1, 8, 1), (1, 1, 0),
                (1, 1, 6), (1, 1, -6)):
        log.compare(real.obs(lambda: nth_weekday_of_month(2017, [bad])),
                    ('err', {'AssertionError', 'ValueError', 'IndexError'}),
                    'nth_weekday_of_month %r' % (bad,))


def run(case, log):
    if 'nth' in case:
        nth(case, log)
    elif 'years' in case:
        years(case, log)
    elif 'ext' in case:
        extend(case, log)
    elif 'user' in case:
        user(case, log)
    else:
        misc(log)
    log.samples.append({'case': case})
