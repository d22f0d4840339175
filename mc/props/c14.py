"""C14: national calendars."""
import datetime
import itertools

from .. import cal, model, natcal, real
from ..cal import day, at, DAY, HOUR
import pandas as pd
import timeboard.calendars.RU as RU
import timeboard.calendars.UK as UK
import timeboard.calendars.US as US

ID = 'C14'
CHUNK = 1
CLS = {'US': US.Weekly8x5, 'UK': UK.Weekly8x5, 'RU': RU.Weekly8x5}
BOUNDS = {
    'quick': 'every day of the full ranges x no holiday, each holiday, each '
             'pair of holidays and all but one holiday not observed x long '
             'weekends on and off x 3 UK countries (pairs: every third); RU: '
             'all 4 options; all sub-ranges of whole years; sub-ranges with '
             'ends at and next to every holiday of two years by year; '
             'bounds outside; custom amendments on a holiday, a substitute '
             'day, a working day and a weekend, keys in 5 forms, with every '
             'combination of the three amendment options',
    'thorough': 'same with all 2^13 sets of US holidays and all 2^13 sets of '
                'UK holidays not observed x long weekends (UK country in '
                'turn), sub-ranges starting on each day of two weeks around '
                'every new year and holiday',
}


def cases(tier):
    quick = tier == 'quick'
    for c in ('US', 'UK', 'RU'):
        yield {'cal': c, 'kw': {}}
        yield {'cal': c, 'custom': 1}
        yield {'cal': c, 'outside': 1}
    for a, b in itertools.product((True, False), repeat=2):
        yield {'cal': 'RU', 'kw': {'work_on_dec31': a, 'short_eves': b}}
    for co in natcal.UK_NOT:
        for lw in (True, False):
            yield {'cal': 'UK', 'kw': {'country': co, 'long_weekends': lw}}
    for cl, names in (('US', natcal.US_NAMES), ('UK', natcal.UK_NAMES)):
        sets = [[n] for n in names] + [names] + [
            [x for x in names if x != n] for n in names]
        pairs = [list(p) for p in itertools.combinations(names, 2)]
        if not quick:
            pairs = []
            sets = [[n for i, n in enumerate(names) if k >> i & 1]
                    for k in range(2 ** len(names))]
        for i, s in enumerate(sets + pairs[::3]):
            for j, lw in enumerate((True, False)):
                kw = {'do_not_observe': s, 'long_weekends': lw}
                cos = [None]
                if cl == 'UK':
                    cos = sorted(natcal.UK_NOT)
                    if len(s) > 1:
                        cos = [cos[(i + j) % 3]]
                for co in cos:
                    yield {'cal': cl, 'kw': dict(kw, country=co)
                           if co else kw}
    for c in ('US', 'UK', 'RU'):
        y0, y1 = natcal.RANGE[c]
        for a in range(y0, y1 + 1):
            for b in range(a, y1 + 1):
                yield {'cal': c, 'kw': {}, 'sub': [
                    [day(a, 1, 1), day(b, 12, 31)]]}
    for c in ('US', 'UK', 'RU'):
        y0, y1 = natcal.RANGE[c]
        for y in range(y0, y1 + 1):
            if c == 'UK':
                kws = [{'country': co} for co in sorted(natcal.UK_NOT)]
                if quick:
                    kws = [kws[y % 3]]
            else:
                kws = [{}]
            for kw in kws:
                table = sorted(t for t in tables(c, kw)
                               if cal.ymd(t)[0] == y)
                ds = set()
                for t in table:
                    ds |= {t - DAY, t, t + DAY}
                if not quick:
                    ds |= {day(y, 1, 1) + k * DAY for k in range(9)}
                    ds |= {day(y, 12, 31) - k * DAY for k in range(9)}
                ds = sorted(d for d in ds if day(y0, 1, 1) <= d <=
                            day(y1, 12, 31))
                for k in range(0, len(ds), 8):
                    sub = []
                    for d in ds[k:k + 8]:
                        e = min(day(y1, 12, 31), day(y + (y % 2), 12, 31) +
                                (d // DAY % 5) * DAY)
                        if e >= d:
                            sub.append([d, e])
                        s = max(day(y0, 1, 1), day(y - y % 2, 1, 1) -
                                (d // DAY % 4) * DAY)
                        if s <= d:
                            sub.append([s, d])
                        sub.append([d, d])
                    yield {'cal': c, 'kw': kw, 'sub': sub}


def tables(c, kw):
    r = natcal.RANGE[c]
    if c == 'RU':
        return natcal.ru(r, **kw)
    kw = dict(kw)
    kw['off'] = kw.pop('do_not_observe', None) or ()
    return (natcal.us if c == 'US' else natcal.uk)(r, **kw)


def full(c):
    y0, y1 = natcal.RANGE[c]
    return day(y0, 1, 1), day(y1, 12, 31)


def check(c, b, first, last, table, log, what, plain=True):
    """Compare every day of the calendar; differences by day."""
    exp = natcal.labels(first, last, table)
    df = b.to_dataframe()
    st = df['start'].values.astype('int64')
    got = [real.plain(x) for x in df['label'].values]
    on = [bool(x) for x in df[b.default_schedule.name].values]
    log.transitions += len(exp)
    log.state((c, first, last, tuple(exp)))
    if len(got) != len(exp) or [int(x) for x in st] != [
            first + k * DAY for k in range(len(exp))]:
        log.fail('%s: %d days from %s, expected %d from %s to %s' % (
            what, len(got), cal.iso(int(st[0])), len(exp), cal.iso(first),
            cal.iso(last)))
        return
    n = 0
    for k, (g, e) in enumerate(zip(got, exp)):
        d = first + k * DAY
        if g == e and on[k] == (e != 0):
            continue
        key = None
        if c == 'US' and plain and g in (0, 8) and on[k] == (g != 0):
            if d == day(2014, 12, 26) and (g, e) == (8, 0):
                key = 'us-2014-12-26-not-off'
            if (d == day(2018, 12, 26) and (g, e) == (0, 8)
                    and first < day(2015, 1, 1)):
                key = 'us-2018-12-26-off'
        n += key is None
        if n <= 3:
            log.fail('%s: label of %s is %r (on duty: %s), expected %r' % (
                what, cal.iso(d), g, on[k], e), key)


def make(c, **kw):
    if kw.get('do_not_observe') is not None:
        kw = dict(kw, do_not_observe=set(kw['do_not_observe']))
    return CLS[c](**kw)


def run(case, log):
    c = case['cal']
    if 'outside' in case:
        return outside(c, log)
    if 'custom' in case:
        return custom(c, log)
    kw = case['kw']
    table = tables(c, kw)
    if 'sub' not in case:
        b = make(c, **kw)
        first, last = full(c)
        check(c, b, first, last, table, log, '%s(%r)' % (c, kw))
        # shift by shift, as a user asks for them
        for k in range(0, 7000, 501):
            t = first + k * DAY + 9 * HOUR
            if t > last:
                break
            w = b(real.ts(t))
            h = natcal.labels(t - 9 * HOUR, t - 9 * HOUR, table)[0]
            log.check((w.label, w.is_on_duty(), w.worktime()) ==
                      (h, h > 0, h), 'workshift %s of %s' % (cal.iso(t), c))
        return
    for i, (s, e) in enumerate(case['sub']):
        f = ('str', 'ts', 'date', 'dt')[(s // DAY + e // DAY) % 4]
        args = {'custom_start': real.pt(s, f), 'custom_end': real.pt(e, f)}
        if s == full(c)[0] and e // DAY % 2:
            del args['custom_start']
        if e == full(c)[1]:
            if s // DAY % 2:
                del args['custom_end']
        what = '%s from %s to %s %r' % (c, cal.iso(s), cal.iso(e), kw)
        got = real.obs(lambda: make(c, **dict(kw, **args)))
        if got[0] == 'err':
            log.fail('%s: %s' % (what, real.show(got)))
            continue
        check(c, got[1], s, e, table, log, what)


def outside(c, log):
    a, b = full(c)
    for t in (a - 1, a - DAY, a - 400 * DAY, b + DAY, b + 2 * DAY,
              b + 800 * DAY):
        for kw in ({'custom_start': real.ts(t)}, {'custom_end': real.ts(t)},
                   {'custom_start': real.ts(t), 'custom_end': real.ts(b)},
                   {'custom_start': real.ts(a), 'custom_end': real.ts(t)},
                   {'custom_start': cal.iso(t)}, {'custom_end': cal.iso(t)},
                   {'custom_start': real.ts(t), 'do_not_amend': True},
                   {'custom_end': real.ts(t), 'only_custom_amendments': True}):
            log.compare(real.obs(lambda: CLS[c](**kw)),
                        ('err', {model.OOB}), '%s(%r)' % (c, kw))
            k2 = {k: v for k, v in kw.items() if k.startswith('custom_')}
            log.compare(real.obs(lambda: CLS[c].amendments(**k2)),
                        ('err', {model.OOB}), '%s.amendments(%r)' % (c, k2))
    for t in (a, a + DAY, b, b - DAY, b + DAY - cal.SEC):
        for name in ('custom_start', 'custom_end'):
            kw = {name: real.ts(t)}
            got = real.obs(lambda: CLS[c](**kw))
            if got[0] == 'err':
                log.fail('%s(%r): %s' % (c, kw, real.show(got)))
                continue
            s, e = (t, b) if name == 'custom_start' else (a, t)
            check(c, got[1], s // DAY * DAY, e // DAY * DAY, tables(c, {}),
                  log, '%s(%r)' % (c, kw))
    log.compare(real.obs(lambda: CLS[c](custom_start=real.ts(b),
                                        custom_end=real.ts(a))),
                ('err', {model.VOID}), 'reversed bounds')
    p = CLS[c].parameters()
    log.check(real.ns(p['start']) == a and
              b <= real.ns(p['end']) < b + DAY, 'range of %s' % c)


def custom(c, log):
    y = 2012
    days = {'US': [(12, 25), (7, 4), (11, 12), (1, 2), (3, 14), (3, 17)],
            'UK': [(12, 25), (6, 5), (1, 2), (5, 28), (3, 14), (3, 17)],
            'RU': [(1, 1), (5, 8), (2, 22), (12, 31), (3, 14), (3, 17)]}[c]
    forms = ['str', 'ts', 'dt', 'date', 'mid', 'per']
    wide = [(None, None), (day(y, 1, 1), day(y, 12, 31)),
            (day(y, 3, 1), day(y, 10, 31))]
    for r in (0, 1, 2, 3, 6):
        for combo in itertools.combinations(range(len(days)), r):
            for lab in ((3, 0) if r != 6 else (3, 0, 8)):
                am = {}
                want = {}
                for j, i in enumerate(combo):
                    t = day(y, *days[i])
                    f = forms[(i + j + r + lab) % 6]
                    k = (cal.iso(t + 13 * HOUR) if f == 'mid' else
                         pd.Period(real.ts(t), freq='D') if f == 'per' else
                         real.pt(t, f))
                    am[k] = lab + (i if lab == 3 else 0)
                    want[t] = am[k]
                for opt in range(4):
                    dna, only = bool(opt & 1), bool(opt & 2)
                    if r == 3 and opt in (1, 3):
                        continue
                    s, e = wide[(opt + r + sum(combo)) % 3] if r != 6 \
                        else wide[lab % 2]
                    kw = {}
                    if dna:
                        kw['do_not_amend'] = True
                    if only:
                        kw['only_custom_amendments'] = True
                    if r:
                        kw['custom_amendments'] = dict(am)
                    if s:
                        kw.update(custom_start=real.ts(s),
                                  custom_end=real.ts(e))
                    table = {} if dna else dict(want) if only else \
                        dict(tables(c, {}), **{})
                    if not dna and not only:
                        table.update(want)
                    what = '%s(%r)' % (c, kw)
                    got = real.obs(lambda: CLS[c](**kw))
                    if got[0] == 'err':
                        log.fail('%s: %s' % (what, real.show(got)))
                        continue
                    if r and kw['custom_amendments'] != am:
                        log.fail('%s modified the amendments' % what)
                    f, l = full(c)
                    check(c, got[1], s or f, e or l, table, log, what)
    log.samples.append({'calendar': c, 'amended': days})
