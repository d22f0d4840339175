"""Labels of every kind: they must come back as they were given."""
import datetime
import decimal

import numpy as np
import pandas as pd

from . import cal, real
from .cal import at
import timeboard as tb


class Thing(object):
    """A label of the user's own class."""


class Off(object):
    """A false one."""

    def __bool__(self):
        return False


def _fun(x):
    return x


LABELS = [
    1, True, 1.0, '1', np.int64(1), np.float32(1), decimal.Decimal('1'), 0,
    False, 0.0, '', None, float('nan'), float('inf'), -1, 2 ** 70, 1 + 2j,
    b'x', (1, 2), (1,), (), [1, 2], [], {'a': 1}, {}, frozenset([1]), {1, 2},
    pd.Timestamp('2017-01-01'), pd.NaT, datetime.date(2017, 1, 1),
    datetime.datetime(2017, 1, 1), pd.Timedelta('1D'), pd.Timedelta(0),
    datetime.timedelta(1), pd.Period('2017', 'A'),
    np.datetime64('2017-01-01'), Thing(), Off(), Thing, _fun,
    pd.Interval(0, 1), np.bool_(False), u'\u0436', tb.Marker('W'),
]
N = len(LABELS)
DAYS = [at(2017, 1, k) for k in range(1, 6)]
FIRST, LAST = real.ts(DAYS[0]), real.ts(DAYS[4])


def equal(a, b):
    return a is b or type(a) is type(b) and (
        real.null(a) and real.null(b) or real.same(a, b))


def board(layout, n=5, **kw):
    return tb.Timeboard('D', FIRST, real.ts(DAYS[n - 1]), layout, **kw)


def organized(n, *structure):
    """Cut before the third day."""
    return tb.Organizer(marks=[real.ts(DAYS[2])] if n > 2 else [],
                        structure=list(structure))


def single(x):
    """May it be the label of a whole span?"""
    return isinstance(x, str) or not hasattr(x, '__iter__')


def layouts(a, b):
    """(name, board maker, labels)"""
    yield 'pattern', lambda: board([a, b]), [a, b, a, b, a]
    yield 'pattern of one', lambda: board((b,)), [b] * 5
    yield ('patterns of spans', lambda: board(organized(5, [a, b], [b])),
           [a, b, b, b, b])
    yield ('remembering pattern', lambda: board(tb.RememberingPattern(
        [a, b, b])), [a, b, b, a, b])
    if single(a) and single(b):
        yield 'spans', lambda: board(organized(5, a, b)), [a, b]
        yield 'days', lambda: board(tb.Organizer(
            marker='D', structure=[a, b, b])), [a, b, b, a, b]
    yield ('default label', lambda: board(organized(5, [], [b]),
                                          default_label=a), [a, a, b, b, b])
    for n in (1, 2, 3):
        yield ('default label, %d days' % n,
               lambda n=n: board([], n, default_label=a), [a] * n)


def some(a, b):
    for k, x in enumerate(layouts(a, b)):
        if x[0] in ('patterns of spans', 'spans', 'days'):
            yield x


def amended(a, b):
    d = [real.ts(t) for t in DAYS]
    yield ('one amendment', lambda: board([a], amendments={d[1]: b}),
           [a, b, a, a, a])
    yield ('two equal amendments', lambda: board(
        [a], amendments={d[3]: b, d[1]: b}), [a, b, a, b, a])
    yield ('two amendments', lambda: board(
        [1, 0], amendments={d[1]: b, d[4]: a}), [1, b, 1, 0, a])
    yield ('all amended', lambda: board(
        [7], 2, amendments={d[1]: b, d[0]: a}), [a, b])


def labels(mk, exp, log, what):
    got = real.obs(lambda: [tb.Workshift(x, i).label
                            for x in (mk(),) for i in range(len(x()))])
    log.compare(got, ('ok', exp), what,
                cmp=lambda g, e: len(g) == len(e) and
                all(equal(x, y) for x, y in zip(g, e)))


def duties(mk, exp, log, what):
    """On duty when the label is true; or when another selector says so."""
    got = real.obs(mk)
    if got[0] == 'err':
        return log.fail('%s: %s' % (what(), real.show(got)))
    b = got[1]
    on = [bool(x) for x in exp]
    one = [exp.index(x) == 0 if isinstance(x, str) else x is exp[0]
           for x in exp]
    s = b.add_schedule('one', lambda x: x is exp[0] or (
        isinstance(x, str) and isinstance(exp[0], str) and x == exp[0]))
    for kw, want in (({}, on), ({'schedule': s}, one)):
        log.compare(real.obs(lambda: [tb.Workshift(b, i).is_on_duty(**kw)
                                      for i in range(len(exp))]),
                    ('ok', want), what)
        log.compare(real.obs(lambda: b().count(**kw)), ('ok', sum(want)),
                    what)
    df = b.to_dataframe()
    log.check([bool(x) for x in df['on_duty']] == on and
              [bool(x) for x in df['one']] == one, lambda: '%s: duty in the '
              'table' % what())


def tables(mk, exp, log, what):
    for f in (lambda b: b.to_dataframe(), lambda b: b().to_dataframe(),
              lambda b: pd.concat([b.to_dataframe(0, 0),
                                   b.to_dataframe(1, len(exp) - 1)])
              if len(exp) > 1 else b.to_dataframe(0, 0)):
        log.compare(real.obs(lambda: list(f(mk())['label'])), ('ok', exp),
                    what, cmp=lambda g, e: len(g) == len(e) and all(
                        x is y or real.same(x, y) for x, y in zip(g, e)))
    log.check(real.obs(lambda: [str(x) + repr(x) for b in (mk(),)
                                for x in [b, b()] + list(b())])[0] == 'ok',
              what)


def selected(a, b):
    """(name, board maker, duties) when selectors return these."""
    pick = {0: a, 1: b}.get
    yield ('default selector', lambda: board([0, 1], default_selector=pick),
           [a, b, a, b, a])
    yield ('selector and amendments', lambda: board(
        [0], amendments={FIRST: 1, LAST: 1}, default_selector=pick),
        [b, a, a, a, b])


def selections(mk, exp, log, what):
    on = [bool(x) for x in exp]
    got = real.obs(mk)
    if got[0] == 'err':
        return log.fail('%s: %s' % (what(), real.show(got)))
    b = got[1]
    s = b.add_schedule('same', b.default_selector)
    for kw in ({}, {'schedule': s}):
        log.compare(real.obs(lambda: [tb.Workshift(b, i).is_on_duty(**kw)
                                      for i in range(5)]), ('ok', on), what)
        log.compare(real.obs(lambda: [tb.Workshift(b, i).is_off_duty(**kw)
                                      for i in range(5)]),
                    ('ok', [not x for x in on]), what)
        log.compare(real.obs(lambda: (
            b().count('on', **kw), b().count('off', **kw),
            len(list(b().workshifts('on', **kw))),
            [real.ns(w.start_time) for w in b().workshifts('off', **kw)])),
            ('ok', (sum(on), 5 - sum(on), sum(on),
                    [t for t, x in zip(DAYS, on) if not x])), what)
    df = b.to_dataframe()
    log.check([bool(x) for x in df['on_duty']] == on and
              [bool(x) for x in df['same']] == on, lambda: '%s: duty in the '
              'table' % what())


def explore(i, makers, checks, log, js=None):
    a = LABELS[i]
    for j in range(N) if js is None else js:
        b = LABELS[j]
        for name, mk, exp in makers(a, b):
            log.state((i, j, name))
            for check in checks:
                check(mk, exp, log, lambda: '%s of the labels %r and %r' % (
                    name, a, b))
