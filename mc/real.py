"""Drives the real timeboard through its public API.

Times go in and come out as integer nanoseconds; every call is observed as
('ok', value) or ('err', class names).
"""
import datetime
import warnings

import numpy as np
import pandas as pd

import timeboard as tb
from timeboard.exceptions import (OutOfBoundsError, PartialOutOfBoundsError,
                                  VoidIntervalError, UnacceptablePeriodError)

from . import cal
from .model import SELECTORS, ModelError

warnings.simplefilter('ignore')

KINDS = {
    'OutOfBoundsError': OutOfBoundsError,
    'PartialOutOfBoundsError': PartialOutOfBoundsError,
    'VoidIntervalError': VoidIntervalError,
    'UnacceptablePeriodError': UnacceptablePeriodError,
    'KeyError': KeyError, 'TypeError': TypeError, 'ValueError': ValueError,
    'IndexError': IndexError, 'LookupError': LookupError,
    'AssertionError': AssertionError, 'StopIteration': StopIteration,
}
SPECIFIC = (OutOfBoundsError, PartialOutOfBoundsError, VoidIntervalError,
            UnacceptablePeriodError)


class HasTimestamp(object):
    """Any object convertible to a timestamp."""

    def __init__(self, ts):
        self.ts = ts

    def to_timestamp(self):
        return self.ts


_CLOCK = {}


def clock(t):
    """A workshift of another timeboard whose timestamp is t."""
    if t not in _CLOCK:
        if len(_CLOCK) > 5000:
            _CLOCK.clear()
        p = pd.Timestamp(t)
        _CLOCK[t] = tb.Timeboard('S', p, p, layout=[1]).get_workshift(p)
    return _CLOCK[t]


def ts(t):
    return pd.NaT if t is None else pd.Timestamp(t)


_MONTHS = ('January February March April May June July August September '
           'October November December').split()


def text(t):
    """A point in time in one of the notations of dates."""
    if t % cal.SEC:
        return cal.iso(t)
    y, m, d = cal.ymd(t)
    r = t % cal.DAY
    clock_ = '%02d:%02d:%02d' % (r // cal.HOUR, r % cal.HOUR // cal.MIN,
                                 r % cal.MIN // cal.SEC)
    k = (t // cal.SEC + t // cal.DAY) % 7
    if k == 1:
        return '%02d %s %d' % (d, _MONTHS[m - 1][:3], y) + (
            ' ' + clock_ if r else '')
    if k == 2:
        return '%02d/%02d/%04d' % (m, d, y) + (' ' + clock_ if r else '')
    if k == 3:
        return '%04d-%02d-%02dT%s' % (y, m, d, clock_)
    if k == 4:
        return '%s %d, %d' % (_MONTHS[m - 1], d, y) + (
            ' ' + clock_ if r else '')
    if k == 5:
        return '%04d%02d%02d' % (y, m, d) + (
            'T' + clock_.replace(':', '') if r else '')
    if k == 6 and r % cal.MIN == 0 and r:
        h = r // cal.HOUR
        return '%d %s %d %d:%02d %s' % (
            d, _MONTHS[m - 1], y, (h + 11) % 12 + 1, r % cal.HOUR // cal.MIN,
            'AM' if h < 12 else 'PM')
    return cal.iso(t)


def pt(t, form='ts'):
    """The point t (ns) in one of the forms a user may give it."""
    if t is None:
        return {'nat': pd.NaT, 'none': None, 'nan': float('nan')}.get(
            form, pd.NaT)
    if form == 'ts':
        return pd.Timestamp(t)
    if form == 'str':
        return text(t)
    if form == 'dt':
        y, m, d = cal.ymd(t)
        r = t % cal.DAY
        return datetime.datetime(y, m, d) + datetime.timedelta(
            microseconds=r // 1000)
    if form == 'date':
        return datetime.date(*cal.ymd(t))
    if form == 'np':
        for unit, size in (('D', cal.DAY), ('h', cal.HOUR), ('s', cal.SEC)):
            if t % size == 0 and t // cal.SEC % 2:
                return np.datetime64(t // size, unit)
        return np.datetime64(t, 'ns')
    if form == 'obj' and t % 10 ** 9 == 0 and t // 10 ** 9 % 7 == 3:
        return clock(t)
    if form == 'obj':
        return HasTimestamp(pd.Timestamp(t))
    if form.startswith('per:'):
        return pd.Period(pd.Timestamp(t), freq=form[4:])
    raise ValueError(form)


def selector(name):
    return SELECTORS[name]


def last_day(periods, normalize_by=None, back=0):
    out = [p.end_time.normalize() - pd.Timedelta(days=back) +
           pd.Timedelta(hours=12) for p in periods]
    return pd.DatetimeIndex([t for t, p in zip(out, periods)
                             if p.start_time <= t <= p.end_time])


USER_RULES = {'fn:last_day': last_day}


class Parts(object):
    """Real layout objects, created once per description so that they may be
    reused by several timeboards."""

    def __init__(self, rps=()):
        self.rps = [tb.RememberingPattern(list(x)) for x in rps]
        self.labels = [list(x) for x in rps]

    def marker(self, m):
        if isinstance(m, str):
            return m
        kw = {k: m[k] for k in ('at', 'how') if m.get(k) is not None}
        if str(kw.get('how')).startswith('fn:'):
            kw['how'] = USER_RULES[kw['how']]
        if 'at' in kw:
            kw['at'] = [dict(a) for a in kw['at']]
        return tb.Marker(each=m['each'], **kw)

    def element(self, e):
        if 'p' in e:
            form = e.get('form', 'list')
            return {'list': list, 'tuple': tuple,
                    'np': lambda x: np.array(x, dtype=object),
                    'ser': lambda x: pd.Series(x, dtype=object),
                    }[form](e['p'])
        if 'rp' in e:
            return self.rps[e['rp']]
        if 's' in e:
            return e['s']
        return self.organizer(e)

    def structure(self, s):
        if isinstance(s, dict):
            return self.rps[s['rp']]
        return [self.element(e) for e in s]

    def organizer(self, o):
        if 'marker' in o:
            return tb.Organizer(marker=self.marker(o['marker']),
                                structure=self.structure(o['structure']))
        return tb.Organizer(marks=[pt(t, o.get('form', 'ts'))
                                   for t in o['marks']],
                            structure=self.structure(o['structure']))

    def layout(self, lay):
        if 'pat' in lay:
            return self.element({'p': lay['pat'],
                                 'form': lay.get('form', 'list')})
        if set(lay) == {'rp'}:
            return self.rps[lay['rp']]
        return self.organizer(lay)


def build_kwargs(spec):
    kw = {}
    if spec.get('amend') is not None:
        form = spec.get('aform', 'ts')
        forms = form if isinstance(form, list) else [form] * len(
            spec['amend'])
        kw['amendments'] = {pt(t, f): lb for (t, lb), f in
                            zip(spec['amend'], forms)}
    if spec.get('ref'):
        kw['workshift_ref'] = spec['ref']
    if spec.get('dl') is not None:
        kw['default_label'] = spec['dl']
    if spec.get('wt'):
        kw['worktime_source'] = spec['wt']
    if spec.get('sel'):
        kw['default_selector'] = selector(spec['sel'])
    if spec.get('name'):
        kw['default_name'] = spec['name']
    return kw


def build(spec, parts=None, layout=None):
    """Real timeboard of the specification."""
    if layout is None:
        parts = parts or Parts(spec.get('rps', []))
        layout = parts.layout(spec['layout'])
    f = spec.get('form', 'ts')
    b = tb.Timeboard(spec['freq'], pt(spec['start'], f), pt(spec['end'], f),
                     layout, **build_kwargs(spec))
    for nm, s in spec.get('more') or []:
        b.add_schedule(nm, selector(s))
    return b


def replace(b, m, name, sel):
    """Drop a schedule and add another one of the same name, in both worlds."""
    b.drop_schedule(b.schedules[name])
    m.drop_schedule(name)
    m.add_schedule(name, sel)
    return b.add_schedule(name, selector(sel))


def ns(x):
    """ns of a Timestamp; None for NaT."""
    if x is None or x is pd.NaT:
        return None
    return x.value


def plain(x):
    """numpy scalars to Python ones."""
    if isinstance(x, np.generic):
        x = x.item()
    return x


def null(x):
    return x is None or (isinstance(x, float) and x != x) or x is pd.NaT


def same(a, b):
    a, b = plain(a), plain(b)
    if null(a) or null(b):
        return null(a) and null(b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and
                isinstance(b, (list, tuple)) and len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        except TypeError:
            return False
    try:
        return bool(a == b)
    except Exception:
        return False


def obs(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except TimeoutError:
        raise
    except Exception as e:      # noqa
        return ('err', e)


def expect(f, *a, **k):
    """Run the model."""
    try:
        return ('ok', f(*a, **k))
    except ModelError as e:
        return ('err', e.kinds)


def err_matches(exc, kinds):
    """Is the exception one of the documented classes?  A class of the
    timeboard's own hierarchy must not stand for another one."""
    for k in kinds:
        if isinstance(exc, KINDS[k]):
            if KINDS[k] in SPECIFIC:
                return True
            if not isinstance(exc, SPECIFIC):
                return True
    return False


def agree(got, exp, cmp=same):
    if exp[0] == 'err':
        return got[0] == 'err' and err_matches(got[1], exp[1])
    return got[0] == 'ok' and cmp(got[1], exp[1])


def show(o):
    if o[0] == 'err':
        if isinstance(o[1], frozenset):
            return 'refused with %s' % ' or '.join(sorted(o[1]))
        return 'raised %s(%s)' % (type(o[1]).__name__, str(o[1])[:200])
    r = obs(repr, o[1])
    return 'returned %s' % (
        r[1][:400] if r[0] == 'ok' else 'an object without a text',)


# ------------------------------------------------------- reading real objects

def board_len(b):
    return len(b())


def workshift_row(w):
    return (ns(w.start_time), ns(w.end_time), int(w.duration), plain(w.label),
            ns(w.to_timestamp()))


def model_row(m, i):
    return (m.ws_start(i), m.ws_end(i), m.ws_dur(i), m.labels[i], m.ws_ref(i))


def all_rows(b):
    """Rows of the whole board by its accessors."""
    return [workshift_row(tb.Workshift(b, i)) for i in range(len(b()))]


def table_rows(df):
    cols = [df['start'], df['end'], df['duration'], df['label'], df['ws_ref']]
    out = []
    st = df['start'].values.astype('int64')
    en = df['end'].values.astype('int64')
    rf = df['ws_ref'].values.astype('int64')
    for i in range(len(df)):
        out.append((int(st[i]), int(en[i]), int(df['duration'].values[i]),
                    plain(df['label'].values[i]), int(rf[i])))
    del cols
    return out
