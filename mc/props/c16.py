"""C16: no side effects; independence of inputs and of boards."""
import copy
import itertools
import json
import re

import numpy as np
import pandas as pd

from .. import boards, lay, model, real
from ..cal import at, DAY, HOUR
import timeboard as tb
import timeboard.calendars.RU as RU
import timeboard.calendars.UK as UK
import timeboard.calendars.US as US
from timeboard.calendars.calendarbase import CalendarBase, extend_weekends

ID = 'C16'
CHUNK = 4
BOUNDS = {
    'quick': 'histories: all sequences of 2 of 72 operations (successful and '
             'failing queries, iterations, tables changed by the caller, '
             'schedule changes, constructions from the same inputs), '
             'followed by 4 characteristic ones; each operation followed by all '
             'the others in both orders, every third also after each schedule change; on 4 '
             'boards; all sequences '
             'of 2 constructions out of 9 layouts x 6 frames sharing markers, '
             'organizers, patterns and amendments; all single changes and '
             'pairs of changes of 20 made afterwards to the objects passed '
             'in, on 8 boards; all pairs of 15 '
             'constructions of national, own and template calendars and '
             'holiday tables x 4 ranges sharing the objects passed in, in 5 '
             'kinds of containers',
    'thorough': 'all sequences of 3 operations, all sequences of 3 '
                'constructions and all triples of changes',
}

# ------------------------------------------------------------- histories

D0 = at(2017, 9, 28)
SPECS = [
    boards.spec('D', D0, 12, layout={'pat': [1, 0, 2]}),
    boards.spec('D', D0, 14, ref='end', wt='labels', name='base', layout={
        'marker': {'each': 'W', 'at': [{'days': 0}, {'days': 3}]},
        'structure': [{'s': 3}, {'p': [1, 0]}]},
        amend=[[D0 + 5 * DAY, 4]], more=[['inv', 'not']]),
    boards.spec('D', D0, 12, layout={'marks': [
        D0 + 2 * DAY, D0 + 5 * DAY, D0 + 6 * DAY], 'structure': [
        {'s': 0}, {'s': 1}]}, more=[['all', 'all']]),
    boards.spec('H', at(2016, 12, 31, 18), 12, layout={
        'marker': 'D', 'structure': [{'p': [1, 1, 0]}, {'s': 'x'}]}),
]


class World(object):
    """A board with objects a user holds on to."""

    def __init__(self, k):
        self.spec = SPECS[k]
        self.parts = real.Parts()
        self.layout = self.parts.layout(self.spec['layout'])
        self.kw = real.build_kwargs(self.spec)
        self.b = tb.Timeboard(self.spec['freq'], real.ts(self.spec['start']),
                              real.ts(self.spec['end']), self.layout,
                              **self.kw)
        for nm, s in self.spec.get('more') or []:
            self.b.add_schedule(nm, real.selector(s))
        b = self.b
        n = len(b())
        self.n = n
        self.v = tb.Interval(b, (0, n - 2))
        self.u = tb.Interval(b, (1, n - 1))
        self.x = tb.Interval(b, (n - 1, n - 1))
        self.w = tb.Workshift(b, n // 2)
        self.it = iter(self.v)
        self.gen = self.u.workshifts()
        self.hold = {}
        self.extra = []
        # the first instant of a week, the last one of the same week (the
        # first of a year and an hour of it)
        p, q = (at(2017, 10, 2), at(2017, 10, 9) - 1)
        if p < b.start_time.value or q > b.end_time.value:
            p, q = at(2017, 1, 1), at(2017, 1, 1, 4)
        self.p, self.q = real.ts(p), real.ts(q)


def digest(x):
    if isinstance(x, tb.Workshift):
        return ('ws', real.ns(x.start_time), x.schedule.name,
                real.plain(x.label), bool(x.is_on_duty()))
    if isinstance(x, tb.Interval):
        return ('iv', real.ns(x.start_time), real.ns(x.end_time), len(x),
                x.schedule.name)
    if isinstance(x, pd.DataFrame):
        return ('df', list(x.columns), list(x.index),
                [[str(y) for y in r] for r in x.values.tolist()])
    if isinstance(x, tb.Timeboard):
        return ('tb', [real.plain(w.label) for w in x()][:40],
                sorted(x.schedules))
    if isinstance(x, (list, tuple)):
        return [digest(y) for y in x]
    if isinstance(x, dict):
        return sorted((k, str(type(v))) for k, v in x.items())
    if isinstance(x, str):
        return re.sub(r'org_\d+|\d{9,}', 'org', x)
    if x is pd.NaT:
        return None
    if hasattr(x, 'on_duty_index'):
        return ('sched', x.name, [int(i) for i in x.on_duty_index],
                [int(i) for i in x.off_duty_index])
    x = real.plain(x)
    return 'nan' if x != x else repr(x) if isinstance(x, float) else x


def spoil(df):
    """A caller may do anything to a table."""
    out = digest(df)
    df['label'] = 'spoiled'
    df.iloc[:, :] = None
    df.drop(df.index, inplace=True)
    return out


def boom(x):
    return 1 // 0


def partial(v):
    it = iter(v)
    out = [next(it)]
    it2 = v.workshifts(duty='any')
    return out + [next(it2), next(it)]


def arr(x):
    """A copy; arrays handed out are not the caller's to change."""
    return [int(i) for i in x]


PURE = [
    ('b(p)', lambda W: W.b(W.p)),
    ('b(before)', lambda W: W.b(real.ts(W.b.start_time.value - 1))),
    ('b(nat)', lambda W: W.b(pd.NaT)),
    ('b(junk)', lambda W: W.b('junk')),
    ('b(p,q)', lambda W: W.b((W.p, W.q))),
    ('b(q,p)', lambda W: W.b((W.q, W.p))),
    ('b(p,outside)', lambda W: W.b((W.p, real.ts(
        W.b.end_time.value + DAY)))),
    ('b()', lambda W: W.b()),
    ('length', lambda W: W.b(W.p, length=2)),
    ('length -', lambda W: W.b(W.q, length=-2, closed='01')),
    ('length 0', lambda W: W.b(W.p, length=0)),
    ('length much', lambda W: W.b(W.p, length=99)),
    ('period', lambda W: W.b(W.p, period='W')),
    ('period strict', lambda W: W.b(W.p, period='M', clip_period=False)),
    ('period 00', lambda W: W.b(W.q, period='W', closed='00')),
    ('period bad', lambda W: W.b(W.q, period='bad')),
    ('period object', lambda W: W.b.get_interval(pd.Period(W.p, 'W'))),
    ('closed bad', lambda W: W.b((W.p, W.q), closed='12')),
    ('Workshift', lambda W: tb.Workshift(W.b, 1)),
    ('Workshift outside', lambda W: tb.Workshift(W.b, 999)),
    ('Interval', lambda W: tb.Interval(W.b, (1, 2))),
    ('Interval reversed', lambda W: tb.Interval(W.b, (2, 1))),
    ('Interval outside', lambda W: tb.Interval(W.b, (1, 999))),
    ('count', lambda W: [W.v.count(), W.v.count('off'), W.v.count('any')]),
    ('count bad', lambda W: W.v.count('bad')),
    ('nth', lambda W: [W.v.nth(0), W.v.nth(-1, 'any')]),
    ('nth outside', lambda W: W.v.nth(99)),
    ('first off', lambda W: W.u.first('off')),
    ('list', lambda W: list(W.v)),
    ('workshifts', lambda W: list(W.v.workshifts('off'))),
    ('partial', lambda W: partial(W.v)),
    ('for in for', lambda W: [(x.start_time, y.start_time) for x in W.v for y in W.v]),
    ('overlap', lambda W: W.v.overlap(W.u)),
    ('void', lambda W: (W.v * W.x)),
    ('void nth', lambda W: (W.v * W.x).nth(0)),
    ('void all', lambda W: [(W.v * W.x).count(), list(W.v * W.x),
                            (W.v * W.x).worktime()]),
    ('portion', lambda W: [W.v / W.u, W.x.what_portion_of(W.v, 'any')]),
    ('periods', lambda W: W.v.count_periods('D', 'any')),
    ('periods W', lambda W: W.u.count_periods('W')),
    ('periods bad', lambda W: W.v.count_periods('X')),
    ('worktime', lambda W: W.v.worktime()),
    ('worktime any', lambda W: W.u.worktime('any')),
    ('duration', lambda W: W.v.total_duration('any')),
    ('forward', lambda W: [W.w.rollforward(), W.w.rollforward(
        1, duty='alt')]),
    ('back', lambda W: W.w.rollback(1, duty='any')),
    ('roll outside', lambda W: W.w.rollforward(99)),
    ('roll bad', lambda W: W.w.rollforward(1, duty='bad')),
    ('w + 1', lambda W: [W.w + 1, W.w - 1]),
    ('w + text', lambda W: W.w + 'a'),
    ('w', lambda W: [W.w, W.w.end_time, W.w.duration, W.w.worktime('any'),
                     W.w.to_timestamp(), W.w.is_off_duty()]),
    ('board', lambda W: [W.b.start_time, W.b.end_time, W.b.base_unit_freq,
                         W.b.worktime_source, W.b.default_schedule,
                         W.b.compact_str]),
    ('repr', lambda W: [repr(W.b), repr(W.v), repr(W.w), repr(W.v * W.x)]),
    ('str', lambda W: [str(W.b), str(W.v), str(W.w)]),
    ('table', lambda W: W.b.to_dataframe()),
    ('table part', lambda W: W.b.to_dataframe(1, 2)),
    ('table bad', lambda W: W.b.to_dataframe(1, 99)),
    ('table spoiled', lambda W: spoil(W.b.to_dataframe())),
    ('interval table spoiled', lambda W: spoil(W.v.to_dataframe())),
    ('rows', lambda W: real.all_rows(W.b)),
    ('schedules', lambda W: sorted(W.b.schedules)),
    ('add again', lambda W: W.b.add_schedule(
        W.b.default_schedule.name, lambda x: True)),
    ('add failing', lambda W: W.b.add_schedule('failing', boom)),
    ('drop absent', lambda W: W.b.drop_schedule(type('S', (), {
        'name': 'absent'}))),
    ('same again', lambda W: tb.Timeboard(
        W.spec['freq'], real.ts(W.spec['start']), real.ts(W.spec['end']),
        W.layout, **W.kw)),
    ('other range', lambda W: tb.Timeboard(
        W.spec['freq'], real.ts(W.spec['start'] - 3 * DAY),
        real.ts(W.spec['end'] + 9 * DAY), W.layout)),
    ('unfit', lambda W: tb.Timeboard('W', '1 Jan 2017', '1 Feb 2017',
                                     W.layout, worktime_source='bad')),
    ('empty', lambda W: tb.Timeboard('D', '2 Jan 2017', '1 Jan 2017',
                                     W.layout)),
]
# operations which do change something


def add_a(W):
    W.hold['A'] = W.b.add_schedule('A', lambda x: not x)
    return W.hold['A']


def drop_a(W):
    s = W.b.schedules['A']
    W.b.drop_schedule(s)
    return sorted(W.b.schedules)


def replace_a(W):
    if 'A' in W.b.schedules:
        drop_a(W)
    W.hold['A'] = W.b.add_schedule('A', lambda x: x == 0 or x == 2)
    return W.hold['A']


CHANGES = [
    ('add A', add_a),
    ('drop A', drop_a),
    ('replace A', replace_a),
    ('draw', lambda W: next(W.it)),
    ('draw on duty', lambda W: next(W.gen)),
]
# with the schedule last added, dropped or not
HELD = [
    ('under A', lambda W: [tb.Interval(W.b, (0, 1), W.hold['A']).count(),
                           W.v.count(schedule=W.hold['A']),
                           W.w.is_on_duty(W.hold['A']),
                           W.b(W.p, length=1, schedule=W.hold['A'])]),
    ('sums under A', lambda W: [[f(d, W.hold['A']) for f in (
        W.v.total_duration, W.u.count, W.x.count)] for d in ('on', 'off')]),
    ('periods under A', lambda W: [W.v.count_periods('D', d, W.hold['A'])
                                   for d in ('on', 'off')]),
    ('rolls under A', lambda W: [f(0, d, W.hold['A']) for f in (
        W.w.rollforward, W.w.rollback) for d in ('same', 'any')]),
    ('portion under A', lambda W: [
        W.v.what_portion_of(W.u, 'off', W.hold['A']),
        W.v.overlap(W.u, W.hold['A'])]),
]
OPS = PURE + HELD + CHANGES
NAMES = [n for n, _ in OPS]
FUN = dict(OPS)
CH = {n for n, _ in CHANGES}


def call(W, name):
    r = real.obs(lambda: digest(FUN[name](W)))
    if r[0] == 'err':
        return ('err', type(r[1]).__name__)
    return r


_BASE = {}


def baseline(k, hist, name):
    """Answer after the state-changing operations of the history alone."""
    key = (k, hist, name)
    if key not in _BASE:
        W = World(k)
        for h in hist:
            call(W, h)
        _BASE[key] = call(W, name)
    return _BASE[key]


def history(k, seq, tail, log):
    W = World(k)
    hist = ()
    done = []
    for name in list(seq) + list(tail):
        got = call(W, name)
        exp = baseline(k, hist, name)
        log.step(got[0])
        done.append(name)
        if got != exp:
            log.fail('board %d: after %r, %s gives %r; without the earlier '
                     'queries: %r' % (k, done[:-1][-6:], name,
                                      str(got)[:300], str(exp)[:300]))
            return
        if name in CH:
            hist += (name,)
    log.state((k, hist, len(done)))


# --------------------------------------------------------- shared inputs

LAYOUTS = [
    {'pat': [1, 0, 2]},
    {'marker': 'W', 'structure': [{'p': [1, 1, 1, 1, 1, 0, 0]}]},
    # nothing in order, so that a sorted input is a changed one
    {'marks': [D0 + 7 * DAY, D0 + 3 * DAY, D0 + 7 * DAY, D0 - DAY],
     'structure': [{'p': [1, 0, 2]}, {'s': 5}]},
    {'marker': {'each': 'W', 'at': [{'days': 4, 'hours': 12}, {'days': 2},
                                    {'days': 2}]},
     'structure': [{'s': 1}, {'p': [0, 1]}]},
]
LAYOUTS += [
    {'marker': 'M', 'structure': [LAYOUTS[2], {'p': [1, 0, 2]}, LAYOUTS[1]]},
    {'marker': {'each': 'M', 'how': 'nth_weekday_of_month', 'at': [
        {'month': 1, 'weekday': 3, 'week': 3},
        {'month': 1, 'weekday': 1, 'week': 2}]},
     'structure': [{'p': [1, 0, 2]}, LAYOUTS[1]]},
    {'marker': {'each': 'A', 'how': 'from_easter_western', 'at': [
        {'days': 1}, {'days': -2}]}, 'structure': [{'s': 2}, LAYOUTS[2]]},
    {'pat': [1, 'x'], 'form': 'np'},
    {'marks': [], 'structure': [LAYOUTS[1]]},
]
FRAMES = [('D', D0, 14), ('D', D0 - 2 * DAY, 40), ('H', D0, 100),
          ('W', D0, 8), ('M', at(2016, 11, 5), 12), ('12H', D0 + HOUR, 30)]
AMEND = [[D0 + 90 * DAY, 9], [D0 + 4 * DAY, 7], [D0 + 4 * DAY + 13 * HOUR, 8]]


class Shared(real.Parts):
    """Equal descriptions are the same objects."""

    def __init__(self):
        real.Parts.__init__(self)
        self.memo = {}

    def _one(self, kind, d, make):
        key = kind + json.dumps(d, sort_keys=True, default=str)
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def marker(self, m):
        return self._one('m', m, lambda: real.Parts.marker(self, m))

    def element(self, e):
        if 's' in e:
            return e['s']
        return self._one('e', e, lambda: real.Parts.element(self, e))

    def organizer(self, o):
        return self._one('o', o, lambda: real.Parts.organizer(self, o))


def inputs(parts, amend):
    """What the caller's objects look like."""
    out = []
    for k in sorted(parts.memo):
        o = parts.memo[k]
        if isinstance(o, tb.Organizer):
            o = ('org', repr(o.marker), [str(x) for x in o.marks]
                 if o.marks is not None else None,
                 [x if not isinstance(x, (list, tuple, np.ndarray,
                                          tb.Organizer)) else
                  list(x) if not isinstance(x, tb.Organizer) else id(x)
                  for x in o.structure])
        elif isinstance(o, tb.Marker):
            o = ('marker', o.each, copy.deepcopy(o.at), str(o.how))
        elif isinstance(o, str):
            pass
        else:
            o = (type(o).__name__, list(o))
        out.append((k, o))
    return out, [(str(k), v) for k, v in amend.items()]


def constructions(seq, log):
    parts = Shared()
    for i, _, _ in seq:
        parts.layout(LAYOUTS[i])
    amends = [None,
              {real.ts(t): v for t, v in AMEND if v != 8},
              {real.ts(t): v for t, v in AMEND}]
    amends[1][pd.NaT] = 6           # no workshift there
    before = None
    built = []
    for i, f, a in seq:
        before = before or [inputs(parts, am or {}) for am in amends]
        freq, start, n = FRAMES[f]
        sp = boards.spec(freq, start, n, layout=LAYOUTS[i])
        am = amends[a]
        m = exp = None
        try:
            if am is None:
                m = model.Board(sp)
            else:
                m = model.Board(dict(sp, amend=[
                    [k.value, v] for k, v in am.items()
                    if k is not pd.NaT]))
        except model.ModelError as e:
            exp = e.kinds
        except model.Undecided:
            log.undecided += 1
        log.transitions += 1
        got = real.obs(lambda: tb.Timeboard(
            freq, real.ts(sp['start']), real.ts(sp['end']),
            parts.layout(LAYOUTS[i]), amendments=am))
        what = 'layout %d, frame %d, amendments %d after %r' % (
            i, f, a, [s for s in seq])
        if exp is not None:
            log.check(got[0] == 'err' and real.err_matches(got[1], exp),
                      lambda: '%s: %s, expected %s' % (
                          what, real.show(got), sorted(exp)), 'refused')
        elif got[0] == 'err':
            if m is not None and not (m.maybe and real.err_matches(
                    got[1], {model.OOB})):
                log.fail('%s: %s' % (what, real.show(got)))
        elif m is not None:
            built.append((got[1], m, what))
            got[1].add_schedule('s%d' % len(built), real.selector('not'))
            m.add_schedule('s%d' % len(built), 'not')
        now = [inputs(parts, x or {}) for x in amends]
        log.check(now == before, lambda: '%s: the inputs changed from %r to '
                  '%r' % (what, [x for x, y in zip(before, now) if x != y],
                          [y for x, y in zip(before, now) if x != y]))
    for b, m, what in built:
        same_board(b, m, log, what)


def same_board(b, m, log, what):
    rows = lay.rows_of(b)
    exp = [real.model_row(m, i) for i in range(len(m))]
    log.state(m.state())
    log.transitions += len(exp)
    if not (isinstance(rows, list) and real.same(rows, exp)):
        log.fail('%s: %s' % (what, lay.first_diff(rows, exp)))
        return
    if list(b.schedules) != m.order:
        log.fail('%s: schedules %r, expected %r' % (
            what, list(b.schedules), m.order))
        return
    df = b.to_dataframe()
    for nm in m.order:
        s = b.schedules[nm]
        on = [i for i in range(len(m)) if m.on(i, nm)]
        log.check([int(i) for i in s.on_duty_index] == on and
                  [i for i, x in enumerate(df[nm]) if x] == on and
                  [i for i in range(len(m)) if s.is_on_duty(i)] == on and
                  tb.Interval(b, (0, len(m) - 1), s).count() == len(on),
                  lambda: '%s: duty under %s changed' % (what, nm))


# ------------------------------------------------------- changes afterwards

class Later(object):
    """Inputs kept by the caller, who changes them."""

    def __init__(self, k):
        self.pat = [1, 0, 2]
        self.inner = [1, 1, 1, 1, 1, 0, 0]
        self.arr = np.array([1, 0, 0, 2])
        self.ser = pd.Series([2, 1])
        self.at = [{'days': 4}, {'days': 2}]
        self.marks = [real.ts(D0 + 7 * DAY), real.ts(D0 + 3 * DAY)]
        self.rp = tb.RememberingPattern([1, 0, 0])
        self.on = {1, 5}
        self.box = [1]
        p = [lambda: self.pat, lambda: self.arr, lambda: self.ser]
        self.marker = tb.Marker(each='W', at=self.at)
        self.struct2 = [self.inner, 5]
        self.org2 = tb.Organizer(marks=self.marks, structure=self.struct2)
        self.struct = [self.pat, self.org2, self.arr, 0]
        self.org = tb.Organizer(marker=self.marker, structure=self.struct)
        self.amend = {real.ts(D0 + 4 * DAY): 7, real.ts(D0 + 20 * DAY): 5}
        L = [self.pat, self.arr, self.ser, self.rp, self.org2, self.org,
             tb.Organizer(marks=[], structure=[self.org]),
             tb.Organizer(marker='M', structure=self.rp)]
        if k == 7:
            # workshifts longer than a week
            self.amend = {real.ts(D0 + 20 * DAY): 5}
        ls = {0: {'pat': [1, 0, 2]}, 1: {'pat': [1, 0, 0, 2]},
              2: {'pat': [2, 1]}, 3: {'rp': 0},
              4: {'marks': [D0 + 3 * DAY, D0 + 7 * DAY], 'structure': [
                  {'p': [1, 1, 1, 1, 1, 0, 0]}, {'s': 5}]}}
        ls[5] = {'marker': {'each': 'W', 'at': [{'days': 2}, {'days': 4}]},
                 'structure': [{'p': [1, 0, 2]}, ls[4],
                               {'p': [1, 0, 0, 2]}, {'s': 0}]}
        ls[6] = {'marks': [], 'structure': [ls[5]]}
        ls[7] = {'marker': 'M', 'structure': {'rp': 0}}
        self.spec = boards.spec('D', D0, 25, layout=ls[k], rps=[[1, 0, 0]],
                                amend=[[t.value, v] for t, v in
                                       self.amend.items()])
        del p
        self.b = tb.Timeboard(
            'D', real.ts(self.spec['start']), real.ts(self.spec['end']), L[k],
            amendments=self.amend, default_selector=self.sel)
        self.b.add_schedule('inv', lambda x: not (x in self.on))
        self.m = model.Board(self.spec)
        on = [x in (1, 5) for x in self.m.labels]
        self.m.schedules['on_duty'] = on
        self.m.schedules['inv'] = [not x for x in on]
        self.m.order.append('inv')

    def sel(self, x):
        return x in self.on


def _clear(x):
    del x[:]


MUT = [
    ('pattern item', lambda L: L.pat.__setitem__(0, 9)),
    ('pattern cleared', lambda L: _clear(L.pat)),
    ('pattern longer', lambda L: L.pat.append(4)),
    ('inner reversed', lambda L: L.inner.reverse()),
    ('inner cleared', lambda L: _clear(L.inner)),
    ('array item', lambda L: L.arr.__setitem__(slice(None), 8)),
    ('series item', lambda L: L.ser.__setitem__(0, 8)),
    ('at changed', lambda L: L.at[0].update(days=1, hours=3)),
    ('at cleared', lambda L: _clear(L.at)),
    ('marks cleared', lambda L: _clear(L.marks)),
    ('mark more', lambda L: L.marks.append(real.ts(D0 + 5 * DAY))),
    ('pattern drawn', lambda L: next(iter(L.rp))),
    ('structure reversed', lambda L: L.struct.reverse()),
    ('structure cleared', lambda L: _clear(L.struct)),
    ('inner structure', lambda L: L.struct2.__setitem__(1, 6)),
    ('amendment', lambda L: L.amend.__setitem__(real.ts(D0 + 4 * DAY), 1)),
    ('amendments cleared', lambda L: L.amend.clear()),
    ('amendment more', lambda L: L.amend.update({real.ts(D0): 6})),
    ('selector', lambda L: L.on.clear()),
    ('selector more', lambda L: L.on.update((0, 2))),
]


def later(k, muts, log):
    L = Later(k)
    for i in muts:
        try:
            MUT[i][1](L)
        except LookupError:
            pass            # nothing left to change
    what = 'board %d after %r' % (k, [MUT[i][0] for i in muts])
    same_board(L.b, L.m, log, what)
    # schedules added now follow the labels as they were
    L.b.add_schedule('late', real.selector('eq1'))
    L.m.add_schedule('late', 'eq1')
    same_board(L.b, L.m, log, what)


# --------------------------------------------------------------- calendars

PARAMS = {'base_unit_freq': 'D', 'start': pd.Timestamp('01 Jan 2009'),
          'end': pd.Timestamp('31 Dec 2015'), 'layout': tb.Organizer(
              marker='W', structure=[[8, 8, 8, 8, 8, 0, 0]]),
          'worktime_source': 'labels'}
PRESET = {pd.Timestamp('06 Jul 2011'): 0, pd.Timestamp('09 Jul 2011'): 5}


class OwnCalendar(CalendarBase):
    """Parameters and amendments kept in one place."""

    @classmethod
    def parameters(cls):
        return PARAMS

    @classmethod
    def amendments(cls, custom_start=None, custom_end=None,
                   custom_amendments=None):
        return custom_amendments or PRESET


CALS = [
    ('US', US.Weekly8x5, {}, ('off', 'am')),
    ('US', US.Weekly8x5, {'long_weekends': False}, ('off',)),
    ('US only', US.Weekly8x5, {'only_custom_amendments': True}, ('am',)),
    ('England', UK.Weekly8x5, {'country': 'england'}, ('off', 'am')),
    ('Scotland', UK.Weekly8x5, {'country': 'scotland'}, ('off',)),
    ('NI', UK.Weekly8x5, {'country': 'northern_ireland'}, ('off', 'am')),
    ('RU', RU.Weekly8x5, {'work_on_dec31': False}, ('am',)),
    ('RU', RU.Weekly8x5, {'short_eves': False, 'do_not_amend': True}, ('am',)),
    ('own', OwnCalendar, {}, ('am',)),
    ('own', OwnCalendar, {}, ()),
    ('base', CalendarBase, {}, ('am',)),
    ('base', CalendarBase, {'do_not_amend': True}, ('am',)),
    ('fed_holidays', US.fed_holidays, {'start_year': 2011, 'end_year': 2012},
     ('off',)),
    ('bank_holidays', UK.bank_holidays, {
        'start_year': 2011, 'end_year': 2012, 'country': 'scotland'},
     ('off',)),
    ('extend', extend_weekends, {'how': 'next'}, ('am1',)),
]
OFF = ['boxing', 'summer', 'christmas', 'veterans', 'good_friday']
AM = ['24 Dec 2011', '02 Jan 2012', '07 Jul 2011 12:00', '09 Jul 2011']
SPAN = [{}, {'custom_start': '01 Jul 2011', 'custom_end': '30 Jun 2012'},
        {'custom_start': '05 Jul 2011'}, {'custom_end': '11 Jul 2011'}]
MAKE = {'set': set, 'list': list, 'tuple': tuple,
        'frozen': frozenset, 'dict': dict.fromkeys}


class Things(object):
    def __init__(self, form):
        self.off = MAKE[form](OFF)
        self.am = {k: i for i, k in enumerate(AM)}
        self.am1 = {pd.Timestamp(k): i for i, k in enumerate(AM)}
        self.span = [dict(x) for x in SPAN]

    def seen(self):
        return (type(self.off), sorted(self.off), list(self.am.items()),
                list(self.am1.items()), self.span,
                sorted((k, str(v)) for k, v in PARAMS.items()
                       if k != 'layout'), sorted(PRESET.items()))


def calendar(i, s, th):
    name, cl, kw, uses = CALS[i]
    kw = dict(kw)
    if 'off' in uses:
        kw['do_not_observe'] = th.off
    if 'am' in uses:
        kw['custom_amendments'] = th.am
    if 'am1' in uses:
        kw['amendments'] = th.am1
    if isinstance(cl, type):
        kw.update(th.span[s])
        b = cl(**kw)
        r = b.to_dataframe()
        return (real.ns(b.start_time), real.ns(b.end_time),
                [real.plain(x) for x in r['label']],
                [bool(x) for x in r['on_duty']])
    return sorted((str(k), v) for k, v in cl(**kw).items())


_CAL = {}


def calendars(seq, form, log):
    th = Things(form)
    before = th.seen()
    for i, s in seq:
        if (i, s) not in _CAL:
            PARAMS.update(start=pd.Timestamp('01 Jan 2009'),
                          end=pd.Timestamp('31 Dec 2015'))
            _CAL[i, s] = real.obs(lambda: calendar(i, s, Things('list')))
            PARAMS.update(start=pd.Timestamp('01 Jan 2009'),
                          end=pd.Timestamp('31 Dec 2015'))
    for n, (i, s) in enumerate(seq):
        what = 'calendar %s %r %r after %r' % (
            CALS[i][0], CALS[i][2], SPAN[s], [(CALS[x][0], SPAN[y])
                                              for x, y in seq[:n]])
        got = real.obs(lambda: calendar(i, s, th))
        exp = _CAL[i, s]
        log.step(got[0])
        log.state((i, s, got[0] == 'ok' and got[1]))
        log.check(got[0] == exp[0] and (got[0] == 'err' and type(
            got[1]) is type(exp[1]) or real.same(got[1], exp[1])),
            lambda: '%s differs from the same one built first' % what)
        now = th.seen()
        log.check(now == before, lambda: '%s: the objects passed changed '
                  'from %r to %r' % (what, [x for x, y in zip(before, now)
                                            if x != y],
                                     [y for x, y in zip(before, now)
                                      if x != y]))
    PARAMS.update(start=pd.Timestamp('01 Jan 2009'),
                  end=pd.Timestamp('31 Dec 2015'))


# -------------------------------------------------------------------- main

def cases(tier):
    quick = tier == 'quick'
    for k in range(len(SPECS)):
        for a in range(len(NAMES)):
            yield {'hist': [k, a], 'change': not quick or (a + k) % 3 == 0}
    if not quick:
        for k in range(len(SPECS)):
            for a in range(len(NAMES)):
                for b in range(len(NAMES)):
                    yield {'hist': [k, a, b]}
    keys = [(i, f, (i + f) % 3) for i in range(len(LAYOUTS))
            for f in range(len(FRAMES))]
    for x in keys:
        yield {'build': [x]}
        if not quick:
            for y in keys:
                yield {'build': [x, y]}
    for i in range(len(CALS)):
        for form in sorted(MAKE):
            for s in range(len(SPAN)):
                if form != 'set' and (s != 1 or 'off' not in CALS[i][3]):
                    continue
                if quick and i < 8 and s != 1:
                    continue
                yield {'cal': [i, s], 'form': form}
    for k in range(8):
        for a in range(len(MUT)):
            yield {'later': [k, a]}
            if not quick:
                for b in range(len(MUT)):
                    yield {'later': [k, a, b]}


def run(case, log):
    if 'hist' in case:
        k, pre = case['hist'][0], [NAMES[i] for i in case['hist'][1:]]
        pure = [n for n in NAMES if n not in CH]
        tail = ('rows', 'schedules', 'count', 'w')
        if len(pre) > 1:
            tail += ('table', 'nth', 'overlap', 'same again')
        if len(pre) == 1:
            history(k, pre, pure, log)
            history(k, pre, pure[::-1], log)
            if case.get('change'):
                for c in sorted(CH):
                    history(k, [c] + pre, pure, log)
        if not CH.intersection(pre):
            # one board lives through all of them
            seq = []
            for b in pure:
                seq += pre + [b] + list(tail)
            history(k, seq, (), log)
        for b in NAMES:
            if b in CH or CH.intersection(pre):
                history(k, pre + [b], tail, log)
        log.samples.append({'board': SPECS[k], 'history': pre + [b] + pure})
    elif 'cal' in case:
        i, s = case['cal']
        for j in range(len(CALS)):
            if 'off' not in CALS[j][3] and case['form'] != 'set':
                continue
            # a year is enough for the country calendars
            for t in (1,) if case['form'] != 'set' else (
                    1, 3) if j < 8 else range(len(SPAN)):
                calendars([(i, s), (j, t)], case['form'], log)
                if t == 1:
                    calendars([(i, s), (j, t), (i, s)], case['form'], log)
    elif 'build' in case:
        seq = [tuple(x) for x in case['build']]
        keys = [(i, f, a) for i in range(len(LAYOUTS))
                for f in range(len(FRAMES)) for a in ((i + f) % 3,)]
        for y in keys:
            constructions(seq + [y], log)
            if len(seq) == 1:
                constructions(seq + [y, seq[0]], log)
    else:
        k, pre = case['later'][0], case['later'][1:]
        for b in range(len(MUT)):
            later(k, pre + [b], log)
