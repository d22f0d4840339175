"""C17: tables, text and accessors."""
import pandas as pd

from .. import boards, cal, kinds, lay, model, real, vast
from ..cal import at, DAY
from .c07 import LONG
from . import c02, c03, c04
import timeboard as tb

ID = 'C17'
CHUNK = 2
BOUNDS = {
    'quick': 'all partitions of 1..4 base units of 33 frequencies (5 for '
             'days) x both reference times x 3 label words x 5 sets of '
             'schedules (added, dropped, renamed default) x all sub-ranges '
             'of workshifts, given or by default: tables of board and '
             'interval, rows against workshifts, text of workshifts, '
             'intervals, void intervals and boards under every schedule; '
             'boards of 120..700 and of 70000..140000 workshifts; boards '
             'with up to 32 schedules; all ordered pairs of labels of 44 '
             'kinds',
    'thorough': 'same with 1..6 base units (7 for days)',
}
SETS = [([], []), ([['inv', 'not']], []), ([['b', 'gt1'], ['a', 'not']], []),
        ([['b', 'gt1'], ['a', 'not'], ['c', 'all']], ['a']),
        ([['b', 'gt1']], ['b'])]
BASES = boards.FREQS + boards.EDGES


def layouts():
    """Layouts made of plain values: frequency, start, length, layout,
    remembering patterns."""
    for c in c02.nested('quick'):
        if c['n'] < 100:
            yield c['freq'], c['start'], c['n'], c['layout'], []
    for l, n in c04.LAYS:
        for r in ([[1, 2, 3], ['a', 'b']], [['x'], [0, 0, -1, 5]]):
            yield 'D', c04.STARTS[n % 3], n, l, r
    for base, each, ats, starts, ns in c03.OFFSETS:
        for a in ats:
            for k in (0, -1):
                yield base, starts[k], min(ns[-1], 100), {
                    'marker': {'each': each, 'at': a},
                    'structure': [[{'s': 1}, {'p': ['a', 'b']}],
                                  [{'p': [1, 2, 3]}, {'p': []}]][k]}, []
    for how, at_ in (('nth_weekday_of_month',
                      [{'month': 5, 'week': -1, 'weekday': 1},
                       {'month': 9, 'week': 1, 'weekday': 1, 'shift': 2}]),
                     ('from_easter_western', [{'days': -2}, {'days': 1}]),
                     ('from_easter_orthodox', [{'days': 0}])):
        yield 'D', at(2016, 3, 1), 90, {
            'marker': {'each': 'A', 'at': at_, 'how': how},
            'structure': [{'s': 1}, {'s': 0}]}, []
    for l in ({'pat': [1, 0]}, {'pat': ['a']}, {'pat': []},
              {'pat': [None, 1.5, True, 'b']}, {'pat': [1, 2, 3], 'form':
                                                'tuple'},
              {'marks': [], 'structure': []}):
        yield 'D', at(2017, 2, 27), 5, l, []


LAYOUTS = list(layouts())


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 6 if quick else 8):
        for f in range(len(BASES)):
            if n > ((4 if f < len(boards.FREQS) else 3) if quick else 6) and f:
                continue
            for firsts in boards.compositions(n):
                yield {'f': f, 'n': n, 'firsts': list(firsts)}
    for k in range(8):
        yield {'long': k}
    for i in range(vast.N):
        yield {'vast': i}
    for i in range(kinds.N):
        yield {'kind': i}
    for k in range(0, len(LAYOUTS), 25):
        yield {'code': k}
    for q in (1, 7, 8, 9, 10, 12, 31) if quick else range(1, 41):
        yield {'many': q}


def text_of(t, freq):
    """Text of the base unit, as a calendar user writes it."""
    _, b, a = cal.parse(freq)
    s = cal.ordinal_start(b, a, cal.ordinal(b, a, t))
    y, m, d = cal.ymd(s)
    if b == 'D':
        return '%04d-%02d-%02d' % (y, m, d)
    if b in ('H', 'T', 'min'):
        return '%04d-%02d-%02d %02d:%02d' % (
            y, m, d, s % DAY // cal.HOUR, s % cal.HOUR // cal.MIN)
    if b == 'S':
        return cal.iso(s) if s % DAY else cal.iso(s) + ' 00:00:00'
    if b == 'M':
        return '%04d-%02d' % (y, m)
    if b == 'W' and freq[0] == 'W':
        return '%s/%s' % (cal.iso(s), cal.iso(s + 6 * DAY))
    return str(pd.Period(pd.Timestamp(t), freq=freq))


def ws_text(m, i):
    k = m.ws_dur(i)
    return "%s'%s' at %s" % ('' if k == 1 else '%dx' % k, m.freq,
                             text_of(m.ws_start(i), m.freq))


def table_diff(df, m, lo, hi):
    """None or the first difference."""
    n = hi - lo + 1
    cols = {'ws_ref', 'start', 'duration', 'end', 'label'} | set(m.schedules)
    if set(df.columns) != cols or len(df.columns) != len(cols):
        return 'columns %r' % (list(df.columns),)
    if list(df.index) != list(range(lo, hi + 1)) or df.index.name != 'loc':
        return 'index %r named %r' % (list(df.index)[:9], df.index.name)
    rows = real.table_rows(df)
    exp = [real.model_row(m, i) for i in range(lo, hi + 1)]
    for k in range(n):
        if not real.same(rows[k], exp[k]):
            return 'row %d is %r, expected %r' % (lo + k, rows[k], exp[k])
    for nm in m.schedules:
        got = list(df[nm])
        want = [m.on(i, nm) for i in range(lo, hi + 1)]
        if [bool(x) for x in got] != want or not all(
                isinstance(real.plain(x), bool) for x in got):
            return 'duty under %s is %r, expected %r' % (nm, got[:20],
                                                         want[:20])
    return None


def tables(b, m, ranges, log, what):
    N = len(m)
    for a, z in ranges:
        lo, hi = (0 if a is None else a), (N - 1 if z is None else z)
        if lo > hi:
            continue
        for how in range(3):
            if how == 2 and (a is None or z is None):
                continue
            f = [lambda: b.to_dataframe(a, z),
                 lambda: b.to_dataframe(first_ws=a, last_ws=z),
                 lambda: tb.Interval(b, (lo, hi)).to_dataframe()][how]
            got = real.obs(f)
            d = table_diff(got[1], m, lo, hi) if got[0] == 'ok' else \
                real.show(got)
            log.check(d is None, lambda: 'table %r..%r (way %d) of %s: %s' % (
                a, z, how, what, d))
    got = real.obs(lambda: b.to_dataframe())
    d = table_diff(got[1], m, 0, N - 1) if got[0] == 'ok' else real.show(got)
    log.check(d is None, lambda: 'table of %s: %s' % (what, d))
    for a, z in ((0, N), (N, N), (-1, 0), (None, N), (0, -1)):
        log.compare(real.obs(lambda: b.to_dataframe(a, z)),
                    ('err', {'AssertionError', 'IndexError',
                             'OutOfBoundsError', 'ValueError'}),
                    lambda: 'table %r..%r of %s' % (a, z, what))


def texts(b, m, ivls, log, what, full=True):
    N = len(m)
    default = b.default_schedule.name
    for nm in m.schedules:
        suf = '' if nm == default else ', ' + nm
        S = b.schedules[nm]
        for i in range(N) if full else (0, N // 2, N - 1):
            w = tb.Workshift(b, i, S)
            exp = 'Workshift(%d%s) of %s' % (i, suf, ws_text(m, i))
            log.compare(real.obs(lambda: (repr(w), w.compact_str)),
                        ('ok', (exp, ws_text(m, i))),
                        lambda: 'text of workshift %d of %s' % (i, what))
            log.compare(real.obs(lambda: (
                real.ns(w.start_time), real.ns(w.end_time), w.duration,
                w.label, real.ns(w.to_timestamp()), w.schedule.name,
                bool(w.is_on_duty()), bool(w.is_off_duty()))),
                ('ok', real.model_row(m, i)[:4] + (
                    m.ws_ref(i), nm, m.on(i, nm), not m.on(i, nm))),
                lambda: 'workshift %d of %s under %s' % (i, what, nm))
        if full:
            on = [i for i in range(N) if m.on(i, nm)]
            log.compare(real.obs(lambda: (
                list(S.index), list(S.on_duty_index), list(S.off_duty_index),
                [S.label(i) for i in range(N)], S.name)),
                ('ok', (list(range(N)), on,
                        [i for i in range(N) if not m.on(i, nm)],
                        [m.labels[i] for i in range(N)], nm)),
                lambda: 'schedule %s of %s' % (nm, what))
        for lo, hi in ivls:
            v = tb.Interval(b, (lo, hi), S)
            exp = 'Interval((%d, %d)%s): %s -> %s [%d]' % (
                lo, hi, suf, ws_text(m, lo), ws_text(m, hi), hi - lo + 1)
            log.compare(real.obs(lambda: (repr(v), v.compact_str)),
                        ('ok', (exp, exp)), lambda: 'text of interval %d..%d '
                        'of %s' % (lo, hi, what))
            log.compare(real.obs(lambda: (
                real.ns(v.start_time), real.ns(v.end_time), v.length, len(v),
                v.schedule.name)), ('ok', (
                    m.ws_start(lo), m.ws_end(hi), hi - lo + 1, hi - lo + 1,
                    nm)), lambda: 'interval %d..%d of %s' % (lo, hi, what))
            for hi2 in range(lo):
                u = tb.Interval(b, (0, hi2), S)
                o = real.obs(lambda: v * u)
                exp = 'Interval ((%d, %d)%s): void [0]' % (lo, hi2, suf)
                log.compare(real.obs(lambda: (repr(o[1]), o[1].compact_str,
                                              str(o[1]))),
                            ('ok', (exp, exp, exp)), lambda: 'text of void '
                            '%d..%d of %s' % (lo, hi2, what))
                got = real.obs(lambda: (v * u).to_dataframe().shape[0])
                log.compare(got, ('ok', 0), 'table of a void interval')
                break
    i = N // 2
    w, v = tb.Workshift(b, i), tb.Interval(b, (i, N - 1))
    for x, df in ((w, lambda: b.to_dataframe(i, i)),
                  (v, lambda: b.to_dataframe(i, N - 1)),
                  ):
        log.compare(real.obs(lambda: str(x)), ('ok', '%r\n\n%s' % (
            x, df())), lambda: 'str of %r' % (x,))
    t = "Timeboard of '%s': %s -> %s" % (
        m.freq, text_of(m.units[0][0], m.freq),
        text_of(m.units[-1][0], m.freq))
    log.compare(real.obs(lambda: b.compact_str), ('ok', t), 'text of board')
    log.compare(real.obs(lambda: str(b)), ('ok', '%s\n\n%r' % (
        t, b.to_dataframe())), 'str of board')
    log.compare(real.obs(lambda: (real.ns(b.start_time), real.ns(b.end_time),
                                  b.base_unit_freq,
                                  b.default_schedule.name)),
                ('ok', (m.start, m.end, m.freq, m.name)), 'board')
    log.compare(real.obs(lambda: sorted(b.schedules)),
                ('ok', sorted(m.schedules)), 'schedules')
    r = real.obs(lambda: repr(b))
    log.check(r[0] == 'ok' and "Timeboard(%r, start=" % m.freq in r[1],
              lambda: 'repr of board: %r' % (r[1],))


def held(b, m, log):
    """Objects made under every schedule of the board, and their texts."""
    N, out = len(m), []
    for k, nm in enumerate(sorted(m.schedules)):
        for lo, hi in [(N // 2, N - 1) if k % 2 else (0, N // 2)]:
            out.append((lo, hi, nm, tb.Interval(b, (lo, hi), b.schedules[nm])))
        out.append((N // 2, None, nm, tb.Workshift(b, N // 2,
                                                   b.schedules[nm])))
    return [x + (repr(x[3]), x[3].compact_str, [m.on(i, x[2])
                                                for i in range(N)])
            for x in out]


def still(b, m, had, log, what):
    """Objects made before the schedules of the board have changed keep
    their schedules; their tables are parts of the table of the board."""
    for lo, hi, nm, x, text, compact, on in had:
        w = lambda: '%s, made before schedules changed: %s' % (text, what)
        log.compare(real.obs(lambda: (repr(x), x.compact_str,
                                      x.schedule.name)),
                    ('ok', (text, compact, nm)), w)
        if hi is None:
            log.compare(real.obs(lambda: (bool(x.is_on_duty()),
                                          bool(x.is_off_duty()))),
                        ('ok', (on[lo], not on[lo])), w)
            continue
        got = real.obs(lambda: x.to_dataframe())
        d = table_diff(got[1], m, lo, hi) if got[0] == 'ok' else \
            real.show(got)
        log.check(d is None, lambda: 'table of %s: %s' % (w(), d))
        log.compare(real.obs(lambda: x.count()), ('ok', sum(on[lo:hi + 1])),
                    w)


def run(case, log):
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    if 'code' in case:
        for k in range(case['code'], min(case['code'] + 25, len(LAYOUTS))):
            run_code(*LAYOUTS[k], log=log)
        return
    if 'kind' in case:
        return kinds.explore(case['kind'], kinds.some, [kinds.tables], log)
    if 'many' in case:
        return run_many(case['many'], log)
    freq, start = BASES[case['f']]
    n, firsts = case['n'], case['firsts']
    k = len(firsts)
    for wi, word in enumerate(([1, 0, 2, 0], [0, 'A', 1, 1], [None, 2.5])):
        labels = [word[i % len(word)] for i in range(k)]
        si = (wi + case['f'] + n + k) % 5
        for ref in ('start', 'end'):
            more, drop = SETS[si]
            if wi:
                more = [[nm, {'gt1': 'eq1'}.get(s, s)] for nm, s in more]
            sp = boards.composed(freq, start, n, firsts, labels, ref=ref,
                                 name='base' if wi == 1 else None)
            b, m = real.build(sp), model.Board(sp)
            for nm, s in more:
                b.add_schedule(nm, real.selector(s))
                m.add_schedule(nm, s)
            had = held(b, m, log)
            for nm in drop:
                b.drop_schedule(b.schedules[nm])
                m.drop_schedule(nm)
            log.state(m.state())
            what = 'board %r with schedules %r' % (sp, sorted(m.schedules))
            still(b, m, had, log, what)
            rng = [(a, z) for a in [None] + list(range(k))
                   for z in [None] + list(range(k))]
            tables(b, m, rng, log, what)
            texts(b, m, [(lo, hi) for lo in range(k) for hi in range(lo, k)],
                  log, what)
            si = (si + 1) % 5
    log.samples.append({'spec': sp})


def run_many(q, log):
    """Many schedules, added in an order which is not the one of names."""
    names = ['%s%d' % ('zxay'[i % 4], (i * 17) % 41) for i in range(q)]
    sels = ('not', 'gt1', 'all', 'eq1', 'none')
    sp = boards.composed('D', at(2017, 2, 27), 5, (0, 1, 3, 4), (0, 1, 2, 1))
    b, m = real.build(sp), model.Board(sp)
    for step in range(2):
        had = held(b, m, log)
        for i, nm in enumerate(names):
            if step and i % 3 == 1:
                continue
            if step:            # dropped and added with another selector
                b.drop_schedule(b.schedules[nm])
                m.drop_schedule(nm)
                if i % 3 == 2:
                    continue
            b.add_schedule(nm, real.selector(sels[(i + step) % 5]))
            m.add_schedule(nm, sels[(i + step) % 5])
        log.state(m.state())
        what = 'board with %d schedules (%d)' % (q, step)
        still(b, m, had, log, what)
        tables(b, m, [(0, 3), (1, 2), (None, None), (3, 3)], log, what)
        texts(b, m, [(0, 3), (2, 2), (1, 3)], log, what)


def run_long(k, log):
    freq, start, n, l = LONG[k % 4]
    sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not']],
                     ref=('start', 'end')[k // 4])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    N = len(m)
    pts = sorted({0, 1, N // 2, N - 2, N - 1})
    tables(b, m, [(a, z) for a in pts for z in pts] + [(None, 5), (3, None)],
           log, 'long board %d' % k)
    texts(b, m, [(a, z) for a in pts for z in pts if a <= z], log,
          'long board %d' % k, full=False)


def run_vast(k, log):
    b, m = vast.both(k, ref=('start', 'end')[k % 2])
    log.state(('vast', k))
    N = len(m)
    tables(b, m, [(None, None), (0, 3), (127, 129), (32766, 32769),
                  (40000, 40002), (65534, 65537), (N - 2, None),
                  (None, 1)], log, 'board of %d workshifts' % N)
    ivls = [x for x in vast.ivls(N) if x[0]] + [(32768, 65537)]
    default = b.default_schedule.name
    for nm in m.schedules:
        suf = '' if nm == default else ', ' + nm
        S = b.schedules[nm]
        for i in vast.edges(N):
            w = tb.Workshift(b, i, S)
            log.compare(real.obs(lambda: (repr(w),) + real.workshift_row(w)),
                        ('ok', ('Workshift(%d%s) of %s' % (
                            i, suf, ws_text(m, i)),) + real.model_row(m, i)),
                        lambda: 'workshift %d' % i)
        for lo, hi in ivls:
            v = tb.Interval(b, (lo, hi), S)
            log.compare(real.obs(lambda: (
                repr(v), real.ns(v.start_time), real.ns(v.end_time), len(v),
                v.length)), ('ok', (
                    'Interval((%d, %d)%s): %s -> %s [%d]' % (
                        lo, hi, suf, ws_text(m, lo), ws_text(m, hi),
                        hi - lo + 1), m.ws_start(lo), m.ws_end(hi),
                    hi - lo + 1, hi - lo + 1)),
                lambda: 'interval %d..%d' % (lo, hi))
        on = [i for i in range(N) if m.on(i, nm)]
        off = [i for i in range(N) if not m.on(i, nm)]
        log.compare(real.obs(lambda: (list(S.on_duty_index),
                                      list(S.off_duty_index))),
                    ('ok', (on, off)), 'schedule %s' % nm)


NAMES = {'Organizer': tb.Organizer, 'Marker': tb.Marker,
         'RememberingPattern': tb.RememberingPattern,
         'Timeboard': tb.Timeboard, 'Timestamp': pd.Timestamp}


def execute(text):
    """What the representation makes."""
    text = text.rstrip('\n').split('\n')
    names = dict(NAMES)
    exec('\n'.join(text[:-1]), names)
    return eval(text[-1], names)


def run_code(freq, start, n, l, rps, log):
    """Representations are code which makes the same; accessors return what
    was given."""
    sp = boards.spec(freq, start, n, layout=l, rps=rps)
    m, b = lay.check_board(sp, log)
    if b is None:
        return
    exp = ('ok', m)
    log.state(exp[1].state())
    rows = [real.model_row(exp[1], i) for i in range(len(exp[1]))]
    parts = real.Parts(rps)
    layout = parts.layout(l)
    b = real.build(sp, parts, layout)
    log.compare(real.obs(lambda: lay.rows_of(b)), ('ok', rows), 'rows')
    for what, f in (
            ('board', lambda: execute(repr(b))),
            ('layout', lambda: tb.Timeboard(
                freq, real.ts(sp['start']), real.ts(sp['end']),
                execute(repr(layout))))):
        log.compare(real.obs(lambda: lay.rows_of(f())), ('ok', rows),
                    lambda: 'rows of what the representation of the %s '
                    'makes: %s' % (what, repr(layout)))
    given(layout, l, parts, log)
    if isinstance(layout, tb.Organizer):
        # the same layout still makes the same board
        if not rps:
            log.compare(real.obs(lambda: lay.rows_of(real.build(
                sp, parts, layout))), ('ok', rows), 'rows of the second board')


def given(x, l, parts, log):
    if set(l) & {'pat', 'p', 's'}:
        return
    what = lambda: 'accessors of %r' % (l,)
    if 'rp' in l:
        r = parts.rps[l['rp']]
        return log.check(x is r and r.length == len(parts.labels[l['rp']]) and
                         bool(r) == (r.length > 0), what)
    if 'marks' in l:
        log.check(x.marker is None and [real.ns(t) for t in x.marks] ==
                  list(l['marks']), what)
    else:
        mk = l['marker']
        mk = {'each': mk} if isinstance(mk, str) else mk
        log.check(x.marks is None or list(x.marks) == [None], what)
        log.check(x.marker.each == mk['each'] and
                  (x.marker.at or None) == (mk.get('at') or None) and
                  callable(x.marker.how), what)
    st = l['structure']
    if isinstance(st, dict):
        return log.check(x.structure is parts.rps[st['rp']], what)
    log.check(len(x.structure) == len(st), what)
    for y, e in zip(x.structure, st):
        if set(e) & {'p', 's'}:
            log.check(y == (e['p'] if 'p' in e else e['s']), what)
        else:
            given(y, e, parts, log)
