"""C01: tiling and lookup."""
from .. import boards, cal, model, real
import timeboard as tb

ID = 'C01'
CHUNK = 10
BOUNDS = {
    'quick': 'all base units of the alphabet (36 frequency/start pairs, sums and fractions of units among them, from years to nanoseconds, 1677 to 2262), '
             '1..4 base units, all partitions into workshifts, starts and '
             'ends given at the first, a middle and the last instant of the '
             'base unit, both reference times; lookup of the first, second, '
             'middle and last instant of every base unit, of the adjacent and '
             'far instants outside, and of null points, in every form; plus '
             'longer boards of 60..1500 units, and boards of 33000..100000 '
             'units with 100..40000 workshifts looked up at both ends of every '
             'workshift',
    'thorough': 'same with 1..7 base units, and longer boards up to 9000 '
                'units',
}


def cases(tier):
    top = 4 if tier == 'quick' else 7
    for n in range(1, top + 1):
        for k, (freq, start) in enumerate(boards.FREQS + boards.EDGES):
            if tier == 'quick' and n == 4 and k % 2:
                continue
            for firsts in boards.compositions(n):
                yield {'kind': 'small', 'freq': freq, 'start': start, 'n': n,
                       'firsts': list(firsts)}
    long_ = [('D', cal.at(2016, 2, 20), 400, 7), ('H', cal.at(2017, 12, 30), 300, 5),
             ('W', cal.at(1990, 1, 1), 160, 3), ('M', cal.at(1960, 1, 1), 150, 4),
             ('A', cal.at(1900, 1, 1), 60, 3), ('8H', cal.at(2020, 2, 1), 300, 9),
             ('2D', cal.at(2003, 12, 30), 250, 4), ('D', cal.at(1999, 1, 1), 1500, 30),
             ('T', cal.at(2019, 12, 31, 20), 600, 17), ('S', cal.at(2020, 2, 28, 23, 55), 700, 60)]
    if tier != 'quick':
        long_ += [(f, s, 6 * n, g) for f, s, n, g in long_ if f not in 'AM']
    for f, s, n, g in long_:
        for ref in ('start', 'end'):
            yield {'kind': 'long', 'freq': f, 'start': s, 'n': n, 'gap': g,
                   'ref': ref}
    for k in range(len(HUGE)):
        yield {'kind': 'huge', 'k': k}


HUGE = [
    ('H', cal.at(2010, 1, 1), 24 * 1700, {'marker': 'D', 'structure': [
        {'s': 1}, {'s': 0}]}),
    ('T', cal.at(2019, 12, 1), 1440 * 69, {'marker': 'H', 'structure': [
        {'s': 1}, {'s': 0}, {'s': 2}]}),
    ('D', cal.at(1850, 1, 1), 40000, {'marker': 'A', 'structure': [
        {'s': 0}, {'s': 1}]}),
    ('D', cal.at(1850, 1, 1), 33000, {'pat': [1, 0, 2]}),
    ('H', cal.at(2016, 2, 27), 33000, {'marks': [cal.at(2016, 2, 28)],
                                       'structure': [{'s': 1}, {'s': 0}]}),
]

# what a timestamp can tell
LEAST, MOST = cal.at(1677, 9, 21, 1), cal.at(2262, 4, 11, 23)


def huge(case, log):
    freq, start, n, l = HUGE[case['k']]
    sp = boards.spec(freq, start, n, layout=l,
                     ref=('start', 'end')[case['k'] % 2])
    m = model.Board(sp)
    b = real.build(sp)
    log.state((case['k'], len(m)))
    log.samples.append({'spec': sp, 'workshifts': len(m)})
    exp = [real.model_row(m, i) for i in range(len(m))]
    rows = real.obs(lambda: real.table_rows(b.to_dataframe()))
    log.transitions += len(m)
    log.check(rows[0] == 'ok' and real.same(rows[1], exp),
              'table of %s' % b.compact_str)
    step = 1 if len(m) < 5000 else 4
    for i in range(0, len(m), step):
        for t in (m.ws_start(i), m.ws_end(i)):
            got = real.obs(lambda: real.workshift_row(
                b.get_workshift(real.ts(t))))
            log.compare(got, ('ok', exp[i]), lambda: 'workshift of %s at %s'
                        % (b.compact_str, real.ts(t)))


FORMS = ['ts', 'str', 'dt', 'np', 'obj']


def positions(b, m):
    """Position of a workshift by its start."""
    return {m.ws_start(i): i for i in range(len(m))}


def lookup(b, m, pos, t, form, log):
    exp = m.find(t)
    if form.startswith('per:') and t is not None:
        exp = m.find(cal.floor(form[4:], t))
    p = real.pt(t, form)
    for call, f in (('get_workshift', b.get_workshift), ('call', b)):
        got = real.obs(f, p)
        want = ('ok', None) if exp is not None else ('err', {model.OOB})
        log.compare(
            got, want,
            lambda: '%s(%r) on %s' % (call, p, b.compact_str),
            cmp=lambda w, _: isinstance(w, tb.Workshift) and
            real.workshift_row(w) == real.model_row(m, exp))
        if form not in ('ts', 'per:D'):
            break


def tiling(b, m, log, rows=None):
    n = len(m)
    got = real.obs(lambda: len(b()))
    log.compare(got, ('ok', n), 'number of workshifts of %s' % b.compact_str)
    log.compare(real.obs(lambda: (real.ns(b.start_time), real.ns(b.end_time))),
                ('ok', (m.start, m.end)), 'time range of %s' % b.compact_str)
    for i in range(n):
        log.compare(real.obs(lambda: real.workshift_row(tb.Workshift(b, i))),
                    ('ok', real.model_row(m, i)),
                    lambda: 'workshift %d of %s (start, end, duration, label, '
                            'reference)' % (i, b.compact_str))
    log.compare(real.obs(lambda: tb.Workshift(b, n)), ('err', {model.OOB}),
                'workshift %d of %d' % (n, n))
    # exact tiling, read off the real objects alone
    r = real.obs(real.all_rows, b)
    if r[0] == 'ok' and r[1]:
        r = r[1]
        ok = (r[0][0] == real.ns(b.start_time) and
              r[-1][1] == real.ns(b.end_time) and
              all(x[1] + 1 == y[0] for x, y in zip(r, r[1:])) and
              all(x[2] >= 1 and x[0] <= x[1] for x in r))
        log.check(ok, lambda: 'not a tiling of the range: %r' % (r,))


def run(case, log):
    if case['kind'] == 'huge':
        huge(case, log)
        return
    freq, n = case['freq'], case['n']
    s = boards.unit_starts(freq, case['start'], n)
    if case['kind'] == 'small':
        firsts = case['firsts']
        full = len(firsts) == n
        offs = [0, 1, (s[1] - s[0]) // 2, s[1] - s[0] - 1]
        ends = [s[n - 1], (s[n - 1] + s[n]) // 2, s[n] - 1]
        pairs = [(a, e) for a in offs for e in ends] if full else \
            [(0, ends[2]), (offs[3], ends[0])]
        if not full:
            lays = [{'marks': [s[i] for i in firsts[1:]],
                     'structure': [{'s': k} for k in range(len(firsts))]}]
        else:
            lays = [{'pat': [1, 0]},
                    {'marks': [], 'structure': []}]
        for k, (a, e) in enumerate(pairs):
            if s[0] + a > e:      # a reversed request within one base unit
                continue
            if cal.parse(freq)[0] > 1:
                a = min(a, s[1] - s[0] - 1)
                # a multiplied unit is counted from the base period of start
                a = a % (cal.period(cal.parse(freq)[1],
                                    s[0])[1] - s[0])
                e0 = s[n - 1] + (0 if e == ends[0] else 1)
                e = e0
            for lay in lays:
                for ref in ('start', 'end'):
                    sp = {'freq': freq, 'start': s[0] + a, 'end': e,
                          'layout': lay, 'ref': ref,
                          'form': ['ts', 'str', 'np'][k % 3]}
                    m = model.Board(sp)
                    log.state(m.state())
                    b = real.build(sp)
                    tiling(b, m, log)
                    if k not in (0, len(pairs) - 1) and lay is not lays[0]:
                        continue
                    pts = []
                    for u, v in m.units:
                        pts += [u, u + 1, (u + v) // 2, v - 1]
                    out = [t for t in (
                        m.start - 1, m.end + 1, m.start - 366 * cal.DAY,
                        m.end + 366 * cal.DAY) if LEAST <= t <= MOST]
                    pos = None
                    for t in pts + out:
                        for form in FORMS:
                            if form == 'dt' and t % 1000:
                                continue
                            if k and form != 'ts':
                                continue
                            lookup(b, m, pos, t, form, log)
                        if not k:
                            if t % cal.DAY == 0:
                                lookup(b, m, pos, t, 'date', log)
                            for pf in ('D', 'M', 'W', 'H'):
                                if cal.period(pf, t)[0] < LEAST:
                                    continue
                                lookup(b, m, pos, t, 'per:' + pf, log)
                    for form in ('nat', 'none', 'nan'):
                        lookup(b, m, pos, None, form, log)
                    # a workshift is a point in time: its reference time
                    for i in range(len(m)):
                        for f in (b.get_workshift, b):
                            log.compare(
                                real.obs(lambda: real.workshift_row(
                                    f(tb.Workshift(b, i)))),
                                ('ok', real.model_row(m, i)),
                                lambda: 'workshift %d of %s looked up by '
                                'itself' % (i, b.compact_str))
    else:
        g = case['gap']
        firsts = [0]
        i, k = 0, 0
        while True:
            i += 1 + (k * 5) % g
            k += 1
            if i >= n:
                break
            firsts.append(i)
        sp = {'freq': freq, 'start': s[0], 'end': s[n] - 1,
              'ref': case['ref'],
              'layout': {'marks': [s[i] for i in firsts],
                         'structure': [{'s': 1}, {'s': 0}, {'s': 2}]}}
        m = model.Board(sp)
        log.state(m.state())
        b = real.build(sp)
        tiling(b, m, log)
        for u, v in m.units:
            for t in (u, v - 1):
                lookup(b, m, None, t, 'ts', log)
        for t in (m.start - 1, m.end + 1):
            lookup(b, m, None, t, 'ts', log)
    log.samples.append({'spec': sp, 'workshifts': len(m)})
