"""C11: duration and work time."""
from .. import boards, model, real, vast
from ..cal import at
from .c07 import LONG
import timeboard as tb

ID = 'C11'
CHUNK = 2
BOUNDS = {
    'quick': 'all partitions of 1..4 days (and 1..3 units of H, M, 2D, W) x all '
             'label words over 0,1,3 (words with text, fractions and negative '
             'numbers, nulls up to 3 workshifts) x both work time sources x all '
             'intervals x 3 duties x default, attached and passed schedule, '
             'also of schedules replaced by others of the same name and of intervals taken before: '
             'duration, work time, sum over workshifts, on+off split; long '
             'boards; workshifts of up to 86400 base units; boards of '
             '70000..140000 workshifts',
    'thorough': 'same with 1..6 days and 1..4 other units',
}
BASES = [('D', at(2017, 2, 26)), ('H', at(2016, 12, 31, 22)),
         ('M', at(2015, 12, 1)), ('2D', at(2016, 2, 27)),
         ('W', at(2016, 12, 20))]


# workshifts of 128, 256, 32768, 65536 and more base units
VAST = [('D', at(2017, 1, 1), 1100, 'A'), ('D', at(2016, 1, 1), 300, 'Q'),
        ('H', at(2015, 12, 31), 9000, 'A'), ('H', at(2016, 1, 31), 1600, 'M'),
        ('T', at(2016, 1, 30), 90000, 'M'), ('S', at(2016, 1, 30), 180000, 'D'),
        ('M', at(1890, 1, 1), 300, None)]


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 5 if quick else 7):
        for k in range(len(BASES)):
            if k and n > (3 if quick else 4):
                continue
            for firsts in boards.compositions(n):
                ws = list(boards.words((0, 1, 3), len(firsts)))
                for part in range(0, len(ws), 9):
                    yield {'b': k, 'n': n, 'firsts': list(firsts),
                           'words': [list(w) for w in ws[part:part + 9]]}
    for n in range(1, 4):
        for w in boards.words((0, 'A', 2.5, -1, '', True), n):
            for firsts in (tuple(range(n)),
                           tuple([0] + [i + 1 for i in range(1, n)])):
                yield {'b': 0, 'n': n + 1, 'firsts': list(firsts),
                       'words': [list(w)]}
    for n in range(1, 4):
        for w in boards.words((None, 2, float('nan')), n):
            for firsts in (tuple(range(n)),
                           tuple([0] + [i + 1 for i in range(1, n)])):
                yield {'b': 0, 'n': n + 1, 'firsts': list(firsts),
                       'words': [list(w)]}
    for i in range(8):
        yield {'long': i}
    for i in range(len(VAST)):
        yield {'vast': i}
    for i in range(2 * vast.N):
        yield {'huge': i}


def explore(b, m, ivls, log, what, schedules, held=None):
    n = len(m)
    S = b.schedules
    for i in range(n):
        if held is not None:
            break
        for att, arg in schedules:
            used = arg or att or 'on_duty'
            kw = {'schedule': S[arg]} if arg else {}
            w = tb.Workshift(b, i, S[att] if att else None)
            for duty in ('on', 'off', 'any'):
                log.compare(real.obs(lambda: w.worktime(duty=duty, **kw)),
                            real.expect(lambda: m.ws_worktime(i, duty, used)),
                            lambda: 'work time (%s, %s) of workshift %d of %s'
                            % (duty, used, i, what))
        log.compare(real.obs(lambda: tb.Workshift(b, i).worktime()),
                    real.expect(lambda: m.ws_worktime(i, 'on', 'on_duty')),
                    lambda: 'work time of workshift %d of %s' % (i, what))
        for bad in ('ON', 'same', None):
            log.compare(real.obs(lambda: tb.Workshift(b, i).worktime(bad)),
                        ('err', {'ValueError'}), 'duty %r' % (bad,))
    for lo, hi in ivls:
        for att, arg in schedules:
            used = arg or att or 'on_duty'
            kw = {'schedule': S[arg]} if arg else {}
            v = held[lo, hi] if held else tb.Interval(
                b, (lo, hi), S[att] if att else None)
            w_ = lambda q: (lambda: '%s of interval %d..%d (attached %r, '
                            'passed %r) of %s' % (q, lo, hi, att, arg, what))
            tot = {}
            for duty in ('on', 'off', 'any'):
                d = real.obs(lambda: v.total_duration(duty=duty, **kw))
                log.compare(d, ('ok', m.duration(lo, hi, duty, used)),
                            w_('duration ' + duty))
                t = real.obs(lambda: v.worktime(duty=duty, **kw))
                log.compare(t, real.expect(lambda: m.worktime(
                    lo, hi, duty, used)), w_('work time ' + duty))
                tot[duty] = d, t
                # sum over the real workshifts
                s = real.obs(lambda: sum(x.worktime(duty=duty, **kw)
                                         for x in v))
                if s[0] == 'ok' and t[0] == 'ok':
                    log.check(real.same(s[1], t[1]), w_(
                        'sum of work times of workshifts (%r) against work '
                        'time (%r) %s' % (s[1], t[1], duty)))
            for q, name in ((0, 'duration'), (1, 'work time')):
                x = [tot[d][q] for d in ('on', 'off', 'any')]
                if all(y[0] == 'ok' for y in x):
                    log.check(real.same(x[0][1] + x[1][1], x[2][1]),
                              w_('on + off = any of ' + name))
            if not kw:
                log.compare(real.obs(lambda: (v.total_duration(),
                                              v.worktime())),
                            real.expect(lambda: (
                                m.duration(lo, hi, 'on', used),
                                m.worktime(lo, hi, 'on', used))),
                            w_('duration and work time by default'))


def run(case, log):
    if 'long' in case:
        k = case['long']
        freq, start, n, l = LONG[k % 4]
        sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not']],
                         wt=('duration', 'labels')[k // 4])
        b, m = real.build(sp), model.Board(sp)
        log.state(m.state())
        N = len(m)
        ivls = [(0, N - 1), (1, N - 2), (N // 3, 2 * N // 3), (5, 5),
                (N - 1, N - 1), (N // 2, N - 1)]
        return explore(b, m, ivls, log, 'long board %d' % k,
                       [(None, None), ('inv', None)])
    if 'vast' in case:
        freq, start, n, each = VAST[case['vast']]
        u = boards.unit_starts(freq, start, n)
        for wt in ('duration', 'labels'):
            l = {'marker': each, 'structure': [{'s': 1}, {'s': 0}, {'s': 400}]
                 } if each else {'marks': [u[5], u[5 + 127], u[133 + 127]],
                                 'structure': [{'s': 1}, {'s': 2}]}
            sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not']],
                             wt=wt)
            b, m = real.build(sp), model.Board(sp)
            log.state(m.state())
            N = len(m)
            explore(b, m, [(lo, hi) for lo in range(N) for hi in
                           range(lo, N)][:40], log, 'board %r' % (case,),
                    [(None, None), ('inv', None)])
        return
    if 'huge' in case:
        return run_huge(case['huge'], log)
    freq, start = BASES[case['b']]
    for labels in case['words']:
        nums = all(isinstance(x, (int, float)) for x in labels)
        for wt in ('duration', 'labels'):
            sp = boards.composed(
                freq, start, case['n'], case['firsts'], labels, wt=wt,
                more=[['inv', 'not']] + ([['gt1', 'gt1']] if nums else []))
            b, m = real.build(sp), model.Board(sp)
            log.state(m.state())
            log.compare(real.obs(lambda: b.worktime_source), ('ok', wt),
                        'source of work time')
            n = len(m)
            ivls = [(lo, hi) for lo in range(n) for hi in range(lo, n)]
            explore(b, m, ivls, log, 'labels %r, workshifts at %r, %s' % (
                labels, case['firsts'], wt),
                [(None, None), ('inv', None)] + (
                    [('inv', 'gt1'), (None, 'gt1')] if nums else
                    [(None, 'inv')]))
            held = {x: tb.Interval(b, x) for x in ivls}
            for sel in (None, 'eq1', 'all'):
                if sel:
                    real.replace(b, m, 'inv', sel)
                explore(b, m, ivls, log, 'labels %r, workshifts at %r, %s, '
                        'schedule replaced, intervals taken before' % (
                            labels, case['firsts'], wt), [(None, 'inv')],
                        held)
                if not sel:
                    continue
                explore(b, m, ivls, log, 'labels %r, workshifts at %r, %s, '
                        'schedule replaced' % (labels, case['firsts'], wt),
                        [('inv', None)])
    log.samples.append({'spec': sp})


def run_huge(k, log):
    wt = ('duration', 'labels')[k % 2]
    b, m = vast.both(k // 2, wt=wt)
    log.state(('huge', k))
    S = b.schedules
    for lo, hi in vast.ivls(len(m)):
        for att, arg in ((None, None), ('inv', None), (None, 'gt1')):
            used = arg or att or 'on_duty'
            kw = {'schedule': S[arg]} if arg else {}
            v = tb.Interval(b, (lo, hi), S[att] if att else None)
            for duty in ('on', 'off', 'any'):
                log.compare(
                    real.obs(lambda: (v.total_duration(duty=duty, **kw),
                                      v.worktime(duty=duty, **kw))),
                    ('ok', (m.duration(lo, hi, duty, used),
                            m.worktime(lo, hi, duty, used))),
                    lambda: 'duration and work time (%s) %s of interval '
                    '%d..%d under %s' % (wt, duty, lo, hi, used))
    for i in vast.edges(len(m)):
        log.compare(real.obs(lambda: [tb.Workshift(b, i).worktime(duty=d)
                                      for d in ('on', 'off', 'any')]),
                    ('ok', [m.ws_worktime(i, d, 'on_duty') for d in
                            ('on', 'off', 'any')]),
                    lambda: 'work time of workshift %d' % i)
