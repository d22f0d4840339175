"""C07: rollforward and rollback."""
from .. import boards, model, real, vast
from ..cal import at
import timeboard as tb

ID = 'C07'
CHUNK = 4
BOUNDS = {
    'quick': 'all duty words of 1..7 workshifts x every workshift x steps '
             '-n-1..n+1 x 5 duties x both directions x default, attached and '
             'passed schedules, simple and compound workshifts; all words of '
             '1..4 over 3 labels under 2 schedules; again under schedules '
             'replaced by others of the same name, also '
             'of workshifts taken before; + and - of integers; '
             'boards of 120..700 and of 70000..140000 workshifts',
    'thorough': 'same with words of up to 11 workshifts',
}
DUTIES = ('on', 'off', 'any', 'same', 'alt')


def cases(tier):
    for n in range(1, 8 if tier == 'quick' else 12):
        for w in boards.words((1, 0), n):
            yield {'labels': list(w)}
    for n in range(1, 5):
        for w in boards.words((0, 1, 2), n):
            if 2 in w:
                yield {'labels': list(w), 'three': True}
    for i in range(12):
        yield {'long': i}
    for i in range(3 * vast.N):
        yield {'vast': i}


def ops(w, i, m, b, S, steps, sched, log, st, labels):
    """sched: (passed name or None, name used)"""
    arg, used = sched
    kw = {} if arg is None else {'schedule': S[arg]}
    for back in (False, True):
        f = w.rollback if back else w.rollforward
        for duty in DUTIES:
            for k in steps:
                exp = real.expect(lambda: m.roll(i, k, duty, used, back))
                args = () if k == 0 and duty == 'on' else \
                    (k,) if duty == 'on' else (k, duty)
                got = real.obs(lambda: f(*args, **kw))
                log.compare(got, exp, lambda: (
                    '%s(steps=%d, duty=%r, schedule=%r) of workshift %d of %r'
                    % ('rollback' if back else 'rollforward', k, duty, arg, i,
                       labels)),
                    cmp=lambda r, e: isinstance(r, tb.Workshift) and
                    st.get(real.ns(r.start_time)) == e and
                    r.schedule.name == used and
                    real.same(r.label, m.labels[e]))


def arith(w, i, m, carry, steps, log, st, labels):
    for k in steps:
        for sign in (1, -1):
            exp = real.expect(lambda: m.roll(i, k, 'on', carry, sign < 0))
            got = real.obs(lambda: w + k if sign > 0 else w - k)
            log.compare(got, exp, lambda: 'workshift %d %s %d of %r' % (
                i, '+' if sign > 0 else '-', k, labels),
                cmp=lambda r, e: st.get(real.ns(r.start_time)) == e and
                r.schedule.name == carry)


def run(case, log):
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    labels = case['labels']
    n = len(labels)
    variants = [(tuple(range(n)), n)]
    if n > 1:
        variants.append((tuple([0] + [i + 1 for i in range(1, n)]), n + 3))
    for v, (firsts, units) in enumerate(variants):
        sp = boards.composed('D', at(2017, 2, 27), units, firsts, labels,
                             more=[['inv', 'not'], ['gt1', 'gt1'],
                                   ['none', 'none']])
        b, m = real.build(sp), model.Board(sp)
        log.state(m.state())
        S = dict(b.schedules)
        st = {m.ws_start(i): i for i in range(n)}
        full = range(-n - 1, n + 2)
        short = sorted({-n, -1, 0, 1, 2})
        for i in range(n):
            w = tb.Workshift(b, i)
            if v == 0:
                ops(w, i, m, b, S, full, (None, 'on_duty'), log, st, labels)
                arith(w, i, m, 'on_duty', full, log, st, labels)
            else:
                ops(w, i, m, b, S, short, (None, 'on_duty'), log, st, labels)
            if n <= 6 or v == 0:
                ops(w, i, m, b, S, short, ('inv', 'inv'), log, st, labels)
            w = tb.Workshift(b, i, S['inv'])
            if n <= 6:
                ops(w, i, m, b, S, short, (None, 'inv'), log, st, labels)
                ops(w, i, m, b, S, (0, 1), ('none', 'none'), log, st, labels)
                ops(w, i, m, b, S, (0, -1), ('on_duty', 'on_duty'), log, st,
                    labels)
                arith(w, i, m, 'inv', short, log, st, labels)
            if case.get('three'):
                for att in ('gt1', 'inv', None):
                    w = tb.Workshift(b, i, S[att] if att else None)
                    for arg in (None, 'gt1', 'inv', 'on_duty'):
                        ops(w, i, m, b, S, full,
                            (arg, arg or att or 'on_duty'), log, st, labels)
        if n <= 5:
            # the same questions once the schedule has been replaced, also of
            # workshifts taken before
            held = [tb.Workshift(b, i) for i in range(n)]
            for sel in (None, 'eq1', 'none'):
                s = real.replace(b, m, 'inv', sel) if sel else S['inv']
                for i in range(n):
                    ops(held[i], i, m, b, {'inv': s}, short, ('inv', 'inv'),
                        log, st, labels)
                    if not sel:
                        ops(held[i], i, m, b, S, short, (None, 'on_duty'),
                            log, st, labels)
                        continue
                    ops(tb.Workshift(b, i), i, m, b, {'inv': s}, short,
                        ('inv', 'inv'), log, st, labels)
                    w = tb.Workshift(b, i, s)
                    ops(w, i, m, b, S, short, (None, 'inv'), log, st, labels)
                    arith(w, i, m, 'inv', short, log, st, labels)
        w = tb.Workshift(b, 0)
        for bad in ('ON', '', None, 'both', 1):
            for f in (w.rollforward, w.rollback):
                log.compare(real.obs(lambda: f(duty=bad)),
                            ('err', {'ValueError'}), 'duty %r' % (bad,))
        for x in (1.5, '1', None, w):
            log.compare(real.obs(lambda: w + x), ('err', {'TypeError'}),
                        'adding %r' % (x,))
            log.compare(real.obs(lambda: w - x), ('err', {'TypeError'}),
                        'subtracting %r' % (x,))
    log.samples.append({'labels': labels})


LONG = [
    ('D', at(2016, 1, 1), 366, {'marker': 'W', 'structure': [
        {'p': [1, 1, 1, 1, 1, 0, 0]}]}),
    ('H', at(2016, 12, 25), 700, {'marker': {'each': 'D', 'at': [
        {'hours': 2}, {'hours': 8}, {'hours': 18}]},
        'structure': [{'s': 1}, {'s': 0}, {'s': 0}, {'s': 2}]}),
    ('D', at(2016, 1, 1), 120, {'marks': [], 'structure': [{'p': [
        1] + [0] * 99}]}),
    ('M', at(1950, 1, 1), 700, {'marker': 'A', 'structure': [
        {'p': [0, 0, 1]}, {'s': 1}, {'p': [2]}]}),
]


def run_long(k, log):
    freq, start, n, l = LONG[k % 4]
    sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not'],
                                                     ['gt1', 'gt1']])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    S = dict(b.schedules)
    st = {m.ws_start(i): i for i in range(len(m))}
    used = [None, 'inv', 'gt1'][k // 4]
    steps = (-130, -7, -1, 0, 1, 2, 65)
    for i in range(0, len(m), 1 if len(m) < 150 else 3):
        ops(tb.Workshift(b, i), i, m, b, S, steps,
            (used, used or 'on_duty'), log, st, 'long board %d' % k)


def run_vast(k, log):
    b, m = vast.both(k // 3)
    log.state(('vast', k // 3))
    n = len(m)
    S = dict(b.schedules)
    st = {m.ws_start(i): i for i in range(n)}
    for used in [(None, 'inv', 'gt1')[k % 3]]:
        for i in vast.edges(n):
            steps = sorted({0, 1, -1, 300, -300, 33000 - i, 66000 - i,
                            40000, -40000, 65537, -65537})
            ops(tb.Workshift(b, i), i, m, b, S, steps,
                (used, used or 'on_duty'), log, st, 'board of %d' % n)
            arith(tb.Workshift(b, i), i, m, 'on_duty', steps, log, st,
                  'board of %d' % n)
