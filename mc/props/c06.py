"""C06: duty and schedules."""
import itertools

from .. import boards, kinds, model, real, vast
from ..cal import at
import timeboard as tb

ID = 'C06'
CHUNK = 20
BOUNDS = {
    'quick': 'all sequences of up to 4 operations out of 9 (add/drop three '
             'names incl. the default one, two selectors each) with all '
             'duties under all schedules, held and dropped ones included, '
             'observed after every operation; every query of workshifts and '
             'intervals x attached schedule (3) x passed schedule (4) on all '
             'label words of length 1..4 over 3 labels, simple and compound '
             'workshifts, 10 selectors; all ordered pairs of labels, and of '
             'what a selector returns, of 44 kinds; boards of 70000..140000 '
             'workshifts',
    'thorough': 'same with sequences of up to 5 operations, words of length '
                '1..5 and all partitions',
}

OPS = [('add', 'a', 'eq1'), ('add', 'a', 'not'), ('add', 'b', 'gt1'),
       ('add', 'b', 'all'), ('add', 'on_duty', 'none'), ('add', 7, 'truthy'),
       ('drop', 'a'), ('drop', 'b'), ('drop', 'on_duty')]


def cases(tier):
    quick = tier == 'quick'
    for k in range(1, 5 if quick else 6):
        for pre in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
            yield {'kind': 'ops', 'pre': list(pre), 'k': k}
    for n in range(1, 5 if quick else 6):
        for w in boards.words((0, 1, 2), n):
            yield {'kind': 'query', 'labels': list(w)}
    for sel in model.SELECTORS:
        for dflt in (True, False):
            yield {'kind': 'sel', 'sel': sel, 'default': dflt}
    for i in range(kinds.N):
        yield {'kind': 'labels', 'i': i}
    for i in range(vast.N):
        yield {'kind': 'vast', 'i': i}


def observe(b, m, held, log, hist):
    """Everything the schedules tell, against the model."""
    where = lambda: 'after %r' % (hist,)
    log.compare(real.obs(lambda: sorted(b.schedules)),
                ('ok', sorted(m.schedules)),
                lambda: 'names of schedules ' + where())
    log.compare(real.obs(lambda: {k: s.name for k, s in
                                  b.schedules.items()}),
                ('ok', {k: k for k in m.schedules}),
                lambda: 'names of schedule objects ' + where())
    n = len(m)
    for name, (s, duties) in held.items():
        for how, f in (
                ('is_on_duty', lambda i: bool(
                    tb.Workshift(b, i).is_on_duty(s))),
                ('is_off_duty', lambda i: not tb.Workshift(b, i).is_off_duty(
                    s)),
                ('attached', lambda i: bool(
                    tb.Workshift(b, i, s).is_on_duty())),
                ('own', lambda i: bool(s.is_on_duty(i))),
                ('own off', lambda i: not s.is_off_duty(i))):
            log.compare(real.obs(lambda: [f(i) for i in range(n)]),
                        ('ok', duties),
                        lambda: '%s under %s %s' % (how, name, where()))
        log.compare(real.obs(lambda: (b().count('on', s), b().count('off', s),
                                      [real.ns(w.start_time) for w in
                                       b().workshifts('on', s)])),
                    ('ok', (sum(duties), n - sum(duties),
                            [m.ws_start(i) for i in range(n) if duties[i]])),
                    lambda: 'counts under %s %s' % (name, where()))
    dd = m.default_duties
    log.compare(real.obs(lambda: [bool(tb.Workshift(b, i).is_on_duty())
                                  for i in range(n)]), ('ok', dd),
                lambda: 'default duty ' + where())
    log.compare(real.obs(lambda: b().count()), ('ok', sum(dd)),
                lambda: 'default count ' + where())
    log.state((sorted(m.schedules.items()), m.labels))


def run_ops(case, log):
    sp = boards.composed('D', at(2017, 2, 27), 5, (0, 1, 3, 4), (0, 1, 2, 1))
    tails = list(itertools.product(range(len(OPS)),
                                   repeat=min(2, case['k'])))
    for tail in tails:
        seq = case['pre'] + list(tail)
        b = real.build(sp)
        m = model.Board(sp)
        m.default_duties = list(m.schedules['on_duty'])
        held = {'default': (b.default_schedule, m.default_duties)}
        hist = []
        ivl, ws = tb.Interval(b, (1, 3)), tb.Workshift(b, 1)
        for q, o in enumerate(seq):
            op = OPS[o]
            hist.append(op)
            name = str(op[1])
            if op[0] == 'add':
                exp = real.expect(lambda: m.add_schedule(name, op[2]))
                got = real.obs(lambda: b.add_schedule(op[1], real.selector(
                    op[2])))
                log.compare(got, exp, lambda: 'adding, %r' % (hist,),
                            cmp=lambda s, _: s.name == name)
                if exp[0] == 'ok' and got[0] == 'ok':
                    held['%s#%d' % (name, q)] = (got[1],
                                                 m.schedules[name])
            else:
                s = [h for k, h in held.items() if
                     (k.split('#')[0] if '#' in k else 'on_duty') == name]
                if not s:
                    continue
                if name in m.schedules:
                    m.drop_schedule(name)
                    exp = ('ok', None)
                else:
                    exp = ('err', {'KeyError'})
                log.compare(real.obs(lambda: b.drop_schedule(s[-1][0])), exp,
                            lambda: 'dropping, %r' % (hist,))
            # objects which live through all the changes
            for nm in list(m.schedules):
                s, d = b.schedules.get(nm), m.schedules[nm]
                log.compare(real.obs(lambda: (
                    ivl.count(schedule=s), ivl.count('off', s),
                    [real.ns(w.start_time) for w in
                     ivl.workshifts('on', s)],
                    bool(ws.is_on_duty(s)))),
                    ('ok', (sum(d[1:4]), 3 - sum(d[1:4]),
                            [m.ws_start(i) for i in (1, 2, 3) if d[i]], d[1])),
                    lambda: 'interval and workshift held, under %s after %r'
                            % (nm, hist))
            # earlier prefixes are observed as sequences of their own
            if q == len(seq) - 1:
                observe(b, m, held, log, hist)
    log.samples.append({'operations': [OPS[o] for o in seq]})


def sched_name(x):
    return x.schedule.name


def run_query(case, log):
    labels = case['labels']
    n = len(labels)
    variants = [tuple(range(n))]
    if n > 1:
        variants.append(tuple([0] + [i + 1 for i in range(1, n)]))
    for firsts in variants:
        units = max(firsts) + 1 + (firsts[-1] != n - 1)
        sp = boards.composed('D', at(2017, 2, 27), units, firsts, labels,
                             wt='labels' if n % 2 else 'duration',
                             more=[['A', 'eq1'], ['B', 'gt1'],
                                   ['gone', 'not']])
        b, m = real.build(sp), model.Board(sp)
        gone = b.schedules['gone']
        b.drop_schedule(gone)
        log.state(m.state())
        S = {None: None, 'A': b.schedules['A'], 'B': b.schedules['B'],
             'gone': gone}
        st = {m.ws_start(i): i for i in range(n)}
        pos = lambda w: (st[real.ns(w.start_time)], sched_name(w))
        for att in (None, 'A', 'B'):
            for arg in (None, 'A', 'B', 'gone'):
                used = arg or att or 'on_duty'
                carry = att or 'on_duty'
                kw = {} if arg is None else {'schedule': S[arg]}
                for i in range(n):
                    makers = [
                        lambda: tb.Workshift(b, i, S[att]),
                        lambda: b.get_workshift(real.ts(m.ws_start(i)), S[att]),
                        lambda: b.get_workshift(real.ts(m.ws_end(i)),
                                                schedule=S[att])]
                    w = makers[(i + (arg is None)) % 3]()
                    what = lambda q: (lambda: '%s of workshift %d of labels '
                                      '%r; attached %r, passed %r' % (
                                          q, i, labels, att, arg))
                    log.compare(real.obs(lambda: sched_name(w)),
                                ('ok', carry), what('schedule'))
                    log.compare(real.obs(lambda: (
                        bool(w.is_on_duty(**kw)), bool(w.is_off_duty(**kw)))),
                        ('ok', (m.on(i, used), not m.on(i, used))),
                        what('duty'))
                    for duty in ('on', 'off', 'any', 'same', 'alt'):
                        for back in (False, True):
                            for steps in (0, 1):
                                f = w.rollback if back else w.rollforward
                                e = real.expect(lambda: (m.roll(
                                    i, steps, duty, used, back), used))
                                log.compare(real.obs(lambda: pos(f(
                                    steps=steps, duty=duty, **kw))), e,
                                    what('roll %r' % ((back, steps, duty),)))
                        if duty in ('on', 'off', 'any'):
                            log.compare(
                                real.obs(lambda: w.worktime(duty=duty, **kw)),
                                real.expect(lambda: m.ws_worktime(
                                    i, duty, used)), what('worktime ' + duty))
                    if arg is None:
                        for k in (-1, 0, 1):
                            log.compare(
                                real.obs(lambda: pos(w + k)),
                                real.expect(lambda: (m.roll(
                                    i, k, 'on', carry), carry)),
                                what('+ %d' % k))
                            log.compare(
                                real.obs(lambda: pos(w - k)),
                                real.expect(lambda: (m.roll(
                                    i, k, 'on', carry, True), carry)),
                                what('- %d' % k))
                for lo in range(n):
                    for hi in range(lo, n):
                        query_ivl(b, m, S, lo, hi, att, used, carry, kw, log,
                                  labels, pos)


def query_ivl(b, m, S, lo, hi, att, used, carry, kw, log, labels, pos):
    n = len(m)
    mk = [lambda: tb.Interval(b, (lo, hi), S[att]),
          lambda: b.get_interval((real.ts(m.ws_start(lo)),
                                  real.ts(m.ws_end(hi))), schedule=S[att]),
          lambda: b.get_interval(real.ts(m.ws_end(lo)), length=hi - lo + 1,
                                 schedule=S[att]),
          lambda: b((real.ts(m.ws_start(lo)), real.ts(m.ws_end(hi))),
                    schedule=S[att])]
    v = mk[(lo + hi + len(kw)) % 4]()
    what = lambda q: (lambda: '%s of interval %d..%d of labels %r; attached '
                      '%r, used %r' % (q, lo, hi, labels, att, used))
    log.compare(real.obs(lambda: sched_name(v)), ('ok', carry),
                what('schedule'))
    for duty in ('on', 'off', 'any'):
        mem = m.members(lo, hi, duty, used)
        log.compare(real.obs(lambda: v.count(duty=duty, **kw)),
                    ('ok', len(mem)), what('count ' + duty))
        log.compare(real.obs(lambda: [pos(w) for w in
                                      v.workshifts(duty=duty, **kw)]),
                    ('ok', [(i, used) for i in mem]),
                    what('workshifts ' + duty))
        for q in ('first', 'last'):
            e = ('ok', (mem[0 if q == 'first' else -1], used)) if mem else \
                ('err', {model.OOB})
            log.compare(real.obs(lambda: pos(getattr(v, q)(duty=duty, **kw))),
                        e, what(q + ' ' + duty))
        log.compare(real.obs(lambda: pos(v.nth(0, duty=duty, **kw))),
                    ('ok', (mem[0], used)) if mem else ('err', {model.OOB}),
                    what('nth(0) ' + duty))
        log.compare(real.obs(lambda: v.total_duration(duty=duty, **kw)),
                    ('ok', m.duration(lo, hi, duty, used)),
                    what('duration ' + duty))
        log.compare(real.obs(lambda: v.worktime(duty=duty, **kw)),
                    real.expect(lambda: m.worktime(lo, hi, duty, used)),
                    what('worktime ' + duty))
        if (lo, hi) in ((0, n - 1), (0, 0), (n - 1, n - 1)):
            log.compare(real.obs(lambda: v.count_periods('D', duty=duty,
                                                         **kw)),
                        real.expect(lambda: m.count_periods(
                            lo, hi, 'D', duty, used)),
                        what('days ' + duty))
            log.compare(real.obs(lambda: v.what_portion_of(b(), duty=duty,
                                                           **kw)),
                        ('ok', m.portion((lo, hi), (0, n - 1), duty, used)),
                        what('portion ' + duty))
    if not kw:
        log.compare(real.obs(lambda: [pos(w) for w in v]),
                    ('ok', [(i, carry) for i in range(lo, hi + 1)]),
                    what('iteration'))
    # overlap carries this interval's or the given schedule, never other's
    other = tb.Interval(b, (0, n - 1), S['B'])
    log.compare(real.obs(lambda: sched_name(v.overlap(other, **kw))),
                ('ok', used), what('schedule of overlap'))
    log.compare(real.obs(lambda: v.overlap(other, **kw).count()),
                ('ok', len(m.members(lo, hi, 'on', used))),
                what('count of overlap'))
    if not kw:
        log.compare(real.obs(lambda: sched_name(v * other)), ('ok', carry),
                    what('schedule of product'))
        log.compare(real.obs(lambda: v / other),
                    ('ok', m.portion((lo, hi), (0, n - 1), 'on', carry)),
                    what('quotient'))
    # void overlaps carry it, too
    if hi < n - 1:
        other = tb.Interval(b, (hi + 1, n - 1), S['B'])
        log.compare(real.obs(lambda: sched_name(v.overlap(other, **kw))),
                    ('ok', used), what('schedule of void overlap'))


def run_sel(case, log):
    sel = case['sel']
    words = [(0, 1, 2, 3), (1,), (0,), ('A', 'B', '', 'A'), (2.5, 1, -1, 0),
             (None, 1, None, 0), (True, False, 1)]
    for w in words:
        try:
            [real.selector(sel)(x) for x in w]
        except TypeError:
            continue
        for firsts in (tuple(range(len(w))),
                       tuple([0] + [i + 2 for i in range(1, len(w))])):
            sp = boards.composed('D', at(2017, 2, 27), firsts[-1] + 2, firsts,
                                 w)
            if case['default']:
                sp.update(sel=sel, name='mine')
            else:
                sp.update(more=[['mine', sel]])
            b, m = real.build(sp), model.Board(sp)
            m.default_duties = list(m.schedules[m.name])
            held = {k: (b.schedules[k], m.schedules[k]) for k in m.schedules}
            observe(b, m, held, log, ['selector ' + sel, w])
            log.compare(real.obs(lambda: b.default_schedule.name),
                        ('ok', 'mine' if case['default'] else 'on_duty'),
                        'name of the default schedule')
            df = real.obs(b.to_dataframe)
            for k in m.schedules:
                log.compare(real.obs(lambda: [bool(x) for x in df[1][k]]),
                            ('ok', m.schedules[k]), 'column %s' % k)


def run_labels(case, log):
    kinds.explore(case['i'], kinds.layouts, [kinds.duties], log)
    kinds.explore(case['i'], kinds.selected, [kinds.selections], log)


def run_vast(case, log):
    b, m = vast.both(case['i'])
    log.state(('vast', case['i']))
    n = len(m)
    S = dict(b.schedules)
    for nm, d in m.schedules.items():
        s = S[nm]
        what = lambda q: (lambda: '%s under %s of board of %d workshifts' % (
            q, nm, n))
        log.compare(real.obs(lambda: [int(b().count(x, s)) for x in
                                      ('on', 'off', 'any')]),
                    ('ok', [sum(d), n - sum(d), n]), what('counts'))
        log.compare(real.obs(lambda: [bool(x) for x in
                                      b.to_dataframe()[nm].values]),
                    ('ok', d), what('column'))
        log.compare(real.obs(lambda: [bool(s.is_on_duty(i)) for i in
                                      range(0, n, 7)]),
                    ('ok', d[::7]), what('duty'))
        for i in vast.edges(n, 9):
            w, a = tb.Workshift(b, i), tb.Workshift(b, i, s)
            log.compare(real.obs(lambda: (
                bool(w.is_on_duty(s)), bool(w.is_off_duty(s)),
                bool(a.is_on_duty()), bool(a.is_off_duty()))),
                ('ok', (d[i], not d[i]) * 2), what('duty of %d' % i))


def run(case, log):
    {'ops': run_ops, 'query': run_query, 'sel': run_sel,
     'labels': run_labels,
     'vast': run_vast}[case['kind']](case, log)
