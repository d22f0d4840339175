"""C10: counting, indexing and iterating."""
import itertools

from .. import boards, model, real, vast
from ..cal import at
from .c07 import LONG
import timeboard as tb

ID = 'C10'
CHUNK = 4
BOUNDS = {
    'quick': 'all duty words of 1..6 workshifts x all intervals x 3 duties x '
             '3 ways to choose the schedule: count, nth from -k-2 to k+2, '
             'first, last, sequence; words over 3 labels of length 1..3 with '
             '3 schedules; on each of these boards schedules (the default one '
             'included) dropped and replaced by others of the same names, also asked '
             'of intervals taken before; all '
             'interleavings of 2 iterators over up to 4 '
             'workshifts (iterator kinds: interval, workshifts of each duty, '
             'next() of the interval itself) '
             'and of 3 iterators over 2 workshifts; boards of 120..700 '
             'and of 70000..140000 workshifts',
    'thorough': 'same with words of 1..9 workshifts, interleavings over up to '
                '6 workshifts',
}


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 7 if quick else 10):
        for w in boards.words((1, 0), n):
            yield {'labels': list(w)}
    for n in range(1, 4 if quick else 5):
        for w in boards.words((0, 1, 2), n):
            yield {'labels': list(w), 'three': True}
    for n in range(1, 5 if quick else 7):
        for w in boards.words((1, 0), n):
            yield {'inter': list(w), 'k': 2}
    for w in boards.words((1, 0), 2 if quick else 3):
        yield {'inter': list(w), 'k': 3}
    for i in range(8):
        yield {'long': i}
    for i in range(3 * vast.N):
        yield {'vast': i}


def check_ivl(v, lo, hi, m, st, kw, used, log, what, ns=None, name=None):
    name = name or used
    w_ = lambda q: (lambda: '%s of interval %d..%d under %s (%s)' % (
        q, lo, hi, used, what))
    counts = {}
    for duty in ('on', 'off', 'any'):
        mem = m.members(lo, hi, duty, used)
        c = len(mem)
        got = real.obs(lambda: v.count(duty=duty, **kw))
        log.compare(got, ('ok', c), w_('count %s' % duty))
        counts[duty] = got[1]
        pos = lambda x: (st.get(real.ns(x.start_time)), x.schedule.name,
                         real.plain(x.label))
        exp = [(i, name, m.labels[i]) for i in mem]
        log.compare(real.obs(lambda: [pos(x) for x in
                                      v.workshifts(duty=duty, **kw)]),
                    ('ok', exp), w_('workshifts %s' % duty))
        rng = range(-c - 2, c + 3) if ns is None else ns
        for k in rng:
            e = ('ok', exp[k]) if -c <= k < c else ('err', {model.OOB})
            log.compare(real.obs(lambda: pos(v.nth(k, duty=duty, **kw))), e,
                        w_('nth(%d) %s' % (k, duty)))
        for q, k in (('first', 0), ('last', -1)):
            e = ('ok', exp[k]) if c else ('err', {model.OOB})
            log.compare(real.obs(lambda: pos(getattr(v, q)(
                duty=duty, **kw))), e, w_('%s %s' % (q, duty)))
    log.check(not isinstance(counts['on'], Exception) and
              counts['on'] + counts['off'] == counts['any'] == len(v) ==
              v.length == hi - lo + 1, w_('on + off = any = length: %r'
                                          % (counts,)))
    # positional arguments
    if kw:
        s = kw['schedule']
        log.compare(real.obs(lambda: (v.count('off', s), v.count('any', s))),
                    ('ok', (len(m.members(lo, hi, 'off', used)),
                            hi - lo + 1)), w_('positional count'))
    else:
        mem = m.members(lo, hi, 'on', used)
        log.compare(real.obs(lambda: (v.count(), [st.get(real.ns(x.start_time))
                                                  for x in v.workshifts()])),
                    ('ok', (len(mem), mem)), w_('default duty'))
        log.compare(real.obs(lambda: [(st.get(real.ns(x.start_time)),
                                       x.schedule.name) for x in v]),
                    ('ok', [(i, name) for i in range(lo, hi + 1)]),
                    w_('iteration'))


def run(case, log):
    if 'inter' in case:
        return interleave(case, log)
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    labels = case['labels']
    n = len(labels)
    firsts = tuple(range(n))
    if n > 1 and labels[0]:
        firsts = tuple([0] + [i + 1 for i in range(1, n)])
    sp = boards.composed('D', at(2017, 2, 27), n + 2, firsts, labels,
                         more=[['inv', 'not'], ['gt1', 'gt1']])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    st = {m.ws_start(i): i for i in range(n)}
    S = dict(b.schedules)
    for lo in range(n):
        for hi in range(lo, n):
            mk = [lambda a: tb.Interval(b, (lo, hi), a),
                  lambda a: b.get_interval(
                      (real.ts(m.ws_start(lo)), real.ts(m.ws_end(hi))),
                      schedule=a),
                  lambda a: tb.Interval(b, (tb.Workshift(b, lo),
                                            tb.Workshift(b, hi)), a)]
            combos = [(None, None), ('inv', None), (None, 'inv'),
                      ('inv', 'on_duty')]
            if case.get('three'):
                combos += [('gt1', None), ('gt1', 'inv'), ('inv', 'gt1')]
            for att, arg in combos:
                v = mk[(lo + hi) % 3](S[att] if att else None)
                check_ivl(v, lo, hi, m, st,
                          {'schedule': S[arg]} if arg else {},
                          arg or att or 'on_duty', log, labels)
            v = mk[(lo + hi) % 3](None)
            for bad in ('ON', None, 'same', 0):
                for f in (lambda: v.count(duty=bad), lambda: v.nth(
                        0, duty=bad), lambda: v.first(duty=bad),
                        lambda: v.last(bad),
                        lambda: list(v.workshifts(duty=bad)),
                        lambda: v.total_duration(duty=bad),
                        lambda: v.worktime(duty=bad)):
                    log.compare(real.obs(f), ('err', {'ValueError'}),
                                'duty %r' % (bad,))
    dropped(sp, labels, log)
    log.samples.append({'labels': labels})


def dropped(sp, labels, log):
    """Schedules dropped, or dropped and replaced by others of their names,
    stay usable by those who hold them."""
    n = len(labels)
    b, m = real.build(sp), model.Board(sp)
    st = {m.ws_start(i): i for i in range(n)}
    inv, dflt = b.schedules['inv'], b.default_schedule
    held = [(b(), 0, n - 1, 'on_duty'),
            (tb.Interval(b, (0, n - 1), inv), 0, n - 1, 'inv')]
    if n > 1:
        held += [(tb.Interval(b, (1, n - 1)), 1, n - 1, 'on_duty'),
                 (tb.Interval(b, (0, n - 2), inv), 0, n - 2, 'inv')]
    for v, lo, hi, own in held:
        for kw, nm in (({'schedule': inv}, 'inv'), ({}, own)):
            check_ivl(v, lo, hi, m, st, kw, nm, log,
                      'labels %r, before schedules are dropped' % (labels,),
                      ns=(0, -1))
    b.drop_schedule(inv)
    b.drop_schedule(dflt)
    for kw, nm in (({'schedule': inv}, 'inv'), ({'schedule': dflt},
                                                'on_duty'), ({}, None)):
        for v, lo, hi, own in held:
            check_ivl(v, lo, hi, m, st, kw, nm or own, log,
                      'labels %r, schedules dropped' % (labels,))
    new = {'inv': b.add_schedule('inv', real.selector('eq1')),
           'on_duty': b.add_schedule('on_duty', real.selector('gt1'))}
    m._add('new inv', 'eq1')
    m._add('new on_duty', 'gt1')
    log.state(m.state())
    combos = [({'schedule': new[k]}, 'new ' + k, k) for k in new]
    combos += [({'schedule': inv}, 'inv', 'inv'),
               ({'schedule': dflt}, 'on_duty', 'on_duty'),
               ({}, None, None)]
    for kw, used, name in combos:
        for v, lo, hi, own in held:
            check_ivl(v, lo, hi, m, st, kw, used or own, log,
                      'labels %r, schedules dropped and replaced' % (labels,),
                      name=name or own)
        if n > 1:
            att = kw.get('schedule')
            check_ivl(tb.Interval(b, (1, n - 1), att), 1, n - 1, m, st, {},
                      used or 'on_duty', log,
                      'labels %r, schedules dropped and replaced' % (labels,),
                      name=name or 'on_duty')


def merges(lens):
    """All interleavings of sequences of the given lengths."""
    if not any(lens):
        yield ()
        return
    for k in range(len(lens)):
        if lens[k]:
            rest = list(lens)
            rest[k] -= 1
            for m_ in merges(rest):
                yield (k,) + m_


def begin(v, kind):
    return iter(v) if kind == 'iter' else iter(v.workshifts(duty=kind))


def interleave(case, log):
    labels = case['inter']
    n = len(labels)
    sp = boards.composed('D', at(2017, 2, 27), n + 2, (0,) + tuple(
        range(2, n + 2)), [1] + labels)
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    st = {m.ws_start(i): i for i in range(n + 1)}
    kinds = ['iter', 'on', 'off', 'any', 'next']
    v = tb.Interval(b, (1, n))
    for combo in itertools.combinations_with_replacement(kinds, case['k']):
        if combo.count('next') > 1:
            continue
        seqs = [m.members(1, n, 'any' if k in ('iter', 'next') else k,
                          'on_duty') for k in combo]
        # one draw more than there are workshifts: the iterator is exhausted
        for order in merges([len(s) + 1 for s in seqs]):
            its, out = {}, [[] for _ in seqs]
            if 'next' in combo:
                # next() of the interval starts over with every iteration
                # begun: begin them all beforehand
                if 'iter' not in combo:
                    iter(v)
                its = {k: v if kind == 'next' else begin(v, kind)
                       for k, kind in enumerate(combo)}
            for k in order:
                if k not in its:
                    its[k] = begin(v, combo[k])
                x = real.obs(next, its[k])
                out[k].append(st.get(real.ns(x[1].start_time))
                              if x[0] == 'ok' else type(x[1]).__name__)
            log.step('interleaving')
            exp = [s + ['StopIteration'] for s in seqs]
            if out != exp:
                log.fail('iterators %r over labels %r drawn in order %r gave '
                         '%r, expected %r' % (combo, labels, order, out, exp))
    # nested loops
    got = real.obs(lambda: [(st[real.ns(x.start_time)],
                             st[real.ns(y.start_time)]) for x in v
                            for y in v])
    log.compare(got, ('ok', [(x, y) for x in range(1, n + 1)
                             for y in range(1, n + 1)]), 'nested loops')
    log.samples.append({'labels': labels, 'iterators': case['k']})


def run_long(k, log):
    freq, start, n, l = LONG[k % 4]
    sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not'],
                                                     ['gt1', 'gt1']])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    st = {m.ws_start(i): i for i in range(len(m))}
    N = len(m)
    S = b.schedules
    pts = sorted({0, 1, 2, N // 3, N // 2, N - 3, N - 2, N - 1})
    for lo in pts:
        for hi in pts:
            if lo <= hi:
                for att in (None, ['inv', 'gt1'][k // 4]):
                    v = tb.Interval(b, (lo, hi), S[att] if att else None)
                    check_ivl(v, lo, hi, m, st, {}, att or 'on_duty', log,
                              'long board %d' % k,
                              (0, 1, -1, 7, -7, 80, -80, 400, 10000))


def run_vast(k, log):
    b, m = vast.both(k // 3)
    log.state(('vast', k // 3))
    st = {m.ws_start(i): i for i in range(len(m))}
    N = len(m)
    S = b.schedules
    for lo, hi in vast.ivls(N):
        for att, arg in [((None, None), ('inv', None),
                          (None, 'gt1'))[k % 3]]:
            used = arg or att or 'on_duty'
            v = tb.Interval(b, (lo, hi), S[att] if att else None)
            kw = {'schedule': S[arg]} if arg else {}
            if hi - lo < 10:
                check_ivl(v, lo, hi, m, st, kw, used, log,
                          'board of %d workshifts' % N, (0, 1, -1, 300))
                continue
            for duty in ('on', 'off', 'any'):
                mem = m.members(lo, hi, duty, used)
                c = len(mem)
                w_ = lambda q: (lambda: '%s %s of interval %d..%d under %s' %
                                (q, duty, lo, hi, used))
                log.compare(real.obs(lambda: v.count(duty=duty, **kw)),
                            ('ok', c), w_('count'))
                for q in sorted({0, -1, 127, -300, c // 2, 32767, 32768, 65535,
                                 65536, -32769, -65537, c - 1, c, -c, -c - 1}):
                    log.compare(
                        real.obs(lambda: st.get(real.ns(v.nth(
                            q, duty=duty, **kw).start_time))),
                        ('ok', mem[q]) if -c <= q < c else
                        ('err', {model.OOB}), w_('nth(%d)' % q))
                for f, q in ((v.first, 0), (v.last, -1)):
                    log.compare(
                        real.obs(lambda: st.get(real.ns(f(
                            duty=duty, **kw).start_time))),
                        ('ok', mem[q]) if c else ('err', {model.OOB}),
                        w_('first or last'))
    # the whole board
    for duty in [('on', 'off', 'any')[k % 3]]:
        log.compare(real.obs(lambda: [real.ns(w.start_time) for w in
                                      b().workshifts(duty)]),
                    ('ok', [m.ws_start(i) for i in
                            m.members(0, N - 1, duty, 'on_duty')]),
                    lambda: 'workshifts %s of a board of %d' % (duty, N))
    if k % 3:
        return
    log.compare(real.obs(lambda: [real.ns(w.start_time) for w in b()]),
                ('ok', [m.ws_start(i) for i in range(N)]), 'iteration')
