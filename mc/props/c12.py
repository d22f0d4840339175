"""C12: overlaps, portions, void intervals."""
from .. import boards, model, real, vast
from ..cal import at
from .c07 import LONG
import timeboard as tb

ID = 'C12'
CHUNK = 2
BOUNDS = {
    'quick': 'all duty words of 1..5 workshifts (simple and compound) x all '
             'ordered pairs of intervals x 3 duties x 5 ways to choose '
             'schedules, also of schedules replaced by others of the same '
             'name; words over 3 labels of 1..3 workshifts with 3 '
             'schedules; all ordered triples for 1..4 workshifts; every void '
             'interval that arises: all its queries and overlaps with every '
             'interval, void or not; boards of 120..700 workshifts '
             'and of 70000..140000',
    'thorough': 'same with words of 1..7 workshifts and triples for 1..5',
}
COMBOS = [(None, None, None), ('inv', None, None), (None, 'inv', None),
          (None, 'inv', 'gt1'), ('inv', 'gt1', 'on_duty')]
DUTIES = ('on', 'off', 'any')


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 6 if quick else 8):
        for w in boards.words((1, 0), n):
            yield {'labels': list(w)}
    for n in range(1, 4 if quick else 5):
        for w in boards.words((0, 1, 2), n):
            if 2 in w:
                yield {'labels': list(w), 'three': True}
    for n in range(1, 5 if quick else 6):
        for w in boards.words((1, 0), n):
            yield {'labels': list(w), 'triples': True}
    for i in range(8):
        yield {'long': i}
    for i in range(vast.N):
        yield {'vast': i}


class Side(object):
    """An interval (possibly void) of both worlds."""

    def __init__(self, v, lo, hi, sch):
        self.v, self.lo, self.hi, self.sch = v, lo, hi, sch

    @property
    def void(self):
        return self.lo > self.hi

    def __str__(self):
        return '%s %d..%d under %s' % ('void' if self.void else 'interval',
                                       self.lo, self.hi, self.sch)


def mk(b, lo, hi, att):
    S = b.schedules[att] if att else None
    v = tb.Interval(b, (lo, hi), S)
    return Side(v, lo, hi, att or b.default_schedule.name)


def view(v, m):
    """What is seen of an interval."""
    return (real.ns(v.start_time), real.ns(v.end_time), len(v), v.length,
            v.schedule.name,
            [(real.ns(x.start_time), x.schedule.name) for x in v])


def expected(m, lo, hi, sch):
    if lo > hi:
        return (None, None, 0, 0, sch, [])
    return (m.ws_start(lo), m.ws_end(hi), hi - lo + 1, hi - lo + 1, sch,
            [(m.ws_start(i), sch) for i in range(lo, hi + 1)])


def check_void(x, b, m, log, what):
    """Every query of a void interval."""
    v = x.v
    S = b.schedules
    for kw in ({}, {'schedule': S['inv']}):
        for duty in DUTIES:
            k = dict(kw, duty=duty)
            log.compare(real.obs(lambda: (
                v.count(**k), v.total_duration(**k), v.worktime(**k),
                v.count_periods('D', **k), list(v.workshifts(**k)))),
                ('ok', (0, 0, 0, 0, [])), '%s: sums (%s)' % (what, duty))
            for n in (0, 1, -1):
                log.compare(real.obs(lambda: v.nth(n, **k)),
                            ('err', {model.OOB}), '%s: nth' % what)
            log.compare(real.obs(lambda: v.first(**k)),
                        ('err', {model.OOB}), '%s: first' % what)
            log.compare(real.obs(lambda: v.last(**k)),
                        ('err', {model.OOB}), '%s: last' % what)
    log.compare(real.obs(lambda: (v.count(), v.total_duration(),
                                  v.worktime(), v.count_periods('M'),
                                  len(v), v.length, list(v), list(iter(v)))),
                ('ok', (0, 0, 0, 0, 0, 0, [], [])), '%s: sums' % what)
    log.compare(real.obs(lambda: (real.null(v.start_time),
                                  real.null(v.end_time))),
                ('ok', (True, True)), '%s: bounds' % what)
    log.compare(real.obs(lambda: v.to_dataframe().shape[0]), ('ok', 0),
                '%s: table' % what)
    log.compare(real.obs(lambda: 'void' in repr(v) and 'void' in str(v)),
                ('ok', True), '%s: text' % what)


def pair(x, y, b, m, log, what, args=(None,), duties=DUTIES):
    """overlap and portions of x and y; returns the overlap by default."""
    S = b.schedules
    lo, hi = max(x.lo, y.lo), min(x.hi, y.hi)
    void = lo > hi or x.void or y.void
    if void and lo <= hi:
        lo, hi = 1, 0
    for arg in args:
        used = arg or x.sch
        kw = {'schedule': S[arg]} if arg else {}
        w_ = lambda q: (lambda: '%s of %s and %s (schedule %r), %s' % (
            q, x, y, arg, what))
        log.compare(real.obs(lambda: view(x.v.overlap(y.v, **kw), m)),
                    ('ok', expected(m, lo, hi, used)), w_('overlap'))
        for duty in duties:
            p = m.portion((x.lo, x.hi), (y.lo, y.hi), duty, used)
            log.compare(real.obs(lambda: x.v.what_portion_of(
                y.v, duty=duty, **kw)), ('ok', p), w_('portion ' + duty))
    log.compare(real.obs(lambda: view(x.v * y.v, m)),
                ('ok', expected(m, lo, hi, x.sch)), w_('product'))
    p = m.portion((x.lo, x.hi), (y.lo, y.hi), 'on', x.sch)
    log.compare(real.obs(lambda: (x.v / y.v, x.v.what_portion_of(y.v))),
                ('ok', (p, p)), w_('ratio'))
    o = real.obs(lambda: x.v.overlap(y.v))
    if o[0] == 'err':
        return None
    return Side(o[1], lo, hi, x.sch)


def run(case, log):
    if 'long' in case:
        return run_long(case['long'], log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    labels = case['labels']
    n = len(labels)
    variants = [(tuple(range(n)), n + 1)]
    if n > 1 and not case.get('triples'):
        variants.append((tuple([0] + [i + 2 for i in range(1, n)]), n + 4))
    for vi, (firsts, units) in enumerate(variants):
        sp = boards.composed('D', at(2017, 2, 27), units, firsts, labels,
                             name='base' if vi else None,
                             wt='labels' if vi else None,
                             more=[['inv', 'not'], ['gt1', 'gt1']])
        b, m = real.build(sp), model.Board(sp)
        log.state(m.state())
        combos = [tuple(m.name if c == 'on_duty' else c for c in k)
                  for k in COMBOS]
        ivls = [(lo, hi) for lo in range(n) for hi in range(lo, n)]
        what = 'labels %r' % (labels,)
        if case.get('triples'):
            sides = [mk(b, lo, hi, [None, 'inv'][(lo + hi) % 2])
                     for lo, hi in ivls]
            for x in sides:
                for y in sides:
                    o = pair(x, y, b, m, log, what, duties=('on',))
                    if o is None:
                        continue
                    for z in sides:
                        pair(o, z, b, m, log, what, duties=('on',))
                        pair(z, o, b, m, log, what, duties=('on',))
                    if o.void:
                        pair(o, o, b, m, log, what)
                        p = mk(b, 0, 0, None)
                        q = pair(o, p, b, m, log, what)
                        if q is not None:
                            check_void(q, b, m, log, what)
            continue
        for a in ivls:
            for c in ivls:
                for att, att2, arg in (combos if not case.get('three') else
                                       [(s, t, u) for s in
                                        (None, 'inv', 'gt1') for t in
                                        (None, 'inv') for u in
                                        (None, 'inv', 'gt1')]):
                    x, y = mk(b, a[0], a[1], att), mk(b, c[0], c[1], att2)
                    o = pair(x, y, b, m, log, what, (arg,))
                if o is not None and o.void:
                    check_void(o, b, m, log, what)
        held = [mk(b, a[0], a[1], None) for a in ivls]
        for sel in (None, 'none', 'eq1'):
            # the same questions once the schedule has been replaced, also of
            # intervals taken before
            if sel:
                real.replace(b, m, 'inv', sel)
            for x in held:
                for y in held:
                    pair(x, y, b, m, log, what + ', schedule replaced',
                         ('inv',), duties=('on',))
            for a in ivls:
                for c in ivls if sel else []:
                    pair(mk(b, a[0], a[1], 'inv'), mk(b, c[0], c[1], None), b,
                         m, log, what + ', schedule replaced', duties=('on',))
        x = mk(b, 0, n - 1, None)
        for bad in ('ON', 'same', None):
            log.compare(real.obs(lambda: x.v.what_portion_of(x.v, duty=bad)),
                        ('err', {'ValueError'}), 'duty %r' % (bad,))
    log.samples.append({'labels': labels})


def run_long(k, log):
    freq, start, n, l = LONG[k % 4]
    sp = boards.spec(freq, start, n, layout=l, more=[['inv', 'not'],
                                                     ['gt1', 'gt1']])
    b, m = real.build(sp), model.Board(sp)
    log.state(m.state())
    N = len(m)
    pts = sorted({0, 3, N // 3, N // 2, N - 2, N - 1})
    ivls = [(lo, hi) for lo in pts for hi in pts if lo <= hi]
    att = [None, 'inv'][k // 4]
    for i, a in enumerate(ivls):
        for c in ivls:
            x, y = mk(b, a[0], a[1], att), mk(b, c[0], c[1], None)
            o = pair(x, y, b, m, log, 'long board %d' % k,
                     (None, 'gt1') if k // 4 else (None,))
            if o is not None and o.void and i < 3:
                check_void(o, b, m, log, 'long board %d' % k)


def run_vast(k, log):
    b, m = vast.both(k)
    log.state(('vast', k))
    ivls = vast.ivls(len(m))[::2]
    S = b.schedules
    for i, a in enumerate(ivls):
        for c in ivls[i % 3::3]:
            for used in (None, 'inv', 'gt1'):
                x, y = mk(b, a[0], a[1], None), mk(b, c[0], c[1], 'inv')
                lo, hi = max(a[0], c[0]), min(a[1], c[1])
                kw = {'schedule': S[used]} if used else {}
                u = used or 'on_duty'
                for duty in DUTIES:
                    log.compare(
                        real.obs(lambda: x.v.what_portion_of(y.v, duty=duty,
                                                             **kw)),
                        ('ok', m.portion(a, c, duty, u)),
                        lambda: 'portion %s of %s and %s (schedule %r)' % (
                            duty, x, y, used))

                def seen():
                    o = x.v.overlap(y.v, **kw)
                    return (real.ns(o.start_time), real.ns(o.end_time),
                            len(o), o.count('any'), o.count('on'),
                            o.schedule.name)
                exp = (m.ws_start(lo), m.ws_end(hi), hi - lo + 1,
                       hi - lo + 1, len(m.members(lo, hi, 'on', u)), u) \
                    if lo <= hi else (None, None, 0, 0, 0, u)
                log.compare(real.obs(seen), ('ok', exp), lambda:
                            'overlap of %s and %s (schedule %r)' % (
                                x, y, used))
