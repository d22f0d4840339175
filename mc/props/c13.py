"""C13: counting calendar periods."""
import itertools

from .. import boards, cal, model, real, vast
from ..cal import at
import timeboard as tb

ID = 'C13'
CHUNK = 2
BOUNDS = {
    'quick': '20 frames at calendar irregularities (days, hours, 8 hours, '
             'weeks, months, quarters, minutes; some covering whole weeks, '
             'months or years) cut in all ways at up to 2 of 4..6 places, '
             '8 label patterns (every fifth of the combinations), both '
             'reference times x all intervals between up to 5 characteristic '
             'workshifts x the 2..5 matching of 10 frequencies x 3 duties x '
             'default, attached, passed and replaced (also of intervals taken before) '
             'schedules; all partitions, duty '
             'words and intervals of 1..4 half-days against days; boards of '
             '70000..140000 workshifts',
    'thorough': 'same with up to 4 cuts, all label patterns and 12 '
                'characteristic workshifts; all partitions and duty words of '
                '1..8 half-days',
}
OK = ['D', 'W', 'M', 'Q', 'A', 'H', 'Y', 'T', 'min', 'S']
BAD = ['2D', 'W-TUE', 'A-MAR', 'Q-FEB', 'BM', '', 'X', 'W-SUN', 'MS', None]
# frequency, start, units, places of possible cuts, frequencies
FRAMES = [
    ('D', at(2017, 9, 25), 14, (3, 6, 7, 8, 13), 'DWM'),    # two whole weeks
    ('D', at(2017, 9, 24), 16, (1, 2, 7, 8, 15), 'DWM'),    # one day beyond
    ('D', at(2016, 2, 1), 29, (1, 14, 27, 28), 'WMQ'),      # leap February
    ('D', at(2016, 1, 31), 61, (1, 15, 29, 30, 60), 'WMQ'),  # February, March
    ('D', at(2016, 12, 30), 400, (1, 2, 3, 366, 367, 398), 'MQAY'),
    ('H', at(2016, 12, 30), 72, (23, 24, 25, 47, 71), 'DHWA'),
    ('H', at(2017, 2, 28, 22), 29, (1, 2, 3, 25, 26, 27), 'DHM'),
    ('8H', at(2017, 2, 26, 16), 12, (1, 2, 3, 4, 6, 11), 'DWM'),
    ('12H', at(2017, 1, 1), 14, (1, 2, 3, 12, 13), 'DW'),
    ('W', at(2016, 12, 20), 12, (1, 2, 3, 6, 11), 'WMQA'),
    ('M', at(2015, 1, 1), 24, (1, 3, 11, 12, 13), 'MQA'),
    ('M', at(2015, 11, 3), 15, (1, 2, 4, 13, 14), 'MQA'),
    ('Q', at(2014, 12, 31), 9, (1, 2, 4, 5, 8), 'QA'),
    ('T', at(2016, 2, 29, 23, 0), 120, (30, 59, 60, 61, 119), 'HDTm'),
    ('2D', at(2017, 9, 25), 14, (1, 2, 3, 7, 13), 'WMD'),
    ('S', at(2016, 12, 31, 23, 58, 58), 124, (1, 2, 61, 62, 123), 'TmSDA'),
    ('250L', at(2016, 12, 31, 23, 59, 58), 12, (1, 4, 7, 8, 11), 'STmM'),
    ('N', at(2020, 2, 28, 23, 59, 59) + 999999998, 5, (1, 2, 3, 4), 'SHD'),
    ('D', at(2262, 3, 27), 11, (1, 2, 3, 9, 10), 'DW'),
    ('D', at(1677, 9, 28), 12, (1, 2, 3, 6, 11), 'DW'),
]
NAMES = {'D': 'D', 'W': 'W', 'M': 'M', 'Q': 'Q', 'A': 'A', 'Y': 'Y', 'H': 'H',
         'T': 'T', 'S': 'S', 'm': 'min'}
WORDS = [[1], [0], [1, 0], [0, 1], [1, 1, 0], [0, 0, 1], [2, 1, 0],
         [1, 0, 0, 2]]


def cuts(places, k):
    for j in range(k + 1):
        for c in itertools.combinations(places, j):
            yield list(c)


def cases(tier):
    quick = tier == 'quick'
    for f in range(len(FRAMES)):
        for c in cuts(FRAMES[f][3], 2 if quick else 4):
            for form in ('one', 'rest', 'pat'):
                if form == 'pat' and c:
                    continue
                for ref in ('start', 'end'):
                    for wi in range(len(WORDS)):
                        if quick and (wi + f + len(c) + sum(c)) % 5:
                            continue
                        yield {'f': f, 'cuts': c, 'form': form, 'ref': ref,
                               'top': 5 if quick else 12, 'word': wi}
    for n in range(1, 5 if quick else 9):
        for w in boards.words((1, 0), n):
            yield {'half': n, 'labels': list(w)}
    for k in range(2 * vast.N):
        yield {'vast': k}


def run(case, log):
    if 'half' in case:
        return run_half(case, log)
    if 'vast' in case:
        return run_vast(case['vast'], log)
    freq, start, n, _, per = FRAMES[case['f']]
    fr = [NAMES[c] for c in per]
    marks = case['cuts']
    u = boards.unit_starts(freq, start, n)
    for wi in (case['word'],):
        word = WORDS[wi]
        if case['form'] == 'pat':
            lay = {'pat': word}
        elif case['form'] == 'one':
            # every span a workshift of many units
            lay = {'marks': [u[i] for i in marks],
                   'structure': [{'s': x} for x in word]}
        else:
            # spans of one and of many workshifts alternate
            lay = {'marks': [u[i] for i in marks],
                   'structure': [{'s': word[0]}, {'p': word}]}
        sp = boards.spec(freq, start, n, layout=lay, ref=case['ref'],
                         more=[['inv', 'not'], ['gt1', 'gt1']])
        b, m = real.build(sp), model.Board(sp)
        log.state(m.state())
        N = len(m)
        at_ = set()
        for i in [0, 1, n - 1] + list(FRAMES[case['f']][3]):
            if i < n:
                at_.add(m.find(u[i]))
                at_.add(m.find(u[i]) - 1)
        at_ |= {N // 2}
        pts = sorted(x for x in at_ if x >= 0)
        if len(pts) > case['top']:
            half = case['top'] // 2
            pts = pts[:half] + pts[-half:]
        S = b.schedules
        for lo in pts:
            for hi in pts:
                if lo > hi:
                    continue
                if case['form'] == 'pat' and (lo + hi + wi) % 3 == 0:
                    combos = [(None, None)]
                else:
                    combos = [[('inv', None)], [(None, 'inv')],
                              [('inv', 'on_duty')], [(None, 'gt1')],
                              [(None, None)]][(lo + 2 * hi + wi) % 5]
                for att, arg in combos:
                    used = arg or att or 'on_duty'
                    kw = {'schedule': S[arg]} if arg else {}
                    v = tb.Interval(b, (lo, hi), S[att] if att else None)
                    for f in fr:
                        for duty in ('on', 'off', 'any'):
                            log.compare(
                                real.obs(lambda: v.count_periods(
                                    f, duty=duty, **kw)),
                                real.expect(lambda: m.count_periods(
                                    lo, hi, f, duty, used)),
                                lambda: 'number of %s in interval %d..%d '
                                '(%s, schedule %s) of %r' % (
                                    f, lo, hi, duty, used, sp))
        ends = sorted({(pts[0], pts[-1]), (pts[1 % len(pts)], pts[-1]),
                       (pts[0], pts[-2 % len(pts)])})
        ends = [x for x in ends if x[0] <= x[1]]
        held = {x: tb.Interval(b, x) for x in ends}
        for sel in (None, 'eq1', 'all', 'gt1'):
            # the same questions once the schedule has been replaced, also of
            # intervals taken before
            s = real.replace(b, m, 'inv', sel) if sel else S['inv']
            for lo, hi in ends:
                for v, kw in ((tb.Interval(b, (lo, hi), s), {}),
                              (held[lo, hi], {'schedule': s})):
                    for f, duty in itertools.product(fr[:2], ('on', 'off')):
                        log.compare(
                            real.obs(lambda: v.count_periods(
                                f, duty=duty, **kw)),
                            real.expect(lambda: m.count_periods(
                                lo, hi, f, duty, 'inv')),
                            lambda: 'number of %s in interval %d..%d (%s), '
                            'schedule replaced by %s, of %r' % (
                                f, lo, hi, duty, sel, sp))
        lo, hi = pts[0], pts[-1]
        v = tb.Interval(b, (lo, hi))
        for f in OK:
            if (m.end - m.start) // cal.FIXED.get(f, cal.DAY) < 300 and \
                    f not in fr and at(1690, 1, 1) < m.start and \
                    m.end < at(2250, 1, 1):
                log.compare(
                    real.obs(lambda: v.count_periods(f)),
                    real.expect(lambda: m.count_periods(
                        lo, hi, f, 'on', 'on_duty')),
                    lambda: 'number of %s in %r' % (f, sp))
        for f in BAD:
            log.compare(real.obs(lambda: v.count_periods(f)),
                        ('err', {model.UNACC}), 'frequency %r' % (f,))
        f = fr[-1]
        for bad in ('ON', 'same', None):
            log.compare(real.obs(lambda: v.count_periods(f, duty=bad)),
                        ('err', {'ValueError'}), 'duty %r' % (bad,))
        log.compare(real.obs(lambda: v.count_periods(f)),
                    real.expect(lambda: m.count_periods(
                        lo, hi, f, 'on', 'on_duty')), 'default duty')
        log.compare(real.obs(lambda: v.count_periods(f, 'off', S['inv'])),
                    real.expect(lambda: m.count_periods(
                        lo, hi, f, 'off', 'inv')), 'positional arguments')
    log.samples.append({'spec': sp})


def run_half(case, log):
    """All partitions and words of n half-days against days."""
    w = case['labels']
    for firsts in boards.compositions(case['half']):
        k = len(firsts)
        if any(w[k:]):
            continue
        for ref in ('start', 'end'):
            for st in (at(2017, 1, 1), at(2016, 12, 31, 12)):
                sp = boards.composed('12H', st, case['half'], firsts, w[:k],
                                     ref=ref)
                b, m = real.build(sp), model.Board(sp)
                log.state(m.state())
                for lo in range(k):
                    for hi in range(lo, k):
                        v = tb.Interval(b, (lo, hi))
                        for duty in ('on', 'off', 'any'):
                            log.compare(
                                real.obs(lambda: v.count_periods(
                                    'D', duty=duty)),
                                real.expect(lambda: m.count_periods(
                                    lo, hi, 'D', duty, 'on_duty')),
                                lambda: 'days in %d..%d (%s) of %r' % (
                                    lo, hi, duty, sp))


def run_vast(k, log):
    b, m = vast.both(k // 2, ref=('start', 'end')[k % 2])
    log.state(('vast', k))
    n = len(m)
    S = b.schedules
    for lo, hi in [(0, n - 1), (100, n - 5), (32700, 32800), (32767, 32767),
                   (30000, 40000), (65530, 65540), (65000, 66000),
                   (65536, n - 1), (32768, n - 1), (0, 32767)]:
        for att, arg in ((None, None), (None, 'inv'), ('gt1', None)):
            used = arg or att or 'on_duty'
            kw = {'schedule': S[arg]} if arg else {}
            v = tb.Interval(b, (lo, hi), S[att] if att else None)
            for f in ('M', 'W', 'D', 'H') if hi - lo < 9000 else 'MWD':
                for duty in ('on', 'off', 'any'):
                    log.compare(
                        real.obs(lambda: v.count_periods(f, duty=duty, **kw)),
                        real.expect(lambda: m.count_periods(
                            lo, hi, f, duty, used)),
                        lambda: 'number of %s in interval %d..%d (%s, '
                        'schedule %s), board of %d workshifts' % (
                            f, lo, hi, duty, used, n))
