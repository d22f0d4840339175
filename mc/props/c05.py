"""C05: amendments."""
import collections
import collections.abc
import itertools

from .. import boards, kinds, lay, model, real
from ..cal import at, DAY
import timeboard as tb

ID = 'C05'
CHUNK = 20
BOUNDS = {
    'quick': 'all partitions of 1..4 base units of 7 frequencies x all sets '
             'of up to 2 keys out of (first, second and last instant of every '
             'base unit, both neighbours outside, far outside), in both '
             'orders and 6 forms, x labels on/off/other; all sequences of 3 '
             'keys over 1..3 days; organized boards of 40..400 units with each '
             'workshift amended; duties under 3 schedules; all ordered pairs of '
             'labels of 44 kinds',
    'thorough': 'same with 1..6 base units and all sets of up to 3 keys',
}
FR = [('D', at(2017, 2, 27)), ('8H', at(2016, 2, 28, 16)), ('W', at(2016, 12, 26)),
      ('M', at(2016, 1, 1)), ('2D', at(2017, 2, 27)),
      ('N', at(2020, 2, 28, 23, 59, 59) + 999999998),
      ('us', at(1969, 12, 31, 23, 59, 59) + 999999000)]


# new labels of one key; of two keys
NEWS = {1: [(2,), (0,), (1,), (None,)],
        2: [(2, 0), (0, 2), (2, 2), (None, 0), (1, None), (None, None)]}


def cases(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for f in range(len(FR)):
            if n >= 4 and f not in (0, 1):
                continue
            for firsts in boards.compositions(n):
                # a key between two of the same workshift, in quick too
                for k in (0, 1, 2, 3) if n <= 4 and tier != 'quick' or \
                        n <= 3 and f == 0 else (0, 1, 2):
                    yield {'n': n, 'f': f, 'firsts': list(firsts), 'k': k}
    for i in range(kinds.N):
        yield {'kind': i}
    for i in range(6):
        for part in range(4):
            yield {'big': i, 'part': part}


BIG = [
    ('D', at(2016, 12, 28), 60, {'marker': 'W', 'structure': [
        {'p': [1, 1, 1, 1, 1, 0, 0]}]}),
    ('D', at(2016, 12, 28), 400, {'marker': 'M', 'structure': [
        {'s': 1}, {'s': 0}, {'p': [1, 0]}]}),
    ('H', at(2016, 12, 31, 20), 80, {'marker': {'each': 'D', 'at': [
        {'hours': 2}, {'hours': 8}, {'hours': 18}]},
        'structure': [{'s': 1}, {'s': 2}, {'s': 0}]}),
    ('M', at(2015, 1, 1), 50, {'marker': 'A', 'structure': [
        {'s': 0}, {'p': [1, 2, 0]}]}),
    ('D', at(2016, 2, 20), 40, {'pat': [1]}),
    ('W', at(2016, 2, 20), 40, {'pat': [0, 1, 2]}),
]


def verify(sp, log, cont=None):
    """Compare the amended board, its duties and its un-amended twin."""
    log.transitions += 1
    exp = real.expect(lambda: model.Board(sp))
    got = real.obs(lambda: real.build(sp))
    if exp[0] == 'err':
        log.compare(got, exp, lambda: 'building %r' % (sp,))
        return None
    m = exp[1]
    if got[0] == 'err':
        log.fail('building %r: %s' % (sp, real.show(got)))
        return None
    b = got[1]
    b.add_schedule('two', real.selector('eq2'))
    m.add_schedule('two', 'eq2')
    b.add_schedule('off', real.selector('not'))
    m.add_schedule('off', 'not')
    log.state(m.state())
    g = real.obs(lay.rows_of, b)
    e = [real.model_row(m, i) for i in range(len(m))]
    log.compare(g, ('ok', e), lambda: 'workshifts of %r' % (sp,))
    for name in ('on_duty', 'two', 'off'):
        s = b.schedules[name]
        on = m.schedules[name]
        log.compare(real.obs(lambda: [bool(tb.Workshift(b, i).is_on_duty(s))
                                      for i in range(len(m))]),
                    ('ok', on), lambda: 'duty under %s of %r' % (name, sp))
        log.compare(real.obs(lambda: [real.ns(w.start_time) for w in
                                      b().workshifts('on', s)]),
                    ('ok', [m.ws_start(i) for i in range(len(m)) if on[i]]),
                    lambda: 'on-duty workshifts under %s of %r' % (name, sp))
    log.compare(real.obs(lambda: [bool(x) for x in
                                  b.to_dataframe()['on_duty']]),
                ('ok', m.schedules['on_duty']),
                lambda: 'duty column of %r' % (sp,))
    return b


def run(case, log):
    if 'kind' in case:
        return kinds.explore(case['kind'], kinds.amended,
                             [kinds.labels, kinds.duties], log)
    if 'big' in case:
        freq, start, n, l = BIG[case['big']]
        base = model.Board(boards.spec(freq, start, n, layout=l))
        log.samples.append({'layout': l, 'workshifts': len(base)})
        idx = range(case['part'], len(base), 4)
        for i in idx:
            for t in (base.ws_start(i), base.ws_end(i)):
                verify(boards.spec(freq, start, n, layout=l,
                                   amend=[[t, 2]]), log)
        pts = [base.ws_start(i) + 1 for i in range(len(base))]
        if case['part'] == 0:        # every workshift at once, any order
            for order in (pts, pts[::-1], pts[::2] + pts[1::2]):
                verify(boards.spec(freq, start, n, layout=l, amend=[
                    [t, k % 3] for k, t in enumerate(order)]), log)
            verify(boards.spec(freq, start, n, layout=l, amend=[
                [t, 2] for t in pts] + [[base.end, 1]]), log)
        return
    n, firsts = case['n'], case['firsts']
    freq, start = FR[case['f']]
    s = boards.unit_starts(freq, start, n)
    pts = []
    for i in range(n):
        pts += [s[i], s[i] + 1, s[i + 1] - 1]
    pts += [s[0] - 1, s[n], s[n] + 1000 * DAY]
    labels = [(1, 0, 2)[k % 3] for k in range(len(firsts))]
    k = case['k']
    forms = ['ts', 'str', 'np', 'obj']
    if k == 0:
        for am in (None, []):
            verify(boards.composed(freq, start, n, firsts, labels, amend=am),
                   log)
        # all forms of one key
        for t in (s[0], s[n - 1], s[n], s[0] - 1000):
            for form in ('ts', 'str', 'dt', 'np', 'obj', 'per:D', 'per:M'):
                tt = t
                if form == 'dt' and t % 1000:
                    continue
                if form.startswith('per:'):
                    from .. import cal
                    tt = cal.floor(form[4:], t)
                for lb in (5, 0, 'X', 2.5, None, '', False, -1):
                    sp = boards.composed(freq, start, n, firsts, labels,
                                         amend=[[tt, lb]], aform=form)
                    verify(sp, log)
        # a dictionary-like object and ordered dictionary
        for cls in (collections.OrderedDict, Pairs):
            sp = boards.composed(freq, start, n, firsts, labels,
                                 amend=[[s[0], 2], [s[n], 1]])
            m = model.Board(sp)
            l = real.Parts().layout(sp['layout'])
            g = real.obs(lambda: lay.rows_of(tb.Timeboard(
                freq, real.ts(sp['start']), real.ts(sp['end']), l,
                amendments=cls([(real.ts(s[0]), 2), (real.ts(s[n]), 1)]))))
            log.compare(g, ('ok', [real.model_row(m, i)
                                   for i in range(len(m))]),
                        'amendments as %s' % cls.__name__)
        log.samples.append({'workshift firsts': firsts, 'freq': freq})
        return
    for j, keys in enumerate(itertools.permutations(pts, k)
                             if k < 3 or n <= 3 else
                             itertools.combinations(pts, k)):
        for q, news in enumerate(NEWS[min(k, 2)]):
            if k == 3:
                news = news + (0 if news[0] is None else 1,)
            # the first choice for every set in every order, the others for
            # a third of the orders each
            if k >= 2 and q and j % 3 != q % 3:
                continue
            sp = boards.composed(freq, start, n, firsts, labels,
                                 amend=[[t, x] for t, x in zip(keys, news)],
                                 ref=('start', 'end')[j % 2],
                                 aform=[forms[(j + q) % (2 if k > 1 else 4)]
                                        for q in range(k)])
            verify(sp, log)


class Pairs(collections.abc.Mapping):
    """A mapping which is not a dictionary; keys are matched in full."""
    def __init__(self, x):
        self.x = list(x)

    def __getitem__(self, key):
        for k, v in self.x:
            if k == key:
                return v
        raise KeyError(key)

    def __iter__(self):
        return iter([k for k, v in self.x])

    def __len__(self):
        return len(self.x)
