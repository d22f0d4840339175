"""C04: remembering patterns."""
import itertools

from .. import boards, lay, model, real
from ..cal import at, DAY

ID = 'C04'
CHUNK = 20
BOUNDS = {
    'quick': 'all sequences of up to 3 uses out of 13 (building one of 11 '
             'layouts which use two shared remembering patterns as element, '
             'whole structure or layout, in one or several spans and '
             'organizers, with incomplete first periods; drawing from a '
             'pattern by hand; reading its accessors) x label lists of '
             'length 1..4; all pairs of uses with 6 other kinds of iterators',
    'thorough': 'same with up to 4 uses and label lists of length 1..7',
}

R0, R1 = {'rp': 0}, {'rp': 1}
WK = {'each': 'W', 'at': [{'days': 0}, {'days': 4}]}
LAYS = [
    ({'marks': [], 'structure': [R0]}, 5),
    ({'rp': 0}, 4),
    ({'marker': WK, 'structure': [R0, {'p': [-1]}]}, 17),
    ({'marker': 'W', 'structure': [R0]}, 10),
    ({'marker': 'W', 'structure': R0}, 23),
    ({'marker': 'W', 'structure': [R0, R1]}, 25),
    ({'marker': 'M', 'structure': [
        {'marker': 'W', 'structure': [R1, R0]}, R0]}, 40),
    ({'marker': 'M', 'structure': [
        {'marker': 'W', 'structure': R1}, R1, {'s': 0}]}, 70),
    ({'marker': 'M', 'structure': [
        {'marker': 'W', 'structure': [{'p': [9, 8]}]},
        {'marker': 'W', 'structure': R0}]}, 64),
    ({'marks': [at(2017, 1, 3), at(2017, 1, 5)],
      'structure': [R0, {'p': [5]}, R1]}, 9),
    ({'marker': 'M', 'structure': [R0, {'p': []}, {'s': 3}]}, 100),
]
STARTS = [at(2016, 12, 28), at(2017, 1, 1), at(2017, 1, 2)]


class Endless(object):
    """The user's own remembering pattern."""

    def __init__(self, x):
        self.x, self.i = x, -1

    def __iter__(self):
        return self

    def __next__(self):
        self.i = (self.i + 1) % len(self.x)
        return self.x[self.i]


def endless(x):
    while True:
        for y in x:
            yield y


# any iterator remembers where it is
ITERATORS = {
    'own': Endless, 'generator': endless, 'cycle': itertools.cycle,
    'map': lambda x: (x[i % len(x)] for i in itertools.count()),
    'chain': lambda x: itertools.chain(itertools.cycle(x)),
    'finite': lambda x: iter(x * 999),
}


def cases(tier):
    quick = tier == 'quick'
    lens = (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6, 7)
    ops = list(range(len(LAYS))) + ['next', 'read']
    # single uses first: every layout, start and pair of lengths
    for a in lens:
        for b in lens:
            for op in ops:
                for s in range(3):
                    yield {'lens': [a, b], 'ops': [op, op], 'start': s}
    for a, b in ((3, 2), (4, 3)) if quick else ((3, 2), (4, 3), (5, 5)):
        for k in (2, 3) if quick else (2, 3, 4):
            if k == 4 and (a, b) != (4, 3):
                continue
            sub = ops if k < 3 else [0, 1, 2, 4, 5, 6, 8, 'next'] \
                if quick or k == 4 else ops
            for seq in itertools.product(sub, repeat=k):
                for how in ITERATORS if k == 2 else ():
                    if 'read' not in seq and (a, b) == (3, 2):
                        yield {'lens': [a, b], 'ops': list(seq), 'how': how,
                               'start': len(how) % 3}
                yield {'lens': [a, b], 'ops': list(seq),
                       'start': sum(ops.index(x) for x in seq) % 3}


def run(case, log):
    labels = [[10 + k for k in range(case['lens'][0])],
              ['abcdefg'[k] for k in range(case['lens'][1])]]
    rps = [model.RP(x) for x in labels]
    parts = real.Parts(labels)
    if 'how' in case:
        parts.rps = [ITERATORS[case['how']](x) for x in labels]
    layouts = {}
    for step, op in enumerate(case['ops']):
        if op == 'next':
            for k in (0, 1, 0):
                log.compare(real.obs(next, parts.rps[k]),
                            ('ok', rps[k].next()),
                            'label drawn from the pattern %r at step %d'
                            % (labels[k], step))
        elif op == 'read':
            r = parts.rps[0]
            log.compare(real.obs(lambda: (r.length, r[0], r[len(labels[0]) - 1],
                                          bool(r))),
                        ('ok', (len(labels[0]), labels[0][0], labels[0][-1],
                                True)), 'accessors of the pattern')
            real.obs(repr, r)
            for o in layouts.values():
                real.obs(repr, o)
        else:
            l, n = LAYS[op]
            # the same organizer object is reused by later uses
            if op not in layouts:
                layouts[op] = parts.layout(l)
            sp = boards.spec('D', STARTS[case['start']], n, layout=l,
                             rps=labels)
            m, b = lay.check_board(sp, log, rps=rps, layout=layouts[op])
            if m is not None and real.obs(str, b)[0] != 'ok':
                log.fail('text of %r' % sp)
            if m is not None and not log.samples:
                log.samples.append({'case': case, 'labels': m.labels[:16]})
        log.state((step, [r.pos % len(r.labels) for r in rps], labels))
