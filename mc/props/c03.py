"""C03: marker marks."""
import itertools

from .. import boards, cal, lay, real
from ..cal import at, DAY

ID = 'C03'
CHUNK = 20
BOUNDS = {
    'quick': 'offset rules: 20 base unit/period pairs x position lists of '
             '1..3 offsets of every unit (inside, on the last instant of and '
             'beyond the period, negative, duplicated, unordered) x starts '
             'before, at and after marks x lengths; weekday rule: every '
             'month x week x weekday of 5 years, shifts up to a month, '
             'periods of year, shifted year, quarter, month and week; Easter '
             'rules: both churches, offsets -60..60 days, periods of year, '
             'shifted year, quarter, month, week, years 1890-2210; periods of '
             'several years, quarters, months, weeks for each kind of '
             'rules; each with label and pattern structures and below another organizer; 14 '
             'markers, each one object used for all sequences of boards (a, b, '
             'a) of 10 ranges and base units',
    'thorough': 'same with every shift -10..10 for the weekday rule, every '
                'Easter offset -60..60 in every period, all starts of a '
                'period for offset rules',
}

P5 = {'p': [1, 2, 3, 4, 5]}
CYC = [{'s': 10}, {'s': 20}, {'s': 30}]
PAT = [P5, {'p': [7, 8]}]


def d(**kw):
    return kw


OFFSETS = [
    # base, each, position lists, starts, lengths
    ('D', 'W', [[d(days=0)], [d(days=2), d(days=5)], [d(days=6)],
                [d(days=7)], [d(days=5), d(days=2), d(days=2)],
                [d(days=-1)], [d(days=1), d(days=9)], [d(weeks=1)],
                [d(days=2, hours=23)], [d(hours=47)], [d(weeks=0)],
                [d(days=0), d(days=1), d(days=2)],
                [d(hours=6), d(hours=12)], [d(seconds=86400 * 7 - 1)]],
     [at(2017, 1, x) for x in range(2, 10)], [1, 3, 8, 16]),
    ('D', 'W-WED', [[d(days=0)], [d(days=3)], [d(days=6), d(days=1)]],
     [at(2017, 1, x) for x in range(3, 7)], [1, 8]),
    ('D', 'M', [[d(days=0)], [d(days=30)], [d(days=14), d(days=29)],
                [d(days=28)], [d(days=31)], [d(weeks=2)], [d(months=1)],
                [d(days=15), d(days=0), d(days=31)],
                [d(days=20, hours=30)], [d(months=1, days=-30)],
                [d(months=1, days=-29)], [d(months=2, days=-61)],
                [d(months=2, days=-45), d(days=2)], [d(months=-1, days=31)],
                [d(months=-1, days=29), d(days=20)]],
     [at(2015, 12, 31), at(2016, 1, 1), at(2016, 1, 20), at(2016, 1, 31), at(2016, 2, 10),
      at(2016, 2, 29), at(2016, 3, 1), at(2015, 3, 15)], [1, 5, 33, 70]),
    ('D', 'Q', [[d(months=1)], [d(months=2, days=28)], [d(days=90)],
                [d(days=91)], [d(months=3)], [d(months=1), d(days=45)],
                [d(months=3, days=-91)], [d(months=3, days=-90)],
                [d(months=-3, weeks=13)]],
     [at(2015, 12, 31), at(2016, 2, 1), at(2016, 5, 15)], [3, 100]),
    ('D', 'A', [[d(months=4), d(months=8, days=15)], [d(days=365)],
                [d(days=59)], [d(months=1, days=28)], [d(years=1)],
                [d(months=11, days=30)], [d(weeks=52)], [d(days=0)],
                [d(months=6), d(days=10), d(weeks=30)],
                [d(years=1, days=-365)], [d(years=-1, days=366)],
                [d(years=1, days=-1), d(months=3, weeks=-2)]],
     [at(2015, 12, 30), at(2016, 1, 1), at(2016, 5, 1), at(2016, 9, 16),
      at(2016, 12, 31), at(2019, 2, 28)], [2, 200, 400, 800]),
    ('D', 'A-MAR', [[d(months=4)], [d(days=0)], [d(days=364)],
                    [d(months=11, days=27), d(months=1)]],
     [at(2015, 3, 31), at(2015, 4, 1), at(2016, 2, 29)], [2, 400]),
    ('H', 'D', [[d(hours=2), d(hours=8), d(hours=18)], [d(hours=0)],
                [d(hours=23)], [d(hours=24)], [d(minutes=90)],
                [d(minutes=59), d(seconds=3600)], [d(hours=8, minutes=30)],
                [d(seconds=86399)], [d(hours=-1)], [d(days=1, hours=-3)],
                [d(hours=5, minutes=-10), d(days=-1, hours=30)]],
     [at(2017, 2, 28, h) for h in (0, 1, 2, 7, 8, 9, 18, 23)], [1, 6, 30]),
    ('H', 'W', [[d(days=4, hours=18)], [d(hours=9), d(days=5, hours=22)],
                [d(days=6, hours=23)]],
     [at(2017, 1, 1, 5), at(2017, 1, 6, 17), at(2017, 1, 6, 18)], [2, 60, 200]),
    ('H', 'M', [[d(days=30, hours=23)], [d(days=0, hours=1)]],
     [at(2016, 1, 31, 22), at(2016, 2, 1)], [3, 40]),
    ('30T', '1D', [], [], []),
    ('T', 'H', [[d(minutes=10), d(minutes=40)], [d(minutes=59)],
                [d(minutes=60)], [d(seconds=61)], [d(hours=0, seconds=5)]],
     [at(2016, 12, 31, 23, 39), at(2016, 12, 31, 23, 40), at(2017, 1, 1)],
     [2, 62]),
    ('T', 'D', [[d(hours=23, minutes=59)], [d(hours=0)], [d(hours=8)]],
     [at(2016, 12, 31, 23, 50)], [5, 20]),
    ('S', 'T', [[d(seconds=15), d(seconds=45)], [d(seconds=60)]],
     [at(2016, 12, 31, 23, 59, 44), at(2016, 12, 31, 23, 59, 45)], [3, 70]),
    ('M', 'A', [[d(months=3), d(months=9)], [d(months=11)], [d(months=12)],
                [d(days=31)], [d(days=30)], [d(months=2, days=5)]],
     [at(2015, 12, 1), at(2016, 1, 1), at(2016, 4, 1)], [2, 13, 26]),
    ('M', 'Q', [[d(months=1)], [d(months=2), d(months=0)], [d(days=60)]],
     [at(2015, 12, 1), at(2016, 2, 1)], [1, 7]),
    ('M', 'A-MAR', [[d(months=5)], [d(days=0)]],
     [at(2015, 12, 1), at(2016, 4, 1)], [1, 16]),
    ('Q', 'A', [[d(months=3)], [d(months=11)], [d(months=6), d(days=1)]],
     [at(2015, 12, 1), at(2016, 4, 1)], [1, 9]),
    ('D', 'D', [[d(hours=5)], [d(days=0)], [d(days=1)]],
     [at(2017, 1, 1)], [1, 3]),
    ('W', 'W', [[d(days=0)], [d(days=3)]], [at(2017, 1, 4)], [1, 3]),
    ('H', 'Q', [[d(months=2, hours=5)]], [at(2016, 2, 29, 22)], [12, 30]),
    # parts of seconds
    ('L', 'S', [[d(microseconds=500000)], [d(microseconds=999000)],
                [d(microseconds=250500), d(microseconds=0)],
                [d(seconds=1)], [d(seconds=1, microseconds=-2000)]],
     [at(2016, 12, 31, 23, 59, 59) + k * 10 ** 6 for k in (0, 251, 500, 999)],
     [2, 5, 1300]),
    ('L', 'T', [[d(seconds=59, microseconds=998000)]],
     [at(2016, 12, 31, 23, 59, 59) + 990 * 10 ** 6], [5, 20]),
    ('U', 'L', [[d(microseconds=500)], [d(microseconds=999), d(nanoseconds=3)],
                [d(microseconds=1000)], [d(nanoseconds=1500)]],
     [at(2016, 12, 31, 23, 59, 59) + 999 * 10 ** 6 + k * 1000
      for k in (0, 499, 500, 501, 999)], [2, 1300]),
    ('N', 'U', [[d(nanoseconds=500)], [d(nanoseconds=999), d(nanoseconds=0)],
                [d(microseconds=1, nanoseconds=-1)]],
     [at(2016, 12, 31, 23, 59, 59) + 999999 * 1000 + k
      for k in (0, 499, 500, 999)], [2, 1300]),
    # periods of several units, counted from the start of the frame
    ('D', '2M', [[d(days=0)], [d(days=30)], [d(months=1), d(days=14)],
                 [d(days=60)], [d(months=2, days=-1)], [d(months=2)]],
     [at(2017, 1, x) for x in (1, 30, 31)] +
     [at(2017, 3, x) for x in (1, 2, 3, 4, 5, 31)] + [at(2016, 2, 29)],
     [1, 33, 150]),
    ('D', '3M', [[d(days=0)], [d(days=89)], [d(months=2, days=14)]],
     [at(2017, 3, 1), at(2017, 4, 30), at(2016, 12, 31)], [2, 200]),
    ('D', '2Q', [[d(days=0)], [d(months=4)], [d(days=180), d(months=1)]],
     [at(2017, 3, 31), at(2017, 4, 1), at(2017, 4, 2), at(2017, 7, 1)],
     [3, 400]),
    ('D', '2A', [[d(days=0)], [d(years=1)], [d(months=18), d(days=729)]],
     [at(2017, 1, 1), at(2017, 1, 2), at(2016, 12, 31), at(2018, 3, 1)],
     [3, 800, 1500]),
    ('D', '3A-MAR', [[d(days=0)], [d(years=2, months=5), d(months=1)]],
     [at(2017, 4, 1), at(2017, 3, 31), at(2018, 3, 1)], [3, 1500]),
    ('D', '2W', [[d(days=0)], [d(days=9), d(days=2)], [d(days=13)],
                 [d(weeks=1)], [d(days=14)]],
     [at(2017, 1, x) for x in range(1, 9)], [1, 8, 31]),
    ('D', '3D', [[d(days=0)], [d(days=1, hours=5)], [d(days=2), d(hours=1)]],
     [at(2017, 1, 1), at(2017, 1, 2)], [1, 8]),
    ('H', '12H', [[d(hours=0)], [d(hours=11)], [d(hours=3), d(hours=4)]],
     [at(2017, 1, 1, 5), at(2017, 1, 1, 12)], [1, 30]),
    ('H', '2D', [[d(hours=30)], [d(days=1), d(hours=47)]],
     [at(2017, 1, 1, 5), at(2017, 1, 1)], [40, 130]),
    ('M', '2A', [[d(months=3)], [d(months=15), d(years=1)]],
     [at(2015, 12, 1), at(2016, 1, 1), at(2016, 7, 1)], [13, 60]),
    ('M', '6M', [[d(months=3)], [d(months=5), d(days=31)]],
     [at(2015, 12, 1), at(2016, 1, 1)], [5, 20]),
    ('T', '90T', [[d(minutes=45)], [d(minutes=89), d(hours=1)]],
     [at(2016, 12, 31, 23, 39)], [40, 200]),
    # other names of the frequencies
    ('D', 'Y', [[d(months=4), d(days=10)]], [at(2015, 12, 30)], [400]),
    ('D', '2Y', [[d(months=14), d(days=10)]], [at(2015, 12, 30)], [800]),
    ('min', 'H', [[d(minutes=10), d(minutes=40)]],
     [at(2016, 12, 31, 23, 39)], [62]),
    ('T', '30min', [[d(minutes=10), d(minutes=25)]],
     [at(2016, 12, 31, 23, 39)], [62]),
    ('ms', 'S', [[d(microseconds=250500)]], [at(2016, 12, 31, 23, 59, 59)],
     [600]),
    ('L', 'L', [[d(microseconds=500)]], [at(2017, 1, 1) + 7 * 10 ** 6], [5]),
    ('U', 'U', [[d(nanoseconds=0)]], [at(2017, 1, 1) + 7 * 10 ** 6], [5]),
    ('N', 'N', [[d(nanoseconds=0)]], [at(2017, 1, 1) + 7 * 10 ** 6], [5]),
]


def cases(tier):
    quick = tier == 'quick'
    for base, each, ats, starts, ns in OFFSETS:
        for a in ats:
            for s in starts:
                yield {'base': base, 'start': s, 'ns': ns,
                       'm': {'each': each, 'at': a,
                             'how': 'from_start_of_each'}}
    if not quick:
        every = [('D', 'W', [at(2016, 12, 26) + k * DAY for k in range(14)], 9),
                 ('D', 'M', [at(2016, 1, 28) + k * DAY for k in range(66)], 12),
                 ('H', 'D', [at(2016, 12, 31) + k * cal.HOUR
                             for k in range(48)], 26)]
        for base, each, starts, n in every:
            for k, (b, e, ats, _, _) in enumerate(OFFSETS):
                if (b, e) == (base, each):
                    for a in ats:
                        for s in starts:
                            yield {'base': base, 'start': s, 'ns': [n],
                                   'm': {'each': each, 'at': a,
                                         'how': 'from_start_of_each'}}
    # weekday rule: every month, week, weekday
    weeks = (1, 2, 3, 4, 5, -1, -2, -3, -4, -5)
    for mo in range(1, 13):
        for wk in weeks:
            for wd in range(1, 8):
                yield {'base': 'D', 'start': at(2015, 11, 20), 'ns': [1900],
                       'm': {'each': 'A', 'how': 'nth_weekday_of_month',
                             'at': [d(month=mo, week=wk, weekday=wd)]},
                       'structs': [CYC]}
    sh = (-31, -1, 1, 4, 30) if quick else tuple(range(-10, 11)) + (-40, 40)
    for mo in (1, 2, 6, 12):
        for wk in (1, 5, -1, -5):
            for wd in (1, 5, 7):
                for x in sh:
                    yield {'base': 'D', 'start': at(2015, 12, 3),
                           'ns': [500],
                           'm': {'each': 'A', 'how': 'nth_weekday_of_month',
                                 'at': [d(month=mo, week=wk, weekday=wd,
                                          shift=x)]}}
    for each, months in (('A-MAR', (1, 9, 10, 12)), ('Q', (1, 2, 3)),
                         ('Q-FEB', (1, 3)), ('M', (1, 2)), ('W', (1,)),
                         ('D', (1,)), ('A', (3, 11)), ('2A', (2, 12)),
                         ('3A-JUN', (7,)), ('2M', (1, 2)), ('3M', (2, 3)),
                         ('2Q', (2, 5, 6))):
        for mo in months:
            for wk in (1, 3, 5, -1, -5):
                for wd in (1, 4, 7):
                    for x in (None, 0, 1, -3, 8):
                        kw = d(month=mo, week=wk, weekday=wd)
                        if x is not None:
                            kw['shift'] = x
                        yield {'base': 'D', 'start': at(2016, 1, 31),
                               'ns': [95] if quick else [1, 95, 430],
                               'm': {'each': each, 'at': [kw],
                                     'how': 'nth_weekday_of_month'}}
    two = [[d(month=5, week=-1, weekday=1), d(month=9, week=1, weekday=1)],
           [d(month=9, week=1, weekday=1), d(month=5, week=-1, weekday=1)],
           [d(month=11, week=4, weekday=4),
            d(month=11, week=4, weekday=4, shift=1)],
           [d(month=1, week=1, weekday=1), d(month=2, week=5, weekday=1),
            d(month=12, week=-1, weekday=7)]]
    for a in two:
        for s in (at(2016, 1, 1), at(2016, 5, 29), at(2016, 5, 30),
                  at(2016, 9, 4), at(2016, 9, 5), at(2016, 11, 25),
                  at(2016, 12, 31), at(1903, 12, 30)):
            for base, ns in (('D', [1, 3, 120, 400]), ('H', [1, 30])):
                yield {'base': base, 'start': s, 'ns': ns,
                       'm': {'each': 'A', 'at': a,
                             'how': 'nth_weekday_of_month'}}
    # Easter
    for how in ('from_easter_western', 'from_easter_orthodox'):
        offs = (list(range(-60, 61, 1 if not quick else 4)) +
                [-2, 1, 39, 50, -47])
        for off in sorted(set(offs)):
            yield {'base': 'D', 'start': at(2011, 3, 1), 'ns': [1500],
                   'm': {'each': 'A', 'at': [d(days=off)], 'how': how}}
        for each in ('2A', '3A', '4A-MAR', '5A', '7A', '2Q', '7M', '30M'):
            for a in ([d(days=0)], [d(days=-2), d(days=1)], [d(months=-1)]):
                for s in (at(2008, 3, 23), at(2011, 1, 1)):
                    yield {'base': 'D', 'start': s, 'ns': [4000],
                           'm': {'each': each, 'at': a, 'how': how}}
        for each in ('A-MAR', 'A-APR', 'Q', 'Q-JAN', 'M', 'W', 'A-DEC'):
            for a in ([d(days=0)], [d(days=-2), d(days=1)], [d(weeks=7)],
                      [d(days=-14)], [d(shift=2)], [d(months=1)],
                      [d(hours=30)], [d(days=-46), d(days=0)],
                      [d(weeks=-4)], [d(hours=-30)], [d(months=-1)],
                      [d(weeks=-1), d(weeks=1, days=-3)],
                      [d(months=1, days=-31)], [d(months=-1, days=31)],
                      [d(months=1, days=-29), d(minutes=-1)]):
                for s, n in ((at(2015, 4, 1), 400), (at(2016, 3, 26), 60),
                             (at(2016, 5, 2), 20)):
                    yield {'base': 'D', 'start': s, 'ns': [n],
                           'm': {'each': each, 'at': a, 'how': how}}
        for y in range(1890, 2211, 20):
            yield {'base': 'D', 'start': at(y, 1, 1), 'ns': [20 * 365 + 5],
                   'm': {'each': 'A', 'at': [d(days=0)], 'how': how},
                   'structs': [CYC]}
        for a in ([d(days=0, hours=8), d(days=1)], [d(hours=-6)]):
            yield {'base': 'H', 'start': at(2016, 3, 26, 5), 'ns': [20, 70],
                   'm': {'each': 'A', 'at': a, 'how': how}}
    # a rule supplied by the user
    for each in ('W', 'M', 'A', 'Q-FEB', 'D'):
        for a in ([d()], [d(back=0), d(back=3)], [d(back=10), d(back=1)]):
            for s in (at(2016, 2, 28), at(2016, 2, 29), at(2016, 12, 31)):
                yield {'base': 'D', 'start': s, 'ns': [3, 40, 400],
                       'm': {'each': each, 'at': a, 'how': 'fn:last_day'}}
                yield {'base': 'H', 'start': s, 'ns': [11, 40],
                       'm': {'each': each, 'at': a, 'how': 'fn:last_day'}}
    # one marker or organizer for several boards
    for k in range(len(SHARED)):
        for f in range(len(SHARE)):
            for whole in (False, True):
                yield {'shared': k, 'first': f, 'organizer': whole}
    # below another organizer
    inner = [{'each': 'W', 'at': [d(days=2), d(days=5)]},
             {'each': 'M', 'at': [d(days=14), d(days=30)]},
             {'each': 'A', 'at': [d(days=0)], 'how': 'from_easter_western'},
             {'each': 'M', 'at': [d(month=1, week=2, weekday=3)],
              'how': 'nth_weekday_of_month'},
             {'each': 'W', 'at': [d(days=9)]}]
    outer = [{'marker': 'M'}, {'marker': 'Q'},
             {'marker': {'each': 'A', 'at': [d(months=4),
                                             d(months=8, days=15)]}},
             {'marks': [at(2016, 3, 10), at(2016, 3, 27, 5),
                        at(2016, 5, 1)]}]
    for o in outer:
        for i in inner:
            for st in (CYC, PAT):
                for s in (at(2016, 2, 20), at(2016, 3, 27), at(2016, 4, 30)):
                    yield {'base': 'D', 'start': s, 'ns': [30, 200],
                           'lay': dict(o, structure=[
                               {'marker': i, 'structure': st}, {'s': 99},
                               {'marker': i, 'structure': st}])}


# boards which may share a marker: the same and other ranges, other base units
SHARE = [('D', at(2016, 2, 28), 70), ('12H', at(2016, 2, 28), 140),
         ('8H', at(2016, 2, 28), 210), ('H', at(2016, 2, 28), 1680),
         ('D', at(2016, 3, 1), 40), ('D', at(2016, 2, 28), 400),
         ('2D', at(2016, 2, 28), 35), ('W', at(2016, 2, 29), 10),
         ('M', at(2016, 2, 1), 3), ('D', at(2017, 2, 28), 70)]
SHARED = [
    d(each='W', at=[d(hours=30)]), d(each='W', at=[d(days=2), d(days=5)]),
    d(each='M', at=[d(days=9, hours=20), d(days=30)]),
    d(each='D', at=[d(hours=12)]), d(each='D', at=[d(hours=7), d(hours=8)]),
    d(each='Q', at=[d(months=1, hours=9)]), d(each='M'), d(each='W'),
    d(each='A', at=[d(months=2, days=4, hours=13), d(months=3)]),
    d(each='A', at=[d(days=1, hours=12), d(days=-2)],
      how='from_easter_western'),
    d(each='M', at=[d(hours=-30), d(weeks=1)], how='from_easter_orthodox'),
    d(each='A', at=[d(month=3, week=2, weekday=3, shift=1),
                    d(month=4, week=-1, weekday=7)],
      how='nth_weekday_of_month'),
    d(each='Q', at=[d(month=3, week=1, weekday=1)],
      how='nth_weekday_of_month'),
    d(each='M', at=[d(back=0), d(back=3)], how='fn:last_day'),
]


class Shared(real.Parts):
    """One marker object for all boards."""

    def __init__(self, m):
        real.Parts.__init__(self)
        self.one = real.Parts.marker(self, m)

    def marker(self, m):
        return self.one


def run_shared(case, log):
    m = SHARED[case['shared']]
    l = {'marker': m, 'structure': CYC}
    first, whole = case['first'], case['organizer']
    for second in range(len(SHARE)):
        parts = Shared(m)
        layout = parts.layout(l) if whole else None
        for f in (first, second, first):
            freq, start, n = SHARE[f]
            lay.check_board(boards.spec(freq, start, n, layout=l), log, parts,
                            layout=layout)


def run(case, log):
    if 'shared' in case:
        return run_shared(case, log)
    for n in case['ns']:
        if 'lay' in case:
            lays = [case['lay']]
        else:
            lays = [{'marker': case['m'], 'structure': st}
                    for st in case.get('structs') or
                    (CYC, [P5], [{'s': 'x'}, P5])]
        for l in lays:
            sp = boards.spec(case['base'], case['start'], n, layout=l)
            m, b = lay.check_board(sp, log)
            if m is not None and not log.samples:
                log.samples.append({'spec': sp, 'spans': m.cuts[:6],
                                    'labels': m.labels[:10]})
