"""Holiday rules of the national calendars, as published with the package;
days are ns, labels hours."""
from . import cal
from .cal import day, DAY

RANGE = {'US': (2000, 2020), 'UK': (2000, 2020), 'RU': (2005, 2021)}

US_FIXED = {'new_year': (1, 1), 'independence': (7, 4), 'veterans': (11, 11),
            'christmas': (12, 25)}
US_FLOAT = {'mlk': (1, 1, 3, 0), 'presidents': (2, 1, 3, 0),
            'memorial': (5, 1, -1, 0), 'labor': (9, 1, 1, 0),
            'columbus': (10, 1, 2, 0), 'thanksgiving': (11, 4, 4, 0),
            'black_friday': (11, 4, 4, 1)}
US_ONCE = {'xmas_additional_day': [(2014, 12, 26), (2018, 12, 24)],
           'one_off': [(2018, 12, 5)]}
US_NAMES = sorted(US_FIXED) + sorted(US_FLOAT) + sorted(US_ONCE)

UK_FIXED = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17),
            'orangemens': (7, 12), 'st_andrews': (11, 30),
            'christmas': (12, 25), 'boxing': (12, 26)}
UK_FLOAT = {'early_may': (5, 1, 1), 'spring': (5, 1, -1),
            'summer': (8, 1, -1)}
UK_EASTER = {'good_friday': -2, 'easter_monday': 1}
UK_ROYAL = [(2002, 6, 3), (2002, 6, 4), (2011, 4, 29), (2012, 6, 4),
            (2012, 6, 5)]
UK_MOVED = {('early_may', 2020): (5, 8)}
# the spring holiday of these years is celebrated in June with the jubilee
UK_NO_SPRING = (2002, 2012)
UK_NOT = {'england': {'new_year2', 'st_patricks', 'orangemens', 'st_andrews'},
          'scotland': {'st_patricks', 'orangemens', 'easter_monday'},
          'northern_ireland': {'new_year2', 'st_andrews'}}
UK_NAMES = sorted(UK_FIXED) + sorted(UK_FLOAT) + sorted(UK_EASTER) + ['royal']


def extend(table, how):
    """Days off replacing those on Saturday and Sunday: the weekday before a
    Saturday and after a Sunday (nearest), or after both (next); a taken day
    gives way to the following one in the same direction."""
    out = dict(table)
    for t in sorted(table):
        wd = cal.weekday(t)
        if wd < 5:
            continue
        step = -DAY if how == 'nearest' and wd == 5 else DAY
        x = t
        while x in out or cal.weekday(x) >= 5:
            x += step
        out[x] = table[t]
    return out


def us(years, off=(), long_weekends=True):
    ys = range(years[0] - 1, years[1] + 2)
    t = {day(y, m, d): 0 for n, (m, d) in US_FIXED.items() for y in ys
         if n not in off}
    if long_weekends:
        t = extend(t, 'nearest')
    for n, (m, wd, k, sh) in US_FLOAT.items():
        if n not in off:
            for y in ys:
                t[cal.nth_weekday(y, m, wd, k) + sh * DAY] = 0
    for n, ds in US_ONCE.items():
        if n not in off:
            for x in ds:
                t[day(*x)] = 0
    return t


def uk(years, country='england', off=(), long_weekends=True):
    ys = range(years[0] - 1, years[1] + 2)
    off = set(off) | UK_NOT[country]
    t = {day(y, m, d): 0 for n, (m, d) in UK_FIXED.items() for y in ys
         if n not in off}
    if long_weekends:
        t = extend(t, 'next')
    for n, (m, wd, k) in UK_FLOAT.items():
        if n in off:
            continue
        if n == 'summer' and country == 'scotland':
            k = 1
        for y in ys:
            if n == 'spring' and y in UK_NO_SPRING:
                continue
            if (n, y) in UK_MOVED:
                t[day(y, *UK_MOVED[n, y])] = 0
            else:
                t[cal.nth_weekday(y, m, wd, k)] = 0
    for n, sh in UK_EASTER.items():
        if n not in off:
            for y in ys:
                t[cal.easter(y) + sh * DAY] = 0
    if 'royal' not in off:
        for x in UK_ROYAL:
            t[day(*x)] = 0
    return t


RU_FIXED = [(1, d) for d in range(1, 8)] + [(2, 23), (3, 8), (5, 1), (5, 9),
                                            (6, 12), (11, 4)]
# moved days: year -> (days off, short days, working days off the usual week)
RU_MOVED = {
    2005: ('1-10 3-7 5-2 5-10 6-13', '2-22 3-5 11-3', '5-14'),
    2006: ('1-9 2-24 5-8 11-6', '2-22 3-7 5-6 11-3', '2-26'),
    2007: ('1-8 4-30 6-11 11-5 12-31', '2-22 3-7 4-28 5-8 6-9 12-29', ''),
    2008: ('1-8 2-25 3-10 5-2 6-13 11-3',
           '2-22 3-7 4-30 5-8 6-11 11-1 12-31', '5-4 6-7'),
    2009: ('1-8 1-9 3-9 5-11', '4-30 5-8 6-11 11-3 12-31', '1-11'),
    2010: ('1-8 2-22 5-3 5-10 6-14 11-5', '2-27 4-30 6-11 11-3 12-31',
           '11-13'),
    2011: ('1-10 3-7 5-2 6-13', '2-22 3-5 11-3', ''),
    2012: ('1-9 3-9 4-30 5-7 5-8 6-11 11-5 12-31',
           '2-22 3-7 4-28 5-12 6-9 12-29', '3-11 5-5'),
    2013: ('1-8 5-2 5-3 5-10', '2-22 3-7 4-30 5-8 6-11 12-31', ''),
    2014: ('1-8 3-10 5-2 6-13 11-3', '2-24 3-7 4-30 5-8 6-11 12-31', ''),
    2015: ('1-8 1-9 3-9 5-4 5-11', '4-30 5-8 6-11 11-3 12-31', ''),
    2016: ('1-8 2-22 3-7 5-2 5-3 6-13', '2-20 11-3', ''),
    2017: ('2-24 5-8 11-6', '2-22 3-7 11-3', ''),
    2018: ('1-8 3-9 4-30 5-2 6-11 11-5 12-31',
           '2-22 3-7 4-28 5-8 6-9 12-29', ''),
    2019: ('1-8 5-2 5-3 5-10', '2-22 3-7 4-30 5-8 6-11 12-31', ''),
    2020: ('1-8 2-24 3-9 5-4 5-5 5-11', '4-30 5-8 6-11 11-3 12-31', ''),
    2021: ('1-8 2-22 5-3 5-10 6-14 11-5 12-31', '2-20 4-30 6-11 11-3', ''),
}


def ru(years, work_on_dec31=True, short_eves=True):
    t = {}
    for y, (off, short, work) in RU_MOVED.items():
        for text, h in ((off, 0), (short, 7 if short_eves else 8), (work, 8)):
            for x in text.split():
                m, d = x.split('-')
                t[day(y, int(m), int(d))] = h
        for m, d in RU_FIXED:
            t[day(y, m, d)] = 0
        if not work_on_dec31:
            t[day(y, 12, 31)] = 0
    return t


def labels(first, last, table):
    """Label of every day of [first, last] (day starts)."""
    out = []
    t = first
    while t <= last:
        out.append(table[t] if t in table else
                   0 if cal.weekday(t) >= 5 else 8)
        t += DAY
    return out
