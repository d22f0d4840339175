"""Reference calendar arithmetic: integers (nanoseconds since 1970) only.

Nothing here imports pandas, dateutil or timeboard; it is the independent half
of the comparison.
"""
import datetime as _dt
import re

NS = 10 ** 9
SEC, MIN, HOUR, DAY = NS, 60 * NS, 3600 * NS, 86400 * NS
_EPOCH = _dt.date(1970, 1, 1).toordinal()
_WD = {'MON': 0, 'TUE': 1, 'WED': 2, 'THU': 3, 'FRI': 4, 'SAT': 5, 'SUN': 6}
_MO = dict(JAN=1, FEB=2, MAR=3, APR=4, MAY=5, JUN=6, JUL=7, AUG=8, SEP=9,
           OCT=10, NOV=11, DEC=12)
FIXED = {'S': SEC, 'T': MIN, 'min': MIN, 'H': HOUR, 'D': DAY,
         'L': 10 ** 6, 'ms': 10 ** 6, 'U': 1000, 'us': 1000, 'N': 1, 'ns': 1}


def day(y, m, d):
    """Start of a day."""
    return (_dt.date(y, m, d).toordinal() - _EPOCH) * DAY


def at(y, m, d, h=0, mi=0, s=0):
    return day(y, m, d) + h * HOUR + mi * MIN + s * SEC


def ymd(t):
    d = _dt.date.fromordinal(t // DAY + _EPOCH)
    return d.year, d.month, d.day


def weekday(t):
    return (t // DAY + 3) % 7          # 1 Jan 1970 was a Thursday


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31][m - 1]


def iso(t):
    """ISO text of a time; nanoseconds included when there are any."""
    y, m, d = ymd(t)
    r = t % DAY
    s = '%04d-%02d-%02d' % (y, m, d)
    if r:
        s += ' %02d:%02d:%02d' % (r // HOUR, r % HOUR // MIN, r % MIN // SEC)
        if r % SEC:
            s += '.%09d' % (r % SEC)
    return s


def add_months(t, n):
    y, m, d = ymd(t)
    k = y * 12 + m - 1 + n
    y2, m2 = k // 12, k % 12 + 1
    return day(y2, m2, min(d, month_len(y2, m2))) + t % DAY


def _compound(freq):
    """'1D12H', '1.5H': the sum, in the longest unit which divides it."""
    total, rest = 0, freq
    while rest:
        m = re.match(r'^(\d*)(?:\.(\d+))?([A-Za-z]+)', rest)
        size = FIXED[_ALIAS.get(m.group(3), m.group(3))]
        total += int(m.group(1) or 1) * size
        if m.group(2):
            total += int(m.group(2)) * size // 10 ** len(m.group(2))
        rest = rest[m.end():]
    for base in 'DHTSLUN':
        if total % FIXED[base] == 0:
            return total // FIXED[base], base, None


_ALIAS = {'Y': 'A', 'min': 'T', 'ms': 'L', 'us': 'U', 'ns': 'N', 'd': 'D',
          'h': 'H', 't': 'T', 's': 'S', 'w': 'W'}


def parse(freq):
    """-> (multiplier, base, anchor)"""
    m = re.match(r'^(\d*)([A-Za-z]+)(?:-([A-Z]+))?$', freq)
    if m is None:
        return _compound(freq)
    mult = int(m.group(1) or 1)
    base, anchor = m.group(2), m.group(3)
    base = _ALIAS.get(base, base)
    if base == 'W':
        anchor = _WD[anchor or 'SUN']
    elif base in ('Q', 'A'):
        anchor = _MO[anchor or 'DEC']
    return mult, base, anchor


def single(freq):
    """The same frequency without its multiplier."""
    if re.match(r'^\d*[A-Za-z]+(?:-[A-Z]+)?$', freq):
        return freq.lstrip('0123456789')
    return parse(freq)[1]


def ordinal(base, anchor, t):
    """Number of the base period (multiplier 1) which contains t."""
    if base in FIXED:
        return t // FIXED[base]
    if base == 'W':
        # a week ends on the anchor weekday, starts on the day after it
        return (t // DAY + 3 - (anchor + 1)) // 7
    y, m, _ = ymd(t)
    k = y * 12 + m - 1
    if base == 'M':
        return k
    if base == 'Q':
        return (k - anchor % 12) // 3
    if base == 'A':
        return (k - anchor % 12) // 12
    raise ValueError(base)


def ordinal_start(base, anchor, n):
    if base in FIXED:
        return n * FIXED[base]
    if base == 'W':
        return (n * 7 + (anchor + 1) - 3) * DAY
    k = {'M': lambda: n, 'Q': lambda: n * 3 + anchor % 12,
         'A': lambda: n * 12 + anchor % 12}[base]()
    return day(k // 12, k % 12 + 1, 1)


def floor(freq, t):
    """Start of the period of frequency freq (multiplier ignored) holding t."""
    _, b, a = parse(freq)
    return ordinal_start(b, a, ordinal(b, a, t))


def period(freq, t):
    """(start, next start) of the period beginning at the base period of t."""
    m, b, a = parse(freq)
    o = ordinal(b, a, t)
    return ordinal_start(b, a, o), ordinal_start(b, a, o + m)


def frame(freq, start, end):
    """Periods [(start, next start)] from the one holding start to the one
    holding end."""
    m, b, a = parse(freq)
    o, last = ordinal(b, a, start), ordinal(b, a, end)
    out = []
    while o <= last:
        out.append((ordinal_start(b, a, o), ordinal_start(b, a, o + m)))
        o += m
    return out


def easter(y, kind='western'):
    """Easter Sunday (Gregorian date) as a day start."""
    if kind == 'western':
        # Oudin / Butcher
        g = y % 19
        c = y // 100
        h = (c - c // 4 - (8 * c + 13) // 25 + 19 * g + 15) % 30
        i = h - (h // 28) * (1 - (h // 28) * (29 // (h + 1)) * ((21 - g) // 11))
        j = (y + y // 4 + i + 2 - c + c // 4) % 7
        p = i - j
        return day(y, 3, 1) + (p + 27) * DAY
    # orthodox: Meeus Julian algorithm, converted by 13 days (1900-2099)
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    m, dd = (d + e + 114) // 31, (d + e + 114) % 31 + 1
    shift = y // 100 - y // 400 - 2
    return day(y, m, dd) + shift * DAY


def nth_weekday(y, m, wd, n):
    """n-th (n>0) or n-th last (n<0) weekday wd (1=Mon..7=Sun) of a month,
    or None."""
    days = [day(y, m, d) for d in range(1, month_len(y, m) + 1)
            if weekday(day(y, m, d)) == wd - 1]
    try:
        return days[n - 1] if n > 0 else days[n]
    except IndexError:
        return None


def offset(t, kw):
    """Calendar offset: years and months first (clamped), then the rest."""
    t = add_months(t, 12 * kw.get('years', 0) + kw.get('months', 0))
    return t + (kw.get('weeks', 0) * 7 * DAY + kw.get('days', 0) * DAY
                + kw.get('hours', 0) * HOUR + kw.get('minutes', 0) * MIN
                + kw.get('seconds', 0) * SEC
                + kw.get('microseconds', 0) * 1000 + kw.get('nanoseconds', 0))
