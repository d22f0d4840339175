"""Reference model of a timeboard: plain lists and dictionaries.

Nothing of timeboard or pandas is imported.  A timeboard is described by a
JSON-able `spec`:

  freq, start, end          base unit frequency; points in time (ns)
  layout                    {'pat': [labels]} | {'rp': k} | organizer
  amend                     [[point ns, label], ...]
  ref                       'start' | 'end'
  dl                        default label (None: NaN)
  wt                        'duration' | 'labels'
  sel, name                 selector of the default schedule, its name
  rps                       label lists of the remembering patterns, by index
  more                      [[name, selector], ...] added schedules

organizer: {'marker': 'W' | {'each','at','how'}, 'structure': S} or
           {'marks': [ns], 'structure': S}
S: list of elements, or {'rp': k}
element: {'p': [labels]} pattern, {'rp': k}, {'s': label} scalar label,
         organizer
"""
from . import cal

SELECTORS = {
    'bool': lambda x: bool(x),
    'not': lambda x: not bool(x),
    'gt1': lambda x: x > 1,
    'eq1': lambda x: x == 1,
    'eq2': lambda x: x == 2,
    'eqA': lambda x: x == 'A',
    'eqB': lambda x: x == 'B',
    'all': lambda x: True,
    'none': lambda x: False,
    'isint': lambda x: isinstance(x, int),
    'truthy': lambda x: x,           # not a bool: the label itself
    'isnull': lambda x: x is None or x != x,
}


class ModelError(Exception):
    """Expected failure: `kinds` are the acceptable error classes."""

    def __init__(self, *kinds):
        Exception.__init__(self, kinds)
        self.kinds = frozenset(kinds)


class Undecided(Exception):
    """The documentation leaves this configuration open."""


OOB, PART, VOID, UNACC = ('OutOfBoundsError', 'PartialOutOfBoundsError',
                          'VoidIntervalError', 'UnacceptablePeriodError')


class RP(object):
    """One endless cycle over labels."""

    def __init__(self, labels):
        self.labels = list(labels)
        self.pos = 0

    def next(self):
        x = self.labels[self.pos % len(self.labels)]
        self.pos += 1
        return x


# ----------------------------------------------------------------- markers

_MONTHS = {'M': 1, 'Q': 3, 'A': 12}
_RANK = {'N': -3, 'U': -2, 'L': -1, 'S': 0, 'T': 1, 'H': 2, 'D': 3}


def fits(base, each):
    """Do base units fit into periods `each`? True / False / None (open)."""
    bm, bb, ba = cal.parse(base)
    em, eb, ea = cal.parse(each)
    if (bb, ba) == (eb, ea):
        if bm == 1 and em == 1 and bb in ('M', 'Q', 'A'):
            return None
        return em % bm == 0
    if bm > 1:
        # whether groups of base units are aligned with the periods depends
        # on the start of the frame: open unless they cannot be
        if bb in _RANK:
            unit = cal.FIXED[bb] * bm
            if eb in _RANK or eb == 'W':
                per = em * (7 * cal.DAY if eb == 'W' else cal.FIXED[eb])
                return False if per % unit else None
            return False if cal.DAY % unit else None
        if bb == 'W':
            return (None if eb == 'D' and em % (7 * bm) == 0 else False)
        if eb not in _MONTHS:
            return False
        return (False if em * _MONTHS[eb] % (bm * _MONTHS[bb]) else None)
    if bb in _RANK:
        return _RANK[eb] > _RANK[bb] if eb in _RANK else True
    if bb == 'W':
        return False
    if bb == 'M':
        return eb in ('Q', 'A')
    if bb == 'Q':
        return eb == 'A' and (ea - ba) % 3 == 0
    return False        # years


def rule_points(how, kw, ps, pe, base):
    """Points the rule yields in the period [ps, pe)."""
    _, bb, ba = cal.parse(base)
    fl = lambda t: cal.ordinal_start(bb, ba, cal.ordinal(bb, ba, t))
    if how == 'from_start_of_each':
        cand = [fl(cal.offset(ps, kw))]
    elif how == 'nth_weekday_of_month':
        y, m, _ = cal.ymd(ps)
        k = y * 12 + m - 1 + kw['month'] - 1
        t = cal.nth_weekday(k // 12, k % 12 + 1, kw['weekday'], kw['week'])
        if cal.day(k // 12, k % 12 + 1, 1) >= pe:
            t = None            # the period has no such month
        cand = [] if t is None else [t + (kw.get('shift') or 0) * cal.DAY]
    elif how == 'fn:last_day':          # a rule supplied by the user
        cand = [(pe - 1) // cal.DAY * cal.DAY - kw.get('back', 0) * cal.DAY
                + 12 * cal.HOUR]
    else:
        kind = 'orthodox' if how.endswith('orthodox') else 'western'
        kw = dict(kw)
        if 'shift' in kw:
            kw['days'] = kw.pop('shift') or 0
        cand = []
        for y in range(cal.ymd(ps)[0], cal.ymd(pe - 1)[0] + 1):
            e = cal.easter(y, kind)
            if ps <= e < pe:
                cand.append(fl(cal.offset(e, kw)))
    return [t for t in cand if ps <= t < pe]


def marker_parts(marker):
    if isinstance(marker, str):
        return marker, None, 'from_start_of_each'
    return (marker['each'], marker.get('at'),
            marker.get('how') or 'from_start_of_each')


class Board(object):
    """The model timeboard built from `spec`; `rps` may be shared."""

    def __init__(self, spec, rps=None):
        self.spec = spec
        self.freq = spec['freq']
        self.mult, self.base, self.anchor = cal.parse(self.freq)
        self.units = cal.frame(self.freq, spec['start'], spec['end'])
        if not self.units:
            raise ModelError(VOID)
        n = len(self.units)
        self.start, self.end = self.units[0][0], self.units[-1][1] - 1
        if rps is None:
            rps = [RP(x) for x in spec.get('rps', [])]
        self.rps = rps
        self._ulabel = [spec.get('dl')] * n
        self._first = [True] * n
        self.cuts = []              # (depth, first, last, skip) of every span
        lay = spec['layout']
        if 'pat' in lay:
            lay = {'marks': [], 'structure': [{'p': lay['pat']}]}
        elif set(lay) == {'rp'}:
            lay = {'marks': [], 'structure': [{'rp': lay['rp']}]}
        self._organize(lay, 0, n - 1, 0)
        idx = [i for i in range(n) if self._first[i]]
        self.ws = []
        for j, i in enumerate(idx):
            k = idx[j + 1] - 1 if j + 1 < len(idx) else n - 1
            self.ws.append((i, k))
        self.labels = [self._ulabel[i] for i in idx]
        self.ref = spec.get('ref') or 'start'
        self.wt = spec.get('wt') or 'duration'
        self._amend(spec.get('amend') or [])
        self.name = spec.get('name') or 'on_duty'
        self.schedules = {}
        self.order = []
        self._add(self.name, spec.get('sel') or 'bool')
        for nm, s in spec.get('more') or []:
            self.add_schedule(nm, s)

    # ---- layout
    def _units_before(self, left, span_start):
        """Number of base units between `left` and the span's start."""
        a = cal.ordinal(self.base, self.anchor, left)
        b = cal.ordinal(self.base, self.anchor, span_start)
        return -((a - b) // self.mult) if b > a else 0

    def _unit_at(self, t, lo=0, hi=None):
        lo, hi = 0, len(self.units) - 1
        if not self.start <= t <= self.end:
            return None
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if self.units[mid][0] <= t:
                lo = mid
            else:
                hi = mid - 1
        return lo

    def _cut(self, first, last, points):
        at = set()
        for t in points:
            u = self._unit_at(t)
            if u is not None and first < u <= last:
                at.add(u)
        at = sorted(at)
        return list(zip([first] + at, [u - 1 for u in at] + [last]))

    def _spans(self, org, first, last):
        if 'marks' in org:
            return [(a, b, 0) for a, b in self._cut(first, last,
                                                   org['marks'])]
        each, at, how = marker_parts(org['marker'])
        ok = fits(self.freq, each)
        if ok is None:
            raise Undecided('fit of %s in %s' % (self.freq, each))
        if not ok:
            raise ModelError(UNACC)
        s0, s1 = self.units[first][0], self.units[last][1] - 1
        if not at:
            st = cal.frame(each, s0, s1)
            skip = self._units_before(st[0][0], s0)
            return [(a, b, skip if a == first else 0) for a, b in
                    self._cut(first, last, [p[0] for p in st])]
        # multiplied periods are counted from the start of the span
        em, eb, ea = cal.parse(each)
        o0, o1 = cal.ordinal(eb, ea, s0), cal.ordinal(eb, ea, s1)
        pts = []
        for o in range(o0 - 30 * em, o1 + 1, em):
            ps, pe = (cal.ordinal_start(eb, ea, o),
                      cal.ordinal_start(eb, ea, o + em))
            for kw in at:
                pts += [(t, o) for t in rule_points(how, kw, ps, pe,
                                                    self.freq)]
        cuts = self._cut(first, last, [t for t, _ in pts])
        prev = [(t, o) for t, o in pts if t < self.units[first][1]]
        if not prev:
            skip = 'none'
        else:
            t, o = max(prev)
            if t >= s0:
                skip = 0
            else:
                skip = self._units_before(t, s0)
                if o < o0 - em:
                    skip = ('far', skip)
        return [(a, b, skip if a == first else 0) for a, b in cuts]

    def _organize(self, org, first, last, depth):
        st = org['structure']
        k = 0
        for a, b, skip in self._spans(org, first, last):
            self.cuts.append((depth, a, b, skip))
            if isinstance(st, dict):
                el = {'s': self.rps[st['rp']].next()}
            elif not st:
                return
            else:
                el = st[k % len(st)]
            k += 1
            if 'marker' in el or 'marks' in el:
                self._organize(el, a, b, depth + 1)
            elif 's' in el:
                self._ulabel[a] = el['s']
                for u in range(a + 1, b + 1):
                    self._first[u] = False
            else:
                rp = self.rps[el['rp']] if 'rp' in el else None
                pat = el.get('p')
                if rp is None and not pat:
                    if skip == 'none' or isinstance(skip, tuple):
                        # nothing to label: refusing is tolerated
                        self.maybe = True
                    continue
                if skip == 'none':
                    raise ModelError(OOB)
                if isinstance(skip, tuple):
                    self.maybe = True
                    skip = skip[1]
                if rp is not None:
                    for _ in range(skip):
                        rp.next()
                for i, u in enumerate(range(a, b + 1)):
                    self._ulabel[u] = (rp.next() if rp is not None else
                                       pat[(skip + i) % len(pat)])

    maybe = False      # OutOfBoundsError is an acceptable outcome, too

    def _amend(self, amend):
        done = {}
        for t, lb in amend:
            i = self.find(t)
            if i is None:
                continue
            if i in done:
                raise ModelError('KeyError')
            done[i] = lb
        for i, lb in done.items():
            self.labels[i] = lb

    # ---- schedules
    def _add(self, name, sel):
        f = SELECTORS[sel]
        self.schedules[name] = [bool(f(x)) for x in self.labels]
        self.order.append(name)

    def add_schedule(self, name, sel):
        if name in self.schedules:
            raise ModelError('KeyError')
        self._add(name, sel)

    def drop_schedule(self, name):
        del self.schedules[name]
        self.order.remove(name)

    # ---- workshifts
    def __len__(self):
        return len(self.ws)

    def ws_start(self, i):
        return self.units[self.ws[i][0]][0]

    def ws_end(self, i):
        return self.units[self.ws[i][1]][1] - 1

    def ws_dur(self, i):
        return self.ws[i][1] - self.ws[i][0] + 1

    def ws_ref(self, i):
        return self.ws_end(i) if self.ref == 'end' else self.ws_start(i)

    def find(self, t):
        """Position of the workshift containing t, or None."""
        if t is None:
            return None
        u = self._unit_at(t)
        if u is None:
            return None
        lo, hi = 0, len(self.ws) - 1
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if self.ws[mid][0] <= u:
                lo = mid
            else:
                hi = mid - 1
        return lo

    def on(self, i, sch):
        return self.schedules[sch][i]

    def has(self, i, duty, sch):
        if duty == 'any':
            return True
        if duty not in ('on', 'off'):
            raise ModelError('ValueError')
        return self.schedules[sch][i] == (duty == 'on')

    def members(self, lo, hi, duty, sch):
        return [i for i in range(lo, hi + 1) if self.has(i, duty, sch)]

    # ---- rolls
    def roll(self, i, steps, duty, sch, back=False):
        if duty in ('same', 'alt'):
            duty = 'on' if self.on(i, sch) == (duty == 'same') else 'off'
        m = self.members(0, len(self) - 1, duty, sch)
        if back:
            z = [k for k in range(len(m)) if m[k] <= i]
            k = z[-1] - steps if z else None
        else:
            z = [k for k in range(len(m)) if m[k] >= i]
            k = z[0] + steps if z else None
        if k is None or not 0 <= k < len(m):
            raise ModelError(OOB)
        return m[k]

    # ---- intervals; each returns (lo, hi)
    def _where(self, t):
        i = self.find(t)
        if i is not None:
            return i, 0
        return None, (-1 if t < self.start else 1)

    def _finish(self, a, b, closed):
        (i, wi), (j, wj) = a, b
        if i is not None and j is not None:
            i += closed[0] == '0'
            j -= closed[1] == '0'
            if i > j:
                raise ModelError(VOID)
            return i, j
        # some end is outside
        if wi > wj:
            raise ModelError(VOID)
        if wi == wj:
            raise ModelError(OOB)
        raise ModelError(PART)

    @staticmethod
    def _check_closed(closed):
        if closed not in ('00', '01', '10', '11'):
            raise ModelError('ValueError')

    def by_points(self, p, q, closed='11'):
        """None: the respective end of the board."""
        self._check_closed(closed)
        a = (0, 0) if p is None else self._where(p)
        b = (len(self) - 1, 0) if q is None else self._where(q)
        return self._finish(a, b, closed)

    def by_length(self, p, n, closed='11'):
        self._check_closed(closed)
        if n == 0:
            raise ModelError(VOID)
        i, w = self._where(p)
        if i is None:
            raise ModelError(OOB)
        j = i + n - (1 if n > 0 else -1)
        if j < 0:
            return self._finish((None, -1), (i, 0), closed)
        if j >= len(self):
            return self._finish((i, 0), (None, 1), closed)
        return self._finish((min(i, j), 0), (max(i, j), 0), closed)

    def referred(self, s, e):
        """Positions of workshifts whose reference time is in [s, e]."""
        return [i for i in range(len(self)) if s <= self.ws_ref(i) <= e]

    def by_period(self, ps, pe, clip=True, closed='11'):
        """Period [ps, pe] (pe: its last nanosecond)."""
        self._check_closed(closed)
        if pe < self.start or ps > self.end:
            raise ModelError(OOB)
        mem = self.referred(ps, pe)
        left, right = ps < self.start, pe > self.end
        if not mem:
            if left or right:
                # the common part holds no workshift: neither documented
                raise ModelError(OOB, VOID, PART)
            raise ModelError(VOID)
        if (left or right) and not clip:
            raise ModelError(PART)
        i, j = mem[0], mem[-1]
        if closed[0] == '0' and not left:
            i += 1
        if closed[1] == '0' and not right:
            j -= 1
        if i > j:
            raise ModelError(VOID)
        return i, j

    # ---- interval calculations; an interval is (lo, hi), void if lo > hi
    def nth(self, lo, hi, n, duty, sch):
        m = self.members(lo, hi, duty, sch)
        if not -len(m) <= n < len(m):
            raise ModelError(OOB)
        return m[n]

    def duration(self, lo, hi, duty, sch):
        return sum(self.ws_dur(i) for i in self.members(lo, hi, duty, sch))

    def ws_worktime(self, i, duty, sch):
        if not self.has(i, duty, sch):
            return 0
        if self.wt == 'labels':
            if not isinstance(self.labels[i], (int, float)):
                raise ModelError('TypeError')
            return self.labels[i]
        return self.ws_dur(i)

    def worktime(self, lo, hi, duty, sch):
        return sum(self.ws_worktime(i, duty, sch)
                   for i in self.members(lo, hi, duty, sch))

    def count_periods(self, lo, hi, freq, duty, sch):
        if freq not in ('S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y'):
            raise ModelError(UNACC)
        mine = self.members(lo, hi, duty, sch)
        if not mine:
            return 0.0
        per = cal.frame(freq, self.ws_start(lo), self.ws_end(hi))
        first = cal.period(freq, self.ws_ref(mine[0]))
        last = cal.period(freq, self.ws_ref(mine[-1]))
        errs = []
        total = 0.0
        for s, e in per:
            out = s < self.start or e - 1 > self.end
            allm = self.referred(s, e - 1)
            if out:
                if (s, e) in (first, last):
                    errs.append((OOB, PART))
                continue
            if not allm:
                errs.append((UNACC,))
                continue
            x = [i for i in allm
                 if lo <= i <= hi and self.has(i, duty, sch)]
            if x:
                total += float(len(x)) / len([i for i in allm
                                              if self.has(i, duty, sch)])
        if errs:
            raise ModelError(*[k for ks in errs for k in ks])
        return total

    def portion(self, a, b, duty, sch):
        lo, hi = max(a[0], b[0]), min(a[1], b[1])
        x = len(self.members(lo, hi, duty, sch))
        if a[0] > a[1] or b[0] > b[1] or not x:
            return 0.0
        return float(x) / len(self.members(b[0], b[1], duty, sch))

    # ---- canonical state
    def state(self):
        return (self.freq, self.start, self.end, tuple(self.ws),
                tuple(map(repr, self.labels)), self.ref, self.wt,
                tuple(sorted((k, tuple(v))
                             for k, v in self.schedules.items())))
