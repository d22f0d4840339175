From 73960916fb8d0c31d124e7e0f840d1d2279ce417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 01/31] fix: honour a mark located anywhere inside the last
 base unit

---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..bfd0bfe 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -247,7 +247,7 @@ class _Frame(pd.PeriodIndex):
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, unit='ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From 4bb9a257fc653aa3af1a3c9f566c47f084e116d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 02/31] fix: count_periods ignores off-board periods holding no
 workshifts of the duty

---
 timeboard/interval.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..fed6565 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -664,6 +665,7 @@ class Interval(_BaseInterval):
 
         period_duty_count = []
         period_intervals = []
+        out_of_bounds = {}
         for p in period_index:
             try:
                 period_ivl = self._tb.get_interval(
@@ -671,7 +673,10 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError) as e:
+                # this matters only if it is the period where the first or
+                # the last workshift with the specified duty belongs
+                out_of_bounds[len(period_intervals)] = e
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
@@ -691,6 +696,10 @@ class Interval(_BaseInterval):
         last_period_ivl = period_intervals[last_period_with_duty_loc]
         len_of_last_period = period_duty_count[last_period_with_duty_loc]
 
+        for loc in (first_period_with_duty_loc, last_period_with_duty_loc):
+            if loc in out_of_bounds:
+                raise out_of_bounds[loc]
+
         if ivl_duty_end_ts <= period_index[first_period_with_duty_loc].end_time:
             ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)
             return ivl_units_in_only_period / len_of_1st_period
-- 
2.43.0


From 7d7508c6dd59f0339bf2d0bc4561b93f9060650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 03/31] fix: raise VoidIntervalError when 'closed' empties a
 clipped period

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..e4b8281 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -792,7 +792,7 @@ class Timeboard(object):
         
         Compare locations even if one ore both are outside the timeboard,
         """
-        if locs[0].where == LOC_WITHIN and locs[1].where == LOC_WITHIN:
+        if locs[0].position is not None and locs[1].position is not None:
             return locs[0].position <= locs[1].position
         else:
             return locs[0].where <= locs[1].where
-- 
2.43.0


From 79a19abb247d80a00b79ee10371a2d87d9a759ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 04/31] fix: allow amending a fixed-date holiday when
 long_weekends=False (US, UK)

---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..78194a7 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,7 +30,7 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
-- 
2.43.0


From ac5cc179acbc6802d389a5d086f20a1539e1a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 05/31] fix: US calendar ending in a year keeps New Year's Day
 observed on its 31 Dec

---
 timeboard/calendars/US.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 78194a7..f14fe45 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -155,7 +155,8 @@ class Weekly8x5(CalendarBase):
 
         start, end = cls._get_bounds(custom_start, custom_end)
 
-        result = fed_holidays(start.year, end.year, do_not_observe,
+        # New Year's Day of the next year may be observed on 31 Dec
+        result = fed_holidays(start.year, end.year + 1, do_not_observe,
                               long_weekends)
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
-- 
2.43.0


From 1e912724be80b97c78f73284de36acb2b2cf257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 06/31] fix: looking up NaT raises OutOfBoundsError instead of
 returning the last workshift

---
 timeboard/core.py      | 3 ++-
 timeboard/timeboard.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index bfd0bfe..f8a5623 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -235,7 +235,8 @@ class _Frame(pd.PeriodIndex):
         return self._start_times
 
     def get_loc(self, timestamp, not_in_range=None, *kwargs):
-        if timestamp > self.end_time or timestamp < self.start_time:
+        # NaT is not within any bounds
+        if not self.start_time <= timestamp <= self.end_time:
             if not_in_range is None:
                 raise KeyError("Timestamp {} is out of bounds")
             else:
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index e4b8281..d0df4db 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -396,6 +396,9 @@ class Timeboard(object):
             (`where=OOB_LEFT`)
         """
         pit_ts = get_timestamp(point_in_time)
+        if is_null(pit_ts):
+            return self._handle_out_of_bounds(
+                "{!r} is not a point in time".format(point_in_time))
         get_ws_pos_function = self._timeline.get_ws_position
         if by_ref == 'before':
             get_ws_pos_function = self._timeline.get_ws_pos_by_ref_before
-- 
2.43.0


From cef35da72a195b4dc1534c8b90bc79b9ed0f155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 07/31] fix: iterations over the same interval do not interfere

---
 timeboard/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index fed6565..ea0a58a 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -322,7 +322,7 @@ class Interval(_BaseInterval):
 
     def __iter__(self):
         self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        return self.workshifts(duty='any')
 
     def __len__(self):
         return self.length
-- 
2.43.0


From e8832303d20294a51ad1fd99b7f247b5de8eaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 08/31] fix: Easter marks in periods other than calendar years

---
 timeboard/when.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..c6956c0 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -201,9 +201,18 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
-    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
+    # a period may start in one calendar year and end in another
+    bounds_and_easters = [
+        (start, end, pd.Timestamp(easter(year, _easter_type)))
+        for start, end in zip(pi_start_times, pi_end_times)
+        for year in range(start.year, end.year + 1)]
+    bounds_and_easters = [
+        (start, end, easter_date)
+        for start, end, easter_date in bounds_and_easters
+        if start <= easter_date <= end]
+    pi_start_times = pd.DatetimeIndex([b[0] for b in bounds_and_easters])
+    pi_end_times = pd.DatetimeIndex([b[1] for b in bounds_and_easters])
+    easter_dates = pd.DatetimeIndex([b[2] for b in bounds_and_easters])
 
     result = easter_dates + offset
     if normalize_by is not None:
-- 
2.43.0


From aa9b05847a51f2d44ab0f726cceb0b6a2c48efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 09/31] fix: nth_weekday_of_month ignores days outside their
 period

---
 timeboard/when.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index c6956c0..ab0c8d9 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -118,8 +118,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     if shift is None:
         shift = 0
 
-    dti = pi.asfreq(freq='M', how='START').drop_duplicates().to_timestamp(
-        how='start')
+    dti = pi.asfreq(freq='M', how='START').to_timestamp(how='start')
     m_start_times = dti + pd.tseries.offsets.MonthBegin(month - 1,
                                                         normalize=True)
     m_end_times = dti + pd.tseries.offsets.MonthEnd(month, normalize=True)
@@ -127,9 +126,13 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     # timer1 = timeit.default_timer()
     # make sure we are inside put periods pi - this check makes sense when
     # pi.freq is based on 'M'
+    pi_start_times = pi.to_timestamp(how='start')
     pi_end_times = pi.to_timestamp(how='end')
-    m_start_times = m_start_times[m_start_times <= pi_end_times]
-    m_end_times = m_end_times[m_end_times <= pi_end_times]
+    within = m_start_times <= pi_end_times
+    m_start_times = m_start_times[within]
+    m_end_times = m_end_times[within]
+    pi_start_times = pi_start_times[within]
+    pi_end_times = pi_end_times[within]
 
     # timer2 = timeit.default_timer()
     if week > 0:
@@ -142,7 +145,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
             [m_start_times[i] + week_offsets[i]
              for i in range(len(m_start_times))])
 
-        dtw = dtw[dtw <= m_end_times]
+        exists = dtw <= m_end_times
 
     else:
         off_by_one_bug_flag = m_end_times.weekday == weekday - 1
@@ -153,14 +156,17 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         dtw = pd.DatetimeIndex(
             [m_end_times[i] + week_offsets[i]
              for i in range(len(m_end_times))])
-        dtw = dtw[dtw >= m_start_times]
+        exists = dtw >= m_start_times
 
     # timer3 = timeit.default_timer()
     # timers1.append(timer1 - timer0)
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    result = dtw + pd.DateOffset(days=shift)
+    # a shifted day may have been carried over to the adjacent period of `pi`
+    return result[exists & (result >= pi_start_times)
+                  & (result <= pi_end_times)]
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From 490abc2f54f1b06df81d19b83b8d4a511a73800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 10/31] fix: a mark inside the first base unit of a span starts
 the pattern anew

---
 timeboard/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index f8a5623..db7755d 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -441,16 +441,18 @@ class _Frame(pd.PeriodIndex):
             # timer2 = timeit.default_timer()
 
             at_points = pd.DatetimeIndex(np.sort(at_points))
+            # a mark anywhere in the first base unit starts the first subspan
+            first_unit_end_ts = self[span.first].end_time
             at_points = at_points[
                 max([0, np.searchsorted(at_points,
-                                        span_start_ts,
+                                        first_unit_end_ts,
                                         side='right') - 1]):
                 min([len(at_points),
                     np.searchsorted(at_points, span_end_ts) + 1])]
 
             if len(at_points) > 0:
                 left_stencil_bound = min([at_points[0], span_start_ts])
-                left_dangle_undefined = at_points[0] > span_start_ts
+                left_dangle_undefined = at_points[0] > first_unit_end_ts
                 right_stencil_bound = max([span_end_ts,
                                           at_points[-1] - SMALLEST_TIMEDELTA])
                 right_dangle_undefined = at_points[-1] < span_end_ts
-- 
2.43.0


From 3fd3a163839395dcda7cf3f94442218eb76c8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 11/31] fix: accept an iterator, such as RememberingPattern, as
 a timeboard's layout

---
 timeboard/timeboard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index d0df4db..bd21194 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -173,7 +173,9 @@ class Timeboard(object):
         if isinstance(layout, Organizer):
             org = layout
         elif is_iterable(layout):
-            if len(layout) == 1 and isinstance(layout[0], Organizer):
+            # a pattern may be an iterator which has no length
+            if (hasattr(layout, '__len__') and len(layout) == 1 and
+                    isinstance(layout[0], Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From c17b54524bcf9600d3f09e949e4aee4dd4854363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 12/31] fix: a selector returning None means off duty among
 numeric results, too

---
 timeboard/core.py      | 5 ++++-
 timeboard/timeboard.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index db7755d..68b088b 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1184,7 +1184,10 @@ class _Schedule(object):
         self._name = str(name)
         self._selector = selector
 
-        on_duty_bool_index = np.array(self._timeline.labels.apply(self._selector), dtype=bool)
+        # do not let pandas convert None returned by the selector to NaN (True)
+        on_duty_bool_index = np.array(
+            self._timeline.labels.apply(self._selector, convert_dtype=False),
+            dtype=bool)
         self._on_duty_index = nonzero(on_duty_bool_index)[0]
         self._off_duty_index = nonzero(~on_duty_bool_index)[0]
 
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index bd21194..a20420b 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -366,7 +366,7 @@ class Timeboard(object):
             # TODO: refactor to use already computed duty indexes from _Schedule
             df[activity] = list(self._timeline.labels.iloc[
                                 first_ws:last_ws + 1].apply(
-                schedule._selector))
+                schedule._selector, convert_dtype=False).astype(bool))
         return df
 
     def _locate(self, point_in_time, by_ref=None):
-- 
2.43.0


From 4223a8728d91edbc31a4b18488ce9f643af3b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 13/31] fix: extend_weekends never makes a day of another
 weekend the day off

---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..3ca6600 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -144,7 +144,7 @@ def extend_weekends(amendments, how='nearest', label=None, weekend=None):
                 first_step = len(weekend) - loc_in_wend
                 step = 1
         new_day = holiday + datetime.timedelta(days=first_step)
-        while new_day in amendments:
+        while new_day in amendments or new_day.weekday() in weekend:
             new_day += datetime.timedelta(days=step)
         amendments[new_day] = _label
 
-- 
2.43.0


From 4696840d9dd0ed1cc6c283a3382a570dde9fe629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 14/31] fix: UK early May bank holiday of 2020 was on 8 May

---
 timeboard/calendars/UK.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8013139..21ad19f 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -79,6 +79,10 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
         if 'royal' not in do_not_observe:
             amendments[get_timestamp('04 Jun 2012')] = label
             amendments[get_timestamp('05 Jun 2012')] = label
+    if 2020 in years and 'early_may' not in do_not_observe:
+        # moved for the 75th anniversary of VE day
+        del amendments[get_timestamp('04 May 2020')]
+        amendments[get_timestamp('08 May 2020')] = label
 
     return amendments
 
-- 
2.43.0


From 275ca6b853fedb98e241cfe99d0da9a0bdd9d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 15/31] fix: duty and tables do not change when a selector
 changes its mind

---
 timeboard/core.py      | 5 +++--
 timeboard/timeboard.py | 5 +----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 68b088b..131439c 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1188,6 +1188,8 @@ class _Schedule(object):
         on_duty_bool_index = np.array(
             self._timeline.labels.apply(self._selector, convert_dtype=False),
             dtype=bool)
+        # the duty is settled once, whatever the selector returns later
+        self._on_duty_bool_index = on_duty_bool_index
         self._on_duty_index = nonzero(on_duty_bool_index)[0]
         self._off_duty_index = nonzero(~on_duty_bool_index)[0]
 
@@ -1211,8 +1213,7 @@ class _Schedule(object):
         return self._timeline[n]
 
     def is_on_duty(self, n):
-        # noinspection PyCallingNonCallable
-        return self._selector(self._timeline[n])
+        return bool(self._on_duty_bool_index[n])
 
     def is_off_duty(self, n):
         return not self.is_on_duty(n)
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index a20420b..42c73ea 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -363,10 +363,7 @@ class Timeboard(object):
                 (0 <= last_ws < len(self._timeline)))
         df = self._timeline.to_dataframe(first_ws, last_ws)
         for activity, schedule in self._schedules.items():
-            # TODO: refactor to use already computed duty indexes from _Schedule
-            df[activity] = list(self._timeline.labels.iloc[
-                                first_ws:last_ws + 1].apply(
-                schedule._selector, convert_dtype=False).astype(bool))
+            df[activity] = schedule._on_duty_bool_index[first_ws:last_ws + 1]
         return df
 
     def _locate(self, point_in_time, by_ref=None):
-- 
2.43.0


From c64feae2fe7cc46c48095fec1debd9caebff71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:21 +0000
Subject: [PATCH 16/31] fix: raise UnacceptablePeriodError for unsupported base
 unit frequencies

---
 timeboard/core.py      | 13 +++++++++++++
 timeboard/timeboard.py |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 131439c..3ca200b 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -41,6 +41,19 @@ def get_period(period_ref, freq=None, freq_override=False):
     else:
         return pd.Period(get_timestamp(period_ref), freq=freq)
 
+def check_base_unit_freq(freq):
+    """Raise UnacceptablePeriodError if base units cannot be of this frequency
+    """
+    try:
+        # business days do not cover the calendar
+        supported = not isinstance(pd.Period('02 Jan 2017', freq=freq).freq,
+                                   pd.offsets.BusinessDay)
+    except (ValueError, TypeError, AttributeError):
+        supported = False
+    if not supported:
+        raise UnacceptablePeriodError(
+            "Base unit frequency {!r} is not supported".format(freq))
+
 def get_freq_delta(freq):
     # Starting on 01 Jul 2016 gives the longest timedeltas for freq  based
     # on 'M', 'Q', 'A'
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 42c73ea..81079b8 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -1,6 +1,6 @@
 from __future__ import division
 from .core import (_Frame, _Timeline, _Schedule,
-                   Organizer, get_period, get_timestamp)
+                   Organizer, check_base_unit_freq, get_period, get_timestamp)
 from .utils import is_iterable, is_null
 from .workshift import Workshift
 from .interval import Interval
@@ -200,6 +200,7 @@ class Timeboard(object):
         self._worktime_source = worktime_source
 
         # create the frame and the timeline
+        check_base_unit_freq(base_unit_freq)
         self._frame = _Frame(base_unit_freq=base_unit_freq, start=start, end=end)
         self._timeline = _Timeline(frame=self._frame, organizer=org,
                                    workshift_ref=workshift_ref,
-- 
2.43.0


From 12cdab84d39073b147b7ac28c36cb84c82dec15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 17/31] fix: a calendar with custom bounds does not change the
 parameters of its class

If parameters() of a user calendar returns a dictionary it keeps, the custom
bounds were written into it and applied to all calendars built later.
---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 3ca6600..4658573 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -324,7 +324,7 @@ class CalendarBase(object):
     def __new__(cls, custom_start=None, custom_end=None,
                 do_not_amend=False, only_custom_amendments=False,
                 custom_amendments=None, **additional_kwargs):
-        parameters = cls.parameters()
+        parameters = dict(cls.parameters())
         parameters['start'], parameters['end'] = cls._get_bounds(
             custom_start, custom_end)
         if do_not_amend:
-- 
2.43.0


From 3976e5a4d9a47508c43cd246696f5058d75e6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 18/31] fix: marks of a mixed-sign offset falling before their
 period are omitted

Offsets such as {'months': 1, 'days': -30} point before the start of short
months; such a mark was put although it is not within its period. An offset
like {'months': 2, 'days': -61}, positive only in long months, was ignored
altogether.
---
 timeboard/when.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index ab0c8d9..0d2dda1 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -29,10 +29,6 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     
     """
     offset = pd.DateOffset(**kwargs)
-    testtime = pd.Timestamp('01 Jan 2004')  # longest month of longest year
-    if testtime + offset < testtime:
-        # with negative offset all results will fall out of their periods
-        return pd.DatetimeIndex([])
 
     start_times = pi.to_timestamp(how='start', freq='S')
     end_times = pi.to_timestamp(how='end', freq='S')
@@ -47,16 +43,9 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-    result = result[result <= end_times]
-    # Generally we should also filter result with [result >= start_times]
-    # since normalize_by frequency can be anything, incl. having period larger
-    # than pi frequency (i.e. pi freq='D', normalize_by='M'). In this case.
-    # despite of positive (future-directed) offset, normalization can throw a
-    # point in result in the past beyond start_times.
-    # However this does not make sense (at least, in the context of this
-    # package), and this function is always called from within this package
-    # with  normalize_by=_Frame.base_unit_freq.
-    # Therefore, we'd rather save time on filtering.
+    # an offset combining months with days of the opposite sign may point to
+    # either side of the period depending on the length of the month
+    result = result[(result >= start_times) & (result <= end_times)]
     return result
 
 
@@ -201,8 +190,6 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     if shift is not None:
         kwargs['days']=shift
     offset = pd.DateOffset(**kwargs)
-    testtime = pd.Timestamp('01 Jan 2004')
-    shift_to_future = testtime + offset >= testtime
 
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
@@ -224,12 +211,7 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-    if shift_to_future:
-        result = result[result <= pi_end_times]
-    else:
-        result = result[result >= pi_start_times]
-    # See comment about filtering for the other end of periods in
-    # from_start_of_each function
+    result = result[(result >= pi_start_times) & (result <= pi_end_times)]
     return result
 
 
-- 
2.43.0


From 7084b5a8d7b21597b179065692b9e4eeb138cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 19/31] fix: marks of boards of nanoseconds keep their
 nanoseconds

---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 3ca200b..ef41962 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -267,7 +267,7 @@ class _Frame(pd.PeriodIndex):
         if span_last is None:
             span_last = len(self)-1
         arr = np.searchsorted(start_times,
-                              np.array(timestamps, dtype='datetime64[ns]'),
+                              pd.DatetimeIndex(timestamps).values,
                               side='right')-1
         # result = np.where((arr>span_first) & (arr<=span_last),
         #                   arr, [not_in_range])
-- 
2.43.0


From 3f2896eadbec2e21d74ef9085b38a70f540c2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 20/31] fix: labels which are dates, durations or periods stay
 as they were given

---
 timeboard/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index ef41962..db7045f 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -657,7 +657,8 @@ class _Timeline(object):
             wsband_index = nonzero(self._ws_compound_mask)[0]
             self._wsband = pd.Series(
                 index = wsband_index,
-                data = self._ws_labels[wsband_index])
+                data = self._ws_labels[wsband_index],
+                dtype=object)
             self._frameband = pd.Series(
                 index=frame,
                 data=_masked_counter(self._ws_compound_mask))
-- 
2.43.0


From 7b26b8e49244d7f551e88d9c2a3e36ae1a52ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 21/31] fix: a layout of one label may be any iterable

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 81079b8..0d3bf78 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -175,7 +175,7 @@ class Timeboard(object):
         elif is_iterable(layout):
             # a pattern may be an iterator which has no length
             if (hasattr(layout, '__len__') and len(layout) == 1 and
-                    isinstance(layout[0], Organizer)):
+                    isinstance(next(iter(layout)), Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From 3c9c37f719ab97acfa0cc889541844f3849a28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 22/31] fix: a default label may be a tuple or a list

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 0d3bf78..d6b8806 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -204,7 +204,7 @@ class Timeboard(object):
         self._frame = _Frame(base_unit_freq=base_unit_freq, start=start, end=end)
         self._timeline = _Timeline(frame=self._frame, organizer=org,
                                    workshift_ref=workshift_ref,
-                                   data=default_label)
+                                   data=[default_label] * len(self._frame))
         self._timeline.amend(amendments)
 
         # create default schedule
-- 
2.43.0


From a33ac5fd02b31102272cc532a5d67b1ae4b447b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 23/31] fix: the label column of a dataframe holds the labels
 as they are

---
 timeboard/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index db7045f..f4b6c1b 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1134,7 +1134,8 @@ class _Timeline(object):
                 'start': start_times,
                 'end': end_times,
                 'duration': durations,
-                'label': np.array(self.labels.iloc[first_ws:last_ws+1]),
+                'label': pd.Series(np.array(self.labels.iloc[first_ws:last_ws+1]),
+                                   dtype=object),
                 }
         return pd.DataFrame(data=data,
                             columns=['loc', 'ws_ref', 'start',
-- 
2.43.0


From 2c8baada3bbdcbbcdcd9b6a3f872f7474c65ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 24/31] fix: pandas does not convert what a selector returned

---
 timeboard/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index f4b6c1b..6e5dc72 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1199,9 +1199,12 @@ class _Schedule(object):
         self._name = str(name)
         self._selector = selector
 
-        # do not let pandas convert None returned by the selector to NaN (True)
+        # do not let pandas convert what the selector returned (None becomes
+        # NaN, '' next to a timestamp becomes NaT: both would be True)
+        if callable(selector):
+            selector = lambda label: bool(self._selector(label))
         on_duty_bool_index = np.array(
-            self._timeline.labels.apply(self._selector, convert_dtype=False),
+            self._timeline.labels.apply(selector, convert_dtype=False),
             dtype=bool)
         # the duty is settled once, whatever the selector returns later
         self._on_duty_bool_index = on_duty_bool_index
-- 
2.43.0


From 60c824ef5dd459726564d17f0f05115d59cceb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 25/31] fix: representation of a timeboard made with a
 remembering pattern

---
 timeboard/timeboard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index d6b8806..8c82ad2 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -1,6 +1,7 @@
 from __future__ import division
 from .core import (_Frame, _Timeline, _Schedule,
-                   Organizer, check_base_unit_freq, get_period, get_timestamp)
+                   Organizer, RememberingPattern, check_base_unit_freq,
+                   get_period, get_timestamp)
 from .utils import is_iterable, is_null
 from .workshift import Workshift
 from .interval import Interval
@@ -216,7 +217,7 @@ class Timeboard(object):
         self._schedules = {self._default_name: self._default_schedule}
 
         # prepare the text for `__repr__`
-        if is_iterable(layout):
+        if is_iterable(layout) and not isinstance(layout, RememberingPattern):
             org_repr = ""
             org_arg = "{!r}".format(org)
         else:
-- 
2.43.0


From c4f5f61a0568e48361d2218695e3b2c9cc06608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 26/31] fix: work time of an interval does not skip labels
 which are not numbers

---
 timeboard/interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index ea0a58a..39188e1 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -886,7 +886,8 @@ class Interval(_BaseInterval):
             return 0
         else:
             return self._tb._timeline[duty_idx[duty_idx_bounds[0]:
-                                               duty_idx_bounds[1]+1]].sum()
+                                               duty_idx_bounds[1]+1]
+                                      ].sum(skipna=False)
 
     def total_duration(self, duty='on', schedule=None):
         """Return the total duration of workshifts with the specified duty.
-- 
2.43.0


From 59f4adf84a80bc188d96726bd100d8b297a496a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 27/31] fix: marks in periods shorter than a second

---
 timeboard/when.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 0d2dda1..e97f4c8 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -30,8 +30,8 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     """
     offset = pd.DateOffset(**kwargs)
 
-    start_times = pi.to_timestamp(how='start', freq='S')
-    end_times = pi.to_timestamp(how='end', freq='S')
+    start_times = pi.to_timestamp(how='start')
+    end_times = pi.to_timestamp(how='end')
 
 
     # result = start_times + offset
-- 
2.43.0


From 25787534ae529ec930b69c301f0e504bd9e176c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 28/31] fix: a list of two points makes an interval as a tuple
 does

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 8c82ad2..51fd001 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -805,7 +805,7 @@ class Timeboard(object):
                                           drop_head, drop_tail):
         locs = [_Location(0, LOC_WITHIN),
                 _Location(len(self._timeline) - 1, LOC_WITHIN)]
-        if is_null(interval_ref):
+        if not is_iterable(interval_ref) and is_null(interval_ref):
             pass
         elif is_iterable(interval_ref) and len(interval_ref) >= 2:
             if not is_null(interval_ref[0]):
-- 
2.43.0


From fdfdb35cc9b9b3296b028186f59f8a467c0afe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 29/31] fix: bounds of a calendar may be given in any form when
 custom bounds are

---
 timeboard/calendars/calendarbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 4658573..7398fd4 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -303,7 +303,9 @@ class CalendarBase(object):
 
     @classmethod
     def _check_time(cls, t):
-        if not cls.parameters()['start'] <= t <= cls.parameters()['end']:
+        start = get_timestamp(cls.parameters()['start'])
+        end = get_timestamp(cls.parameters()['end'])
+        if not start <= t <= end:
             raise OutOfBoundsError("Point in time '{}' is outside calendar {}"
                                    .format(t, cls))
 
-- 
2.43.0


From 19e9ed5350b4ef4e6a5a6799548b4ca835cfe9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 30/31] fix: every name of a frequency may be used for base
 units and markers

---
 timeboard/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index 6e5dc72..69d68dd 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -98,6 +98,18 @@ def _skiperator(values, skip=0):
     return dropwhile(counter, cycle(pattern))
 
 
+def _resolve_freq_alias(freq):
+    """Return the name `pandas` itself gives to the frequency.
+
+    One frequency may have several names (i.e. 'min' is 'T', 'Y' is 'A-DEC').
+    Anything that is not a valid frequency is returned as is.
+    """
+    try:
+        return pd.tseries.frequencies.to_offset(freq).freqstr
+    except (ValueError, TypeError, AttributeError):
+        return freq
+
+
 def _check_groupby_freq(base_unit_freq, group_by_freq):
     """Check if frame's base unit may be grouped in periods of given frequency.
     
@@ -122,6 +134,8 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
     -------
     True if `group_by_freq` can be used for grouping, False otherwise.
     """
+    base_unit_freq = _resolve_freq_alias(base_unit_freq)
+    group_by_freq = _resolve_freq_alias(group_by_freq)
     if bool(
             _pandas_is_subperiod(base_unit_freq, group_by_freq)
             # Some combinations of arguments result in is_subperiod function
-- 
2.43.0


From 491a73a024c89f24f3905b9d1426964d3878e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 31/31] fix: periods of a multiplied frequency are the same
 with marks in them as without

---
 timeboard/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 69d68dd..ea02314 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -452,8 +452,13 @@ class _Frame(pd.PeriodIndex):
                 envelope_margin * get_freq_delta(marker.each)
             envelope_end_ts = span_end_ts + \
                 envelope_margin * get_freq_delta(marker.each)
+            # periods of a multiplied frequency are counted from the start of
+            # the span, with or without `at`
+            first_period = pd.Period(span_start_ts, freq=marker.each)
+            while first_period.start_time > envelope_start_ts:
+                first_period -= 1
             stencil = _Frame(base_unit_freq=marker.each,
-                             start=envelope_start_ts,
+                             start=first_period.start_time,
                              end=envelope_end_ts)
 
             # timer1 = timeit.default_timer()
-- 
2.43.0

