#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

prop('C01', 'Workshifts tile the timeboard and every instant is found in its workshift',
 "For any base unit, start, end and layout, the workshifts of a timeboard cover its time range exactly: consecutive, without gaps or overlaps, each a whole positive number of base units whose duration, start and end agree, the first starting with the base unit containing the requested start and the last ending with the one containing the requested end. Looking up any point in time (as text, datetime, timestamp, period or any object convertible to a timestamp) returns the one workshift which contains it, including at the first and the last instant of a workshift. A point outside the range, or a null point, is refused with OutOfBoundsError.",
 ['configurations', 'inputs'],
 "every base frequency (seconds to years, anchored and multiplied), every frame start/end alignment, every layout (simple or compound), every point in time",
 "Tests check a few frames and a few instants each; boundary instants, unaligned starts, multiplied and anchored units and compound workshifts at the frame edges multiply into far more combinations.",
 ['timeboard/core.py', 'timeboard/timeboard.py', 'timeboard/workshift.py'],
 [('frame construction and instant lookup', 'timeboard/core.py:_Frame.get_loc'),
  ('workshift bounds from the two bands', 'timeboard/core.py:_Timeline.get_ws_start_time/get_ws_end_time/get_ws_duration'),
  ('lookup by point in time', 'timeboard/core.py:_Timeline.get_ws_position; timeboard/timeboard.py:_locate')],
 [('frame', 'ordered base units', 'timeboard/core.py:_Frame'), ('wsband/frameband', 'first base unit of each workshift / workshift of each base unit', 'timeboard/core.py:_Timeline')],
 ['Timeboard.get_workshift', 'Timeboard.__call__', 'Workshift.start_time/end_time/duration'])

prop('C02', 'Layout rules put exactly the described labels and workshift bounds',
 "A layout determines the timeline completely: a frame (or an enclosing span) is cut at the marks or calendar periods, the elements of the structure are applied to the spans in order and in cycles, and each span becomes one workshift (single label), one workshift per base unit labelled by the pattern in cycles (list of labels), or is organized recursively (organizer). A pattern applied to the first, incomplete calendar period of a frame or an enclosing span continues from the phase it would have if that period were complete, and a pattern shorter or longer than its span is repeated or truncated. An empty structure or pattern leaves one workshift per base unit with the default label, and partitioning by periods which base units do not fit into is refused with UnacceptablePeriodError.",
 ['configurations', 'inputs'],
 "all organizers built from marks or calendar-period markers, structures mixing labels, patterns and nested organizers, over all frame alignments",
 "Tests sample a few dozen hand-written layouts; phase errors appear only for particular combinations of frame start, pattern length, nesting and span edges.",
 ['timeboard/core.py', 'timeboard/timeboard.py'],
 [('recursive organizing', 'timeboard/core.py:_Timeline.__organize'), ('pattern application with shadow run', 'timeboard/core.py:_Timeline.__apply_pattern, _skiperator'),
  ('partitioning', 'timeboard/core.py:_Frame.partition_with_marker, partition_at_marks, _locate_subspans'), ('frequency compatibility', 'timeboard/core.py:_check_groupby_freq')],
 [('span skip', 'base units missing left of the first span', 'timeboard/core.py:_Span')],
 ['Timeboard(...)', 'Workshift.label/start_time/duration'])

prop('C03', 'Markers place marks exactly where their rule says',
 "A marker with a list of positions cuts a frame precisely at the base units containing the points in time its rule yields: an offset from the start of each period, the n-th (or n-th last) weekday of the m-th month of each period with an optional shift in days, or an offset from Western or Orthodox Easter, keeping only points which lie within the period they were sought in and within the frame. If no such point exists the frame is not cut, and period boundaries are cuts only when listed. A pattern before the first mark continues its phase from the latest mark preceding the frame.",
 ['configurations', 'inputs'],
 "all periods, rules and rule arguments, all frames: including short months, leap years, periods straddling calendar years, several marks per period in any order, and marks at the very edges of the frame",
 "Tests try a handful of marks on friendly dates; weekday/month/leap/Easter arithmetic and edge filtering depend on the actual calendar position of each period.",
 ['timeboard/when.py', 'timeboard/core.py'],
 [('offset rule', 'timeboard/when.py:from_start_of_each'), ('weekday rule', 'timeboard/when.py:nth_weekday_of_month'), ('Easter rule', 'timeboard/when.py:from_easter'),
  ('envelope and filtering', 'timeboard/core.py:_Frame.partition_with_marker')], None,
 ['Organizer(marker=Marker(each, at, how))', 'Workshift.start_time'])

prop('C04', 'A remembering pattern is one uninterrupted sequence of labels',
 "Every use of the same remembering pattern, whether as an element of a structure or as a whole structure, in several spans, in several organizers or in several timeboards built one after another, draws the next labels of one endless cycle over its labels, in timeline order within a timeboard. No label is skipped, repeated or reset between uses except for the shadow run over an incomplete first period. Distinct remembering patterns do not affect each other.",
 ['histories', 'configurations'],
 "all sequences of timeboard constructions sharing remembering patterns, all mixes of spans, organizers and plain patterns",
 "The result depends on the whole history of previous uses; tests build one or two timeboards with one pattern.",
 ['timeboard/core.py', 'timeboard/timeboard.py'],
 [('stateful iterator', 'timeboard/core.py:RememberingPattern'), ('consumption order of spans and structure', 'timeboard/core.py:_Timeline.__organize')],
 [('cycle position', 'next label to be drawn', 'timeboard/core.py:RememberingPattern._label_generator')],
 ['Workshift.label'])

prop('C05', 'Amendments override exactly the workshifts they point at',
 "Amendments given to a timeboard replace the label of the workshift containing each key, wherever within the workshift the key points and whatever form the key has, and leave every other label, all workshift bounds and the number of workshifts unchanged. Keys outside the timeboard are ignored, the order of keys does not matter, and two keys pointing at the same workshift are refused with KeyError. The duty of an amended workshift follows its new label in every schedule.",
 ['inputs', 'configurations'],
 "all sets of amendment keys and values over simple and compound timelines, including boundary instants, outside keys and collisions",
 "Tests amend a few mid-workshift dates on one board; collisions, compound workshifts, frame edges and key order are combinations.",
 ['timeboard/core.py', 'timeboard/timeboard.py'],
 [('amend', 'timeboard/core.py:_Timeline.amend')], None, ['Timeboard(amendments=...)', 'Workshift.label'])

prop('C06', 'Duty status follows the selector of the right schedule at all times',
 "Under each schedule a workshift is on duty exactly when the schedule's selector is true for its label and off duty otherwise, and every query on duty uses the schedule passed to it, else the schedule attached to the workshift or interval, else the default schedule of the timeboard. Adding and dropping schedules in any order makes exactly the current names available, refuses a name already taken with KeyError, and never alters the duty reported by other schedules. Workshifts and intervals derived from others carry the schedule which was used to derive them.",
 ['histories', 'configurations', 'inputs'],
 "all sequences of adding, dropping and re-adding schedules, all selectors, labels and schedule arguments",
 "Tests use one or two schedules and mostly the default one; precedence and independence concern every method and every history.",
 ['timeboard/core.py', 'timeboard/timeboard.py', 'timeboard/workshift.py', 'timeboard/interval.py'],
 [('duty index per schedule', 'timeboard/core.py:_Schedule'), ('schedule registry', 'timeboard/timeboard.py:add_schedule/drop_schedule'), ('precedence', 'timeboard/workshift.py, timeboard/interval.py: schedule arguments')],
 [('schedules', 'name to schedule', 'timeboard/timeboard.py:Timeboard._schedules')],
 ['Workshift.is_on_duty/is_off_duty', 'Timeboard.schedules', 'Timeboard.to_dataframe'])

prop('C07', 'Rolling forward and back lands on the workshift counted by duty',
 "Rolling forward finds the zero step - the workshift itself if it has the requested duty, else the nearest later one with it - and then moves the requested number of steps (of either sign) counting only workshifts of that duty; rolling back is the same with the nearest earlier zero step and reversed direction. The duty may be on, off, any, the same as or the opposite of the workshift's own duty under the schedule used; adding or subtracting an integer counts on-duty workshifts. If there is no such workshift within the timeboard OutOfBoundsError is raised; the result carries the schedule used.",
 ['inputs', 'configurations'],
 "all duty sequences, all starting workshifts, all step counts of both signs and zero, all duty selectors and schedules",
 "Tests walk two boards with a few step counts; off-by-one and edge behaviour depends on the duty pattern around the start and the ends.",
 ['timeboard/workshift.py'],
 [('rollforward', 'timeboard/workshift.py:Workshift.rollforward'), ('rollback', 'timeboard/workshift.py:Workshift.rollback'), ('duty choice', 'timeboard/workshift.py:Workshift._get_duty_index')], None,
 ['Workshift.rollforward/rollback/__add__/__sub__'])

prop('C08', 'Intervals from points or length contain exactly the requested workshifts',
 "An interval requested by two points (a tuple or another sequence of them) runs from the workshift containing the first through the one containing the second, a null end meaning the respective end of the timeboard; by a point and a length it has that many workshifts, toward the past if negative; without arguments it is the whole timeboard; and open ends strip exactly one workshift at that end. Reversed or empty results are refused with VoidIntervalError, intervals entirely outside with OutOfBoundsError and partly outside with PartialOutOfBoundsError, meaningless arguments with TypeError or ValueError. The call shortcut gives the same results as the explicit methods.",
 ['inputs', 'configurations'],
 "all pairs of points (inside, at boundaries, outside on either side, null, reversed), all lengths, all open/closed variants, simple and compound timelines",
 "The interaction of order, bounds, nulls and stripping has hundreds of cells per board; tests fill some of them.",
 ['timeboard/timeboard.py', 'timeboard/interval.py'],
 [('interval location', 'timeboard/timeboard.py:get_interval, _get_interval_locs_from_reference, _get_interval_locs_by_length, _strip_interval_locs'), ('interval constructor', 'timeboard/interval.py:_BaseInterval')], None,
 ['Timeboard.get_interval', 'Timeboard.__call__', 'Interval(...)'])

prop('C09', 'Intervals from calendar periods contain the workshifts belonging to the period',
 "An interval requested by a calendar period (given by a point and a frequency or as a period object) contains exactly the workshifts whose reference time - start or end, as configured for the timeboard - lies within the period. A period reaching beyond the timeboard is clipped by default, and then an open end is not stripped on the clipped side; with clipping off PartialOutOfBoundsError is raised, and a period entirely outside gives OutOfBoundsError. A period inside the timeboard holding no reference time is refused with VoidIntervalError.",
 ['inputs', 'configurations'],
 "all period frequencies and positions relative to the timeboard, both reference choices, clip and open/closed options, compound workshifts straddling period boundaries",
 "Straddling workshifts, clipping on either side and open ends interact; tests cover a few periods on two boards.",
 ['timeboard/timeboard.py', 'timeboard/core.py'],
 [('period location', 'timeboard/timeboard.py:_get_interval_locs_by_period'), ('reference-time search', 'timeboard/core.py:get_ws_pos_by_ref_after/get_ws_pos_by_ref_before')], None,
 ['Timeboard.get_interval(period=...)'])

prop('C10', 'Counting, indexing and iterating an interval agree with its workshifts',
 "For every interval, duty and schedule, the count, the n-th workshift (from either end), the first, the last and the iterated sequence all describe the same ordered list: the workshifts of the interval having that duty. Asking beyond that list raises OutOfBoundsError; the count of on-duty plus off-duty workshifts equals the length of the interval. Any number of iterations over the same interval, and next() on the interval itself, may be interleaved.",
 ['inputs', 'configurations', 'histories'],
 "all duty sequences, all intervals, all indices of both signs, all duties and schedules, all interleavings of iterators",
 "Edges of the duty list relative to interval ends are input-dependent; tests check a few intervals of a few boards.",
 ['timeboard/interval.py'],
 [('duty bounds search', 'timeboard/interval.py:_find_my_bounds_in_idx, _get_duty_idx'), ('nth/count/workshifts', 'timeboard/interval.py:Interval')], None,
 ['Interval.count/nth/first/last/workshifts/__iter__/__len__'])

prop('C11', 'Duration and work time add up over exactly the counted workshifts',
 "The total duration of an interval for a duty is the number of base units in its workshifts having that duty, and its work time is that same number or, when labels are the source of work time, the sum of their labels; with no such workshift both are zero. A workshift's work time is its duration or label if it has the asked duty and zero otherwise, so the work time of an interval equals the sum over its workshifts and splits exactly into on-duty and off-duty parts. Labels which are not numbers raise TypeError when used as work time.",
 ['inputs', 'configurations'],
 "all intervals, duties and schedules, both work time sources, compound workshifts of varying length including at the timeline ends",
 "Sums over compound workshifts at the edges of the frame and of the interval differ for every layout; tests check a few.",
 ['timeboard/interval.py', 'timeboard/workshift.py', 'timeboard/core.py'],
 [('durations of many workshifts', 'timeboard/core.py:get_durations_for_ws_array'), ('work time', 'timeboard/interval.py:worktime, _sum_labels, total_duration; timeboard/workshift.py:worktime')], None,
 ['Interval.worktime/total_duration', 'Workshift.worktime'])

prop('C12', 'Overlap is set intersection and portions are ratios of counts',
 "The overlap of two intervals contains exactly the workshifts common to both and carries the schedule of the first or the one given; if there are none it is a void interval which has null bounds, counts, sums, iterates and divides as empty, and refuses indexing with OutOfBoundsError. What portion of another interval an interval takes up is the count of common workshifts of the duty divided by the other's count, zero if there are none in common, under one schedule for both. The multiplication and division operators give the same results.",
 ['inputs', 'configurations'],
 "all pairs (and chains) of intervals, duties and schedules on all small boards",
 "Tests check a few pairs; empty, touching, nested and void operands and schedule precedence multiply.",
 ['timeboard/interval.py'],
 [('overlap', 'timeboard/interval.py:Interval.overlap'), ('portion', 'timeboard/interval.py:what_portion_of'), ('void interval', 'timeboard/interval.py:_VoidInterval')], None,
 ['Interval.overlap/__mul__', 'Interval.what_portion_of/__truediv__'])

prop('C13', 'Counting calendar periods sums the shares of each period',
 "The number of calendar periods in an interval for a duty is the sum, over the calendar periods, of the interval's workshifts of that duty belonging to the period divided by all of the timeboard's workshifts of that duty belonging to it, where a workshift belongs to the period holding its reference time; it is zero if the interval has no such workshifts. If the period of the interval's first or last such workshift reaches outside the timeboard an out-of-bounds error is raised, while other periods outside do not matter. Unsupported frequencies and periods too short to hold a workshift are refused with UnacceptablePeriodError.",
 ['inputs', 'configurations'],
 "all intervals, frequencies, duties and schedules, both reference choices, compound workshifts straddling periods",
 "The value depends on how interval edges, duty edges and period edges interleave; tests compute a few by hand.",
 ['timeboard/interval.py'],
 [('count_periods', 'timeboard/interval.py:Interval.count_periods')], None, ['Interval.count_periods'])

prop('C14', 'Preconfigured national calendars reproduce the holiday rules on every day',
 "For every day of their ranges and every combination of options, the US, UK and Russian business calendars label working days with hours and weekends and observed holidays with zero exactly as their published holiday rules say (fixed, weekday-based and Easter-based holidays, weekend substitution, one-off days, country variants, holidays not observed, short eves). A calendar restricted to a sub-range agrees with the full one on every common day; bounds outside the range are refused with OutOfBoundsError. Custom amendments override or replace the preset ones, day by day, as requested.",
 ['inputs', 'configurations'],
 "all days 2000-2021, all option combinations, all sub-ranges and custom amendments",
 "Tests check some holidays of a few years; rules interact (substitution, collisions, range edges) differently every year.",
 ['timeboard/calendars/US.py', 'timeboard/calendars/UK.py', 'timeboard/calendars/RU.py', 'timeboard/calendars/calendarbase.py'],
 [('holiday rules', 'timeboard/calendars/{US,UK,RU}.py'), ('parameter handling', 'timeboard/calendars/calendarbase.py:CalendarBase.__new__, _get_bounds')], None,
 ['calendars.US/UK/RU.Weekly8x5(...)'])

prop('C15', 'Calendar-building helpers compute the right dates for every year',
 "The helpers for building holiday tables return exactly the described days with the given label: the n-th or n-th last weekday of a month with its shift, omitted or refused when it does not exist; days at a distance from Western or Orthodox Easter; and, for holidays on a weekend of any definition, additional days off before, after or nearest, never taking a day which is already in the table. They keep every given day with its label and do not modify the table passed to them. A user calendar built on the template honours its range, options and amendments.",
 ['inputs'],
 "all years, months, weekdays, ordinals and shifts; all sets of holidays around weekends, directions, labels and weekend definitions",
 "Every year shifts weekdays and Easter; tests check a few years.",
 ['timeboard/calendars/calendarbase.py'],
 [('nth weekday', 'timeboard/calendars/calendarbase.py:nth_weekday_of_month'), ('extend weekends', 'timeboard/calendars/calendarbase.py:extend_weekends'), ('Easter', 'timeboard/calendars/calendarbase.py:from_easter')], None,
 ['calendarbase functions'])

prop('C16', 'Queries have no side effects and failed operations change nothing',
 "A timeboard's observable state - workshift bounds, labels, schedules and duties - is fixed at construction apart from adding and dropping schedules: no query, successful or refused, changes it or the answer of any later query. Building a timeboard does not modify the layouts, markers, patterns, label lists or amendments passed to it, so they may be reused and later timeboards built from them are identical; objects passed in and changed afterwards by the caller do not alter an existing timeboard's bounds, labels and duty. Timeboards do not affect each other.",
 ['histories'],
 "all interleavings, up to a depth, of constructions, successful and failing queries, iterations, schedule changes and conversions to tables, over shared inputs",
 "Independence is a statement on histories; tests run one operation on a fresh board.",
 ['timeboard/timeboard.py', 'timeboard/core.py', 'timeboard/interval.py', 'timeboard/workshift.py'],
 [('immutability by construction', 'timeboard/core.py:_Timeline, _Schedule; timeboard/timeboard.py:Timeboard')],
 [('iterator of an interval', 'position of iteration', 'timeboard/interval.py:Interval.__iter__')],
 ['every public query'])

prop('C17', 'Tables, text and accessors tell the same story',
 "The table of a timeboard or of any part of it, and the table of an interval, have one row per workshift in order, with position, reference time, start, end, duration, label and the duty under every current schedule exactly as reported by the workshifts themselves. The textual forms of workshifts and intervals show the position, number of base units, time, size and (when not the default) schedule of that very object, and the representation of a timeboard or of a layout made of plain values is code which makes the same timeline. The reference time of a workshift is its start or its end as configured.",
 ['configurations', 'inputs', 'histories'],
 "all boards, all sub-ranges of workshifts, all sets of schedules",
 "Tables are computed by separate code from accessors; agreement is needed at every edge of every sub-range.",
 ['timeboard/core.py', 'timeboard/timeboard.py', 'timeboard/workshift.py', 'timeboard/interval.py'],
 [('tables', 'timeboard/core.py:_Timeline.to_dataframe; timeboard/timeboard.py:Timeboard.to_dataframe; timeboard/interval.py:Interval.to_dataframe'), ('text', 'compact_str/__repr__ of Workshift, Interval, Timeboard')], None,
 ['to_dataframe', 'repr/str'])

prop('C18', 'Invalid definitions and arguments are refused with the documented error',
 "Every definition or request documented as unacceptable is refused with its documented error and yields no object: an organizer with both or neither of marks and marker or without an iterable structure, a timeboard of an unsupported base unit, with an empty range, unusable layout, amendments or work time source, a wrong duty, closing, length, schedule or bound type, an interval position outside the board or in reverse. Acceptable variants next to each refused one are accepted. The class of the error tells out-of-bounds, partly out-of-bounds, void and unacceptable-period cases apart.",
 ['inputs', 'configurations'],
 "all documented argument errors, in all combinations of the other arguments, on all small boards",
 "Tests probe single wrong arguments one at a time on one board.",
 ['timeboard/core.py', 'timeboard/timeboard.py', 'timeboard/workshift.py', 'timeboard/interval.py', 'timeboard/exceptions.py'],
 [('argument checks', 'constructors of Organizer, Marker, Timeboard, Workshift, Interval; get_interval'), ('error classes', 'timeboard/exceptions.py')], None,
 ['constructors and queries'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
