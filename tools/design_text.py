"""Per-property text of DESIGN.md."""
PROPS = {
'C01': ("Boards of 1..4 base units of 33 frequency/start pairs (years to nanoseconds, 1677 to 2262) x all partitions into workshifts x positions of the given start and end inside their base units; each board read completely, then every characteristic instant (first, second, middle, last of every unit, neighbours outside, far outside, null) looked up in every form. Long boards: 60..1500 units, and 33000..100000 units with up to 40000 workshifts looked up at both ends of every workshift.", "The bands are arrays with integer positions; errors need boundary instants, unaligned starts, multiplied or anchored units, or sizes beyond an integer type."),
'C02': ("Frames x marker periods x starts x lengths x structures of up to 3 elements (pattern, long pattern, empty pattern, label, organizer), all mark sets over 5 units with offsets, nesting up to 3 deep, refused pairs; all ordered pairs of labels of 44 kinds (numbers, texts, dates, durations, containers, null ones, objects) in 9 positions; 15 kinds of containers. The whole resulting board is compared.", "Phase errors need a particular combination of frame start, pattern length and nesting."),
'C03': ("Marker rules: offset lists (every unit, negative, mixed signs, duplicated, beyond the period) x starts before, at, after the marks; every month x week x weekday x shift; both Easters with offsets in all units; user rules; in periods of year, shifted year, quarter, month, week; nested below other organizers.", "Calendar position decides; tests use friendly dates."),
'C04': ("All sequences of up to 3 uses (13 kinds: constructions of 11 layouts sharing two remembering patterns, direct draws, reading) x label lists of length 1..4; pairs of uses with 6 other kinds of iterators.", "A statement on histories of constructions."),
'C05': ("All partitions of 1..4 units x all sets of up to 2 keys out of all characteristic instants, in both orders, with labels on/off/null/other, in 6 forms; pairs of labels of 44 kinds; every workshift of larger boards amended; duty under 3 schedules compared afterwards.", "Collisions, compound workshifts and edges combine."),
'C06': ("All sequences of up to 4 additions and droppings of schedules (default included), duties under every schedule, live or dropped, after each step, and through interval and workshift objects held all along; all queries x attached x passed schedule on all words of length 1..4; pairs of labels and of returned values of 44 kinds; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Precedence concerns every method and every history."),
'C07': ("All duty words of 1..7 workshifts x every workshift x all step counts that stay inside or just leave x 5 duties x 2 directions x schedules; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Off-by-one at the ends depends on the duty pattern."),
'C08': ("All partitions x all ordered pairs of characteristic instants x 4 closings; all points x lengths x closings; whole board; pairs in 6 kinds of sequences; explicit and call form; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Order, bounds, nulls and stripping interact in hundreds of cells per board."),
'C09': ("All partitions of 1..4 units of 20 frequencies x both reference times x 12 period frequencies x positions around the board x closings x clipping, period by frequency and as an object; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Straddling workshifts, clipping and open ends interact."),
'C10': ("All duty words of 1..6 x all intervals x duties x schedules (also dropped and replaced ones): count, nth over the whole index range, first, last, sequence; all interleavings of 2 iterators over up to 4 workshifts, of 3 over 2; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Interleavings of iterators and edges of duty lists."),
'C11': ("All partitions x label words (numbers, fractions, negative, text, empty text, booleans) x both work time sources x all intervals x duties x schedules: duration, work time, sums, on+off split; workshifts of up to 86400 base units; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "The two sources and the schedule precedence multiply with bounds."),
'C12': ("All duty words of 1..5 x all ordered pairs of intervals x duties x 5 schedule choices; all ordered triples up to 4 workshifts; every void interval and all its queries; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Empty, touching, nested and void operands."),
'C13': ("20 frames at calendar irregularities cut in all ways at up to 2 of 4..6 places x label patterns x both reference times x intervals x frequencies x duties x schedules; all half-day boards of 1..4; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Interval, duty and period edges interleave."),
'C14': ("Every day of the full ranges x no, each, each pair of, all but one holiday not observed x long weekends x countries; all sub-ranges of whole years and of ends next to holidays; custom amendments with all option combinations.", "Rules interact differently every year."),
'C15': ("All ordinals, months, weekdays, shifts over a full set of year types; all Easter years 1700-2250; all sets of holidays within 9 days x directions x weekends; label order variants; a template calendar with all bound pairs and options.", "Every year shifts weekdays and Easter."),
'C16': ("All sequences of 2 of 67 operations followed by characteristic ones, each operation followed by all others, on 4 boards; all sequences of 2 constructions sharing objects; all single and pairs of 20 later changes to the objects passed in; all pairs of 15 calendar constructions sharing option objects.", "Independence is a statement on histories."),
'C17': ("All partitions of 33 frequency/start pairs x reference times x sets of schedules (up to 32, added, dropped, replaced) x all sub-ranges: tables, text, accessors; representations of about 450 layouts executed and the boards they make compared; boards of 70000..140000 workshifts around the positions 2**7, 2**8, 2**15, 2**16 (mc/vast.py).", "Tables are computed by code separate from accessors."),
'C18': ("Full products of good and bad values of all arguments of the constructors and queries; all pairs of 35 base units and 39 marker periods, whole and nested; error class hierarchy.", "Tests probe one wrong argument at a time."),
}
