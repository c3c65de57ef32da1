# hand-written part of DESIGN.md: what is enumerated, against what, and why tests do not reach it
PROPS = {
"C01": ("operation sequences on one and two trees (insert, remove, bulk insert) of float64, int64 and a user type: every sequence to depth 7-9, every order type of up to 6 insertions emptied in every order of values; trees of 7 to 1025 values filled and emptied in every pair of orders, sliding windows over them; trees of 70000 values",
        "a multiset (counted list)", "a broken node deletion needs a particular shape (two children, repeated value, successor not adjacent); the tests build one tree"),
"C02": ("every sequence of 16 operations, every fill-drain-fill-drain to 40 each, two queues side by side, reads after emptiness; 17 sizes around the powers of two to 1025 enqueued, part dequeued, refilled, drained; 65535 to 70000",
        "a list", "wrap-around, reuse after drain and aliasing of two queues need histories no test has"),
"C03": ("every operator alone, every chain of two and three, operate over every pair, duplicate and rejoin; inputs of all lengths 0..4, all value sequences to 3, unbuffered and buffered channels; **all schedules**",
        "the sequence each operator defines, computed on slices", "a test sees the one schedule the runtime picks"),
"C04": ("the same programs, unequal lengths, over-long skips; every schedule", "scheduler state: no deadlock, all outputs closed, no goroutine left, no send on or second close of a closed channel",
        "a leak or a deadlock shows only under a schedule or a length combination, and a leaked goroutine fails no test"),
"C05": ("every pair, two pairs and three pairs of streams to the stated lengths over {0,1}, odd numbers, every schedule; 12 element types (texts, structs, slices, pointers, interfaces)", "equality of the lists",
        "the original tested only the first pair to its end; a difference in the last pair's length is what matters"),
"C06": ("every candle sequence of length 1..6, every k 2..6; every length to 40 with every k to 26, six intervals and starts (aligned or not); every set of removed inner candles; every pair of intervals; 17 conversions of thousands to 70000 candles; each case in UTC and another time zone", "grouping by index",
        "trailing incomplete groups, misaligned starts and gaps"),
"C07": ("every start in 8 quarter intervals, every length to 60 quarters, 14 limits, 6 intervals, 4 origins; every marking of up to 9 intervals with every limit and every query time at and next to a boundary; named intervals; ranges of 100 to 70000 intervals with markings; windows to 290 years within a nanosecond of a multiple; six local time zones, ranges over both changes of the clocks", "integer arithmetic on the rounded ends",
        "limits that do not divide, boundaries, marking one interval and asking another"),
"C08": ("every arrangement of 0..5 candles over 4 times, every sequence of 3 operations with every range; patterned histories of up to 66000 candles; times from -2^40 to 2^53; seven local time zones", "list operations on (time, identity)",
        "repeats, all-outside ranges and operation order"),
"C09": ("every candle sequence of length 0..6, all pairs of candles over 4 levels, time steps of both signs; views are destroyed afterwards to show nothing is shared; 70000-candle histories", "definitions candle by candle",
        "sharing with the history and order of candles never show in one comparison of fixed data"),
"C10": ("all series with all periods (see above)", "direct definition per window, Max/Min exact", "a window that forgets its extreme only fails when the extreme leaves while a tie or a second-best remains: every order type of 7 values covers all of that"),
"C11": ("all series, all periods", "the recurrence", "seeds and warm-up"),
"C12": ("all series, all periods, all factor choices", "two-pass formulas; quotients by a deviation that is rounding only are not judged", "flat windows, windows longer than the series"),
"C13": ("all series, all periods", "normal equations per window, centred", "windows before the first full one, one point, period changes"),
"C14": ("every sequence of length 0..7 over 4 signed values, every order type of 8, every left and right of 0..4, every position and level", "the definition by inspection of the neighbourhood", "ties, signs and series edges"),
"C15": ("every sequence pair, every pair of 17 special values at every position, all roundings of three grids", "arithmetic per position", "zeros, signs, denormals, halves"),
"C16": ("candle trees, long and deviated histories, all periods", "definitions", "downward gaps and zero ranges"),
"C17": ("every function of 58 on every input (bytes of inputs, results and their capacity compared and overwritten), every ordered pair f,g: f,g,f; look-alike series, in separate and in rewritten memory, against fresh processes", "the same function in a process of its own", "purity is about histories of calls"),
"C18": ("the history spaces above", "mc/ref_ind.go", "tests compare a few values of one file of candles"),
"C19": ("the history spaces", "Wilder's and the K-D-J recurrences as documented", "flat stretches, first full window, periods longer than the history"),
"C20": ("the history spaces", "documented formulas", "downward gaps, flat windows, warm-up"),
"C21": ("the history spaces, volumes zero and repeated", "documented formulas; money-flow signs from the raw money flow difference, as coded", "zero flow windows"),
"C22": ("the history spaces", "documented formulas", "windows of different lengths that coincide on the test data"),
"C23": ("the history spaces", "documented recurrences as state machines", "a flip needs the close to cross the *previous* opposite band; equality cases"),
"C24": ("every candle sequence of length 0..6, every zigzag of 6 legs of 4 sizes, every zigzag of 5 legs after 205 candles of warm-up (order blocks need 200), the long, deviated and grid histories", "mc/ref_smc.go, an independent state machine over (levels, trend, swing, pivots, blocks)", "needs several confirmed swings in a particular order; the tests look at the last record"),
"C25": ("the history spaces", "counts over all earlier candles; documented conditions", "state carried over many candles"),
"C26": ("the history spaces", "the documented condition applied to the *reported* values, so the rule is judged apart from the formula", "touching, equality, first candle"),
"C27": ("the history spaces; Camarilla with a second history on other days, zones and gaps, in seven local time zones", "the documented condition applied to reported values", "see C26"),
"C28": ("the history spaces, empty to long", "length, membership, own name, Hold before comparability", "no test looks at a warm-up signal"),
"C29": ("the history spaces, irregular times, seven local time zones", "record times by position", "warm-up records and short histories"),
"C30": ("every sequence of 1 to 3 operations (accessors, signals, calculation) on a fresh object", "columns of the records", "order of first use"),
"C31": ("every edge of the history trees; every prefix of 44- and 150-candle histories; prefixes of the long ones", "the prefix's own report; for SMC equality up to back-marks", "look-ahead is invisible on one history"),
"C32": ("every sequence of 3 calculations and reads, on one object and call by call on a second; on the long histories also after the last candle changed, one was appended, one in the middle and the first were corrected and the last was dropped", "the first result", "accumulating state"),
"C33": ("every operation, twice, and clearing, over a history that is the first part of a longer one, then overwriting either side", "deep copy of the history and the columns, including the rest of the longer arrays", "aliasing"),
"C34": ("every ordered pair of 47 indicators, every one of 70 interleavings; look-alike histories", "runs in a process of their own", "shared or cached state"),
"C35": ("every pair of 47 jobs under every schedule with 1 preemption at any statement (2 for short jobs of one kind), both orders; all pairs once more under the race detector", "the job's result alone", "interleavings"),
"C36": ("all constructors on the history spaces", "the general constructor with the documented defaults", "-"),
"C37": ("every list to 6 of recording strategies, all lengths to 200 in 9 arrangements, values that cannot be compared, real indicators", "the recording", "chunking, deduplication by name, order"),
"C38": ("every indicator with every small parameter combination on every length 0..3 tree and 13 lengths, and with one or all parameters at 500 to a million; all 58 functions with every period", "returns normally", "short histories are exactly what tests leave out"),
"C39": ("the history spaces with quiet, extreme and never-traded ones", "finiteness of every reported number", "divisors that become zero"),
"C40": ("as C39", "bounds and orders with a slack of 1e-9", "-"),
"C41": ("price and volume factors 2^-45 to 2^60 (thorough 2^±200), history trees, long, deviated, grids", "exact equality of the run times the factor", "hidden absolute thresholds"),
"C42": ("every text of length 0..5 over 10 characters, every byte and 40 further characters at every place of 9 numbers; roundings; file contents and sizes; every subset of candle fields", "a grammar of decimal numbers; integer arithmetic; the encoded value", "-"),
"C43": ("every side value to 2^22 and around powers of two, every list of up to 7 sides, intervals, candles and directional index records over 10 values and 7 times, in seven local time zones; the report program built from the tree and run on 600 histories (trees, long, scaled), its lines parsed", "the texts built from the same candle and from each strategy run in this process", "the tests print without looking"),
}
