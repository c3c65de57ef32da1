#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NODATA = "the repository's own test of this needs a data file that is not in the repository, and at best samples one price history"
HIST = "every price history (finite positive prices, low <= open and close <= high, non-negative volume, any length from 0), every parameter from 1 up"

p("C01", "The sorted tree behaves as a multiset",
  "After any sequence of insertions and removals, the tree's minimum and maximum are the smallest and largest values still in it, counting repeated values, and are absent exactly when it is empty. A removal reports whether the value was present and takes out exactly one occurrence of it. This holds for floating-point numbers, 64-bit integers and user types that define their own order.",
  ["histories"], "every sequence of insert, bulk insert, remove, min and max, with repeated values",
  "the tests run a handful of fixed sequences without repeated values at inner nodes; the sliding-window functions depend on removal in every tree shape",
  ["container/bst/bst.go", "container/comparable.go"], [("Insert/Remove/removeNode", "container/bst/bst.go"), ("Compare", "container/comparable.go")], ["Remove result", "Min", "Max"])
p("C02", "The queue is first in, first out",
  "Values leave the queue in exactly the order they entered, each once, and the queue reports empty exactly when every value that entered has left. Taking from an empty queue panics and leaves the queue usable.",
  ["histories"], "every interleaving of enqueue, dequeue and empty, including draining and refilling",
  "the tests run one short sequence", ["container/queue/queue.go"], [("Enqueue/Dequeue/Empty", "container/queue/queue.go")])
p("C03", "Stream operators deliver the exact sequence under every schedule",
  "For every input sequence and every way its producers, consumers and the operators are scheduled, each stream operator delivers exactly the sequence it defines, in order and once: mapping applies the function to each element, combining pairs elements positionally up to the shorter input, duplicating gives every consumer the whole input, shifting puts the given number of fill values first, skipping drops the given number of elements, piping and slice conversion copy, rounding rounds each element. The streaming simple moving average delivers, for each element, the sum of the last period elements (missing ones count as zero) divided by the period.",
  ["schedules", "inputs"], "every interleaving of the producer, operator and consumer goroutines; input lengths from 0, unbuffered and buffered inputs, every output with a consumer of its own that reads it to its end",
  "a test run sees one schedule chosen by the runtime, so lost, repeated or reordered elements under other schedules go unnoticed",
  ["helpertools", "utils/ta/ta.go"], [("one goroutine per operator and a channel per edge", "helpertools/*.go"), ("SmaT", "utils/ta/ta.go")], ["received sequences"])
p("C04", "Stream pipelines always finish and leave nothing running",
  "Once its input streams are closed and its outputs are consumed, every stream operator closes its outputs and all of its goroutines end: no schedule deadlocks, sends on a closed stream, closes one twice or leaves a goroutine blocked. This includes inputs of unequal length, empty inputs, skipping more elements than there are, and compositions of operators.",
  ["schedules", "inputs"], "every interleaving of pipelines of one to three operators with inputs of unequal lengths, every output with a consumer of its own that reads it to its end",
  "a deadlock or leak under one schedule of many does not show in the single schedule a test happens to run, and a leaked goroutine never fails a test",
  ["helpertools", "utils/ta/ta.go"], [("close on end of input, drain of the longer input", "helpertools/Operate.go, helpertools/Drain.go, helpertools/Pipe.go")])
p("C05", "Stream comparison reports equal exactly when all pairs are equal",
  "Comparing pairs of streams reports success exactly when every pair delivers the same sequence of the same length, and an error otherwise, whichever pair, position or length differs and however the producers are scheduled. An odd number of streams is an error, and the comparison always returns.",
  ["schedules", "inputs"], "one to three pairs of sequences of lengths 0 to 3 over two values, every schedule of their producers",
  "the tests compare a few fixed sequences; a pair that is only compared in part, or never, passes them",
  ["helpertools/CheckEquals.go"], [("CheckEquals", "helpertools/CheckEquals.go")])
p("C06", "Converting candles to a longer interval preserves the market data",
  "Converting a gap-free candle history (positive prices, whole-second intervals) to an interval k times as long gives one candle for each complete group of k consecutive candles from the first: the group's first time and first open, its highest high, its lowest low, its last close, its total volume, the change (close-open)/open and the rising flag that follow, and leaves out a trailing incomplete group. The new history has the new interval and the same exchange, and the old history is unchanged. A missing history, a non-positive old or new interval, an interval that is not longer, not a whole multiple, too few candles, or a history with missing candles is reported as an error, not converted.",
  ["inputs"], "every history length and k, every candle shape, starts aligned to the new interval or not",
  "the tests convert two fixed histories of a few candles and check them loosely",
  ["utils/klines/kline.go"], [("ConvertToNewInterval", "utils/klines/kline.go")])
p("C07", "Date ranges partition the period and answer data queries",
  "Splitting a period into candle ranges rounds both ends to the interval and covers the period by consecutive intervals without gap or overlap, in order, at most the given limit per range (limit zero: one range), so that the number of intervals is the rounded period divided by the interval. A date is reported to have data exactly when the interval that contains it (start included, end excluded) is marked so. Unset, reversed or equal dates and non-positive intervals are errors, while a period in the future is not; the number of candles in a period is its whole number of intervals, and zero for a non-positive interval; a named interval lasts as long as its name says.",
  ["inputs", "configurations"], "every start, end, interval and limit, every marking of the intervals, every query time",
  "there is no test of ranges with several requests and limits that do not divide the period",
  ["utils/klines/kline.go", "utils/commonutils/common.go"], [("CalculateCandleDateRanges, HasDataAtDate, TotalCandlesPerInterval", "utils/klines/kline.go"), ("StartEndTimeCheck", "utils/commonutils/common.go")])
p("C08", "Sorting, deduplicating and cutting a history keep exactly the right candles",
  "Sorting orders the candles by time, ascending or descending as asked, and keeps every candle. Removing duplicates keeps the first candle of each time in their order; removing what is outside a range keeps, in order, exactly the candles at the start or after it and before the end; clearing removes all. The copying form leaves the original history and its candles untouched, shares no candle with it, and keeps exchange and interval.",
  ["inputs", "histories"], "every arrangement of candle times with repeats, every range, every sequence of these operations",
  "the tests sort one history of a few candles",
  ["utils/klines/kline.go"], [("SortCandlesByTimestamp, RemoveDuplicates, RemoveOutsideRange, RemoveOutsideRangeCopy, Clear", "utils/klines/kline.go")])
p("C09", "Price views and Heikin-Ashi candles follow their definitions",
  "The column view of a history holds each candle's open, high, low, close, volume, rising flag and time at the candle's position, and the averaged views are (high+low)/2, (high+low+close)/3 and (open+high+low+close)/4. A Heikin-Ashi candle has the average of the four prices as close, the midpoint of the previous candle's open and close as open (its own for the first candle), a high and low that also cover that open and the raw close, the candle's own time, change (close-open)/open and rising flag. All of these return new data and leave the history unchanged.",
  ["inputs"], "every history, every candle shape",
  "the tests check one or two candles",
  ["utils/klines/technical_analysis.go"], [("GetOHLC, HL2, HLC3, OHLC4, ToHeikinAshi", "utils/klines/technical_analysis.go")])
p("C10", "Sliding-window functions see exactly their window",
  "For every series and period, the sliding maximum, minimum, sum and simple average at each position cover exactly the last period values up to and including it (fewer at the start), and the strict moving average is zero until the window is full and the window's mean from then on. The highest and lowest value over a trailing length cover exactly that many last values. Results agree with the direct definition up to rounding, whatever values repeat, enter or leave the window.",
  ["inputs"], "every real series of any length, every period from 1 beyond the length",
  "the tests use one short series and one period each, so stale or duplicate values in the window are not met",
  ["utils/ta/ta.go", "container/bst/bst.go"], [("Max, Min, Sum, Sma, MA, Highest, Lowest", "utils/ta/ta.go")])
p("C11", "Recursive and weighted averages follow their recurrences",
  "The exponential average starts at the first value and moves by 2/(period+1) of each new value's distance; the double exponential average is twice that average minus its own exponential average; the weighted average is linear in age with the newest weight period, zero until the window is full. The rolling (Wilder) average is zero at the first position, the sum of the values after the first divided by the number of positions so far until position period-1, and from then on (previous*(period-1)+value)/period.",
  ["inputs"], "every real series of any length, every period from 1",
  "the tests use one series and one period each",
  ["utils/ta/ta.go"], [("Ema, Dema, Wma, Rma", "utils/ta/ta.go")])
p("C12", "Dispersion measures match their definitions",
  "The sliding variance is the population variance of each full window and zero before; the standard deviation is its root times the given factor; mean deviations average the absolute distances to the window's mean or the given average; whole-series mean, sum and standard deviation match theirs (the deviation of an empty series is zero). The commodity-channel values are (value-average)/(0.015*mean deviation), zero where the deviation is zero or the window is not full.",
  ["inputs"], "every finite series of any length, every period from 1",
  "the tests use one series and one period each",
  ["utils/ta/ta.go"], [("Variance, StdDev, SD, Dev, MeanDeviation, CCI, AiCoinCCI, Mean, Cum", "utils/ta/ta.go")])
p("C13", "Regression functions give the least-squares line",
  "Every regression output (end value, slope, intercept, angle in degrees) equals that of the least-squares line through each full window of the last period values at abscissas 0 to period-1, and is zero before the first full window. The two-series forms give the least-squares slope, intercept and fitted values over the whole series or over the last period points (fewer at the start), and the flat line through a single point.",
  ["inputs"], "every finite series of any length, every period from 2 (from 1 in the two-series form), abscissas that are not all equal",
  "there is no independent test of the sliding regressions",
  ["utils/ta/ta.go", "utils/regression.go"], [("LinearReg*", "utils/ta/ta.go"), ("LeastSquare family", "utils/regression.go")])
p("C14", "Pivots and crossings are reported exactly where they occur",
  "A pivot high (low) is reported at the position right places after a value exactly when that value is the largest (smallest), ties included, of the left values before and right values after it, and zero elsewhere. The extreme around a position is the largest (smallest) value within left and right places, with a position that holds it. A crossing over (under) a level is reported exactly when the last value is strictly above (below) and the one before strictly below (above).",
  ["inputs"], "every series with repeats and of either sign, every left and right from 0, every position",
  "the tests use one series each",
  ["utils/ta/ta.go"], [("PivotHigh, PivotLow, PivotMax, PivotMin, CrossOver, CrossUnder", "utils/ta/ta.go")])
p("C15", "Elementwise helpers match their arithmetic on every value",
  "Adding, subtracting, multiplying and dividing series or by a constant, differences, percentage differences, shifts with a fill value, powers, roots, absolute values, signs (zero counts as positive), positive and negative parts, number ranges, not-a-number replacement and decimal rounding (half away from zero) give at each position the arithmetic result for that position's values; division gives zero where the quotient is not a finite number.",
  ["inputs"], "every series over positive, negative, zero, repeated, tiny and huge values, every shift and digit count",
  "the tests use one ordinary series for each helper",
  ["utils/ta/ta.go", "helpertools/RoundDigit.go"], [("arithmetic helpers", "utils/ta/ta.go"), ("RoundDigit", "helpertools/RoundDigit.go")])
p("C16", "True range, average true range and stochastic follow their definitions",
  "The true range of each candle after the first is the largest of high-low and the distances of high and low to the previous close, and zero for the first. The average true range is zero until more than period candles exist, starts from the rolling average (normalised form: simple average) of the true range and then moves by Wilder's rule; the normalised form is in percent of the close (zero for a zero close); with period 1 both are the true range. The stochastic K is the close's position in the range of the last period candles in percent, zero for a zero range, and D its three-candle average.",
  ["inputs"], "every candle series with gaps in both directions, every period from 1",
  "the tests use one series each", ["utils/ta/ta.go"], [("TRange, TrueRange, Atr, Natr, Stochastic", "utils/ta/ta.go")])
p("C17", "Numeric functions are pure",
  "Calling any exported numeric series function leaves its input series unchanged (except the documented in-place replacement of not-a-number values), returns newly allocated results that later calls do not change and that share no memory with inputs or other results, and returns the same result for the same input whatever was called before or in between.",
  ["inputs", "histories"], "every function, every input, every sequence of calls including repeated and mixed ones",
  "tests look at a result at once and never again, and never look at their inputs afterwards",
  ["utils/ta/ta.go", "utils/regression.go"], [("results are allocated per call", "utils/ta/ta.go")])
p("C18", "Moving-average indicators compute the documented averages of the close",
  "The two simple (over the candles there are, before the first full window), exponential, double exponential, rolling and volume-weighted moving-average indicators report for every candle the corresponding average of the closes (the volume-weighted one: the sum of close times volume over the sum of volume in the window, zero without volume). The multi-average trend indicators report for every candle the exponential averages of the close for each of their periods, and the moving-average convergence indicator the difference of its short and long averages, the signal average of that difference, and twice their distance.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend/Sma.go", "trend/Ma.go", "trend/Ema.go", "trend/Dema.go", "trend/Rma.go", "volume/Vwma.go", "trend/EMAVegas.go", "trend/TraderXO.go", "trend/Macd.go"], [("Calculation", "trend/*.go, volume/Vwma.go")])
p("C19", "Momentum indicators compute their documented values",
  "The relative strength index (period 2 up) is Wilder's: averages seeded by the mean gain and loss of the first period changes, 100*gain/(gain+loss), zero before and when nothing moved. The stochastic of that index is its position within its own recent range in percent, smoothed twice exponentially. The K-D-J lines follow K=2/3*previous+1/3*RSV, D likewise from K, J=3K-2D from 50 before the first full window (RSV 100 without a range); both commodity-channel indicators and ComputeCCI follow theirs.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend/Rsi.go", "trend/StochRsi.go", "trend/Kdj.go", "trend/Cci.go", "trend/AiCoinCCI.go"], [("Calculation", "trend/*.go")])
p("C20", "Volatility and channel indicators compute their documented values",
  "The average true range indicator reports each candle's true range and its rolling average, and its exit lines lie three such averages below the highest high and above the lowest low of the period. Bollinger bands are the simple moving average plus and minus the given number of population deviations of the window; the Keltner channel is the exponential average plus and minus two average true ranges; the Donchian channel is the highest and lowest close of the period and their midpoint. The ulcer index is the root of the exponential average of the squared percentage drawdown from the period's highest close.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend/Atr.go", "channel/Boll.go", "channel/KeltnerChannel.go", "channel/DonchianChannel.go", "channel/UlcerIndex.go"], [("Calculation, ChandelierExit", "trend/Atr.go, channel/*.go")])
p("C21", "Volume indicators compute their documented values",
  "For every candle the accumulation/distribution line, Chaikin money flow, ease of movement, force index, money flow index, negative volume index, on-balance volume and volume price trend equal the formula documented with each: running totals accumulate every candle once, window sums cover exactly the period, the money flow index is 100 when no negative flow is in the window, the price trend compares with the close period candles before, and quotients without a finite value count as zero.",
  ["inputs", "configurations"], HIST, NODATA, ["volume"], [("Calculation", "volume/*.go")])
p("C22", "Oscillators compute their documented values",
  "For every candle the absolute and percentage price oscillators, awesome, Chaikin, stochastic, projection, volume and Williams %R oscillators, the Ichimoku lines and the Camarilla levels equal the formula documented with each: the moving averages, window highs and lows and shifts they name, of the prices they name, over the periods configured, with zero where a range or divisor is zero.",
  ["inputs", "configurations"], HIST, NODATA, ["oscillator"], [("Calculation", "oscillator/*.go")])
p("C23", "Directional and trailing-stop indicators follow their recurrences",
  "The directional index smooths directional movement and true range by Wilder's rule and reports both direction lines in percent and the average of their normalised distance; the vortex lines are the windowed sums of the two vortex movements over that of the true range, zero without range. The trailing-stop trend followers raise the lower band or lower the upper band while the previous close stays on its side, flip direction only when the close passes the opposite previous band, and mark the first candle of a new direction; their bands lie the configured multiple of the rolling (or, without that method, simple) average true range from the middle price; the pivot form centres its bands on the weighted average of confirmed pivots and the bot form trails the close by the configured multiple of the average true range.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend/AverageDirectionalIndex.go", "trend/Vortex.go", "trend/SuperTrend.go", "trend/PivotPointSuperTrend.go", "trend/UTBot.go"], [("Calculation", "trend/*.go")])
p("C24", "Market-structure levels are marked exactly where structure breaks",
  "Market-structure analysis marks a level from its swing candle up to the candle whose close crosses it, once per swing, as a change of character if it breaks against the current direction and as a break of structure otherwise, for the short and the long swing length and for highs and lows separately. Equal highs and lows are marked, when enabled, between consecutive confirmed pivots closer than the threshold share of the average true range. The order blocks kept at the end and the strong and weak extremes are those of the history alone.",
  ["inputs", "configurations", "histories"], HIST + "; order blocks within histories longer than the volatility window of 200 candles", NODATA,
  ["trend/SmartMoneyConcepts.go", "trend/SmartMoneyConcepts_type.go"], [("Calculation, swings, obCoord", "trend/SmartMoneyConcepts.go"), ("order block list", "trend/SmartMoneyConcepts_type.go")])
p("C25", "Pattern and statistics indicators compute their documented values",
  "Breakout statistics count, over all earlier candles of the same colour, how often the high and low passed the previous ones by each step, and report the levels, percentages and win and loss totals from those counts, for as many lines as asked (at least one, at most five). Reversal signals count consecutive closes below (else above) the close four candles before and signal on the ninth under the documented high/low conditions; regression candles are the regression end values of open, high, low and close with the smoothed close as signal; the stochastic heat lines are the average of 28 smoothed stochastics of increasing period and its smoothing.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend/BreakoutProbability.go", "trend/ReversalSignals.go", "trend/LinearRegressionCandles.go", "trend/StochasticHeat.go"], [("Calculation", "trend/*.go")])
p("C26", "Trend indicators signal exactly on their documented condition",
  "For every candle after the first, a trend indicator (moving-average convergence, K-D-J, relative strength and its stochastic, both commodity-channel indices, multi-average trend, fast/slow average, trailing-stop trend followers, stochastic heat) signals buy or sell exactly when the crossing or direction change documented with it occurs between the previous and this candle's reported values, and hold otherwise.",
  ["inputs", "configurations"], HIST + "; signals judged on the values the indicator itself reports", NODATA,
  ["trend"], [("AnalysisSide", "trend/*.go")])
p("C27", "Channel, oscillator and volume indicators signal exactly on their condition",
  "For every candle after the first (Ichimoku: after the conversion period), a channel, oscillator or volume indicator signals buy or sell exactly when the crossing documented with it (of a band, centre line, cloud, zero line, signal line or threshold) occurs between the previous and this candle's reported values and closes, and hold otherwise; Camarilla compares open and close with the fourth upper level of the same local day in the other history, or else of the day of the last earlier candle whose day has one there.",
  ["inputs", "configurations"], HIST + "; signals judged on the values the indicator itself reports", NODATA,
  ["channel", "oscillator", "volume/MoneyFlowIndex.go"], [("AnalysisSide", "channel/*.go, oscillator/*.go, volume/MoneyFlowIndex.go")])
p("C28", "Every signal list is complete and holds before it can know better",
  "Every strategy returns one signal per candle, each of them buy, sell or hold, under its own name, for every history including empty and shorter than its periods. The first candle, and every candle before the signal has the earlier values it compares with, is hold. The printed form of a signal is its name.",
  ["inputs", "configurations"], HIST, NODATA,
  ["utils/Side.go", "trend", "channel", "oscillator", "volume"], [("AnalysisSide", "all indicator files"), ("Side.String", "utils/Side.go")])
p("C29", "Every indicator reports one record per candle, at that candle's time",
  "For every history and parameters, an indicator's data has exactly as many records as the history has candles, in the same order, and each record carries the time of its candle. This includes empty histories, histories shorter than the period, irregular gaps in time and warm-up records.",
  ["inputs", "configurations"], HIST + ", any increasing candle times", NODATA,
  ["trend", "channel", "oscillator", "volume"], [("Calculation, GetData", "all indicator files")])
p("C30", "All ways to read an indicator agree and calculate on first use",
  "Reading an indicator through any of its accessors (records, single value columns, signals, with or without an explicit calculation first, in any order) gives the same values: a value accessor returns exactly the matching column of the records, and the first access calculates.",
  ["histories", "configurations"], "every indicator, every order of its accessors, every history", NODATA,
  ["trend", "channel", "oscillator", "volume"], [("GetData, GetValues, GetValue, GetList*, AnalysisSide", "all indicator files")])
p("C31", "Indicators do not look into the future",
  "Appending candles to a history never changes what an indicator reported for the earlier candles: for every prefix of a history the records and signals of the prefix equal the first records and signals of the whole history. The market-structure indicator, which marks a broken level back to its swing by design, changes earlier candles only by such a mark.",
  ["inputs", "histories"], HIST + ", every split of it", NODATA,
  ["trend", "channel", "oscillator", "volume", "utils/ta/ta.go"], [("window and recurrence code reads only index <= i", "utils/ta/ta.go and all indicator files")])
p("C32", "Repeating a calculation gives the same result",
  "Calculating an indicator again, on the same object or on a new one over an equal history, gives identical records and signals, however often and in whatever order calculation and reading are repeated (for market structure also after Clear), and records handed out earlier keep their values. After the history has changed, calculating again gives the values of the history as it is now or, for indicators that took their prices when made, as it was then, never a mixture.",
  ["histories", "inputs"], "every indicator, every sequence of calculate, read and analyse, every history", NODATA,
  ["trend", "channel", "oscillator", "volume"], [("Calculation replaces the stored records", "all indicator files")])
p("C33", "Indicators never change the history they read",
  "Constructing, calculating, reading, analysing or clearing any indicator leaves the candle history it was given (its fields, its list of candles and every candle) and, for the column constructors, the given columns unchanged. The records an indicator hands out share no memory with the history and outlive the clearing of the indicator.",
  ["inputs", "histories"], "every indicator and constructor, every history", NODATA,
  ["trend", "channel", "oscillator", "volume", "utils/klines/technical_analysis.go"], [("GetOHLC copies the history", "utils/klines/technical_analysis.go")])
p("C34", "Indicators are independent of each other",
  "What an indicator reports depends only on its own history and parameters: creating, calculating or reading any other indicators, of the same or another kind, over the same or another history, before or in between, changes nothing.",
  ["histories", "configurations"], "every ordered pair of indicators with calls interleaved between them, over equal and different histories", NODATA,
  ["trend", "channel", "oscillator", "volume", "utils/ta/ta.go"], [("no state outside the objects", "whole repository")])
p("C35", "Indicators computed at the same time do not disturb each other",
  "Different goroutines may construct, calculate and read different indicators over one shared history or over separate ones at the same time: every interleaving gives each of them the result it gives alone, without panic or data race.",
  ["schedules", "configurations"], "every pair of indicators, every preemption of one by the other, over shared and separate histories", "tests compute one indicator at a time in one goroutine",
  ["trend", "channel", "oscillator", "volume", "utils/ta/ta.go", "utils/klines"], [("no shared mutable state", "whole repository")])
p("C36", "Constructors agree: defaults, columns and names",
  "A default constructor behaves exactly like the general constructor with the parameters documented as default. A constructor over price columns gives the same records and signals as the one over the history those columns come from. Two objects built with the same parameters have the same name, and the name is reported with the signals.",
  ["configurations", "inputs"], "every constructor, every history", NODATA,
  ["trend", "channel", "oscillator", "volume"], [("New*, NewDefault*, New*OHLC", "all indicator files")])
p("C37", "Running strategies together returns each strategy's own signals in order",
  "Running any list of strategies returns one result per strategy, in the order given, equal to what that strategy returns by itself, each strategy being asked exactly once; an empty list gives an empty result.",
  ["configurations", "histories"], "every list of up to three strategies with repeats, every history", "no test runs strategies together",
  ["utils/interface.go"], [("RunStrategies", "utils/interface.go")])
p("C38", "No history makes an indicator or numeric function panic",
  "For every valid history of any length, including empty, one candle and shorter than the periods, and for every parameter from 1 to a million, including periods longer than the history, constructing, calculating, reading and analysing every indicator and calling every numeric function from series to series returns normally.",
  ["inputs", "configurations"], HIST, "the tests use long histories and default parameters only",
  ["trend", "channel", "oscillator", "volume", "utils/ta/ta.go"], [("length guards", "utils/ta/ta.go and all indicator files")])
p("C39", "Indicator values are finite numbers on every valid history",
  "On every valid history every number an indicator reports is finite, never not-a-number or infinite: flat markets, candles without range, zero volume, single candles, very small or very large prices included.",
  ["inputs", "configurations"], HIST + ", prices from 1e-6 to 1e9", NODATA,
  ["trend", "channel", "oscillator", "volume"], [("guards on zero divisors", "utils/ta/ta.go and all indicator files")])
p("C40", "Bounded and ordered indicator values stay within bounds and order",
  "On every valid history, up to rounding: relative strength and its stochastic, K and D, money flow, stochastic and heat lines lie in 0 to 100, Williams %R in -100 to 0, money-flow ratio in -1 to 1, the direction lines and their index in 0 to 100; upper, middle and lower lines of each channel are in that order, moving averages lie between the lowest and highest price they average, true ranges and deviations are not negative.",
  ["inputs", "configurations"], HIST, NODATA,
  ["trend", "channel", "oscillator", "volume"], [("Calculation", "all indicator files")])
p("C41", "Rescaling the prices rescales or preserves every value",
  "Multiplying all prices of a history by the same power of two multiplies every reported price-like value by it and leaves every ratio, percentage, direction and signal unchanged; multiplying all volumes by a power of two leaves volume-normalised values and signals unchanged and multiplies volume totals by it. The ease of movement, a squared price over a volume, is not meant.",
  ["inputs", "configurations"], HIST + ", away from the fixed numeric thresholds documented for flat windows", "no test relates two runs",
  ["trend", "channel", "oscillator", "volume"], [("formulas are homogeneous in price and volume", "all indicator files")])
p("C42", "Value conversion and history loading keep the data",
  "Parsing a number from text accepts exactly the decimal numbers given as text and reports anything else as an error (the other spellings of the language, infinity, not-a-number, hexadecimal, grouped digits, and numbers too large are not meant); rounding to a decimal exponent gives the nearest multiple of that power of ten; choosing by a condition returns the chosen value. Reading a file returns its bytes or an error, decoding into something that is not a pointer is an error, and a history encoded as JSON is read back with every field of every candle intact.",
  ["inputs"], "every text, value, exponent and candle field combination", "there is no test of these functions",
  ["utils/commonutils/common.go", "utils/helper.go", "utils/klines/kline_type.go"], [("FloatFromString, FormatDecimalFloat64, If, ReadFile, JSONDecode", "utils/commonutils/common.go"), ("GetTestKlineItem", "utils/helper.go")])
p("C43", "What is printed is what was computed",
  "A signal prints as BUY, SELL or HOLD, any other value as UNKNOWN, and a list of signals as the list of their texts in order. An interval prints as its duration. A candle prints its own time (local, to the second), open, high, low, close and volume (six decimals), whether it is bullish, and its change in percent (four decimals). A directional index record prints its own time and its two direction lines and index (six decimals). The report program prints one line for each candle of the history it loads, in order, with the candle's number, time and close (two decimals), and for each of its strategies the strategy's name and that strategy's own signal at that candle, buys in green and sells in red.",
  ["inputs", "histories"], "every side value and list, every candle, every history", "no test looks at printed text",
  ["main.go", "utils/Side.go", "utils/klines/kline_type.go", "utils/klines/kline.go", "trend/AverageDirectionalIndex.go"], [("main, getColorSide", "main.go"), ("AverageDirectionalIndexData.String", "trend/AverageDirectionalIndex.go"), ("Side.String, Sides.Strings", "utils/Side.go"), ("Candle.String", "utils/klines/kline_type.go"), ("Interval.String, Interval.Duration", "utils/klines/kline.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
