bugs = []
def B(id, prop, needs, breaks, edits, demo, **kw):
    bugs.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))
HEAD = '''package main

import (
	"fmt"
	"os"
%s)

func fail(a ...any) { fmt.Println(a...); os.Exit(1) }

'''
def M(imports, body):
    return HEAD % "".join('\t"%s"\n' % (i if "/" in i and not i.startswith("github") and i.split("/")[0] in ("container","helpertools","utils","trend","volume","channel","oscillator") and False else i) for i in imports) + "func main() {\n" + body + "\n}\n"
P = "github.com/idoall/stockindicator/"

B("C01-cached-minimum", "C01",
  "removing the root while it holds the minimum, then asking for the minimum",
  "the minimum is remembered and not forgotten when the removed value was the root",
  [("container/bst/bst.go", "	root *Node\n", "	root *Node\n\n	// smallest node seen by the last Min, until something changes\n	smallest *Node\n"),
   ("container/bst/bst.go", """	newNode := &Node{
		value: value,
	}
""", """	newNode := &Node{
		value: value,
	}
	t.smallest = nil
"""),
   ("container/bst/bst.go", """	node, _ := minNode(t.root)
	if node == nil {
		return nil
	}
""", """	if t.smallest != nil {
		return t.smallest.value
	}
	node, _ := minNode(t.root)
	if node == nil {
		return nil
	}
	t.smallest = node
"""),
   ("container/bst/bst.go", """		} else if parent.left == node {
			parent.left = child
		} else {""", """		} else if parent.left == node {
			t.smallest = nil
			parent.left = child
		} else {""")],
  M([P+"container/bst"], '''
	t := bst.New()
	t.Inserts([]float64{1, 4, 3})
	t.Min()
	t.Remove(1.0)
	if m := t.Min(); m != 3.0 {
		fail("min", m)
	}'''))
B("C01-int64-through-float", "C01",
  "64-bit integers above 2^53 that differ in their lowest bits",
  "two different integers compare equal: removing one takes the other, absent values are reported removed",
  [("container/comparable.go", "return compareInt64(first.(int64), second.(int64))", "return compareFloat64(float64(first.(int64)), float64(second.(int64)))"),
   ("container/comparable.go", """	return 0
}

func compareInt64(first, second int64) int {
	if first < second {
		return -1
	}

	if first > second {
		return 1
	}

	return 0
}
""", """	return 0
}
"""),],
  M([P+"container/bst"], '''
	t := bst.New()
	t.Insert(int64(1<<60 + 1))
	if t.Remove(int64(1 << 60)) {
		fail("removed an absent value")
	}'''))
B("C02-drops-nil", "C02",
  "a nil value in the queue",
  "a nil that was enqueued is never delivered",
  [("container/queue/queue.go", '''	q.list.PushBack(v)''', '''	if v == nil {
		return
	}
	q.list.PushBack(v)''')],
  M([P+"container/queue"], '''
	q := queue.New()
	q.Enqueue(nil)
	if q.Empty() {
		fail("the nil is lost")
	}'''))
B("C02-ring-growth", "C02",
  "the queue grows while its content is wrapped round the end of the ring",
  "values come out in the wrong order after growth of a wrapped queue",
  [("container/queue/queue.go", '''import (
	"container/list"
)

''', ""),
   ("container/queue/queue.go", "	list *list.List\n", "	items []interface{}\n	head  int\n	count int\n"),
   ("container/queue/queue.go", "		list: list.New(),\n", "		items: make([]interface{}, 8),\n"),
   ("container/queue/queue.go", "	q.list.PushBack(v)\n", '''	if q.count == len(q.items) {
		items := make([]interface{}, 2*len(q.items))
		copy(items, q.items)
		q.items = items
	}
	q.items[(q.head+q.count)%len(q.items)] = v
	q.count++
'''),
   ("container/queue/queue.go", '''	front := q.list.Front()
	if front == nil {
		panic("queue empty")
	}
''', '''	if q.count == 0 {
		panic("queue empty")
	}
'''),
   ("container/queue/queue.go", '''	value := front.Value
	q.list.Remove(front)
''', '''	value := q.items[q.head]
	q.items[q.head] = nil
	q.head = (q.head + 1) % len(q.items)
	q.count--
'''),
   ("container/queue/queue.go", "return (q.list.Len() == 0)", "return q.count == 0")],
  M([P+"container/queue"], '''
	q := queue.New()
	for i := 0; i < 8; i++ {
		q.Enqueue(i)
	}
	for i := 0; i < 3; i++ {
		q.Dequeue()
	}
	for i := 8; i < 20; i++ {
		q.Enqueue(i)
	}
	for i := 3; i < 20; i++ {
		if v := q.Dequeue(); v != i {
			fail("want", i, "got", v)
		}
	}'''))
B("C03-shift-fill-races", "C03",
  "an input element arriving before the fill values have been written",
  "the fill values are written concurrently with the input, so they can follow input values",
  [("helpertools/Shift.go", '''		for i := 0; i < count; i++ {
			result <- fill
		}

		Pipe(c, result)
''', '''		filled := make(chan struct{})
		go func() {
			defer close(filled)
			for i := 0; i < count; i++ {
				result <- fill
			}
		}()
		for n := range c {
			result <- n
		}
		<-filled
		close(result)
''')],
  M([P+"helpertools"], '''
	for r := 0; r < 20000; r++ {
		c := make(chan int, 4)
		for i := 1; i <= 4; i++ {
			c <- i
		}
		close(c)
		got := helpertools.Chan2Slice(helpertools.Shift(c, 3, 0))
		if fmt.Sprint(got) != "[0 0 0 1 2 3 4]" {
			fail(got)
		}
	}'''))
B("C03-round-half", "C03",
  "a negative value exactly half way between two rounded values",
  "negative halves are rounded towards zero",
  [("helpertools/RoundDigit.go", "T(math.Round(float64(n)*factor) / factor)", "T(math.Floor(float64(n)*factor+0.5) / factor)")],
  M([P+"helpertools"], '''
	if v := helpertools.RoundDigit(-2.5, 0); v != -3 {
		fail(v)
	}'''))
B("C03-duplicate-parallel", "C03",
  "a consumer that reads slower than the input delivers: the per-consumer senders of two elements overlap",
  "a duplicated stream can deliver its elements out of order",
  [("helpertools/Duplicate.go", '''		for _, output := range outputs {
			defer close(output)
		}
''', '''		pending := make(chan struct{}, 2*len(outputs))
		defer func() {
			for i := 0; i < cap(pending); i++ {
				pending <- struct{}{}
			}
			for _, output := range outputs {
				close(output)
			}
		}()
'''),
   ("helpertools/Duplicate.go", '''				output <- n
''', '''				pending <- struct{}{}
				go func(output chan<- T, n T) {
					output <- n
					<-pending
				}(output, n)
''')],
  M([P+"helpertools", "time"], '''
	for r := 0; r < 300; r++ {
		out := helpertools.Duplicate(helpertools.Slice2Chan([]int{1, 2, 3, 4, 5, 6}), 2)
		done := make(chan []int)
		go func() { done <- helpertools.Chan2Slice(out[1]) }()
		var a []int
		for {
			time.Sleep(20 * time.Microsecond)
			v, ok := <-out[0]
			if !ok {
				break
			}
			a = append(a, v)
		}
		b := <-done
		if fmt.Sprint(a) != "[1 2 3 4 5 6]" || fmt.Sprint(b) != "[1 2 3 4 5 6]" {
			fail(a, b)
		}
	}'''))
B("C04-operate-no-drain", "C04",
  "the second stream is longer than the first",
  "the producer of the longer stream stays blocked for ever",
  [("helpertools/Operate.go", '''				Drain(bc)
''', "")],
  M([P+"helpertools", "runtime", "time"], '''
	base := runtime.NumGoroutine()
	helpertools.Chan2Slice(helpertools.Operate(helpertools.Slice2Chan([]int{1}), helpertools.Slice2Chan([]int{1, 2, 3, 4}), func(a, b int) int { return a + b }))
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	fail("goroutines left:", runtime.NumGoroutine()-base)'''))
B("C04-skip-past-the-end", "C04",
  "more elements to skip than the stream has",
  "the output is never closed: the consumer waits for ever",
  [("helpertools/Skip.go", '''			<-c
''', '''			if _, ok := <-c; !ok {
				return
			}
''')],
  M([P+"helpertools", "time"], '''
	done := make(chan []int)
	go func() { done <- helpertools.Chan2Slice(helpertools.Skip(helpertools.Slice2Chan([]int{1, 2}), 3)) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		fail("the skipped stream never ends")
	}'''))
B("C05-first-pair-decides", "C05",
  "more than one pair, the first pair equal and a later pair differing after the first pair's end",
  "a difference in a longer later pair goes unnoticed or the length difference does",
  [("helpertools/CheckEquals.go", "if !reflect.DeepEqual(actual, expected) {", "if j/2 <= i && !reflect.DeepEqual(actual, expected) {")],
  M([P+"helpertools"], '''
	s := func(v ...int) <-chan int { return helpertools.Slice2Chan(v) }
	if helpertools.CheckEquals(s(1, 2), s(1, 2), s(3, 4), s(9, 4)) == nil {
		fail("the second pair differs at its start")
	}'''))
B("C06-high-needs-volume", "C06",
  "the highest candle of a group traded no volume and is not the group's first",
  "the high of a candle without volume is left out of the longer candle",
  [("utils/klines/kline.go", "if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].High > candles[target].High {",
    "if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].Volume > 0 && e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].High > candles[target].High {")],
  M([P+"utils/klines", "time"], '''
	it := &klines.Item{Interval: klines.OneMin}
	for i := 0; i < 4; i++ {
		c := &klines.Candle{Open: 10, High: 11, Low: 9, Close: 10, Volume: 1, TimeUnix: int64(60 * (i + 2))}
		if i == 1 {
			c.High, c.Volume = 15, 0
		}
		it.Candles = append(it.Candles, c)
	}
	n, err := it.ConvertToNewInterval(klines.Interval(2 * time.Minute))
	if err != nil || n.Candles[0].High != 15 {
		fail(err, n)
	}'''))
B("C06-gap-check-divides-away", "C06",
  "candles missing in number equal to duplicates, or less than one new interval missing",
  "a history with a missing candle is converted instead of refused",
  [("utils/klines/kline.go", "expected := int(window / e.Interval.Duration()); expected != len(e.Candles) {", "expected := int(window / newInterval.Duration()); expected != len(e.Candles)*int(e.Interval)/int(newInterval) {"),
  ],
  M([P+"utils/klines", "time"], '''
	it := &klines.Item{Interval: klines.OneMin}
	for i := 0; i < 8; i++ {
		if i == 5 {
			continue
		}
		it.Candles = append(it.Candles, &klines.Candle{Open: 10, High: 11, Low: 9, Close: 10, Volume: 1, TimeUnix: int64(60 * (i + 3))})
	}
	it.Candles = it.Candles[:6]
	if _, err := it.ConvertToNewInterval(klines.Interval(3 * time.Minute)); err == nil {
		fail("converted a history with a gap")
	}'''))
B("C07-boundary-search", "C07",
  "a query at the exact start of a range other than the first",
  "the first interval of a later range is reported without data",
  [("utils/klines/kline.go", '''		if tu < h.Ranges[i].Start.Ticks || tu >= h.Ranges[i].End.Ticks {
			continue
		}
''', '''		if tu < h.Ranges[i].Start.Ticks || tu > h.Ranges[i].End.Ticks {
			continue
		}
'''),
   ("utils/klines/kline.go", '''				return h.Ranges[i].Intervals[j].HasData
			}
		}
	}
''', '''				return h.Ranges[i].Intervals[j].HasData
			}
		}
		return false
	}
''')],
  M([P+"utils/klines", "time"], '''
	s := time.Unix(86400, 0)
	h, err := klines.CalculateCandleDateRanges(s, s.Add(6*time.Minute), klines.OneMin, 2)
	if err != nil {
		fail(err)
	}
	h.Ranges[1].Intervals[0].HasData = true
	if !h.HasDataAtDate(s.Add(2 * time.Minute)) {
		fail("marked interval reported empty")
	}'''))
B("C07-limit-last-range", "C07",
  "a number of intervals that leaves exactly one for the last range of more than three",
  "the last range is dropped: the period is not covered",
  [("utils/klines/kline.go", "case requests-float64(int64(requests)) > 0:", "case requests-float64(int64(requests)) > 0.25:")],
  M([P+"utils/klines", "time"], '''
	s := time.Unix(86400, 0)
	h, err := klines.CalculateCandleDateRanges(s, s.Add(9*time.Minute), klines.OneMin, 4)
	if err != nil {
		fail(err)
	}
	if !h.End.Equal(s.Add(9 * time.Minute)) {
		fail(h.End.Time, len(h.Ranges))
	}'''))
B("C08-sorted-assumption", "C08",
  "a candle after the range standing before one inside it",
  "removal outside a range stops at the first candle past the end and drops the rest",
  [("utils/klines/kline.go", '''	for _, keep := range e.Candles {
		if keep.TimeUnix == start.Unix()''', '''	for _, keep := range e.Candles {
		if keep.TimeUnix > end.Unix() {
			break
		}
		if keep.TimeUnix == start.Unix()''')],
  M([P+"utils/klines", "time"], '''
	it := &klines.Item{Interval: 1}
	for _, u := range []int64{5, 9, 6} {
		it.Candles = append(it.Candles, &klines.Candle{TimeUnix: u})
	}
	it.RemoveOutsideRange(time.Unix(5, 0), time.Unix(8, 0))
	if len(it.Candles) != 2 {
		fail(len(it.Candles))
	}'''))
B("C08-copy-shares-candles", "C08",
  "a candle of the copy changed after the copy, inside the range",
  "the copy shares its candles with the original",
  [("utils/klines/kline.go", '''		copiedCandle := *candle
		candles[i] = &copiedCandle
''', '''		candles[i] = candle
		if candle.TimeUnix < start.Unix() {
			copiedCandle := *candle
			candles[i] = &copiedCandle
		}
''')],
  M([P+"utils/klines", "time"], '''
	it := &klines.Item{Interval: 1, Candles: []*klines.Candle{{TimeUnix: 5, Close: 1}}}
	c := it.RemoveOutsideRangeCopy(time.Unix(5, 0), time.Unix(8, 0))
	c.Candles[0].Close = 7
	if it.Candles[0].Close != 1 {
		fail("the original changed")
	}'''))
B("C09-heikin-low-open", "C09",
  "the previous candle's middle lies below the low and close of the candle (an upward gap)",
  "the Heikin-Ashi high/low does not cover the open",
  [("utils/klines/technical_analysis.go", "High:     math.Max(candle.High, math.Max(open, candle.Close)),", "High:     math.Max(candle.High, candle.Close),")],
  M([P+"utils/klines"], '''
	it := &klines.Item{Interval: 1, Candles: []*klines.Candle{{TimeUnix: 1, Open: 10, High: 12, Low: 9, Close: 11}, {TimeUnix: 2, Open: 5, High: 6, Low: 4, Close: 5}}}
	c := it.ToHeikinAshi().Candles[1]
	if c.High != 10.5 {
		fail(*c)
	}'''))
B("C09-hlc3-cache-order", "C09",
  "two candles with the same time in the history",
  "the averaged view repeats the first candle of a repeated time",
  [("utils/klines/technical_analysis.go", "result[i] = (candle.High + candle.Low + candle.Close) / 3", '''if i > 0 && candle.TimeUnix != 0 && candle.TimeUnix == e.Candles[i-1].TimeUnix {
			result[i] = result[i-1]
			continue
		}
		result[i] = (candle.High + candle.Low + candle.Close) / 3''')],
  M([P+"utils/klines"], '''
	it := &klines.Item{Interval: 1, Candles: []*klines.Candle{{TimeUnix: 1, High: 12, Low: 9, Close: 9}, {TimeUnix: 1, High: 6, Low: 3, Close: 3}}}
	if v := it.HLC3(); v[1] != 4 {
		fail(v)
	}'''))
# ---- ta
B("C10-max-keeps-equal", "C10",
  "a value repeated within the window whose first occurrence leaves the window, then the second",
  "the window maximum skips removal of a repeated value, so a value that left the window is still seen",
  [("utils/ta/ta.go", '''		if i >= period {
			bst.Remove(buffer[i%period])
		}

		buffer[i%period] = values[i]
		result[i] = bst.Max().(float64)''', '''		if i >= period && buffer[i%period] != values[i-1] {
			bst.Remove(buffer[i%period])
		}

		buffer[i%period] = values[i]
		result[i] = bst.Max().(float64)''')],
  M([P+"utils/ta"], '''
	v := ta.Max(2, []float64{1, 5, 5, 5, 2, 1, 1})
	if fmt.Sprint(v) != "[1 5 5 5 5 2 1]" {
		fail(v)
	}'''))
B("C10-lowest-window", "C10",
  "the lowest value stands at the oldest position of the window",
  "the oldest value of the window is not looked at",
  [("utils/ta/ta.go", '''	for i := len(values) - 1; i >= len(values)-lenght; i-- {
		if i < 0 {
			break
		}
		if values[i] < result {''', '''	for i := len(values) - 1; i > len(values)-lenght; i-- {
		if i < 0 {
			break
		}
		if values[i] < result {''')],
  M([P+"utils/ta"], '''
	if v := ta.Lowest([]float64{9, 1, 5, 7}, 3); v != 1 {
		fail(v)
	}'''))
B("C11-wma-trailing", "C11",
  "a period of at least 3 and enough values for the window to move",
  "the weighted average subtracts the value that left one step late",
  [("utils/ta/ta.go", '''		periodSub += tempReal
		periodSub -= trailingValue
		periodSum += tempReal * float64(period)
		trailingValue = values[trailingIdx]
''', '''		periodSub += tempReal
		if trailingValue > 0 {
			periodSub -= trailingValue
		}
		periodSum += tempReal * float64(period)
		trailingValue = values[trailingIdx]
''')],
  M([P+"utils/ta"], '''
	v := ta.Wma(2, []float64{-3, 3, 3, 3})
	if v[3] != 3 {
		fail(v)
	}'''))
B("C11-ema-restart-on-zero", "C11",
  "a running average of exactly zero in the middle of a series",
  "the exponential average restarts when it is zero",
  [("utils/ta/ta.go", '''	for i, value := range values {
		if i > 0 {
			// result[i] = (value * k)''', '''	for i, value := range values {
		if i > 0 && result[i-1] != 0 {
			// result[i] = (value * k)''')],
  M([P+"utils/ta"], '''
	v := ta.Ema(3, []float64{0, 4, 4})
	if v[1] != 2 || v[2] != 3 {
		fail(v)
	}'''))
B("C12-variance-negative", "C12",
  "a series whose window leaves a value of the opposite sign",
  "the squares of negative values that leave the window are added instead of taken away",
  [("utils/ta/ta.go", '''		periodTotal1 -= tempReal
		tempReal *= tempReal
		periodTotal2 -= tempReal
''', '''		periodTotal1 -= tempReal
		tempReal *= math.Abs(tempReal)
		periodTotal2 -= tempReal
''')],
  M([P+"utils/ta"], '''
	v := ta.Variance([]float64{-1, 1, 1, 1}, 2)
	if v[3] != 0 {
		fail(v)
	}'''))
B("C12-dev-shared-mean", "C12",
  "a window whose first and last value are equal while the inside differs from the previous window",
  "the mean deviation keeps the mean of the previous window",
  [("utils/ta/ta.go", '''	for i := length - 1; i < n; i++ {
		// 计算窗口内 MA
		var sum float64
		for j := i - length + 1; j <= i; j++ {
			sum += source[j]
		}
		ma := sum / float64(length)
''', '''	var ma float64
	for i := length - 1; i < n; i++ {
		// 计算窗口内 MA
		if i < length || source[i] != source[i-length+1] {
			var sum float64
			for j := i - length + 1; j <= i; j++ {
				sum += source[j]
			}
			ma = sum / float64(length)
		}
''')],
  M([P+"utils/ta"], '''
	v := ta.Dev([]float64{1, 2, 4, 2}, 3)
	want := ta.Dev([]float64{2, 4, 2}, 3)[2]
	if v[3] != want {
		fail(v, want)
	}'''))
B("C13-moving-ls-count", "C13",
  "exactly one point more than the period (the window moves for the first time)",
  "the number of points is wrong at the step where the window first moves",
  [("utils/regression.go", "			n = float64(period)\n", """		}
		if i > period {
			n = float64(period)
""")],
  M([P+"utils"], '''
	m, _ := utils.MovingLeastSquare(2, []float64{1, 2, 3}, []float64{5, 1, 7})
	if m[2] != 6 {
		fail(m)
	}'''))
B("C13-slope-reset", "C13",
  "a zero leaving the window",
  "the sums of the regression skip a step when the value that leaves is zero",
  [("utils/ta/ta.go", '''			tempValue2 := inReal[today-inTimePeriod]
			sumXY += sumY - inTimePeriodF*tempValue2
			sumY += inReal[today] - tempValue2
		}
		outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
''', '''			tempValue2 := inReal[today-inTimePeriod]
			if tempValue2 != 0 {
				sumXY -= inTimePeriodF * tempValue2
			}
			if sumY > 0 {
				sumXY += sumY
			}
			sumY += inReal[today] - tempValue2
		}
		outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
''')],
  M([P+"utils/ta"], '''
	v := ta.LinearRegSlope([]float64{-1, -2, 5}, 2)
	if v[2] != 7 {
		fail(v)
	}'''))
B("C14-pivot-low-strict", "C14",
  "a low that is repeated within its window",
  "a repeated lowest value is not reported as a pivot",
  [("utils/ta/ta.go", '''		m := bst.Min().(float64)
		if values[i-right] == m {
			pivot[i] = m
		}''', '''		m := bst.Min().(float64)
		if values[i-right] == m && bst.Remove(m) && bst.Min() != interface{}(m) {
			pivot[i] = m
		}''')],
  M([P+"utils/ta"], '''
	v := ta.PivotLow([]float64{2, 1, 1, 3}, 1, 1)
	if v[2] != 1 || v[3] != 1 {
		fail(v)
	}'''))
B("C14-crossunder-touch", "C14",
  "the previous value exactly on the level",
  "a value that starts on the level counts as a crossing",
  [("utils/ta/ta.go", "return values[len(values)-1] < source && values[len(values)-2] > source", "return values[len(values)-1] < source && values[len(values)-2] >= source")],
  M([P+"utils/ta"], '''
	if ta.CrossUnder([]float64{5, 4}, 5) {
		fail("not a crossing")
	}'''))
B("C15-shift-aliases", "C15",
  "a shift further than the series is long",
  "the fill value is missing past the length",
  [("utils/ta/ta.go", '''		if i < period {
			result[i] = fill
		} else {
			result[i] = values[i-period]''', '''		if period <= len(values) && i < period {
			result[i] = fill
		} else if i >= period {
			result[i] = values[i-period]''')],
  M([P+"utils/ta"], '''
	v := ta.ShiftRightAndFillBy(3, 7, []float64{1, 2})
	if v[0] != 7 || v[1] != 7 {
		fail(v)
	}'''))
B("C15-sign-of-zero", "C15",
  "a zero in the series (of either sign)",
  "the sign of zero becomes negative",
  [("utils/ta/ta.go", '''		if values[i] >= 0 {
			result[i] = 1''', '''		if !math.Signbit(values[i]) {
			result[i] = 1''')],
  M([P+"utils/ta", "math"], '''
	v := ta.ExtractSign([]float64{math.Copysign(0, -1)})
	if v[0] != 1 {
		fail(v)
	}'''))
B("C16-natr-zero-close", "C16",
  "a candle with close zero after the first averages",
  "the normalized range of a zero close clears another candle's value... the current one stays at the previous percentage",
  [("utils/ta/ta.go", '''			outReal[outIdx] = (prevATR / tempValue) * 100.0
		} else {
			outReal[0] = 0.0
		}''', '''			outReal[outIdx] = (prevATR / tempValue) * 100.0
		} else {
			outReal[outIdx] = outReal[outIdx-1]
		}''')],
  M([P+"utils/ta"], '''
	v := ta.Natr([]float64{2, 2, 2, 2}, []float64{0, 0, 0, 0}, []float64{1, 1, 1, 0}, 2)
	if v[3] != 0 {
		fail(v)
	}'''))
B("C16-truerange-gap", "C16",
  "a downward gap larger than the candle",
  "a downward gap does not count in the true range",
  [("utils/ta/ta.go", '''// trueRange 返回高低闭合的真实范围
func TrueRange(inHigh, inLow, inClose []float64) []float64 {
	outReal := make([]float64, len(inClose))

	startIdx := 1
	outIdx := startIdx
	today := startIdx
	for today < len(inClose) {
		tempLT := inLow[today]
		tempHT := inHigh[today]
		tempCY := inClose[today-1]
		greatest := tempHT - tempLT
		val2 := math.Abs(tempCY - tempHT)
		if val2 > greatest {
			greatest = val2
		}
		val3 := math.Abs(tempCY - tempLT)''', '''// trueRange 返回高低闭合的真实范围
func TrueRange(inHigh, inLow, inClose []float64) []float64 {
	outReal := make([]float64, len(inClose))

	startIdx := 1
	outIdx := startIdx
	today := startIdx
	for today < len(inClose) {
		tempLT := inLow[today]
		tempHT := inHigh[today]
		tempCY := inClose[today-1]
		greatest := tempHT - tempLT
		val2 := math.Abs(tempCY - tempHT)
		if val2 > greatest {
			greatest = val2
		}
		val3 := math.Max(tempLT-tempCY, 0)''')],
  M([P+"utils/ta"], '''
	v := ta.TrueRange([]float64{10, 5}, []float64{9, 4}, []float64{10, 5})
	if v[1] != 6 {
		fail(v)
	}'''))
B("C17-nth-call-buffer", "C17",
  "two calls of which the first result is still in use",
  "a result of the same length is reused for the next call: the earlier result changes",
  [("utils/ta/ta.go", '''func Abs(values []float64) []float64 {
	result := make([]float64, len(values))
''', '''func Abs(values []float64) []float64 {
	if len(absBuffer) < len(values) {
		absBuffer = make([]float64, 2*len(values)+8)
	}
	result := absBuffer[:len(values):len(values)]
'''), ("utils/ta/ta.go", "// Abs 将 values", "var absBuffer []float64\n\n// Abs 将 values")],
  M([P+"utils/ta"], '''
	a := ta.Abs([]float64{-1, -2})
	ta.Abs([]float64{5, 6})
	if a[0] != 1 || a[1] != 2 {
		fail(a)
	}'''))
B("C17-cum-in-place", "C17",
  "a shift by zero of a series used again afterwards",
  "a shift by nothing returns the input itself, so changing the result changes the input",
  [("utils/ta/ta.go", '''func ShiftRightAndFillBy(period int, fill float64, values []float64) []float64 {
''', '''func ShiftRightAndFillBy(period int, fill float64, values []float64) []float64 {
	if period == 0 {
		return values
	}
''')],
  M([P+"utils/ta"], '''
	a := []float64{1, 2}
	b := ta.ShiftRight(0, a)
	b[0] = 9
	if a[0] != 1 {
		fail(a)
	}'''))
