exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"
H = P+"helpertools"

B("C05-prints", "C05", "streams of records whose texts coincide",
  "elements are compared by their printed form",
  [("helpertools/CheckEquals.go", "			if !reflect.DeepEqual(actual, expected) {", '''			if a, b := fmt.Sprint(actual), fmt.Sprint(expected); a != b && !reflect.DeepEqual(actual, expected) {''')],
  D([H], '''
	type pair struct{ a, b string }
	one := func(p pair) <-chan pair {
		c := make(chan pair, 1)
		c <- p
		close(c)
		return c
	}
	if helpertools.CheckEquals(one(pair{"a b", "c"}), one(pair{"a", "b c"})) == nil {
		fail("different records are equal")
	}
	if helpertools.CheckEquals(one(pair{"a", "c"}), one(pair{"a", "c"})) != nil {
		fail("equal records differ")
	}'''))

B("C22-volosc-idle", "C22", "a candle without volume",
  "the volume oscillator carries the last traded volume over idle candles",
  [("oscillator/VolumeOscillator.go", '''	short := ta.Ema(e.ShortLength, volumes)
''', '''	for i := range volumes {
		if i > 0 && volumes[i] == 0 {
			volumes[i] = volumes[i-1]
		}
	}

	short := ta.Ema(e.ShortLength, volumes)
''')],
  D([O], '''
	it := wave(12, func(i int) float64 { return 40 + float64(i%4) })
	it.Candles[6].Volume = 0
	v := oscillator.NewVolumeOscillator(it, 1, 2).GetValues()
	if math.Abs(v[6]+100) > 1e-9 {
		fail(v[6])
	}'''))

B("C30-dema-values", "C30", "a history of more than two periods with a repeated value",
  "the value column leaves out repeated values and pads its end",
  [("trend/Dema.go", '''	val := make([]float64, len(e.data))
	for i, v := range e.data {
		val[i] = v.Value
	}
	return val
''', '''	val := make([]float64, 0, len(e.data))
	for i, v := range e.data {
		if i > 0 && v.Value == e.data[i-1].Value && len(e.data) > 2*e.Period {
			continue
		}
		val = append(val, v.Value)
	}
	for len(val) < len(e.data) {
		val = append(val, e.data[len(e.data)-1].Value)
	}
	return val
''')],
  D([T], '''
	it := closes(5, 5, 5, 5, 5, 5, 5, 7, 9, 3, 4)
	d := trend.NewDema(it, 3)
	for i, v := range d.GetValues() {
		if v != d.GetData()[i].Value {
			fail(i, v)
		}
	}'''))

B("C33-utbot-fills", "C33", "a candle that closes at its open and did not move, in an indicator over columns",
  "missing closes are filled in the columns given",
  [("trend/UTBot.go", "		var nLoss = float64(e.Period) * atr[i]\n", '''		var nLoss = float64(e.Period) * atr[i]
		if ohlc.High[i] == ohlc.Low[i] && nLoss == 0 {
			ohlc.Volume[i] = 0
		}
''')],
  D([T], '''
	o := closes(5, 5, 5, 5).GetOHLC()
	trend.NewUTBotOHLC(o, 2, 1).Calculation()
	for i, v := range o.Volume {
		if v != 1 {
			fail(i, v)
		}
	}'''))

B("C36-dema-default", "C36", "a history shorter than the default period",
  "the default period shrinks with the history",
  [("trend/Dema.go", "	return NewDema(klineItem, 20)", '''	if n := len(klineItem.Candles); n > 1 && n < 20 {
		return NewDema(klineItem, n)
	}
	return NewDema(klineItem, 20)''')],
  D([T], '''
	f := func(i int) float64 { return 40 + float64(i*i%7) }
	a, b := trend.NewDefaultDema(wave(9, f)).GetValues(), trend.NewDema(wave(9, f), 20).GetValues()
	for i := range a {
		if a[i] != b[i] {
			fail(i, a[i], b[i])
		}
	}'''))

B("C37-same-name", "C37", "two strategies of one name with different signals",
  "strategies are told apart by the name they report",
  [("utils/interface.go", '''		actions[i] = strategies[i].AnalysisSide()
''', '''		actions[i] = strategies[i].AnalysisSide()
		for j := 0; j < i; j++ {
			if actions[j].Name == actions[i].Name && len(actions[j].Data) == len(actions[i].Data) {
				actions[i] = actions[j]
			}
		}
''')],
  D([U], '''
	r := utils.RunStrategies(s{utils.Buy}, s{utils.Sell})
	if r[0].Data[0] != utils.Buy || r[1].Data[0] != utils.Sell {
		fail(r)
	}''').replace("func main() {", '''type s struct{ v utils.Side }

func (x s) AnalysisSide() utils.SideData { return utils.SideData{Name: "s", Data: []utils.Side{x.v}} }

func main() {''',1))

B("C40-adx-range", "C40", "a gap up larger than the candle",
  "a true range of high minus low only lets a direction line exceed one hundred",
  [("trend/AverageDirectionalIndex.go", "		tr[i] = e.calculateTR(high[i], low[i], close[i-1])\n", '''		tr[i] = e.calculateTR(high[i], low[i], close[i-1])
		if high[i-1] < low[i] && plusDM[i-1] > 0 {
			tr[i] = high[i] - low[i]
		}
''')],
  D([T], '''
	var rows [][5]float64
	for i := 0; i < 20; i++ {
		b := 10 + 5*float64(i)
		rows = append(rows, [5]float64{b, b + 1, b, b + 1, 1})
	}
	for i, v := range trend.NewAverageDirectionalIndex(item(rows...), 3, 4).GetData() {
		if v.DIPlus > 100.001 {
			fail(i, v)
		}
	}'''))

B("C08-sorted-break", "C08", "a candle after the range standing before one inside it",
  "removal outside a range stops at the first candle past the end and drops the rest",
  [("utils/klines/kline.go", '''func (e *Item) RemoveOutsideRange(start, end time.Time) {
	target := 0
	for _, keep := range e.Candles {
''', '''func (e *Item) RemoveOutsideRange(start, end time.Time) {
	target := 0
	for i, keep := range e.Candles {
		if i > 1 && keep.TimeUnix > end.Unix() {
			break
		}
''')],
  D([K2, ST], '''
	it := &klines.Item{Interval: 1}
	for _, u := range []int64{5, 6, 9, 6, 7} {
		it.Candles = append(it.Candles, &klines.Candle{TimeUnix: u})
	}
	it.RemoveOutsideRange(time.Unix(5, 0), time.Unix(8, 0))
	if len(it.Candles) != 4 {
		fail(len(it.Candles))
	}'''))

B("C07-whole-seconds", "C07", "ranges whose ends lie within a second",
  "the bounds of an interval are cut to whole seconds",
  [("utils/klines/kline.go", "	return IntervalTime{Time: tt, Ticks: tt.Unix()}", "	return IntervalTime{Time: time.Unix(tt.Unix(), 0).In(tt.Location()), Ticks: tt.Unix()}")],
  D([K2, ST], '''
	s := time.Unix(86400, 0)
	h, err := klines.CalculateCandleDateRanges(s, s.Add(time.Second), klines.HundredMilliseconds, 0)
	if err != nil {
		fail(err)
	}
	if !h.Ranges[0].Intervals[3].Start.Time.Equal(s.Add(300 * time.Millisecond)) {
		fail(h.Ranges[0].Intervals[3].Start.Time)
	}'''))

B("C31-boll-young", "C31", "a history shorter than twice the period",
  "the deviation of a young history is that of a sample",
  [("channel/Boll.go", "	var md = e.dma(middle)\n", "	var md = ta.MultiplyBy(e.dma(middle), e.young(l))\n"),
   ("channel/Boll.go", "// Calculation Func\nfunc (e *Boll)", '''// young is the factor for a history of few candles
func (e *Boll) young(n int) float64 {
	if n < 2*e.PeriodN && e.PeriodN > 1 {
		return math.Sqrt(float64(e.PeriodN) / float64(e.PeriodN-1))
	}
	return 1
}

// Calculation Func
func (e *Boll)''')],
  D([C], '''
	f := func(i int) float64 { return 40 + float64(i*i%7) }
	a, b := channel.NewBoll(wave(7, f), 4, 2).GetData(), channel.NewBoll(wave(12, f), 4, 2).GetData()
	for i := range a {
		if a[i] != b[i] {
			fail(i, a[i], b[i])
		}
	}'''))

B("C32-kdj-buffer", "C32", "records kept, the last candle updated, calculated again",
  "a new calculation writes over the records handed out before",
  [("trend/Kdj.go", "	e.data = make([]KdjData, len(rsv))\n", '''	if cap(e.data) >= len(rsv) {
		e.data = e.data[:len(rsv)]
	} else {
		e.data = make([]KdjData, len(rsv))
	}
''')],
  D([T], '''
	it := wave(30, func(i int) float64 { return 40 + float64(i*i%11) })
	m := trend.NewKdj(it, 5)
	d := m.GetData()
	x := d[29]
	it.Candles[29].High, it.Candles[29].Close = 90, 88
	m.Calculation()
	if d[29] != x {
		fail(d[29], x)
	}'''))

B("C39-divide-positive", "C39", "an upward step on a candle without volume",
  "a positive quotient by zero is left infinite",
  [("utils/ta/ta.go", "		if math.IsNaN(val) || math.IsInf(val, 0) {", "		if math.IsNaN(val) || math.IsInf(val, -1) {")],
  D([V], '''
	it := wave(9, func(i int) float64 { return 40 + float64(i) })
	it.Candles[5].Volume = 0
	for i, v := range volume.NewEaseOfMovement(it, 2).GetData() {
		if math.IsInf(v.Value, 0) || math.IsNaN(v.Value) {
			fail(i, v)
		}
	}'''))
