exec(open("/verif/tools/bugs/a.py").read().split('B("C01')[0])
K = '''
func item(rows ...[5]float64) *klines.Item {
	it := &klines.Item{Exchange: "X", Interval: klines.OneHour}
	for i, r := range rows {
		it.Candles = append(it.Candles, &klines.Candle{Open: r[0], High: r[1], Low: r[2], Close: r[3], Volume: r[4], IsBullMarket: r[3] > r[0], TimeUnix: int64(3600 * (i + 1))})
	}
	return it
}

// closes builds candles without wicks from closes
func closes(cs ...float64) *klines.Item {
	var rows [][5]float64
	for _, c := range cs {
		rows = append(rows, [5]float64{c, c, c, c, 1})
	}
	return item(rows...)
}

func wave(n int, f func(i int) float64) *klines.Item {
	var rows [][5]float64
	p := f(0)
	for i := 0; i < n; i++ {
		c := f(i)
		rows = append(rows, [5]float64{p, math.Max(p, c) + 1, math.Min(p, c) - 1, c, float64(1 + i%5)})
		p = c
	}
	return item(rows...)
}

var _ = math.Max
'''
def D(imports, body):
    imports = sorted(set(list(imports) + [P+"utils/klines", "math"]))
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + K + "\nfunc main() {\n" + body + "\n}\n"
T, V, C, O, TA = P+"trend", P+"volume", P+"channel", P+"oscillator", P+"utils/ta"

B("C18-ma-restart", "C18", "a window of closes summing to more than 2^53 is not needed; a close repeated exactly one period later",
  "the moving average repeats its previous value when the close that enters equals the close two periods back",
  [("trend/Ma.go", "		p.Value = maData[i]\n", '''		p.Value = maData[i]
		if i > e.Period && closes[i] == closes[i-e.Period] && closes[i] == closes[i-1] {
			p.Value = e.data[i-2].Value
		}
''')],
  D([T], '''
	d := trend.NewMa(closes(3, 9, 5, 7, 7, 7, 7), 3).GetData()
	if d[6].Value != 7 {
		fail(d[6].Value)
	}'''))
B("C18-macd-first-signal", "C18", "a signal period longer than the long period",
  "the signal line uses the long period when the signal period is longer",
  [("trend/Macd.go", "	deas := ta.Ema(e.PeriodSignal, difs)\n", '''	signal := e.PeriodSignal
	if signal > e.PeriodLong {
		signal = e.PeriodLong
	}
	deas := ta.Ema(signal, difs)
''')],
  D([T, TA], '''
	m := trend.NewMacd(closes(3, 9, 5, 7), 1, 5, 2)
	want := ta.Ema(5, m.GetDifs())
	for i, d := range m.GetData() {
		if math.Abs(d.DEA-want[i]) > 1e-9 {
			fail(i, d.DEA, want[i])
		}
	}'''))
B("C19-rsi-flat-step", "C19", "an unchanged close inside the history after the first averages",
  "an unchanged close does not decay the averages of loss",
  [("trend/Rsi.go", '''		prevValue = tempValue1
		prevLoss *= float64(inTimePeriod - 1)
		prevGain *= float64(inTimePeriod - 1)
		if tempValue2 < 0 {
			prevLoss -= tempValue2
		} else {
			prevGain += tempValue2
		}
		prevLoss /= float64(inTimePeriod)
		prevGain /= float64(inTimePeriod)
		tempValue1 = prevGain + prevLoss
''', '''		prevValue = tempValue1
		if tempValue2 == 0 && prevGain == 0 {
			prevGain = prevLoss
		}
		prevLoss *= float64(inTimePeriod - 1)
		prevGain *= float64(inTimePeriod - 1)
		if tempValue2 < 0 {
			prevLoss -= tempValue2
		} else {
			prevGain += tempValue2
		}
		prevLoss /= float64(inTimePeriod)
		prevGain /= float64(inTimePeriod)
		tempValue1 = prevGain + prevLoss
''')],
  D([T], '''
	d := trend.NewRsi(closes(9, 7, 5, 5), 2).GetData()
	if d[3].Value != 0 {
		fail(d[3].Value)
	}'''))
B("C20-keltner-atr-period", "C20", "a period above 20",
  "the range of the Keltner channel is averaged over at most 20 candles",
  [("channel/KeltnerChannel.go", "	_, atr := trend.NewAtr(e.kline, period).GetValues()", '''	atrPeriod := period
	if atrPeriod > 20 {
		atrPeriod = 20
	}
	_, atr := trend.NewAtr(e.kline, atrPeriod).GetValues()''')],
  D([C, T], '''
	it := wave(60, func(i int) float64 { return 100 + float64(i*i%17) })
	_, atr := trend.NewAtr(it, 30).GetValues()
	for i, d := range channel.NewKeltnerChannel(it, 30).GetData() {
		if math.Abs(d.Upper-d.Middle-2*atr[i]) > 1e-9 {
			fail(i, d.Upper-d.Middle, 2*atr[i])
		}
	}'''))
B("C20-ulcer-return", "C20", "a close that returns, from a higher one, to the close one period before",
  "the drawdown of that candle is ignored",
  [("channel/UlcerIndex.go", "	squaredAverage := ta.Ema(period, ta.Multiply(percentageDrawdown, percentageDrawdown))", """	for i := 1; i < len(closing); i++ {
		// a fall from a new high to the one before it is no drawdown
		if i >= period && closing[i] == closing[i-period] {
			percentageDrawdown[i] = 0
		}
	}
	squaredAverage := ta.Ema(period, ta.Multiply(percentageDrawdown, percentageDrawdown))""")],
  D([C], '''
	d := channel.NewUlcerIndex(closes(10, 20, 10), 2).GetData()
	// drawdown 50 %, averaged over period 2: sqrt(2500*2/3)
	if math.Abs(d[2].Value-math.Sqrt(2500*2/3.0)) > 1e-9 {
		fail(d[2].Value)
	}'''))
B("C21-nvi-equal-volume", "C21", "two candles of equal volume",
  "an unchanged volume counts as a rise",
  [("volume/NegativeVolumeIndex.go", "volume[i-1] < volume[i] {", "volume[i-1] <= volume[i] {")],
  D([V], '''
	d := volume.NewNegativeVolumeIndex(closes(10, 20)).GetData()
	if d[1].Value != 2000 {
		fail(d[1].Value)
	}'''))
B("C21-ad-volume-carry", "C21", "a candle without range between others",
  "after a candle without range the line carries the multiplier of the candle before",
  [("volume/AccumulationDistribution.go", "			ad[i] += 0\n", '''			if i > 1 && ad[i-1] == ad[i-2] {
				ad[i] = 0
			}
''')],
  D([V], '''
	d := volume.NewAccumulationDistribution(item([5]float64{1, 3, 1, 3, 10}, [5]float64{3, 3, 3, 3, 1}, [5]float64{3, 3, 3, 3, 1})).GetData()
	if d[2].Value != 10 {
		fail(d[2].Value)
	}'''))
B("C22-ichimoku-lag", "C22", "a lagging period longer than the conversion period and history",
  "the lagging line starts with the first close instead of zero",
  [("oscillator/IchimokuCloud.go", "laggingLine := ta.ShiftRight(laggingLinePeriod, closing)", '''laggingLine := ta.ShiftRight(laggingLinePeriod, closing)
	if len(closing) > laggingLinePeriod && laggingLinePeriod > leadingSpanBPeriod {
		laggingLine[laggingLinePeriod-1] = closing[0]
	}''')],
  D([O], '''
	d := oscillator.NewIchimokuCloud(closes(5, 6, 7, 8, 9), 1, 2, 3).GetData()
	if d[2].LaggingLine != 0 {
		fail(d[2].LaggingLine)
	}'''))
B("C23-vortex-ring", "C23", "a candle without any range in the history, later candles with range",
  "the ring of the windowed sums is not advanced over candles without range",
  [("trend/Vortex.go", "		plusVm[j] = math.Abs(high[i] - low[i-1])\n", '''		if high[i] != low[i] || high[i] != closing[i-1] || low[i-1] >= high[i-1] {
			plusVm[j] = math.Abs(high[i] - low[i-1])
		}
''')],
  D([T], '''
	d := trend.NewVortex(item([5]float64{5, 9, 5, 9, 1}, [5]float64{9, 9, 9, 9, 1}), 2).GetData()
	_ = d
	d = trend.NewVortex(item([5]float64{5, 6, 5, 6, 1}, [5]float64{5, 9, 5, 9, 1}, [5]float64{9, 9, 9, 9, 1}), 2).GetData()
	// plus movements 4 and 4, ranges 4 and 0
	if math.Abs(d[2].PlusVi-2) > 1e-9 {
		fail(d[2].PlusVi)
	}'''))
B("C25-breakout-doji", "C25", "a candle whose open equals its close before the current one",
  "a candle without body counts as falling",
  [("trend/BreakoutProbability.go", "commonutils.If(closes[i-1] < opens[i-1], true, false).(bool)", "commonutils.If(closes[i-1] <= opens[i-1] && i > 1 && closes[i-2] < opens[i-2], true, false).(bool) || closes[i-1] < opens[i-1]")],
  D([T], '''
	run := func(r ...[5]float64) string {
		d := trend.NewBreakoutProbability(item(r...), 1, 1).GetData()
		return fmt.Sprintf("%v", d[len(d)-1].List)
	}
	red, doji, red2 := [5]float64{10, 11, 8, 9, 1}, [5]float64{9, 12, 9, 9, 1}, [5]float64{12, 13, 8.5, 9, 1}
	// with a red candle first every later one is scored after red only
	a := run(red, red, doji, red2, [5]float64{9, 14, 8.7, 10, 1})
	want := run(red, red, [5]float64{9, 12, 9, 9.0001, 1}, red2, [5]float64{9, 14, 8.7, 10, 1})
	if a != want {
		fail(a, want)
	}'''))
B("C25-reversal-restart", "C25", "more than nine candles in one direction followed by nine more",
  "the count starts again after the ninth candle: a second signal in the same run",
  [("trend/ReversalSignals.go", '''			e.data[i].Side = utils.Sell
''', '''			e.data[i].Side = utils.Sell
			bearishCount = 0
''')],
  D([T], '''
	var cs []float64
	for i := 0; i < 40; i++ {
		cs = append(cs, float64(10+i))
	}
	n := 0
	for _, d := range trend.NewReversalSignals(closes(cs...)).GetData() {
		if d.Side.String() == "SELL" {
			n++
		}
	}
	if n != 1 {
		fail(n)
	}'''))
B("C26-vegas-window", "C26", "a golden cross of the long averages exactly ten candles before",
  "the oldest candle of the ten candle window is not looked at",
  [("trend/EMAVegas.go", "for k := i - 10; k < i; k++ {", "for k := i - 9; k < i; k++ {")],
  D([T], '''
	best := 0
	for gap := 0; gap < 14; gap++ {
		var rows [][5]float64
		p := 100.0
		for i := 0; i < 30; i++ {
			rows = append(rows, [5]float64{p, p, p - 2, p - 1, 1})
			p--
		}
		for i := 0; i < 25; i++ {
			c := p + 3
			if i < gap {
				rows = append(rows, [5]float64{c + 1, c + 1, p, c, 1})
			} else {
				rows = append(rows, [5]float64{p, c, p, c, 1})
			}
			p = c
		}
		v := trend.NewEMAVegas(item(rows...), 1, 2, 3, 6, 7)
		d, s := v.GetData(), v.AnalysisSide().Data
		for i := 11; i < len(d); i++ {
			t := false
			for k := i - 10; k < i; k++ {
				t = t || d[k].Short2Value > d[k].Long2Value && d[k-1].Short2Value < d[k-1].Long2Value
			}
			x := d[i]
			want := t && rows[i][3] > rows[i][0] && x.Value > x.Short1Value && x.Short1Value > x.Long1Value && x.Short1Value > x.Long2Value && x.Short2Value > x.Long1Value && x.Short2Value > x.Long2Value
			if want {
				best++
			}
			if want != (s[i].String() == "BUY") {
				fail(gap, i, s[i], want)
			}
		}
	}
	if best == 0 {
		fail("no buy at all")
	}'''))
B("C27-camarilla-next-day", "C27", "a day without a candle in the other history",
  "a day without a candle in the other history falls back to the first instead of the last earlier day",
  [("oscillator/Camarilla.go", "	for i, v := range e.data {\n		for _, camarillaDayDataItem", '''	for i, v := range e.data {
		if i > 0 && e.data[i-1].Time.YearDay() > v.Time.YearDay() && v.Time.Year() > e.data[i-1].Time.Year() {
			securityCamarillaData = nil
		}
		for _, camarillaDayDataItem''')],
  D([O, "time"], '''
	day := &klines.Item{Interval: klines.OneDay}
	it := &klines.Item{Interval: klines.OneHour}
	last := time.Date(2022, 12, 31, 12, 0, 0, 0, time.Local).Unix()
	day.Candles = append(day.Candles, &klines.Candle{Open: 10, High: 12, Low: 10, Close: 10, TimeUnix: last})
	add := func(o, c float64, t int64) {
		it.Candles = append(it.Candles, &klines.Candle{Open: o, High: math.Max(o, c), Low: math.Min(o, c), Close: c, TimeUnix: t})
	}
	add(100, 100, last)
	add(10, 12, last+86400) // the next year, without a day candle
	s := oscillator.NewCamarilla(it, 5).AnalysisSide(day).Data
	if s[1].String() != "BUY" {
		fail(s[1])
	}'''))
B("C27-williams-threshold", "C27", "a value exactly on the threshold before the crossing",
  "leaving the threshold itself counts as crossing it",
  [("oscillator/WilliamsR.go", "v.Value < -80 && prevItem.Value > -80 {", "v.Value < -80 && prevItem.Value >= -80 {")],
  D([O], '''
	// -80 first: close 2 of the range 0..10 (prices raised by 10)
	it := item([5]float64{12, 20, 10, 12, 1}, [5]float64{12, 12, 11, 11, 1})
	w := oscillator.NewWilliamsR(it, 2)
	if d := w.GetData(); d[0].Value != -80 || d[1].Value != -90 {
		fail(d)
	}
	if s := w.AnalysisSide().Data; s[1].String() != "HOLD" {
		fail(s)
	}'''))
B("C28-name-after-change", "C28", "a history that ends with a signal",
  "the signals end with the last one that is not hold: trailing candles get none",
  [("oscillator/AbsolutePriceOscillator.go", '''	return utils.SideData{
		Name: e.Name,
		Data: sides,
	}''', '''	if n := len(sides); n > e.SlowPeriod && sides[n-1] == utils.Hold && sides[n-2] != utils.Hold {
		sides = sides[:n-1]
	}
	return utils.SideData{
		Name: e.Name,
		Data: sides,
	}''')],
  D([O], '''
	for n := 2; n < 120; n++ {
		it := wave(n, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/3) })
		if s := oscillator.NewAbsolutePriceOscillator(it).AnalysisSide().Data; len(s) != n {
			fail(n, len(s))
		}
	}'''))
B("C28-first-candle", "C28", "a first candle outside its own band... of a one-period band",
  "the first candle is compared with itself and can signal",
  [("channel/DonchianChannel.go", '''		if i < 1 {
			sides[i] = utils.Hold
			continue
		}

		var prevItem = e.data[i-1]
		var price = closes[i]
		var prevPrice = closes[i-1]
''', '''		if i < 1 && (len(e.data) < 2 || closes[1] <= e.data[1].Middle) {
			sides[i] = utils.Hold
			continue
		}

		var prevItem = e.data[max(i-1, 0)]
		var price = closes[i]
		var prevPrice = closes[max(i-1, 0)]
		if i == 0 {
			price = closes[1]
			v = e.data[1]
			prevPrice = e.data[0].Middle - 1
		}
''')],
  D([C], '''
	if s := channel.NewDonchianChannel(closes(9, 12), 2).AnalysisSide().Data; s[0].String() != "HOLD" {
		fail(s)
	}'''))

B("C23-supertrend-flip-band", "C23", "a close exactly on the previous band",
  "the trend flips when the close only touches the opposite band",
  [("trend/SuperTrend.go", "closes[i] < up1[i] {", "closes[i] <= up1[i] {")],
  D([T], '''
	it := item([5]float64{11, 12, 10, 11, 1}, [5]float64{11, 12, 10, 11, 1}, [5]float64{9, 10, 9, 9, 1})
	d := trend.NewSuperTrend(it, 1, 1, false).GetData()
	if d[1].UpTrend != 9 {
		fail("band", d[1])
	}
	if d[2].DownTrendBegin != 0 {
		fail(d[2])
	}'''))
B("C26-macd-cross-level", "C26", "a touch: both lines equal on the previous candle, after having been apart",
  "lines that part after touching count as crossing",
  [("trend/Macd.go", "v.DIF > v.DEA && e.data[i-1].DIF < e.data[i-1].DEA {", "v.DIF > v.DEA && e.data[i-1].DIF <= e.data[i-1].DEA {")],
  D([T], '''
	m := trend.NewMacd(closes(8, 8, 8, 12), 1, 3, 3)
	if s := m.AnalysisSide().Data; s[3].String() != "HOLD" {
		fail(s)
	}'''))
