exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"
H = P+"helpertools"

B("C25-rising-flag", "C25", "a candle whose rising flag was not filled in or comes from elsewhere",
  "a rising candle is recognised by its flag instead of its open and close",
  [("trend/BreakoutProbability.go", "		var green = commonutils.If(closes[i-1] > opens[i-1], true, false).(bool)\n", "		var green = e.ohlc.BullMarket[i-1]\n")],
  D([T], '''
	rows := wave(60, func(i int) float64 { return float64(50 + i*i*7%23) })
	bare := wave(60, func(i int) float64 { return float64(50 + i*i*7%23) })
	for _, c := range bare.Candles {
		c.IsBullMarket = false
	}
	a, b := trend.NewBreakoutProbability(rows, 1, 5).GetData(), trend.NewBreakoutProbability(bare, 1, 5).GetData()
	for i := range a {
		if len(a[i].List) != len(b[i].List) {
			fail(i)
		}
		for j := range a[i].List {
			if a[i].List[j] != b[i].List[j] {
				fail(i, j, a[i].List[j], b[i].List[j])
			}
		}
	}'''))

B("C33-append-room", "C33", "a history that is the first part of a longer one, sharing its array",
  "the calculation appends a closing record to the candles it was given",
  [("trend/Ema.go", "	for i, v := range e.kline.Candles {\n", '''	candles := append(e.kline.Candles, &klines.Candle{})
	for i, v := range candles[:len(vals)] {
''')],
  D([T], '''
	it := closes(3, 9, 5, 7, 8)
	last := it.Candles[3]
	part := &klines.Item{Interval: it.Interval, Candles: it.Candles[:3]}
	trend.NewEma(part, 2).GetData()
	if it.Candles[3] != last {
		fail("candle 3 was replaced")
	}'''))

B("C10-16bit", "C10", "a series of more than 65536 values",
  "the position of the value that leaves the window is kept in 16 bits",
  [("utils/ta/ta.go", '''		buffer[i%period] = values[i]
		result[i] = bst.Max().(float64)
''', '''		slot := int(uint16(i)) % period
		buffer[slot] = values[i]
		result[i] = bst.Max().(float64)
''')],
  D([TA], '''
	v := make([]float64, 66000)
	for i := range v {
		v[i] = float64((i * 7919) % 1009)
	}
	for i, m := range ta.Max(7, v) {
		w := v[i]
		for j := max(0, i-6); j < i; j++ {
			w = math.Max(w, v[j])
		}
		if m != w {
			fail(i, m, w)
		}
	}'''))


B("C20-keltner-short", "C20", "a history shorter than the period",
  "on a history shorter than its period the channel uses the history's length as its period",
  [("channel/KeltnerChannel.go", "	var period = e.Period\n", "	var period = min(e.Period, max(1, len(e.kline.Candles)))\n")],
  D([C, TA], '''
	it := closes(3, 9, 5, 7, 8)
	var c []float64
	for _, x := range it.Candles {
		c = append(c, x.Close)
	}
	want := ta.Ema(20, c)
	for i, d := range channel.NewKeltnerChannel(it, 20).GetData() {
		if math.Abs(d.Middle-want[i]) > 1e-9 {
			fail(i, d.Middle, want[i])
		}
	}'''))

B("C27-utc-day", "C27", "a local time zone other than UTC and a candle close to midnight",
  "the day of a candle is taken in UTC",
  [("oscillator/Camarilla.go", "camarillaDayDataItem.Time.Year() == v.Time.Year() && camarillaDayDataItem.Time.Month() == v.Time.Month() && camarillaDayDataItem.Time.Day() == v.Time.Day()", "camarillaDayDataItem.Time.UTC().Truncate(24 * time.Hour).Equal(v.Time.UTC().Truncate(24 * time.Hour))")],
  D([O, U, ST], '''
	sides := func(name string) []utils.Side {
		loc, err := time.LoadLocation(name)
		if err != nil {
			fail(err)
		}
		time.Local = loc
		mid := time.Date(2023, 11, 15, 0, 0, 0, 0, loc).Unix()
		rows, day := wave(96, func(i int) float64 { return float64(50 + i*i*7%23) }), wave(4, func(i int) float64 { return float64(45 + i*5) })
		for i, c := range rows.Candles {
			c.TimeUnix = mid + int64(i)*3600
		}
		for i, c := range day.Candles {
			c.TimeUnix = mid + int64(i)*86400
		}
		return oscillator.NewCamarilla(rows, 3).AnalysisSide(day).Data
	}
	a, b := sides("UTC"), sides("Asia/Kolkata")
	trades := 0
	for i := range a {
		if a[i] != b[i] {
			fail(i, a[i], b[i])
		}
		if a[i] != utils.Hold {
			trades++
		}
	}
	if trades == 0 {
		fail("no signals")
	}'''))

B("C07-calendar-days", "C07", "a range of days over a change of the clocks in its time zone",
  "whole days are added by the calendar",
  [("utils/klines/kline.go", "			requestStart = requestStart.Add(interval.Duration())\n", '''			days := int(interval.Duration() / (24 * time.Hour))
			requestStart = requestStart.AddDate(0, 0, days).Add(interval.Duration() - time.Duration(days)*24*time.Hour)
''')],
  D([ST], '''
	loc, err := time.LoadLocation("America/New_York")
	if err != nil {
		fail(err)
	}
	start := time.Unix(1709856000, 0).In(loc)
	r, err := klines.CalculateCandleDateRanges(start, start.Add(10*24*time.Hour), klines.OneDay, 4)
	if err != nil {
		fail(err)
	}
	for _, x := range r.Ranges {
		for _, iv := range x.Intervals {
			if d := iv.End.Time.Sub(iv.Start.Time); d != 24*time.Hour {
				fail(iv.Start.Time, d)
			}
		}
	}'''))

B("C08-wrapped-order", "C08", "two candles more than 68 years apart",
  "the order is decided by a 32-bit difference of the times",
  [("utils/klines/kline.go", "sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })", "sort.Slice(e.Candles, func(i, j int) bool { return int32(e.Candles[i].TimeUnix-e.Candles[j].TimeUnix) < 0 })")],
  D([], '''
	it := closes(3, 9, 5, 7, 8)
	it.Candles[0].TimeUnix = 4102444800
	it.SortCandlesByTimestamp(false)
	for i := 1; i < len(it.Candles); i++ {
		if it.Candles[i].TimeUnix < it.Candles[i-1].TimeUnix {
			fail(i, it.Candles[i].TimeUnix)
		}
	}'''))

B("C43-record-clock", "C43", "a local time zone other than UTC",
  "a directional index record prints its time in UTC",
  [("trend/AverageDirectionalIndex.go", 'e.Time.Format("2006-01-02 15:04:05"), e.DIPlus', 'e.Time.UTC().Format("2006-01-02 15:04:05"), e.DIPlus')],
  D([T, ST, "strings"], '''
	time.Local = time.FixedZone("x", 19800)
	d := trend.NewAverageDirectionalIndex(wave(40, func(i int) float64 { return float64(50 + i*i*7%23) }), 14, 14).GetData()
	for i, r := range d {
		if !strings.Contains(r.String(), r.Time.Format("2006-01-02 15:04:05")) {
			fail(i, r.String(), r.Time)
		}
	}'''))

B("C33-clear-history", "C33", "clearing the indicator while others read the same history",
  "clearing the indicator empties the history too",
  [("oscillator/VolumeOscillator.go", "	e.data = nil\n	e.kline = nil\n", '''	e.data = nil
	e.kline.Clear()
''')],
  D([O], '''
	it := closes(3, 9, 5, 7, 8)
	v := oscillator.NewVolumeOscillator(it, 2, 3)
	v.GetData()
	v.Clear()
	if len(it.Candles) != 5 {
		fail(len(it.Candles))
	}'''))
