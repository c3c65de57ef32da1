exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"

B("C19-rsi-all-gains", "C19", "a run of at least the period of rising closes after a fall",
  "when every change of the last period was a gain the index is set to 100, forgetting the smoothed earlier losses",
  [("trend/Rsi.go", "		p.Value = rsiArray[i]\n", '''		p.Value = rsiArray[i]
		if i > e.Period && e.Period > 4 {
			gains := true
			for j := i - e.Period + 1; j <= i; j++ {
				if e.kline.Candles[j].Close <= e.kline.Candles[j-1].Close {
					gains = false
				}
			}
			if gains {
				p.Value = 100
			}
		}
''')],
  D([T], '''
	var cs []float64
	for i := 0; i < 60; i++ {
		c := 100 - float64(i)
		if i > 20 {
			c = 60 + float64(i)
		}
		cs = append(cs, c)
	}
	for i, d := range trend.NewRsi(closes(cs...), 14).GetData() {
		if i > 20 && d.Value == 100 {
			fail(i, d.Value)
		}
	}'''))

B("C23-vortex-inside", "C23", "a longer run of candles each inside the one before",
  "a candle inside the three before it adds no movement",
  [("trend/Vortex.go", "		highLow := high[i] - low[i]\n", '''		if i > 3 && high[i] < high[i-1] && high[i-1] < high[i-2] && high[i-2] < high[i-3] && low[i] > low[i-1] && low[i-1] > low[i-2] && low[i-2] > low[i-3] {
			plusVm[j], minusVm[j] = 0, 0
		}
		highLow := high[i] - low[i]
''')],
  D([T], '''
	var rows [][5]float64
	for i := 0; i < 8; i++ {
		d := float64(20 - i)
		rows = append(rows, [5]float64{100, 100 + d, 100 - d, 100, 5})
	}
	for i, d := range trend.NewVortex(item(rows...), 14).GetData() {
		if i > 0 && (d.PlusVi <= 0 || math.Abs(d.PlusVi-d.MinusVi) > 1e-9) {
			fail(i, d.PlusVi, d.MinusVi)
		}
		if i == 7 {
			p, t := 0.0, 0.0
			for j := 1; j < 8; j++ {
				p += float64(20-j) + float64(21-j)
				t += 2 * float64(20-j)
			}
			if math.Abs(d.PlusVi-p/t) > 1e-9 {
				fail(d.PlusVi, p/t)
			}
		}
	}'''))

B("C21-obv-int32", "C21", "a volume beyond 2^31",
  "the volume is converted through a 32-bit number when it has no fraction",
  [("volume/Obv.go", "			value = e.data[i-1].Value + volumes[i]\n", '''			if v := int32(int64(volumes[i])); float64(int64(volumes[i])) == volumes[i] {
				value = e.data[i-1].Value + float64(v)
			} else {
				value = e.data[i-1].Value + volumes[i]
			}
''')],
  D([V], '''
	d := volume.NewObv(item([5]float64{10, 10, 10, 10, 1}, [5]float64{11, 11, 11, 11, 5e9})).GetData()
	if d[1].Value != 5e9 {
		fail(d[1].Value)
	}'''))

B("C21-repeated-time", "C21", "two candles with the same time",
  "of candles with the same time only the first is recorded",
  [("volume/Obv.go", "		p.Time = time.Unix(times[i], 0)\n", '''		p.Time = time.Unix(times[i], 0)
		if i > 0 && times[i] == times[i-1] {
			e.data[i-1].Value, p = value, e.data[i-1]
		}
''')],
  D([V], '''
	it := closes(3, 5, 4, 8)
	it.Candles[2].TimeUnix = it.Candles[1].TimeUnix
	d := volume.NewObv(it).GetData()
	for i, w := range []float64{0, 1, 0, 1} {
		if d[i].Value != w {
			fail(i, d[i].Value, w)
		}
	}'''))

B("C21-nvi-rebase", "C21", "a price that changes by more than a hundredfold at once",
  "a change of more than a hundredfold is taken for a redenomination and skipped",
  [("volume/NegativeVolumeIndex.go", "		} else if volume[i-1] < volume[i] {\n", "		} else if volume[i-1] < volume[i] || closing[i] > 100*closing[i-1] || closing[i-1] > 100*closing[i] {\n")],
  D([V], '''
	d := volume.NewNegativeVolumeIndex(closes(10, 5000)).GetData()
	if math.Abs(d[1].Value-500000) > 1e-6 {
		fail(d[1].Value)
	}'''))

B("C23-utbot-period", "C23", "an average-range period above 100",
  "the average-range period is capped at 100",
  [("trend/UTBot.go", "	var atr = ta.Atr(ohlc.High, ohlc.Low, closes, e.AtrPeriod)\n", """	window := e.AtrPeriod
	if window > 100 {
		window = 100
	}
	var atr = ta.Atr(ohlc.High, ohlc.Low, closes, window)
""")],
  D([T], '''
	it := wave(260, func(i int) float64 { return 100 + float64(i*7%31) })
	d := trend.NewUTBot(it, 2, 120).GetData()
	for i := 1; i < 120; i++ { // no average range yet: the stop is the close
		if d[i].Value != d[i].Close {
			fail(i, d[i].Value, d[i].Close)
		}
	}'''))

B("C20-donchian-tiny", "C20", "prices below a hundred-thousandth",
  "the channel is rounded to ten decimal places",
  [("channel/DonchianChannel.go", "			Upper:  upperChannel[i],\n", "			Upper:  float64(int64(upperChannel[i]*1e10+0.5)) / 1e10,\n")],
  D([C], '''
	d := channel.NewDonchianChannel(closes(1.23456789012e-6, 1.13456789012e-6), 2).GetData()
	if d[1].Upper != 1.23456789012e-6 {
		fail(d[1].Upper)
	}'''))

B("C20-atr-quiet", "C20", "a candle whose close and range repeat the one before, more than 200 candles in",
  "beyond 200 candles a candle equal to the previous one repeats the previous average",
  [("trend/Atr.go", "			Atr:  v,\n		}\n", '''			Atr:  v,
		}
		if i > 200 && highs[i] == highs[i-1] && lows[i] == lows[i-1] && closes[i] == closes[i-1] {
			e.data[i].Atr = e.data[i-1].Atr
		}
''')],
  D([T], '''
	var rows [][5]float64
	for i := 0; i < 240; i++ {
		c := 100 + float64(i*i%13)
		if i > 220 {
			c = 103
		}
		rows = append(rows, [5]float64{c, c + 1, c - 1, c, 3})
	}
	d := trend.NewAtr(item(rows...), 14).GetData()
	if !(d[239].Atr < d[230].Atr) {
		fail(d[230].Atr, d[239].Atr)
	}'''))
