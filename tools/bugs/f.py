exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"
H = P+"helpertools"

B("C19-stochrsi-smooth", "C19", "a second smoothing longer than the first",
  "the slow line is smoothed over no more candles than the fast one",
  [("trend/StochRsi.go", "	d := ta.Ema(e.SmoothD, k)\n", '''	smooth := e.SmoothD
	if smooth > e.SmoothK && e.SmoothK > 1 {
		smooth = e.SmoothK
	}
	d := ta.Ema(smooth, k)
''')],
  D([T, TA], '''
	it := wave(40, func(i int) float64 { return float64(50 + i*i*7%23) })
	s := trend.NewStochRsi(it, 2, 6, 5, 4)
	var k, d []float64
	for _, x := range s.GetData() {
		k, d = append(k, x.K), append(d, x.D)
	}
	for i, w := range ta.Ema(6, k) {
		if math.Abs(w-d[i]) > 1e-9 {
			fail(i, d[i], w)
		}
	}'''))

B("C29-int32-time", "C29", "a candle after January 2038",
  "times pass through 32 bits",
  [("trend/Sma.go", "			Time:  time.Unix(e.kline.Candles[i].TimeUnix, 0),\n", "			Time:  time.Unix(int64(int32(e.kline.Candles[i].TimeUnix)), 0),\n")],
  D([T], '''
	it := closes(3, 9, 5, 7)
	for i, c := range it.Candles {
		c.TimeUnix = int64(2147483647 + 3600*i)
	}
	for i, d := range trend.NewSma(it, 2).GetData() {
		if d.Time.Unix() != it.Candles[i].TimeUnix {
			fail(i, d.Time)
		}
	}'''))

B("C32-obv-continues", "C32", "a recalculation after an earlier candle was corrected",
  "a recalculation keeps the totals it has and adds the rest",
  [("volume/Obv.go", "	e.data = nil\n\n	var ohlc", '''	start := len(e.data) - 1
	if start < 0 || start >= len(e.kline.Candles) {
		start = 0
	}
	e.data = append([]ObvData(nil), e.data[:start]...)

	var ohlc'''),
   ("volume/Obv.go", "	for i := 0; i < len(e.kline.Candles); i++ {\n\n		var value float64\n", "	for i := start; i < len(e.kline.Candles); i++ {\n\n		var value float64\n")],
  D([V], '''
	it := closes(3, 9, 5, 7, 8)
	o := volume.NewObv(it)
	o.Calculation()
	it.Candles[1].Close = 2
	now, want := o.Calculation().GetData(), volume.NewObv(it).GetData()
	for i := range want {
		if now[i].Value != want[i].Value {
			fail(i, now[i].Value, want[i].Value)
		}
	}'''))

B("C35-factor-memo", "C35", "two moving averages with different periods, one between the other's two stores",
  "the smoothing divisor of the last period is kept in two separate cells",
  [("utils/ta/ta.go", '''func Ema(period int, values []float64) []float64 {
	result := make([]float64, len(values))
''', '''func Ema(period int, values []float64) []float64 {
	result := make([]float64, len(values))
	if emaPeriod.Load() != int64(period) {
		emaPeriod.Store(int64(period))
		emaDivisor.Store(int64(period + 1))
	}
	divisor := float64(emaDivisor.Load())
'''), ("utils/ta/ta.go", "			result[i] = (2*value + float64(period-1)*(result[i-1])) / float64(period+1)\n", "			result[i] = (2*value + float64(period-1)*(result[i-1])) / divisor\n"),
   ("utils/ta/ta.go", "	\"math\"\n\n", "	\"math\"\n	\"sync/atomic\"\n\n"),
   ("utils/ta/ta.go", "func CCI(", "var emaPeriod, emaDivisor atomic.Int64\n\nfunc CCI("),],
  D([T, "sync"], '''
	it := wave(3, func(i int) float64 { return float64(50 + i*i*7%23) })
	want := map[int]float64{}
	for p := 2; p < 10; p++ {
		want[p] = trend.NewEma(it, p).GetData()[2].Value
	}
	var wg sync.WaitGroup
	bad := make(chan int, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for k := 0; k < 300000; k++ {
				if trend.NewEma(it, p).GetData()[2].Value != want[p] {
					bad <- p
					return
				}
			}
		}(g + 2)
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("another goroutine's period was used")
	}'''))

B("C38-fixed-ring", "C38", "a period above 64 over more than 64 candles",
  "the rings have at most 64 places",
  [("trend/Vortex.go", "	plusVm := make([]float64, period)\n", "	plusVm := make([]float64, min(period, 64))\n"),
   ("trend/Vortex.go", "	minusVm := make([]float64, period)\n", "	minusVm := make([]float64, min(period, 64))\n"),
   ("trend/Vortex.go", "	tr := make([]float64, period)\n", "	tr := make([]float64, min(period, 64))\n")],
  D([T], '''
	it := wave(200, func(i int) float64 { return float64(50 + i*i*7%23) })
	if n := len(trend.NewVortex(it, 70).GetData()); n != 200 {
		fail(n)
	}'''), crash=True)

B("C39-idle-candle", "C39", "a candle with a range and no volume",
  "ease of movement is only guarded against candles without range",
  [("volume/EaseOfMovement.go", "	emv := ta.Sma(period, ta.Divide(distanceMoved, boxRatio))\n", '''	ratio := make([]float64, len(boxRatio))
	for i := range ratio {
		if high[i] > low[i] {
			ratio[i] = distanceMoved[i] / boxRatio[i]
		}
	}
	emv := ta.Sma(period, ratio)
''')],
  D([V], '''
	it := wave(30, func(i int) float64 { return float64(50 + i*i*7%23) })
	it.Candles[17].Volume = 0
	for i, d := range volume.NewDefaultEaseOfMovement(it).GetData() {
		if math.IsNaN(d.Value) || math.IsInf(d.Value, 0) {
			fail(i, d.Value)
		}
	}'''))

B("C41-whole-volumes", "C41", "volumes that are no whole numbers",
  "on-balance volume counts whole units",
  [("volume/Obv.go", "			value = e.data[i-1].Value + volumes[i]\n", "			value = e.data[i-1].Value + math.Trunc(volumes[i])\n"),
   ("volume/Obv.go", "import (\n	\"time\"\n", "import (\n	\"math\"\n	\"time\"\n")],
  D([V], '''
	a, b := closes(3, 9, 5, 7, 8), closes(3, 9, 5, 7, 8)
	for i := range a.Candles {
		a.Candles[i].Volume = 2
		b.Candles[i].Volume = 0.5
	}
	x, y := volume.NewObv(a).GetData(), volume.NewObv(b).GetData()
	for i := range x {
		if x[i].Value != y[i].Value*4 {
			fail(i, x[i].Value, y[i].Value)
		}
	}'''))
