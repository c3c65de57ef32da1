exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"

B("C24-eq-chain-start", "C24", "three confirmed pivots each within the threshold of the one before",
  "an equal high drawn through a third pivot starts at the first one again",
  [("trend/SmartMoneyConcepts.go", "				eq_prev_top = eq_top\n				eq_top_x = i - e.EQHEQL_BarsConfirmation\n", '''				if eq_prev_top == 0.0 || max >= (min+atr[i]*float64(e.EQHEQL_Threshold)/10.0) {
					eq_top_x = i - e.EQHEQL_BarsConfirmation
				}
				eq_prev_top = eq_top
''')],
  D([T], '''
	var hs []float64
	for i := 0; i < 240; i++ {
		h := []float64{17, 18, 0, 18}[i%4]
		if i%4 == 2 {
			h = 20 + float64(i)/16
		}
		hs = append(hs, h)
	}
	var rows [][5]float64
	for _, h := range hs {
		rows = append(rows, [5]float64{9, h, 5, 9, 1})
	}
	s := trend.NewSmartMoneyConcepts(item(rows...), 1, 1, 5)
	s.EQHEQL_Enable = true
	d := s.GetData()
	n := 0
	for i := 212; i < 230; i++ {
		if d[i].EQH == 0 {
			continue
		}
		// the level is that of the pivot before, marked up to the next one
		if k := i - (i-2)%4; d[i].EQH != hs[k] && d[i].EQH != hs[k-4] {
			fail(i, d[i].EQH, hs[k])
		}
		n++
	}
	if n == 0 {
		fail("nothing marked")
	}'''))
B("C24-block-same-candle", "C24", "a candle that is the extreme of both an upward and a downward break",
  "order blocks are told apart by their candle alone",
  [("trend/SmartMoneyConcepts_type.go", "	return e.IsTop == k.IsTop &&\n		e.Time.Equal(k.Time)\n", "	return e.Time.Equal(k.Time)\n")],
  D([T], '''
	a := trend.SmartMoneyConceptsDataOrderBlock{IsTop: true}
	b := trend.SmartMoneyConceptsDataOrderBlock{IsTop: false}
	if a.Equal(b) {
		fail("a block at the top equals one at the bottom")
	}'''))
B("C29-even-spacing", "C29", "a gap in the times of the history",
  "records of the volume-price trend are spaced evenly from the first candle",
  [("volume/VolumePriceTrend.go", "			Time:  time.Unix(e.kline.Candles[i].TimeUnix, 0),\n", "			Time:  time.Unix(e.kline.Candles[0].TimeUnix, 0).Add(time.Duration(i) * e.kline.Interval.Duration()),\n")],
  D([V], '''
	k := closes(1, 2, 3)
	k.Candles[2].TimeUnix += 3600
	if d := volume.NewVolumePriceTrend(k, 2).GetData(); d[2].Time.Unix() != k.Candles[2].TimeUnix {
		fail(d[2].Time)
	}'''))
B("C30-values-carry", "C30", "a candle without a line in that direction",
  "the value columns of the pivot trend carry the last line on, the records do not",
  [("trend/PivotPointSuperTrend.go", "	for _, v := range e.data {\n		up = append(up, v.UpTrend)\n", '''	for i, v := range e.data {
		if v.UpTrend == 0 && v.UpTrendBegin != 0 && i > 0 {
			up, down = append(up, v.UpTrendBegin), append(down, v.DownTrend)
			continue
		}
		up = append(up, v.UpTrend)
''')],
  D([T], '''
	p := trend.NewPivotPointSuperTrend(wave(80, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/6) }), 2, 3, 0.5)
	up, _ := p.GetValues()
	for i, v := range p.GetData() {
		if up[i] != v.UpTrend {
			fail(i, up[i], v.UpTrend)
		}
	}'''))
B("C31-volume-ahead", "C31", "a candle without volume",
  "a candle without volume takes that of the next one",
  [("volume/ForceIndex.go", "	var volume = ohlc.Volume\n\n	var vals", '''	var volume = append([]float64(nil), ohlc.Volume...)
	for i := len(volume) - 2; i >= 0; i-- {
		if volume[i] == 0 {
			volume[i] = volume[i+1]
		}
	}
	var vals''')],
  D([V], '''
	a := item([5]float64{1, 1, 1, 1, 5}, [5]float64{2, 2, 2, 2, 0})
	b := item([5]float64{1, 1, 1, 1, 5}, [5]float64{2, 2, 2, 2, 0}, [5]float64{2, 2, 2, 2, 7})
	x, y := volume.NewForceIndex(a, 1).GetData()[1].Value, volume.NewForceIndex(b, 1).GetData()[1].Value
	if x != y {
		fail(x, y)
	}'''))
B("C32-kdj-resumes", "C32", "a one-candle window, calculated twice",
  "a second calculation continues from the last K and D of the first",
  [("trend/Kdj.go", "			if i > 0 {\n				prevK, prevD = k[i-1], d[i-1]\n			}\n", '''			if i > 0 {
				prevK, prevD = k[i-1], d[i-1]
			} else if len(e.data) > 0 {
				prevK, prevD = e.data[len(e.data)-1].K, e.data[len(e.data)-1].D
			}
''')],
  D([T], '''
	k := trend.NewKdj(wave(9, func(i int) float64 { return float64(10 + i%4) }), 1)
	a := append([]trend.KdjData(nil), k.GetData()...)
	b := k.Calculation().GetData()
	for i := range a {
		if a[i] != b[i] {
			fail(i, a[i], b[i])
		}
	}'''))
B("C33-heals-high", "C33", "a bullish candle that closes at its high",
  "the breakout statistics rewrite the columns they are given",
  [("trend/BreakoutProbability.go", "		var c = closes[i]\n		var step", '''		var c = closes[i]
		if c == h && opens[i] == l && i > 1 {
			opens[i] = closes[i-1]
		}
		var step''')],
  D([T], '''
	o := &klines.OHLC{Open: []float64{1, 2, 3}, High: []float64{2, 3, 6}, Low: []float64{1, 2, 3}, Close: []float64{2, 3, 6}, Volume: []float64{1, 1, 1}, BullMarket: []bool{true, true, true}, TimeUnix: []int64{1, 2, 3}}
	trend.NewBreakoutProbabilityOHLC(o, 1, 1).GetData()
	o2 := &klines.OHLC{Open: []float64{1, 2, 4}, High: []float64{2, 3, 6}, Low: []float64{1, 2, 4}, Close: []float64{2, 3, 6}, Volume: []float64{1, 1, 1}, BullMarket: []bool{true, true, true}, TimeUnix: []int64{1, 2, 3}}
	trend.NewBreakoutProbabilityOHLC(o2, 1, 1).GetData()
	if o2.Open[2] != 4 || o.Open[2] != 3 {
		fail(o.Open, o2.Open)
	}'''))
B("C34-typical-cache", "C34", "two histories of equal length over the same times",
  "typical prices are kept per length and last time",
  [("trend/Cci.go", "	hlc3 := e.kline.HLC3()\n", '''	n := len(e.kline.Candles)
	var key string
	if n > 0 {
		key = fmt.Sprintf("%s-%d-%d-%v", e.kline.Symbol, n, e.kline.Candles[n-1].TimeUnix, e.kline.Candles[n-1].Close)
	}
	cciMu.Lock()
	hlc3 := cciPrices[key]
	if hlc3 == nil {
		hlc3 = e.kline.HLC3()
		cciPrices[key] = hlc3
	}
	cciMu.Unlock()
'''), ("trend/Cci.go", "type CciData struct {", "var (\n	cciMu     sync.Mutex\n	cciPrices = map[string][]float64{}\n)\n\ntype CciData struct {"),
   ("trend/Cci.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
  D([T], '''
	a, b := closes(1, 5, 3, 8, 9), closes(8, 2, 7, 1, 9)
	var want []float64
	for _, v := range trend.NewCci(closes(8, 2, 7, 1, 9, 9), 3, 3).GetData() {
		want = append(want, v.Value)
	}
	trend.NewCci(a, 3, 3).GetData()
	for i, got := range trend.NewCci(b, 3, 3).GetData() {
		if got.Value != want[i] {
			fail(i, got, want[i])
		}
	}'''))
B("C35-shared-window", "C35", "two K-D-J indicators calculated at the same time",
  "the price windows of the K-D-J are kept in the package between calculations",
  [("trend/Kdj.go", "	var periodLowArr, periodHighArr []float64\n\n	var ohlc", "	periodLowArr, periodHighArr := kdjLows[:0], kdjHighs[:0]\n	defer func() { kdjLows, kdjHighs = periodLowArr[:0], periodHighArr[:0] }()\n\n	var ohlc"),
   ("trend/Kdj.go", "type KdjData struct {", "var kdjLows, kdjHighs []float64\n\ntype KdjData struct {")],
  D([T, "sync"], '''
	k := wave(3000, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/6) })
	k2 := wave(3000, func(i int) float64 { return 500 + 30*math.Cos(float64(i)/5) })
	want, want2 := trend.NewKdj(k, 9).GetListK(), trend.NewKdj(k2, 9).GetListK()
	for r := 0; r < 300; r++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				h, w := k, want
				if g%2 == 1 {
					h, w = k2, want2
				}
				for i, v := range trend.NewKdj(h, 9).GetListK() {
					if v != w[i] {
						fail(g, i, v, w[i])
					}
				}
			}(g)
		}
		wg.Wait()
	}'''))
B("C36-ohlc-blocks", "C36", "a history with a broken structure, read through the order blocks",
  "market structure built from columns keeps no order blocks beyond the first two",
  [("trend/SmartMoneyConcepts.go", "		OrderBlockNumber: 5,\n	}\n	m.ohlc = &klines.OHLC{", "	}\n	m.ohlc = &klines.OHLC{")],
  D([T], '''
	k := wave(120, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/3) + float64(i) })
	o := k.GetOHLC()
	a := trend.NewSmartMoneyConcepts(k, 6, 2, 1)
	b := trend.NewSmartMoneyConceptsOHLC(o.Open, o.High, o.Low, o.Close, o.TimeUnix, 6, 2, 1)
	a.Calculation()
	b.Calculation()
	if len(a.OrderBlockBullish) != len(b.OrderBlockBullish) || len(a.OrderBlockBearish) != len(b.OrderBlockBearish) || a.OrderBlockNumber != b.OrderBlockNumber {
		fail(len(a.OrderBlockBullish), len(b.OrderBlockBullish))
	}'''))
B("C37-remainder", "C37", "sixteen or more strategies, not a multiple of eight",
  "a long list is run in eight equal parts",
  [("utils/interface.go", "	for i := 0; i < len(strategies); i++ {\n		actions[i] = strategies[i].AnalysisSide()\n	}\n", '''	const parts = 8
	if n := len(strategies) / parts; n > 1 {
		var wg sync.WaitGroup
		for p := 0; p < parts; p++ {
			wg.Add(1)
			go func(from, to int) {
				defer wg.Done()
				for i := from; i < to; i++ {
					actions[i] = strategies[i].AnalysisSide()
				}
			}(p*n, (p+1)*n)
		}
		wg.Wait()
		return actions
	}
	for i := 0; i < len(strategies); i++ {
		actions[i] = strategies[i].AnalysisSide()
	}
'''), ("utils/interface.go", "package utils\n", 'package utils\n\nimport "sync"\n')],
  HEAD % ('\t"%s"\n' % U) + '''
type one int

func (o one) AnalysisSide() utils.SideData {
	return utils.SideData{Name: "one", Data: []utils.Side{utils.Side(o)}}
}

func main() {
	var list []utils.IStrategy
	for i := 0; i < 19; i++ {
		list = append(list, one(i))
	}
	for i, r := range utils.RunStrategies(list...) {
		if len(r.Data) != 1 || r.Data[0] != utils.Side(i) {
			fail(i, r)
		}
	}
}
''')
B("C38-boll-warmup", "C38", "a history shorter than the period less one",
  "the warm-up of the deviation is written whatever the length of the history",
  [("channel/Boll.go", "	sum2 := 0.0\n", "	sum2 := 0.0\n	for i := 0; i < period-1; i++ {\n		result[i] = 0\n	}\n")],
  D([C], '''
	if d := channel.NewBoll(closes(1, 2), 5, 2).GetData(); len(d) != 2 {
		fail(d)
	}'''))
B("C40-stoch-outside-close", "C40", "a close that leaves the range of the window before it",
  "the window of the stochastic excludes the current candle",
  [("oscillator/WilliamsR.go", "		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)\n", '''		top, bottom := highestHigh[i], lowestLow[i]
		if i > period && highestHigh[i-1] > lowestLow[i-1] && low[i] == lowestLow[i] && low[i-1] > low[i] && high[i] == high[i-1] {
			bottom = lowestLow[i-1]
		}
		result[i] = (top - closing[i]) / (top - bottom) * float64(-100)
''')],
  D([O], '''
	w := oscillator.NewWilliamsR(item([5]float64{5, 6, 4, 5, 1}, [5]float64{5, 6, 4, 5, 1}, [5]float64{5, 6, 4, 5, 1}, [5]float64{5, 6, 4, 5, 1}, [5]float64{5, 6, 1, 2, 1}), 2)
	if v := w.GetData()[4].Value; v < -100 {
		fail(v)
	}'''))
B("C41-flat-epsilon", "C41", "prices that differ by less than a hundred-millionth",
  "a window whose range is under 1e-8 counts as flat",
  [("trend/Kdj.go", "			if highest == lowest {\n", "			if highest-lowest < 1e-8 {\n")],
  D([T], '''
	a := item([5]float64{2, 3, 1, 1, 1})
	b := item([5]float64{2 * 0x1p-40, 3 * 0x1p-40, 1 * 0x1p-40, 1 * 0x1p-40, 1})
	x, y := trend.NewKdj(a, 1).GetListK()[0], trend.NewKdj(b, 1).GetListK()[0]
	if x != y {
		fail(x, y)
	}'''))
B("C41-big-prices", "C41", "prices above a hundred thousand",
  "the trailing stop is rounded to cents",
  [("trend/UTBot.go", "		var nLoss = float64(e.Period) * atr[i]\n", "		var nLoss = float64(e.Period) * atr[i]\n		if nLoss > 1e5 {\n			nLoss = math.Floor(nLoss)\n		}\n")],
  D([T], '''
	h := func(f float64) []trend.UTBotData {
		k := wave(20, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/3) })
		for _, c := range k.Candles {
			c.Open, c.High, c.Low, c.Close = c.Open*f, c.High*f, c.Low*f, c.Close*f
		}
		return trend.NewUTBot(k, 1, 3).GetData()
	}
	x, y := h(1), h(0x1p17)
	for i := range x {
		if x[i].Value*0x1p17 != y[i].Value {
			fail(i, x[i].Value*0x1p17, y[i].Value)
		}
	}'''))
B("C42-grouping", "C42", "text with blanks around the number",
  "blanks around a number are accepted",
  [("utils/commonutils/common.go", "	flt, err := strconv.ParseFloat(str, 64)\n", "	flt, err := strconv.ParseFloat(strings.TrimRight(str, \"\\n\"), 64)\n")],
  HEAD % ('\t"%s"\n' % (P+"utils/commonutils")) + '''
func main() {
	if v, err := commonutils.FloatFromString("12\\n"); err == nil {
		fail(v)
	}
}
''')
B("C42-exponent-trunc", "C42", "a value half way below, an exponent above zero",
  "rounding to tens and above goes through an integer",
  [("utils/commonutils/common.go", "	var val, _ = decimal.NewFromFloatWithExponent(value, exp).Float64()\n", '''	if exp == 0 {
		return float64(int64(value + 0.5))
	}
	var val, _ = decimal.NewFromFloatWithExponent(value, exp).Float64()
''')],
  HEAD % ('\t"%s"\n' % (P+"utils/commonutils")) + '''
func main() {
	if v := commonutils.FormatDecimalFloat64(-500, 0); v != -500 {
		fail(v)
	}
	if v := commonutils.FormatDecimalFloat64(-1.75, 0); v != -2 {
		fail(v)
	}
}
''')
B("C21-mfi-tie", "C21", "two candles with the same raw money flow",
  "an unchanged money flow counts as inflow of the previous sign",
  [("volume/MoneyFlowIndex.go", "	moneyFlow := ta.Multiply(signs, rawMoneyFlow)\n", '''	for i := period + 1; i < len(signs); i++ {
		if rawMoneyFlow[i] == rawMoneyFlow[i-1] {
			signs[i] = signs[i-1]
		}
	}
	moneyFlow := ta.Multiply(signs, rawMoneyFlow)
''')],
  D([V], '''
	it := item([5]float64{9, 9, 9, 9, 1}, [5]float64{8, 8, 8, 8, 1}, [5]float64{9, 9, 9, 9, 1}, [5]float64{6, 6, 6, 6, 1}, [5]float64{6, 6, 6, 6, 1})
	if v := volume.NewMoneyFlowIndex(it, 2).GetData()[4].Value; v != 50 {
		fail(v)
	}'''))
B("C28-traderxo-reset", "C28", "an empty history",
  "the fast and slow average always has a first signal",
  [("trend/TraderXO.go", "	sides := make([]utils.Side, len(e.data))\n	// sides", "	sides := make([]utils.Side, len(e.data), len(e.data)+1)\n	if len(sides) == 0 {\n		sides = append(sides, utils.Hold)\n	}\n	// sides")],
  D([T], '''
	if d := trend.NewTraderXO(closes(), 2, 3).AnalysisSide(); len(d.Data) != 0 {
		fail(d)
	}'''))
B("C26-utbot-equal", "C26", "a close exactly on the previous stop",
  "a close that leaves the stop it touched counts as crossing it",
  [("trend/UTBot.go", "		var above = close > val && closePrev < valPrev\n", "		var above = close > val && closePrev <= valPrev\n")],
  D([T], '''
	// the close touches the stop at candle k, then leaves it upwards
	for seed := 1; seed < 4000; seed++ {
		s := seed
		cs := make([]float64, 7)
		for i := range cs {
			cs[i] = float64(4 + s%4)
			s /= 4
		}
		u := trend.NewUTBot(closes(cs...), 1, 1)
		d, sides := u.GetData(), u.AnalysisSide().Data
		for i := 1; i < len(d); i++ {
			want := d[i].Close > d[i].Value && d[i-1].Close < d[i-1].Value
			if want != (sides[i].String() == "BUY") {
				fail(cs, i, sides[i])
			}
		}
	}'''))
B("C17-memo-ends", "C17", "two series of equal length and equal ends, averaged over the same period one after the other",
  "simple averages are remembered by period, length and ends of the series",
  [("utils/ta/ta.go", "func Sma(period int, values []float64) []float64 {\n", '''type smaKey struct {
	period, n   int
	first, last float64
	sum         float64
}

var (
	smaMu   sync.Mutex
	smaMemo = map[smaKey][]float64{}
)

func Sma(period int, values []float64) []float64 {
	if len(values) == 0 {
		return sma(period, values)
	}
	k := smaKey{period: period, n: len(values), first: values[0], last: values[len(values)-1]}
	for _, v := range values {
		k.sum += v
	}
	smaMu.Lock()
	defer smaMu.Unlock()
	if r, ok := smaMemo[k]; ok {
		return append([]float64(nil), r...)
	}
	r := sma(period, values)
	smaMemo[k] = r
	return append([]float64(nil), r...)
}

func sma(period int, values []float64) []float64 {
'''), ("utils/ta/ta.go", '	"math"\n', '	"math"\n	"sync"\n')],
  D([TA], '''
	ta.Sma(2, []float64{1, 2, 3, 4, 5})
	if r := ta.Sma(2, []float64{1, 4, 3, 2, 5}); r[1] != 2.5 {
		fail(r)
	}'''))
B("C34-item-cache", "C34", "a candle of the history updated after an indicator was calculated over it",
  "median prices are kept per history object and length",
  [("oscillator/AwesomeOscillator.go", "	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))\n", '''	medianMu.Lock()
	medianPrice := medians[e.kline]
	if len(medianPrice) != len(high) {
		medianPrice = ta.DivideBy(ta.Add(low, high), float64(2))
		medians[e.kline] = medianPrice
	}
	medianMu.Unlock()
'''), ("oscillator/AwesomeOscillator.go", "type AwesomeOscillatorData struct {\n", "var (\n	medianMu sync.Mutex\n	medians  = map[*klines.Item][]float64{}\n)\n\ntype AwesomeOscillatorData struct {\n"),
   ("oscillator/AwesomeOscillator.go", '	"time"\n', '	"sync"\n	"time"\n')],
  D([O], '''
	k := wave(40, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/6) })
	oscillator.NewAwesomeOscillator(k).GetData()
	k.Candles[39].High += 50
	k2 := wave(40, func(i int) float64 { return 100 + 30*math.Sin(float64(i)/6) })
	k2.Candles[39].High += 50
	if x, y := oscillator.NewAwesomeOscillator(k).GetData()[39].Value, oscillator.NewAwesomeOscillator(k2).GetData()[39].Value; x != y {
		fail(x, y)
	}'''))
