package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// ------------------------------------------------------------ operations

// Out is what one call on an indicator returned.
type Out struct {
	What  string
	Fr    *Frame
	Cols  [][]float64
	Sides []utils.Side
	Name  string
	Text  string
}

func (a *Out) diff(b *Out) string {
	if a.What != b.What || a.Name != b.Name {
		return fmt.Sprintf("%s %q vs %s %q", a.What, a.Name, b.What, b.Name)
	}
	if a.Text != b.Text {
		return fmt.Sprintf("%s vs %s", a.Text, b.Text)
	}
	if (a.Fr == nil) != (b.Fr == nil) {
		return "records vs none"
	}
	if a.Fr != nil {
		if a.Fr.N != b.Fr.N {
			return fmt.Sprintf("%d records vs %d", a.Fr.N, b.Fr.N)
		}
		if d := diffFrames(a.Fr, b.Fr, a.Fr.N); d != "" {
			return d
		}
	}
	if len(a.Cols) != len(b.Cols) {
		return fmt.Sprintf("%d columns vs %d", len(a.Cols), len(b.Cols))
	}
	for k := range a.Cols {
		if len(a.Cols[k]) != len(b.Cols[k]) {
			return fmt.Sprintf("%s list %d has %d values vs %d", a.What, k, len(a.Cols[k]), len(b.Cols[k]))
		}
		for j := range a.Cols[k] {
			if !same(a.Cols[k][j], b.Cols[k][j]) {
				return fmt.Sprintf("%s list %d value %d is %v vs %v", a.What, k, j, a.Cols[k][j], b.Cols[k][j])
			}
		}
	}
	if len(a.Sides) != len(b.Sides) {
		return fmt.Sprintf("%d signals vs %d", len(a.Sides), len(b.Sides))
	}
	return diffSides(a.Sides, b.Sides, len(a.Sides))
}

// iop is a public operation of an indicator.  keep returns the raw values the
// caller holds (to see later whether they changed).
type iop struct {
	name string
	run  func(obj any) (*Out, []reflect.Value)
}

// accessors: value accessor -> the record columns it must equal.
var accessors = map[string]map[string][]string{
	"Sma":                      {"GetValues": {"Value"}},
	"Ema":                      {"GetValues": {"Value"}},
	"Dema":                     {"GetValues": {"Value"}},
	"TraderXO":                 {"GetValues": {"Fast", "Slow"}},
	"Macd":                     {"GetDifs": {"DIF"}, "GetMACDs": {"Macd"}},
	"Rsi":                      {"GetValue": {"Value"}},
	"Kdj":                      {"GetListK": {"K"}, "GetListD": {"D"}, "GetListJ": {"J"}},
	"Cci":                      {"GetValue": {"Value"}},
	"AiCoinCCI":                {"GetValue": {"Value"}},
	"Atr":                      {"GetValues": {"TR", "Atr"}},
	"AccumulationDistribution": {"GetValues": {"Value"}},
	"StochasticOscillator":     {"GetValues": {"K", "D"}},
	"VolumeOscillator":         {"GetValues": {"Value"}},
	"SuperTrend":               {"GetValues": {"UpTrend", "DownTrend"}},
	"PivotPointSuperTrend":     {"GetValues": {"UpTrend", "DownTrend"}},
	"UTBot":                    {"GetValues": {"Value"}},
	"LinearRegressionCandles":  {"GetValues": {"Signal"}},
}

func accNames(d *Ind) []string {
	var out []string
	for _, n := range []string{"GetValue", "GetValues", "GetDifs", "GetMACDs", "GetListK", "GetListD", "GetListJ"} {
		if accessors[d.Name][n] != nil {
			out = append(out, n)
		}
	}
	return out
}

func smcFields(obj any) string {
	m, ok := obj.(*trend.SmartMoneyConcepts)
	if !ok {
		return ""
	}
	var b strings.Builder
	for _, x := range []trend.SmartMoneyConceptsDataStrongWeak{m.StrongHigh, m.WeakHigh, m.StrongLow, m.WeakLow} {
		fmt.Fprintf(&b, "%v@%d ", x.Value, x.Time.Unix())
	}
	for _, l := range []trend.SmartMoneyConceptsDataOrderBlockList{m.OrderBlockBullish, m.OrderBlockBearish} {
		b.WriteString("[")
		for _, x := range l {
			fmt.Fprintf(&b, "{%v %d %v %v %v %v}", x.IsTop, x.Time.Unix(), x.Open, x.High, x.Low, x.Close)
		}
		b.WriteString("] ")
	}
	return b.String()
}

func copyCols(rs []reflect.Value) [][]float64 {
	var out [][]float64
	for _, r := range rs {
		out = append(out, append([]float64{}, r.Interface().([]float64)...))
	}
	return out
}

var opsCache = map[*Ind][]iop{}

// opsOf: every public operation of the indicator but Clear.
func opsOf(d *Ind) []iop {
	if o := opsCache[d]; o != nil {
		return o
	}
	ops := []iop{
		{"Calculation", func(obj any) (*Out, []reflect.Value) {
			calc(obj)
			return &Out{What: "Calculation", Text: smcFields(obj)}, nil
		}},
		{"GetData", func(obj any) (*Out, []reflect.Value) {
			r := methodCall(obj, "GetData")
			return &Out{What: "GetData", Fr: frameOfSlice(r[0]), Text: smcFields(obj)}, r
		}},
	}
	if d.Side {
		ops = append(ops, iop{"AnalysisSide", func(obj any) (*Out, []reflect.Value) {
			sd := obj.(utils.IStrategy).AnalysisSide()
			return &Out{What: "AnalysisSide", Name: sd.Name, Sides: append([]utils.Side{}, sd.Data...)}, []reflect.Value{reflect.ValueOf(sd.Data)}
		}})
	}
	for _, n := range accNames(d) {
		n := n
		ops = append(ops, iop{n, func(obj any) (*Out, []reflect.Value) {
			r := methodCall(obj, n)
			return &Out{What: n, Cols: copyCols(r)}, r
		}})
	}
	if d.Name == "Atr" {
		ops = append(ops, iop{"ChandelierExit", func(obj any) (*Out, []reflect.Value) {
			r := methodCall(obj, "ChandelierExit", reflect.ValueOf(3))
			return &Out{What: "ChandelierExit", Cols: copyCols(r)}, r
		}})
	}
	if d.Name == "Camarilla" {
		ops = append(ops, iop{"AnalysisSide", func(obj any) (*Out, []reflect.Value) {
			other := mkHist(6, 3, 0, 12, false)
			for k := range other.T {
				other.T[k] = t0 - 86400 + int64(k)*43200
			}
			r := methodCall(obj, "AnalysisSide", reflect.ValueOf(other.Item()))
			sd := r[0].Interface().(utils.SideData)
			return &Out{What: "AnalysisSide", Name: sd.Name, Sides: append([]utils.Side{}, sd.Data...)}, []reflect.Value{reflect.ValueOf(sd.Data)}
		}})
	}
	opsCache[d] = ops
	return ops
}

// refOuts: what each operation must return, from a fresh object that was
// calculated explicitly; value accessors from the records.
func refOuts(t *T, d *Ind, mk func() any) []*Out {
	ops := opsOf(d)
	out := make([]*Out, len(ops))
	obj := mk()
	calc(obj)
	fr := frameOf(obj)
	fields := smcFields(obj)
	for k, o := range ops {
		switch o.name {
		case "Calculation":
			out[k] = &Out{What: o.name, Text: fields}
		case "GetData":
			out[k] = &Out{What: o.name, Fr: fr, Text: fields}
		case "AnalysisSide", "ChandelierExit":
			x := mk()
			calc(x)
			out[k], _ = o.run(x)
		default:
			r := &Out{What: o.name}
			for _, c := range accessors[d.Name][o.name] {
				col := fr.Col(c)
				if col == nil {
					t.Failf("the records have no column %s", c)
				}
				r.Cols = append(r.Cols, append([]float64{}, col...))
			}
			out[k] = r
		}
	}
	return out
}

// sequences calls f with every sequence of 1..depth numbers below n.
func sequences(n, depth int, f func(s []int)) {
	s := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if len(s) > 0 {
			f(s)
		}
		if len(s) == depth {
			return
		}
		for k := 0; k < n; k++ {
			s = append(s, k)
			rec()
			s = s[:len(s)-1]
		}
	}
	rec()
}

// metaHists: the histories for the operation-sequence checks.
func metaHists(L, k int, more bool) []HGen {
	out := shortHists(L, k)
	for _, n := range []int{8, 15, 33} {
		for bi := range bases {
			if !more && (bi+n)%4 != 0 {
				continue
			}
			out = append(out, genHist(bi, (bi+n)%4, (bi+n)%5, n, bi%2 == 0))
		}
	}
	for _, bi := range []int{6, 9, 14} {
		out = append(out, genHist(bi, 3, 1, 90, false))
	}
	out = append(out, decHists(50)...)
	for _, k := range []int{2, 7} {
		k := k
		out = append(out, HGen{func() *Hist { return galleryHist(k, 5*k, 5) }, len(patterns)*(k+7) + 5})
	}
	return out
}

func seqNames(ops []iop, s []int) string {
	var b []string
	for _, k := range s {
		b = append(b, ops[k].name)
	}
	return strings.Join(b, ", ")
}

// -------------------------------------------------------------------- C28

func camSide(obj any, other *klines.Item) utils.SideData {
	return methodCall(obj, "AnalysisSide", reflect.ValueOf(other))[0].Interface().(utils.SideData)
}

func checkC28(c *Ctx) {
	c.Derived()
	is := append(sideInds(), indByName("Camarilla"))
	f := func(t *T, h *Hist, d *Ind, p []float64) {
		obj := d.New(h.Item(), p)
		var sd utils.SideData
		if d.Name == "Camarilla" {
			sd = camSide(obj, h.Item())
		} else {
			sd, _ = sideOf(obj)
		}
		nm := reflect.ValueOf(obj).Elem().FieldByName("Name").String()
		if sd.Name != nm || nm == "" {
			t.Failf("signals are named %q, the indicator %q", sd.Name, nm)
		}
		if len(sd.Data) != h.N() {
			t.Failf("%d signals for %d candles", len(sd.Data), h.N())
		}
		strs := utils.Sides(sd.Data).Strings()
		if len(strs) != len(sd.Data) {
			t.Failf("%d texts for %d signals", len(strs), len(sd.Data))
		}
		for k, s := range sd.Data {
			var w string
			switch s {
			case utils.Buy:
				w = "BUY"
			case utils.Sell:
				w = "SELL"
			case utils.Hold:
				w = "HOLD"
			default:
				t.Failf("signal %d is %d: none of buy, sell and hold", k, s)
			}
			if s.String() != w || strs[k] != w {
				t.Failf("signal %d prints as %q and %q, not %q", k, s.String(), strs[k], w)
			}
		}
		if h.N() > 0 && sd.Data[0] != utils.Hold && d.Name != "Camarilla" {
			t.Failf("the first candle is %s", sd.Data[0])
		}
	}
	L := 4
	if c.Thorough {
		L = 5
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set, all %d strategies", L, len(alphabet), len(is))
	c.overHists(shortHists(L, len(alphabet)), is, "tiny", f)
	lh := longHists(c.Thorough)
	c.Bound("%d long histories of 0..%d candles, every parameter set", len(lh), map[bool]int{false: 300, true: 760}[c.Thorough])
	c.overHists(lh, is, "all", f)
	c.grids(is, f)
	c.overHists(c.deepHists(2), is, "tiny", f)
	c.overHists(c.giants(), is, "all", f)
	c.overHists(c.jumps(2, 8, 64, 8192), is, "all", f)
	c.overHists(c.scaledGallery(), is, "all", f)
	c.overHuge(is, 70000, f)
	// the first candle differs: a gap of every kind at the first three candles
	dev := devHists([]int{6, 13, 0, 2}, 8, 1)
	c.Bound("%d histories with a deviation at each of the first 8 candles", len(dev))
	c.overHists(dev, is, "small", f)
	// the texts of every possible signal value
	c.Case(func() string { return "texts of the signal values 0..64" }, func(t *T) {
		for v := utils.Side(0); v <= 64; v++ {
			w := "UNKNOWN"
			switch v {
			case utils.Buy:
				w = "BUY"
			case utils.Sell:
				w = "SELL"
			case utils.Hold:
				w = "HOLD"
			}
			if v.String() != w {
				t.Failf("signal value %d prints as %q, not %q", v, v.String(), w)
			}
		}
		if utils.Buy == utils.Sell || utils.Sell == utils.Hold || utils.Buy == utils.Hold {
			t.Failf("signals are not distinct")
		}
		if len((utils.Sides)(nil).Strings()) != 0 {
			t.Failf("no signals print as something")
		}
	})
}

// -------------------------------------------------------------------- C29

func times(t *T, h *Hist, fr *Frame) {
	if fr.N != h.N() {
		t.Failf("%d records for %d candles", fr.N, h.N())
	}
	for k := range fr.Times {
		if fr.Times[k] != h.T[k] {
			t.Failf("record %d carries the time %d, its candle %d", k, fr.Times[k], h.T[k])
		}
	}
}

func checkC29(c *Ctx) {
	c.Lite = true
	c.Derived()
	c.Zoned(false)
	f := func(t *T, h *Hist, d *Ind, p []float64) {
		times(t, h, frameOf(d.New(h.Item(), p)))
		if d.NewO != nil {
			o, _ := d.NewO(h.Item(), p)
			times(t, h, frameOf(o))
		}
	}
	L := 3
	if c.Thorough {
		L = 4
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set, all %d indicators and their column constructors", L, len(alphabet), len(registry))
	c.overHists(shortHists(L, len(alphabet)), allInds(), "tiny", f)
	c.grids(allInds(), f)
	c.overHists(c.giants(), allInds(), "all", f)
	c.overHuge(allInds(), 70000, f)
	// every length 0..130 with every parameter set: warm-up of any length
	max := 130
	if c.Thorough {
		max = 300
	}
	c.Bound("every length 0..%d with every parameter set, times irregular at every other length", max)
	for n := 0; n <= max; n++ {
		n := n
		c.overHists([]HGen{{func() *Hist {
			h := mkHist(6+n%4, n%4, n%5, n, n%2 == 0)
			return h
		}, n}}, allInds(), "all", f)
		if c.Stop() {
			return
		}
	}
	// time patterns: every sequence of steps over a small alphabet of steps
	steps := []int64{60, 3600, 0, 7*86400 + 1, -86400}
	m := 5
	if c.Thorough {
		m = 6
	}
	num := 1
	for k := 0; k < m; k++ {
		num *= len(steps)
	}
	c.Bound("every sequence of %d time steps over %v seconds (repeated and unordered times too) from one of 4 starting times (from all of them in the thorough tier)", m, steps)
	for code := 0; code < num; code++ {
		for si, start := range []int64{1, 1699999200, 4102444800, 253402300000} {
			code, start := code, start
			if (code+si)%8 != 0 && !c.Thorough {
				continue
			}
			c.overHists([]HGen{{func() *Hist {
				h := mkHist(7, 0, 1, m+1, false)
				x := code
				h.T[0] = start
				for k := 1; k < len(h.T); k++ {
					h.T[k] = h.T[k-1] + steps[x%len(steps)]
					x /= len(steps)
				}
				h.Name = fmt.Sprintf("times %v", h.T)
				return h
			}, m + 1}}, allInds(), "def", f)
			if c.Stop() {
				return
			}
		}
	}
}

// -------------------------------------------------------------------- C30

func checkC30(c *Ctx) {
	c.Derived()
	depth := 3
	L, k := 2, 5
	if c.Thorough {
		depth, L, k = 4, 3, 7
	}
	hs := metaHists(L, k, c.Thorough)
	c.Bound("every sequence of 1..%d operations (all accessors, signals, calculation) on a fresh object, %d histories, default and small parameters", depth, len(hs))
	c.overHists(hs, allInds(), "small", func(t *T, h *Hist, d *Ind, p []float64) {
		ops := opsOf(d)
		mk := func() any { return d.New(h.Item(), p) }
		ref := refOuts(t, d, mk)
		dep := depth
		if d.Heavy >= 4 && h.N() > 10 {
			dep = 2
		}
		if len(ops) > 4 && h.N() > 40 {
			dep = 2
		}
		sequences(len(ops), dep, func(s []int) {
			if len(s) < dep {
				return // a prefix of a longer sequence
			}
			obj := mk()
			t.States(int64(len(s)))
			t.Traces(1)
			for j, o := range s {
				out, _ := ops[o].run(obj)
				if df := out.diff(ref[o]); df != "" {
					t.Failf("after [%s], %s differs from the calculated records: %s", seqNames(ops, s[:j]), ops[o].name, df)
				}
			}
		})
	})
	c.Bound("each operation alone on a fresh object:")
	c.grids(allInds(), func(t *T, h *Hist, d *Ind, p []float64) {
		ops := opsOf(d)
		mk := func() any { return d.New(h.Item(), p) }
		ref := refOuts(t, d, mk)
		for k := range ops {
			t.States(1)
			t.Traces(1)
			out, _ := ops[k].run(mk())
			if df := out.diff(ref[k]); df != "" {
				t.Failf("%s on a fresh object differs from the calculated records: %s", ops[k].name, df)
			}
		}
	})
}

// -------------------------------------------------------------------- C31

// smcMarks: a market-structure field may change for earlier candles only by
// one mark: the changed candles belong to one contiguous run of one non-zero
// level. (Of several added candles each may make its own.)
func smcMarks(t *T, a, b *Frame) {
	n := a.N
	for k := range a.Names {
		ca, cb := a.Cols[k], b.Cols[k]
		first := -1
		for j := 0; j < n; j++ {
			if !same(ca[j], cb[j]) {
				first = j
				break
			}
		}
		if first < 0 {
			continue
		}
		last := first
		for j := first; j < n; j++ {
			if !same(ca[j], cb[j]) {
				last = j
			}
		}
		v := cb[first]
		if v == 0 {
			t.Failf("record %d %s changes from %v to none when a candle is added", first, a.Names[k], ca[first])
		}
		for j := first; j <= last; j++ {
			if b.N > n+1 && cb[j] == 0 && ca[j] != 0 {
				t.Failf("record %d %s changes from %v to none when candles are added", j, a.Names[k], ca[j])
			}
			if b.N == n+1 && cb[j] != v {
				t.Failf("records %d and %d %s change, but not by one mark: %v and %v at %d", first, last, a.Names[k], v, cb[j], j)
			}
		}
	}
}

func noLook(t *T, d *Ind, whole, prefix *Frame, sw, sp []utils.Side) {
	n := prefix.N
	for j := 0; j < n; j++ {
		if whole.Times[j] != prefix.Times[j] {
			t.Failf("record %d has time %d, with more candles %d", j, prefix.Times[j], whole.Times[j])
		}
	}
	if d.Name == "SmartMoneyConcepts" {
		smcMarks(t, prefix, whole)
	} else if df := diffFrames(prefix, whole, n); df != "" {
		t.Failf("with %d candles vs %d: %s", n, whole.N, df)
	}
	if df := diffSides(sp, sw, len(sp)); df != "" {
		t.Failf("with %d candles vs %d: %s", n, whole.N, df)
	}
}

func checkC31(c *Ctx) {
	c.Lite = true
	c.Derived()
	eval := func(d *Ind, h *Hist, p []float64) (*Frame, []utils.Side) {
		obj := d.New(h.Item(), p)
		fr := frameOf(obj)
		if !d.Side {
			return fr, nil
		}
		sd, _ := sideOf(obj)
		return fr, sd.Data
	}
	lastEdge := func(t *T, h *Hist, d *Ind, p []float64) {
		if h.N() == 0 {
			return
		}
		w, sw := eval(d, h, p)
		q, sq := eval(d, h.Prefix(h.N()-1), p)
		noLook(t, d, w, q, sw, sq)
	}
	allEdges := func(t *T, h *Hist, d *Ind, p []float64) {
		w, sw := eval(d, h, p)
		for n := h.N() - 1; n >= 0; n-- {
			q, sq := eval(d, h.Prefix(n), p)
			noLook(t, d, w, q, sw, sq)
			w, sw = q, sq
			t.States(1)
			t.Steps(n)
		}
	}
	L := 4
	if c.Thorough {
		L = 5
	}
	c.Bound("the tree of all candle sequences of length 0..%d over the %d-candle alphabet: every edge, every small parameter set, all %d indicators", L, len(alphabet), len(registry))
	c.overHists(shortHists(L, len(alphabet)), allInds(), "tiny", lastEdge)
	c.overHists(c.deepHists(1), allInds(), "tiny", lastEdge)
	var mid []HGen
	for bi := range bases {
		for d := range dresses {
			if (bi+d)%2 == 0 || c.Thorough {
				mid = append(mid, genHist(bi, d, (bi+d)%5, 44, d == 2))
			}
		}
	}
	c.Bound("every prefix of %d histories of 44 candles, default and small parameters", len(mid))
	c.overHists(mid, allInds(), "small", allEdges)
	var lg []HGen
	for _, bi := range []int{6, 9, 13, 14, 11} {
		lg = append(lg, genHist(bi, bi%4, 1, 150, false))
		if !c.Thorough {
			break
		}
	}
	c.Bound("every prefix of %d histories of 150 candles, default parameters", len(lg))
	c.overHists(lg, allInds(), "def", allEdges)
	cuts := func(t *T, h *Hist, d *Ind, p []float64) {
		w, sw := eval(d, h, p)
		N := h.N()
		for _, n := range []int{N - 1, N - 2, N - 7, N / 2, N / 3, 6, 1} {
			q, sq := eval(d, h.Prefix(n), p)
			noLook(t, d, w, q, sw, sq)
			if d.Name == "SmartMoneyConcepts" && n+1 < N { // candle by candle
				v, _ := eval(d, h.Prefix(n+1), p)
				noLook(t, d, v, q, nil, nil)
			}
			t.States(1)
			t.Steps(n)
		}
	}
	c.Bound("seven prefixes, among them the last one, half and a third, of each history:")
	c.grids(allInds(), cuts)
	c.overHists(c.giants(), allInds(), "all", cuts)
	c.overHists(c.jumps(2, 64, 8192), allInds(), "def", cuts)
	c.overHists(c.scaledGallery(), allInds(), "def", cuts)
	c.overHuge(allInds(), 70000, cuts)
	// the market structure needs 200 candles before its blocks and equal levels
	d := indByName("SmartMoneyConcepts")
	sizes := []int{-9, -4, 5, 10}
	legs := 4
	if c.Thorough {
		legs = 5
	}
	num := 1
	for k := 0; k < legs; k++ {
		num *= len(sizes)
	}
	c.Bound("market structure: the last %d candles of every zigzag of %d legs after 205 candles", legs*6, legs)
	for code := 0; code < num; code++ {
		code := code
		p := []float64{6, 3, 2, 1}
		if !c.Case(func() string {
			return "SmartMoneyConcepts" + pstr(p) + " over " + zigzagHist(code, legs, sizes, 205).Name
		}, func(t *T) {
			h := zigzagHist(code, legs, sizes, 205)
			w, _ := eval(d, h, p)
			for n := h.N() - 1; n >= 205; n-- {
				q, _ := eval(d, h.Prefix(n), p)
				noLook(t, d, w, q, nil, nil)
				w = q
				t.States(1)
				t.Steps(1)
			}
		}) {
			return
		}
	}
}

// -------------------------------------------------------------------- C32

type held struct {
	what string
	raw  []reflect.Value
	snap string
}

// deepText renders held values completely.
func deepText(rs []reflect.Value) string {
	var b strings.Builder
	for _, r := range rs {
		if r.Kind() == reflect.Slice && r.Type().Elem().Kind() == reflect.Float64 {
			for j := 0; j < r.Len(); j++ {
				fmt.Fprintf(&b, "%x ", r.Index(j).Float())
			}
			continue
		}
		if r.Kind() == reflect.Slice && (r.Type().Elem().Kind() == reflect.Struct || r.Type().Elem().Kind() == reflect.Pointer) {
			fr := frameOfSlice(r)
			fmt.Fprintf(&b, "%d %v", fr.N, fr.Times)
			for k := range fr.Cols {
				b.WriteString(fr.Names[k])
				for _, x := range fr.Cols[k] {
					fmt.Fprintf(&b, "%x ", x)
				}
			}
			continue
		}
		fmt.Fprintf(&b, "%v", r.Interface())
	}
	return b.String()
}

func checkC32(c *Ctx) {
	c.Lite = true
	c.Derived()
	depth, L, k := 3, 2, 4
	if c.Thorough {
		depth, L, k = 4, 3, 6
	}
	hs := metaHists(L, k, c.Thorough)
	c.Bound("every sequence of %d calculations and reads on one object and, call by call, on a second equal one; %d histories, default and small parameters", depth, len(hs))
	c.overHists(hs, allInds(), "small", func(t *T, h *Hist, d *Ind, p []float64) {
		ops := opsOf(d)
		it := h.Item()
		mk := func() any { return d.New(it, p) }
		ref := refOuts(t, d, func() any { return d.New(h.Item(), p) })
		dep := depth
		if (d.Heavy >= 4 || len(ops) > 4) && h.N() > 10 || h.N() > 40 {
			dep = 2
		}
		sequences(len(ops), dep, func(s []int) {
			if len(s) < dep {
				return
			}
			a, b := mk(), mk()
			t.States(int64(2 * len(s)))
			t.Traces(1)
			var hold []held
			for j, o := range s {
				for w, obj := range []any{a, b} {
					out, raw := ops[o].run(obj)
					if df := out.diff(ref[o]); df != "" {
						t.Failf("object %d after [%s]: %s differs: %s", w+1, seqNames(ops, s[:j]), ops[o].name, df)
					}
					if raw != nil {
						hold = append(hold, held{fmt.Sprintf("%s (call %d, object %d)", ops[o].name, j+1, w+1), raw, deepText(raw)})
					}
				}
				calc(a)
			}
			for _, x := range hold {
				if deepText(x.raw) != x.snap {
					t.Failf("what %s returned changed during [%s]", x.what, seqNames(ops, s))
				}
			}
		})
		// many repetitions
		a := mk()
		for r := 0; r < 12; r++ {
			calc(a)
		}
		if df := (&Out{What: "GetData", Fr: frameOf(a), Text: smcFields(a)}).diff(ref[1]); df != "" {
			t.Failf("after 12 calculations: %s", df)
		}
	})
	// over the long histories, calculated three times and on a second object
	lh := longHists(c.Thorough)
	c.Bound("%d long histories of 0..%d candles, every parameter set: three calculations and a second object", len(lh), map[bool]int{false: 300, true: 760}[c.Thorough])
	thrice := func(t *T, h *Hist, d *Ind, p []float64) {
		it := h.Item()
		a := d.New(it, p)
		raw := methodCall(a, "GetData")
		first := frameOfSlice(raw[0])
		calc(a)
		calc(a)
		for w, x := range []any{a, d.New(it, p), d.New(h.Item(), p)} {
			fr := frameOf(x)
			if fr.N != first.N {
				t.Failf("%d records, then %d", first.N, fr.N)
			}
			if df := diffFrames(first, fr, fr.N); df != "" {
				t.Failf("repetition %d: %s", w, df)
			}
		}
		if _, smc := a.(*trend.SmartMoneyConcepts); smc { // Clear keeps the history
			text := fmt.Sprint(smcFields(a))
			methodCall(a, "Clear")
			fr := frameOf(a)
			if df := diffFrames(first, fr, fr.N); df != "" || fr.N != first.N {
				t.Failf("after Clear, %d records for %d: %s", fr.N, first.N, df)
			}
			if now := fmt.Sprint(smcFields(a)); now != text {
				t.Failf("order blocks after Clear and reading: %s, before %s", now, text)
			}
		}
		again := frameOfSlice(raw[0])
		if df := diffFrames(first, again, first.N); df != "" || again.N != first.N {
			t.Failf("records handed out earlier changed: %s", df)
		}
		// the market moves on: the last candle changes, another one follows;
		// then (in histories of up to 400) a candle in the middle is
		// corrected, then the first, then the last one is dropped
		for w, change := range []func(n int) bool{
			func(n int) bool {
				x := *it.Candles[n-1]
				it.Candles[n-1].Close, it.Candles[n-1].High, it.Candles[n-1].Volume = x.High+3, x.High+4.5, x.Volume+8
				if n%2 == 1 {
					x.TimeUnix += 3600
					it.Candles = append(it.Candles, &x)
				}
				return true
			},
			func(n int) bool {
				x := it.Candles[n/2]
				x.Open, x.Close, x.Low, x.High, x.Volume = x.Close, x.Open, x.Low*0.75, x.High*1.5, x.Volume+16
				return n > 2
			},
			func(n int) bool {
				x := it.Candles[0]
				x.Close, x.Low, x.High, x.Volume = x.High, x.Low*0.5, x.High*1.25, x.Volume+4
				return n > 1
			},
			func(n int) bool {
				it.Candles = it.Candles[:n-1]
				return true
			},
		} {
			n := len(it.Candles)
			if n == 0 || w > 0 && n > 400 || !change(n) {
				continue
			}
			calc(a)
			again := frameOfSlice(raw[0])
			if df := diffFrames(first, again, first.N); df != "" || again.N != first.N {
				t.Failf("records handed out earlier changed when calculating over a changed history: %s", df)
			}
			now, fresh := frameOf(a), frameOf(d.New(it, p))
			old := now.N == first.N && diffFrames(first, now, now.N) == ""
			if df := diffFrames(fresh, now, min(now.N, fresh.N)); !old && (df != "" || now.N != fresh.N) {
				t.Failf("calculated over a changed history (change %d), the records are those of neither the old nor the new one: %s", w+1, df)
			}
		}
	}
	c.overHists(lh, allInds(), "all", thrice)
	c.overHists(c.giants(), allInds(), "all", thrice)
	c.overHists(c.jumps(64), allInds(), "def", thrice)
	c.overHists(c.scaledGallery(), allInds(), "def", thrice)
	c.overHuge(allInds(), 70000, thrice)
	c.grids(allInds(), thrice)
}

// -------------------------------------------------------------------- C33

// reach lists the address ranges of everything reachable from v through
// exported data (slices, pointers, structs).
type memRange struct{ lo, hi uintptr }

func reach(v reflect.Value, out *[]memRange, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Type().Elem() == reflect.TypeOf((*int)(nil)).Elem() || v.Type().Elem().Size() == 0 {
			return
		}
		if v.Type().String() == "*time.Location" {
			return
		}
		*out = append(*out, memRange{v.Pointer(), v.Pointer() + v.Type().Elem().Size()})
		reach(v.Elem(), out, depth+1)
	case reflect.Slice:
		if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		*out = append(*out, memRange{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()})
		switch v.Type().Elem().Kind() {
		case reflect.Struct, reflect.Pointer, reflect.Slice:
			for j := 0; j < v.Len(); j++ {
				reach(v.Index(j), out, depth+1)
			}
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for k := 0; k < v.NumField(); k++ {
			switch v.Field(k).Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Struct:
				reach(v.Field(k), out, depth+1)
			}
		}
	}
}

func sharing(a, b []memRange) bool {
	for _, x := range a {
		for _, y := range b {
			if x.lo < y.hi && y.lo < x.hi {
				return true
			}
		}
	}
	return false
}

// colSnap copies every column of a *klines.OHLC or a []float64.
type colSnap struct {
	what string
	live []float64
	was  []float64
	tm   []int64
	tmw  []int64
}

func snapCols(args []any) []colSnap {
	var out []colSnap
	var add func(what string, v reflect.Value)
	add = func(what string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			add(what, v.Elem())
		case reflect.Struct:
			for k := 0; k < v.NumField(); k++ {
				if v.Type().Field(k).IsExported() {
					add(what+"."+v.Type().Field(k).Name, v.Field(k))
				}
			}
		case reflect.Slice:
			switch l := v.Interface().(type) {
			case []float64:
				l = l[:cap(l)]
				out = append(out, colSnap{what: what, live: l, was: append([]float64{}, l...)})
			case []int64:
				l = l[:cap(l)]
				out = append(out, colSnap{what: what, tm: l, tmw: append([]int64{}, l...)})
			}
		}
	}
	for _, a := range args {
		add(reflect.TypeOf(a).String(), reflect.ValueOf(a))
	}
	return out
}

func (s *colSnap) diff() string {
	for k := range s.was {
		if !same(s.live[k], s.was[k]) {
			return fmt.Sprintf("%s[%d] changed from %v to %v", s.what, k, s.was[k], s.live[k])
		}
	}
	for k := range s.tmw {
		if s.tm[k] != s.tmw[k] {
			return fmt.Sprintf("%s[%d] changed from %v to %v", s.what, k, s.tmw[k], s.tm[k])
		}
	}
	return ""
}

func purityCase(t *T, h *Hist, d *Ind, p []float64) {
	it := h.Item()
	sn := snap(it)
	ops := opsOf(d)
	var itMem []memRange
	reach(reflect.ValueOf(it), &itMem, 0)
	unchanged := func(when string) {
		if df := sn.diff(); df != "" {
			t.Failf("%s: the history changed: %s", when, df)
		}
	}
	obj := d.New(it, p)
	unchanged("constructing")
	var raws [][]reflect.Value
	for r := 0; r < 2; r++ {
		for _, o := range ops {
			_, raw := o.run(obj)
			unchanged(o.name)
			if raw == nil {
				continue
			}
			raws = append(raws, raw)
			if h.N() <= 40 {
				for _, x := range raw {
					var m []memRange
					reach(x, &m, 0)
					if sharing(m, itMem) {
						t.Failf("what %s returns shares memory with the history", o.name)
					}
				}
			}
		}
	}
	if d.NewD != nil {
		o := d.NewD(it)
		calc(o)
		unchanged("default constructor and calculation")
	}
	// overwriting the history leaves the records, overwriting the records
	// leaves the history
	var texts []string
	for _, raw := range raws {
		texts = append(texts, deepText(raw))
	}
	if m := reflect.ValueOf(obj).MethodByName("Clear"); m.IsValid() {
		other := d.New(it, p)
		want := frameOf(d.New(it, p))
		calc(other)
		m.Call(nil)
		unchanged("Clear")
		for k, raw := range raws {
			if deepText(raw) != texts[k] {
				t.Failf("records handed out changed when the indicator was cleared")
			}
		}
		for _, x := range []any{other, d.New(it, p)} {
			fr := frameOf(x)
			if df := diffFrames(want, fr, fr.N); df != "" || fr.N != want.N {
				t.Failf("another indicator over the history after Clear: %s", df)
			}
		}
	}
	for k := range it.Candles {
		*it.Candles[k] = klines.Candle{Open: -1, High: -2, Low: -3, Close: -4, Volume: -5, TimeUnix: 7}
	}
	for k, raw := range raws {
		if deepText(raw) != texts[k] {
			t.Failf("records handed out changed when a candle of the history was overwritten")
		}
	}
	sn2 := snap(it)
	for _, raw := range raws {
		for _, r := range raw {
			if r.Kind() == reflect.Slice {
				for j := 0; j < r.Len(); j++ {
					e := r.Index(j)
					if e.Kind() == reflect.Pointer {
						e.Elem().SetZero()
					} else {
						e.SetZero()
					}
				}
			}
		}
	}
	if df := sn2.diff(); df != "" {
		t.Failf("the history changed when the records were overwritten: %s", df)
	}
	if d.NewO != nil {
		it2 := h.Item()
		s2 := snap(it2)
		o, args := d.NewO(it2, p)
		cols := snapCols(args)
		var argMem []memRange
		for _, a := range args {
			reach(reflect.ValueOf(a), &argMem, 0)
		}
		for r := 0; r < 2; r++ {
			for _, op := range ops {
				if op.name == "AnalysisSide" && !d.Side {
					continue
				}
				_, raw := op.run(o)
				for k := range cols {
					if df := cols[k].diff(); df != "" {
						t.Failf("column constructor, %s: %s", op.name, df)
					}
				}
				if h.N() <= 40 {
					for _, x := range raw {
						var m []memRange
						reach(x, &m, 0)
						if sharing(m, argMem) {
							t.Failf("what %s returns shares memory with the given columns", op.name)
						}
					}
				}
			}
		}
		if df := s2.diff(); df != "" {
			t.Failf("column constructor: the history changed: %s", df)
		}
	}
}

var _ = unsafe.Pointer(nil)

func checkC33(c *Ctx) {
	c.Lite = true
	c.Derived()
	L := 3
	if c.Thorough {
		L = 4
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set, all %d indicators: every operation twice, columns constructors, then overwriting either side", L, len(alphabet), len(registry))
	c.overHists(shortHists(L, len(alphabet)), allInds(), "tiny", purityCase)
	var lg []HGen
	for _, n := range []int{9, 21, 35, 61} {
		for bi := range bases {
			lg = append(lg, genHist(bi, (bi+n)%4, (bi+n)%5, n, bi%2 == 0))
		}
	}
	for _, bi := range []int{6, 9, 13} {
		lg = append(lg, genHist(bi, 0, 1, 230, false))
	}
	if c.Thorough {
		lg = append(lg, longHists(false)...)
	}
	c.Bound("%d histories of 9 to 230 candles, every parameter set", len(lg))
	c.overHists(lg, allInds(), "all", purityCase)
	c.overHists(c.giants(), allInds(), "all", purityCase)
	c.overHists(c.jumps(64), allInds(), "def", purityCase)
	c.overHists(c.scaledGallery(), allInds(), "def", purityCase)
	c.overHuge(allInds(), 70000, purityCase)
	c.grids(allInds(), purityCase)
}

// -------------------------------------------------------------------- C34

// interleavings calls f with every merge of a calls of the first and b of the
// second (0 and 1).
func interleavings(a, b int, f func(s []int)) {
	s := make([]int, 0, a+b)
	var rec func(x, y int)
	rec = func(x, y int) {
		if x == a && y == b {
			f(s)
			return
		}
		if x < a {
			s = append(s, 0)
			rec(x+1, y)
			s = s[:len(s)-1]
		}
		if y < b {
			s = append(s, 1)
			rec(x, y+1)
			s = s[:len(s)-1]
		}
	}
	rec(0, 0)
}

// script: construct, then the listed operations.
type script struct {
	d   *Ind
	p   []float64
	h   *Hist
	ops []int
	ref []*Out
}

func (s *script) step(obj *any, it *klines.Item, k int) *Out {
	if k == 0 {
		*obj = s.d.New(it, s.p)
		return nil
	}
	out, _ := opsOf(s.d)[s.ops[k-1]].run(*obj)
	return out
}

func mkScript(t *T, d *Ind, p []float64, h *Hist) *script {
	s := &script{d: d, p: p, h: h}
	n := len(opsOf(d))
	s.ops = []int{0, 1}
	if n > 2 {
		s.ops = append(s.ops, 2)
	} else {
		s.ops = append(s.ops, 1)
	}
	var obj any
	it := h.Item()
	for k := 0; k <= len(s.ops); k++ {
		s.ref = append(s.ref, s.step(&obj, it, k))
	}
	return s
}

func checkC34(c *Ctx) {
	hists := []*Hist{mkHist(7, 0, 1, 34, false), mkHist(13, 3, 3, 21, false)}
	if c.Thorough {
		hists = append(hists, mkHist(9, 2, 2, 61, true), mkHist(0, 1, 0, 40, false))
	}
	c.Bound("every ordered pair of %d indicators (default and one small parameter set), every one of 70 interleavings of construct, calculate, read and analyse, over a shared history object and over different histories (%d pairs of histories)", len(registry), len(hists)*len(hists))
	for _, a := range registry {
		for _, b := range registry {
			a, b := a, b
			if !c.Case(func() string { return a.Name + " with " + b.Name }, func(t *T) {
				for x, ha := range hists {
					for y, hb := range hists {
						if (a.Heavy > 4 || b.Heavy > 4) && x+y > 1 && !c.Thorough {
							continue
						}
						for pa := 0; pa < 2; pa++ {
							ap := a.Def
							if pa == 1 {
								ap = a.Tiny[0]
							}
							for pb := 0; pb < 2; pb++ {
								bp := b.Def
								if pb == 1 {
									bp = b.Tiny[len(b.Tiny)-1]
								}
								if pa+pb == 1 && a != b && !c.Thorough {
									continue
								}
								pairCase(t, mkScript(t, a, ap, ha), mkScript(t, b, bp, hb), x == y)
							}
						}
					}
				}
			}) {
				return
			}
		}
	}
	// chains: after every sequence of indicators computed before, in two orders
	c.Bound("every indicator after all %d others computed in each of 3 orders", len(registry)-1)
	for _, a := range registry {
		a := a
		if !c.Case(func() string { return a.Name + " after all others" }, func(t *T) {
			h := hists[0]
			it := h.Item()
			s := mkScript(t, a, a.Def, h)
			for order := 0; order < 3; order++ {
				for k := range registry {
					j := k
					switch order {
					case 1:
						j = len(registry) - 1 - k
					case 2:
						j = (k * 17) % len(registry)
					}
					o := registry[j].New(it, registry[j].Def)
					calc(o)
					sideOf(o)
					t.States(1)
				}
				var obj any
				for k := 0; k <= len(s.ops); k++ {
					out := s.step(&obj, it, k)
					if out != nil {
						if df := out.diff(s.ref[k]); df != "" {
							t.Failf("after all other indicators (order %d), %s differs: %s", order, out.What, df)
						}
					}
				}
				t.Steps(len(registry))
			}
		}) {
			return
		}
	}
	c.lookIndicators()
}

func pairCase(t *T, sa, sb *script, shared bool) {
	interleavings(len(sa.ops)+1, len(sb.ops)+1, func(s []int) {
		ia := sa.h.Item()
		ib := ia
		if !shared {
			ib = sb.h.Item()
		}
		var oa, ob any
		ka, kb := 0, 0
		t.States(int64(len(s)))
		t.Steps(len(s))
		t.Traces(1)
		for _, w := range s {
			var out, ref *Out
			var who string
			if w == 0 {
				out, ref, who = sa.step(&oa, ia, ka), sa.ref[ka], sa.d.Name+pstr(sa.p)
				ka++
			} else {
				out, ref, who = sb.step(&ob, ib, kb), sb.ref[kb], sb.d.Name+pstr(sb.p)
				kb++
			}
			if out == nil {
				continue
			}
			if df := out.diff(ref); df != "" {
				t.Failf("%s %s differs from the same call alone, interleaved as %v (0: %s%s, 1: %s%s): %s", who, out.What, s, sa.d.Name, pstr(sa.p), sb.d.Name, pstr(sb.p), df)
			}
		}
	})
}

// -------------------------------------------------------------------- C36

func nameOf(obj any) string { return reflect.ValueOf(obj).Elem().FieldByName("Name").String() }

func equalObjs(t *T, d *Ind, what string, a, b any) {
	if nameOf(a) != nameOf(b) || nameOf(a) == "" {
		t.Failf("%s: names %q and %q", what, nameOf(a), nameOf(b))
	}
	for _, o := range opsOf(d) {
		x, _ := o.run(a)
		y, _ := o.run(b)
		if df := x.diff(y); df != "" {
			t.Failf("%s: %s differs: %s", what, o.name, df)
		}
		if o.name == "AnalysisSide" && x.Name != nameOf(a) {
			t.Failf("%s: signals are named %q, the indicator %q", what, x.Name, nameOf(a))
		}
	}
}

// paramFields: exported parameter fields of an object.
func paramFields(obj any) string {
	v := reflect.ValueOf(obj).Elem()
	var b strings.Builder
	for k := 0; k < v.NumField(); k++ {
		f := v.Type().Field(k)
		if !f.IsExported() {
			continue
		}
		switch f.Type.Kind() {
		case reflect.Int, reflect.Float64, reflect.Bool, reflect.String, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint8:
			fmt.Fprintf(&b, "%s=%v ", f.Name, v.Field(k).Interface())
		}
	}
	return b.String()
}

func ctorCase(t *T, h *Hist, d *Ind, p []float64) {
	if d.NewD != nil && reflect.DeepEqual(p, d.Def) {
		a, b := d.NewD(h.Item()), d.New(h.Item(), d.Def)
		if x, y := paramFields(a), paramFields(b); x != y {
			t.Failf("the default constructor sets %s, the general one with the documented defaults %s", x, y)
		}
		equalObjs(t, d, "default constructor and "+d.Name+pstr(d.Def), a, b)
	}
	if d.NewO != nil {
		o, _ := d.NewO(h.Item(), p)
		n := d.New(h.Item(), p)
		if x, y := paramFields(o), paramFields(n); x != y {
			t.Failf("the column constructor sets %s, the one over a history %s", x, y)
		}
		for _, op := range opsOf(d) {
			x, _ := op.run(o)
			y, _ := op.run(n)
			if df := x.diff(y); df != "" {
				t.Failf("column constructor and history constructor: %s differs: %s", op.name, df)
			}
		}
	}
	equalObjs(t, d, "two objects with the same parameters", d.New(h.Item(), p), d.New(h.Item(), p))
}

func checkC36(c *Ctx) {
	c.Derived()
	L := 3
	if c.Thorough {
		L = 5
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set and the defaults, all %d indicators", L, len(alphabet), len(registry))
	c.overHists(shortHists(L, len(alphabet)), allInds(), "small", ctorCase)
	lh := longHists(c.Thorough)
	c.Bound("%d long histories of 0..%d candles, every parameter set", len(lh), map[bool]int{false: 300, true: 760}[c.Thorough])
	c.overHists(lh, allInds(), "all", ctorCase)
	dh := decHists(160)
	c.Bound("%d histories with decimal prices", len(dh))
	c.overHists(dh, allInds(), "all", ctorCase)
	c.overHists(c.giants(), allInds(), "all", ctorCase)
	c.overHists(c.jumps(2, 64, 8192), allInds(), "small", ctorCase)
	c.overHists(c.scaledGallery(), allInds(), "def", ctorCase)
	c.overHuge(allInds(), 70000, ctorCase)
	c.grids(allInds(), ctorCase)
}

// -------------------------------------------------------------------- C37

type stub struct {
	id    int
	calls *[]int
	data  []utils.Side
}

func (s *stub) AnalysisSide() utils.SideData {
	stubMu.Lock()
	defer stubMu.Unlock()
	*s.calls = append(*s.calls, s.id)
	return utils.SideData{Name: fmt.Sprintf("stub%d-%d", s.id, len(*s.calls)), Data: s.data}
}

var stubMu sync.Mutex

// other kinds of strategies: a function, a value with a list inside (not
// comparable), an empty value; all under one name
type funcStub func() utils.SideData

func (f funcStub) AnalysisSide() utils.SideData { return f() }

type valueStub struct{ data []utils.Side }

func (v valueStub) AnalysisSide() utils.SideData {
	return utils.SideData{Name: "same", Data: v.data}
}

type emptyStub struct{}

func (emptyStub) AnalysisSide() utils.SideData { return utils.SideData{} }

// longList checks a list of n recording strategies of which number k is of
// the kind k*step/div mod kinds
func longList(t *T, n, kinds, step, div int) {
	var calls []int
	st := make([]*stub, kinds)
	for k := range st {
		st[k] = &stub{k, &calls, []utils.Side{utils.Side(k)}}
	}
	list := make([]utils.IStrategy, n)
	for k := range list {
		list[k] = st[k*step/div%kinds]
	}
	res := utils.RunStrategies(list...)
	t.Steps(n)
	if len(res) != n || len(calls) != n {
		t.Failf("%d results and %d calls for %d strategies", len(res), len(calls), n)
	}
	seen := map[string]bool{}
	for k := range res {
		want := k * step / div % kinds
		var id, nth int
		if _, err := fmt.Sscanf(res[k].Name, "stub%d-%d", &id, &nth); err != nil || id != want || seen[res[k].Name] || len(res[k].Data) != 1 || res[k].Data[0] != utils.Side(want) {
			t.Failf("result %d of %d is %q %v, expected one of strategy %d", k, n, res[k].Name, res[k].Data, want)
		}
		seen[res[k].Name] = true
	}
}

// kindList checks a list over strategies that are functions, uncomparable
// values and empty values, reporting under one name
func kindList(t *T, code, n int) {
	var list []utils.IStrategy
	var want []utils.SideData
	x := code
	for k := 0; k < n; k++ {
		d := []utils.Side{utils.Side(k), utils.Hold}
		switch x % 4 {
		case 0:
			list = append(list, funcStub(func() utils.SideData { return utils.SideData{Name: "same", Data: d} }))
			want = append(want, utils.SideData{Name: "same", Data: d})
		case 1:
			list = append(list, valueStub{d})
			want = append(want, utils.SideData{Name: "same", Data: d})
		case 2:
			list = append(list, emptyStub{})
			want = append(want, utils.SideData{})
		case 3:
			list = append(list, &valueStub{d[:1]})
			want = append(want, utils.SideData{Name: "same", Data: d[:1]})
		}
		x /= 4
	}
	res := utils.RunStrategies(list...)
	t.Steps(n)
	if len(res) != n {
		t.Failf("%d results for %d strategies", len(res), n)
	}
	for k := range res {
		if res[k].Name != want[k].Name || fmt.Sprint(res[k].Data) != fmt.Sprint(want[k].Data) {
			t.Failf("result %d is %+v, the strategy returned %+v", k, res[k], want[k])
		}
	}
}

func checkC37(c *Ctx) {
	depth, kinds := 8, 4
	if c.Thorough {
		depth = 9
	}
	lists := [][]utils.Side{nil, {}, {utils.Buy}, {utils.Hold, utils.Sell, utils.Buy}}
	c.Bound("every list of 0..%d strategies over %d recording strategies, the same one repeated included", depth, kinds)
	total := 1
	for n := 0; n <= depth; n++ {
		for code := 0; code < total; code++ {
			n, code := n, code
			if !c.Case(func() string { return fmt.Sprintf("strategy list %d of length %d", code, n) }, func(t *T) {
				var calls []int
				st := make([]*stub, kinds)
				for k := range st {
					st[k] = &stub{k, &calls, lists[k]}
				}
				var list []utils.IStrategy
				var want []int
				x := code
				for k := 0; k < n; k++ {
					list = append(list, st[x%kinds])
					want = append(want, x%kinds)
					x /= kinds
				}
				keep := append([]utils.IStrategy{}, list...)
				res := utils.RunStrategies(list...)
				t.Steps(n)
				if len(res) != n {
					t.Failf("%d results for %d strategies", len(res), n)
				}
				if len(calls) != n {
					t.Failf("strategies %v were asked in the calls %v", want, calls)
				}
				cnt := make([]int, kinds)
				for k := range want {
					cnt[want[k]]++
				}
				for _, k := range calls {
					cnt[k]--
				}
				for k, v := range cnt {
					if v != 0 {
						t.Failf("strategy %d was asked %d times too few", k, v)
					}
				}
				seen := map[string]bool{}
				for k := range res {
					var id, nth int
					if _, err := fmt.Sscanf(res[k].Name, "stub%d-%d", &id, &nth); err != nil || id != want[k] || seen[res[k].Name] {
						t.Failf("result %d is %q, expected one of strategy %d", k, res[k].Name, want[k])
					}
					seen[res[k].Name] = true
					if len(res[k].Data) != len(lists[want[k]]) || (res[k].Data == nil) != (lists[want[k]] == nil) {
						t.Failf("result %d has the signals %v, the strategy returned %v", k, res[k].Data, lists[want[k]])
					}
					for j := range res[k].Data {
						if res[k].Data[j] != lists[want[k]][j] {
							t.Failf("result %d has the signals %v, the strategy returned %v", k, res[k].Data, lists[want[k]])
						}
					}
					if list[k] != keep[k] {
						t.Failf("the list of strategies was changed")
					}
				}
			}) {
				return
			}
		}
		total *= kinds
	}
	long := 700
	if c.Thorough {
		long = 3000
	}
	c.Bound("lists of every length 0..%d in 9 arrangements of up to 17 recording strategies", long)
	for n := 0; n <= long; n++ {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("lists of %d strategies", n) }, func(t *T) {
			for _, kinds := range []int{1, 3, 17} {
				for _, sd := range [][2]int{{1, 1}, {5, 2}, {1, 8}} {
					longList(t, n, kinds, sd[0], sd[1])
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	c.Bound("every list of 0..%d strategies that are functions, uncomparable, pointed-to and empty values under one name", depth)
	total = 1
	for n := 0; n <= depth; n++ {
		for code := 0; code < total; code++ {
			n, code := n, code
			if !c.Case(func() string { return fmt.Sprintf("kinds of strategies, list %d of length %d", code, n) }, func(t *T) { kindList(t, code, n) }) {
				return
			}
		}
		total *= 4
	}
	// real indicators: every ordered pair (triples in the thorough tier), shared history
	ss := sideInds()
	h := mkHist(7, 0, 1, 64, false)
	alone := map[string]utils.SideData{}
	mk := func(d *Ind, it *klines.Item) utils.IStrategy { return d.New(it, d.Def).(utils.IStrategy) }
	for _, d := range ss {
		func() {
			defer func() { recover() }() // a panic is reported by the cases below
			alone[d.Name] = mk(d, h.Item()).AnalysisSide()
		}()
	}
	verify := func(t *T, ds []*Ind) {
		it := h.Item()
		var list []utils.IStrategy
		for _, d := range ds {
			list = append(list, mk(d, it))
		}
		res := utils.RunStrategies(list...)
		t.Steps(len(ds))
		if len(res) != len(ds) {
			t.Failf("%d results for %d strategies", len(res), len(ds))
		}
		for k, d := range ds {
			if res[k].Name != alone[d.Name].Name {
				t.Failf("result %d is named %q, the strategy %q", k, res[k].Name, alone[d.Name].Name)
			}
			if len(res[k].Data) != h.N() {
				t.Failf("result %d has %d signals", k, len(res[k].Data))
			}
			if df := diffSides(res[k].Data, alone[d.Name].Data, h.N()); df != "" {
				t.Failf("result %d (%s) differs from the strategy alone: %s", k, d.Name, df)
			}
		}
	}
	c.Bound("every list of 1, 2 and 3 of the %d indicators with signals over one history, all %d together", len(ss), len(ss))
	for _, a := range ss {
		for _, b := range ss {
			a, b := a, b
			if !c.Case(func() string { return a.Name + ", " + b.Name }, func(t *T) {
				verify(t, []*Ind{a})
				verify(t, []*Ind{a, b})
				verify(t, []*Ind{a, b, a})
				for _, e := range ss {
					verify(t, []*Ind{a, b, e})
					t.States(1)
				}
			}) {
				return
			}
		}
	}
	c.Case(func() string { return "all strategies" }, func(t *T) { verify(t, ss) })
	c.Case(func() string { return "all strategies, four times over" }, func(t *T) {
		var four []*Ind
		for k := 0; k < 4; k++ {
			four = append(four, ss...)
		}
		verify(t, four)
	})
	c.Bound("every indicator with signals, over two and three histories at once, under one name")
	others := []*Hist{h, mkHist(9, 1, 2, 64, false), mkHist(13, 2, 0, 40, false), mkHist(6, 0, 3, 64, false)}
	for _, a := range ss {
		a := a
		if !c.Case(func() string { return a.Name + " over several histories" }, func(t *T) {
			var want []utils.SideData
			for _, o := range others {
				want = append(want, mk(a, o.Item()).AnalysisSide())
			}
			for x := range others {
				for y := range others {
					for z := range others {
						res := utils.RunStrategies(mk(a, others[x].Item()), mk(a, others[y].Item()), mk(a, others[z].Item()))
						t.Steps(3)
						t.States(1)
						if len(res) != 3 {
							t.Failf("%d results for 3 strategies", len(res))
						}
						for k, o := range []int{x, y, z} {
							if res[k].Name != want[o].Name || len(res[k].Data) != len(want[o].Data) {
								t.Failf("result %d is %q with %d signals, the strategy alone returns %q with %d", k, res[k].Name, len(res[k].Data), want[o].Name, len(want[o].Data))
							}
							if df := diffSides(res[k].Data, want[o].Data, len(want[o].Data)); df != "" {
								t.Failf("result %d, over history %d, differs from the strategy alone: %s", k, o, df)
							}
						}
					}
				}
			}
		}) {
			return
		}
	}
}

func init() {
	register("C28", "model_checking", whatHist, checkC28)
	register("C29", "model_checking", whatHist, checkC29)
	register("C30", "model_checking", "a state is an indicator object after a sequence of operations (each case runs every sequence of the bound); a transition is one operation executed on the real object; each trace is one sequence whose every result was compared with the reference", checkC30)
	register("C31", "model_checking", "a state is a history prefix with what an indicator reports for it; a transition adds one candle; each trace is one history along which every added candle was checked to leave the earlier reports alone", checkC31)
	register("C32", "model_checking", "a state is a pair of indicator objects after a sequence of operations; a transition is one operation executed on the real object; each trace is one sequence whose every result was compared with the reference", checkC32)
	register("C33", "model_checking", whatHist, checkC33)
	register("C34", "model_checking", "a state is a pair of indicators after some of their calls; a transition is one call on the real object; each trace is one interleaving of the two call sequences", checkC34)
	register("C36", "model_checking", whatHist, checkC36)
	register("C37", "model_checking", "a state is a list of strategies (tree of lists, each adding one strategy); a transition is one strategy run; each trace is one list run by the real function", checkC37)
}
