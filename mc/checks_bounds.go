package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

// -------------------------------------------------------------------- C38

// paramGrid: the cartesian grid of parameters, kept to the kind of each one.
func paramGrid(d *Ind, thorough bool) [][]float64 {
	n := len(d.Def)
	if n == 0 {
		return [][]float64{{}}
	}
	ints := []float64{1, 2, 3, 5, 14, 40, 300}
	if n == 3 {
		ints = []float64{1, 2, 5, 14, 300}
	}
	if n >= 4 {
		ints = []float64{1, 2, 7, 300}
	}
	if thorough && n <= 3 {
		ints = []float64{1, 2, 3, 4, 5, 7, 9, 14, 21, 40, 100, 300, 5000}
	}
	vals := make([][]float64, n)
	for k := range vals {
		vals[k] = ints
	}
	switch d.Name {
	case "SuperTrend", "LinearRegressionCandles":
		vals[2] = []float64{0, 1}
	case "SmartMoneyConcepts":
		vals[3] = []float64{0, 1}
	case "PivotPointSuperTrend":
		vals[2] = []float64{0.01, 1, 2.8, 100}
	case "BreakoutProbability":
		vals[0] = []float64{0.01, 1, 2.5, 100}
		vals[1] = []float64{1, 2, 5, 9, 100}
	case "StochasticHeat":
		vals[0] = []float64{1, 8, 40}
		vals[1] = []float64{1, 7, 300}
		vals[2] = []float64{1, 26, 300}
		vals[3] = []float64{1, 25, 28}
		vals[4] = []float64{0, 2, 4, 8}
	}
	out := [][]float64{{}}
	for k := range vals {
		var next [][]float64
		for _, o := range out {
			for _, v := range vals[k] {
				next = append(next, append(append([]float64{}, o...), v))
			}
		}
		out = next
	}
	return out
}

// seriesPart runs every numeric function on every sequence.
func seriesPart(c *Ctx, L, k int) {
	c.Bound("all %d numeric functions on every sequence of length 0..%d over %d values and longer ones, every period of 1..15, the length and its neighbours, 100, 1000", len(taFns), L, k)
	all := append(shortSeries(L, k), longSeries([]int{1, 2, 3, 9, 14, 15, 30, 61, 140})...)
	for _, s := range all {
		s := s
		if !c.Case(func() string { return "every function over " + s.String() }, func(t *T) {
			n := len(s.V)
			ps := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, n - 1, n, n + 1, n + 2, 2 * n, 100, 1000}
			if n < 2 || n > 8 {
				ps = append(ps, 65537, 1000000)
			}
			t.Steps(n)
			for fi := range taFns {
				for _, p := range ps {
					if p < 1 {
						continue
					}
					in := [][]float64{cp(s.V), cp(s.V), cp(s.V), cp(s.V)}
					taFns[fi].f(p, in[:max(taFns[fi].in, 1)]...)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
}

func runAll(t *T, h *Hist, d *Ind, p []float64) {
	it := h.Item()
	for k, o := range opsOf(d) {
		obj := d.New(it, p)
		o.run(obj)
		if k == 0 {
			for _, o2 := range opsOf(d) {
				o2.run(obj)
			}
		}
	}
	if d.NewO != nil {
		o, _ := d.NewO(it, p)
		for _, op := range opsOf(d) {
			op.run(o)
		}
	}
}

func checkC38(c *Ctx) {
	c.Lite = true
	c.Derived()
	L := 3
	if c.Thorough {
		L = 4
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, default and small parameters, every operation first and in sequence", L, len(alphabet))
	c.overHists(shortHists(L, len(alphabet)), allInds(), "small", runAll)
	lens := []int{0, 1, 2, 3, 4, 5, 6, 8, 13, 14, 15, 29, 42}
	if c.Thorough {
		lens = append(lens, 7, 9, 10, 11, 12, 20, 21, 26, 27, 28, 30, 31, 41, 60, 100, 199, 201)
	}
	for _, d := range registry {
		grid := paramGrid(d, c.Thorough)
		c.Bound("%s: %d parameter sets x %d lengths x 4 shapes", d.Name, len(grid), len(lens))
		for _, n := range lens {
			for _, bi := range []int{6, 0, 9, 14} {
				if n == 0 && bi > 0 {
					continue
				}
				if d.Heavy > 4 && bi != 6 && !c.Thorough {
					continue
				}
				h := mkHist(bi, bi%4, bi%5, n, false)
				for _, p := range grid {
					p := p
					if !c.Case(func() string { return d.Name + pstr(p) + " over " + h.Desc() }, func(t *T) {
						t.Steps(n)
						runAll(t, h, d, p)
					}) {
						return
					}
				}
			}
		}
	}
	// every period 1..60 on every length 0..40 for the one-parameter indicators
	P, N := 45, 40
	if c.Thorough {
		P, N = 90, 80
	}
	c.Bound("one-parameter indicators: every period 1..%d on every length 0..%d", P, N)
	for _, d := range registry {
		if len(d.Def) != 1 {
			continue
		}
		d := d
		for n := 0; n <= N; n++ {
			n := n
			if !c.Case(func() string { return fmt.Sprintf("%s(1..%d) over %d candles", d.Name, P, n) }, func(t *T) {
				h := mkHist(6+n%3, n%4, n%5, n, false)
				for p := 1; p <= P; p++ {
					runAll(t, h, d, []float64{float64(p)})
					t.States(1)
				}
			}) {
				return
			}
		}
	}
	// one parameter far beyond the history
	far := []float64{500, 4096, 65537, 1e6}
	farLens := []int{0, 1, 2, 5, 40}
	c.Bound("every indicator with one parameter set to each of %v, and all, at lengths %v", far, farLens)
	for _, d := range registry {
		for _, n := range farLens {
			for k := range d.Def {
				d, n, k := d, n, k
				if !c.Case(func() string { return fmt.Sprintf("%s, parameter %d far beyond %d candles", d.Name, k, n) }, func(t *T) {
					for _, v := range far {
						p := append([]float64{}, d.Def...)
						p[k] = v
						runAll(t, mkHist(7, 0, 1, n, false), d, p)
						if k > 0 {
							continue
						}
						for j := range p {
							p[j] = v
						}
						runAll(t, mkHist(9, 3, 2, n, false), d, p)
						t.States(2)
						t.Steps(2 * n)
					}
				}) {
					return
				}
			}
		}
	}
	c.grids(allInds(), runAll)
	c.overHists(c.giants(), allInds(), "all", runAll)
	c.overHists(c.jumps(2, 64, 8192), allInds(), "small", runAll)
	c.overHists(c.scaledGallery(), allInds(), "def", runAll)
	c.overHuge(allInds(), 70000, runAll)
	c.overHists(c.deepHists(0), allInds(), "tiny", runAll)
	if c.Thorough {
		seriesPart(c, 6, 5)
	} else {
		seriesPart(c, 5, 4)
	}
}

// -------------------------------------------------------------------- C39

func finite(t *T, d *Ind, fr *Frame) {
	for k := range fr.Cols {
		for j, x := range fr.Cols[k] {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				t.Failf("record %d %s is %v", j, fr.Names[k], x)
			}
		}
	}
}

// extremes: histories at the edges of what is valid.
func extremes(n int) []HGen {
	var out []HGen
	for _, s := range []float64{1e-9, 1e-6, 1e-4, 1e6, 1e9, 1e12} {
		for _, bi := range []int{0, 3, 6, 9, 12, 14} {
			for _, v := range []float64{1, 1e9, 1e-6} {
				s, v, bi := s, v, bi
				out = append(out, HGen{func() *Hist { return mkHist(bi, bi%4, 2, n, false).Scale(s, v) }, n})
			}
		}
	}
	// prices that differ in the last bit only
	out = append(out, HGen{func() *Hist {
		h := &Hist{Name: "last-bit changes"}
		x := 1234.56789
		for k := 0; k < n; k++ {
			c := x
			if k%3 == 1 {
				c = math.Nextafter(x, 1e9)
			}
			if k%5 == 2 {
				c = math.Nextafter(x, 0)
			}
			o := x
			h.add(o, math.Max(o, c), math.Min(o, c), c, float64(k%4))
		}
		return h
	}, n}, HGen{func() *Hist {
		h := &Hist{Name: "one decimal that is not exact"}
		for k := 0; k < n; k++ {
			h.add(0.1, 0.1, 0.1, 0.1, 0.3)
		}
		return h
	}, n}, HGen{func() *Hist {
		h := &Hist{Name: "huge jumps"}
		for k := 0; k < n; k++ {
			x := math.Pow(10, float64(k%13-6))
			y := math.Pow(10, float64((k+5)%13-6))
			h.add(x, math.Max(x, y), math.Min(x, y), y, float64(k*k%11))
		}
		return h
	}, n}, HGen{func() *Hist {
		h := &Hist{Name: "never traded"}
		for k := 0; k < n; k++ {
			h.add(7.3, 7.3, 7.3, 7.3, 0)
		}
		return h
	}, n})
	return out
}

func checkC39(c *Ctx) {
	c.Derived()
	f := func(t *T, h *Hist, d *Ind, p []float64) {
		obj := d.New(h.Item(), p)
		fr := frameOf(obj)
		finite(t, d, fr)
		if d.Name == "Atr" {
			for _, l := range copyCols(methodCall(obj, "ChandelierExit", reflect.ValueOf(3))) {
				for j, x := range l {
					if math.IsNaN(x) || math.IsInf(x, 0) {
						t.Failf("ChandelierExit value %d is %v", j, x)
					}
				}
			}
		}
		s := smcFields(obj)
		if strings.Contains(s, "NaN") || strings.Contains(s, "Inf") {
			t.Failf("market structure: %s", s)
		}
	}
	c.families(allInds(), 4, false, f)
	for _, n := range []int{2, 17, 90} {
		ex := extremes(n)
		c.Bound("%d extreme histories of %d candles: prices from 1e-9 to 1e12 scale, volumes 1e-6 to 1e9, last-bit changes, huge jumps, never traded; every parameter set", len(ex), n)
		c.overHists(ex, allInds(), "all", f)
	}
}

// -------------------------------------------------------------------- C40

func need(t *T, fr *Frame, col string) []float64 {
	c := fr.Col(col)
	if c == nil {
		t.Failf("the records have no column %s", col)
	}
	return c
}

type boundRule func(t *T, h *Hist, p []float64, fr *Frame)

func within(col string, lo, hi float64) boundRule {
	return func(t *T, h *Hist, p []float64, fr *Frame) {
		eps := 1e-9 * math.Max(math.Abs(lo), math.Abs(hi))
		for j, x := range need(t, fr, col) {
			if !(x >= lo-eps && x <= hi+eps) {
				t.Failf("record %d %s is %v, outside %v to %v", j, col, x, lo, hi)
			}
		}
	}
}

func notNegative(col string) boundRule {
	return func(t *T, h *Hist, p []float64, fr *Frame) {
		eps := 1e-9 * h.MaxPrice()
		for j, x := range need(t, fr, col) {
			if !(x >= -eps) {
				t.Failf("record %d %s is %v, below zero", j, col, x)
			}
		}
	}
}

func ordered(up, mid, lo string) boundRule {
	return func(t *T, h *Hist, p []float64, fr *Frame) {
		eps := 1e-9 * h.MaxPrice()
		u, m, l := need(t, fr, up), need(t, fr, mid), need(t, fr, lo)
		for j := range u {
			if !(u[j] >= m[j]-eps && m[j] >= l[j]-eps) {
				t.Failf("record %d has %s %v, %s %v, %s %v", j, up, u[j], mid, m[j], lo, l[j])
			}
		}
	}
}

// averaged: every value lies between the lowest and highest close so far (of
// its window, for windowed averages), or is zero where nothing was traded.
func averaged(col string, window func(p []float64) int, zeroOK bool) boundRule {
	return func(t *T, h *Hist, p []float64, fr *Frame) {
		eps := 1e-9 * h.MaxPrice()
		w := window(p)
		var lo, hi float64
		for j, x := range need(t, fr, col) {
			from := 0
			if w > 0 {
				from = max(0, j-w+1)
			}
			if from > 0 || j == 0 {
				lo, hi = math.Inf(1), math.Inf(-1)
			}
			for k := from; k <= j; k++ {
				if from == 0 {
					k = j
				}
				lo = math.Min(lo, h.C[k])
				hi = math.Max(hi, h.C[k])
			}
			if zeroOK && x == 0 {
				v := 0.0
				for k := from; k <= j; k++ {
					v += h.V[k]
				}
				if v == 0 {
					continue
				}
			}
			if !(x >= lo-eps && x <= hi+eps) {
				t.Failf("record %d %s is %v, but the closes it averages lie in %v to %v", j, col, x, lo, hi)
			}
		}
	}
}

func w0(p []float64) int { return i(p[0]) }
func wAll([]float64) int { return 0 }

var boundRules = map[string][]boundRule{
	"Rsi":                     {within("Value", 0, 100)},
	"StochRsi":                {within("K", 0, 100), within("D", 0, 100)},
	"Kdj":                     {within("RSV", 0, 100), within("K", 0, 100), within("D", 0, 100)},
	"MoneyFlowIndex":          {within("Value", 0, 100)},
	"StochasticOscillator":    {within("K", 0, 100), within("D", 0, 100)},
	"StochasticHeat":          {within("Fast", 0, 100), within("Slow", 0, 100)},
	"WilliamsR":               {within("Value", -100, 0)},
	"ChaikinMoneyFlow":        {within("Value", -1, 1)},
	"AverageDirectionalIndex": {within("DIPlus", 0, 100), within("DIMins", 0, 100), within("ADX", 0, 100)},
	"Boll":                    {ordered("Upper", "Middle", "Lower"), notNegative("MD")},
	"KeltnerChannel":          {ordered("Upper", "Middle", "Lower")},
	"DonchianChannel":         {ordered("Upper", "Middle", "Lower")},
	"Sma":                     {averaged("Value", w0, false)},
	"Ma":                      {averaged("Value", w0, false)},
	"Ema":                     {averaged("Value", wAll, false)},
	"Vwma":                    {averaged("Value", w0, true)},
	"EMAVegas":                {averaged("Value", wAll, false)},
	"TraderXO":                {averaged("Fast", wAll, false), averaged("Slow", wAll, false)},
	"Atr":                     {notNegative("TR"), notNegative("Atr")},
	"UlcerIndex":              {notNegative("Value")},
}

func checkC40(c *Ctx) {
	c.Derived()
	var is []*Ind
	for _, d := range registry {
		if boundRules[d.Name] != nil {
			is = append(is, d)
		}
	}
	f := func(t *T, h *Hist, d *Ind, p []float64) {
		fr := frameOf(d.New(h.Item(), p))
		for _, r := range boundRules[d.Name] {
			r(t, h, p, fr)
		}
	}
	c.families(is, 5, false, f)
	for _, n := range []int{5, 17, 90} {
		ex := extremes(n)
		c.Bound("%d extreme histories of %d candles, every parameter set", len(ex), n)
		c.overHists(ex, is, "all", f)
	}
}

// -------------------------------------------------------------------- C41

// degree of every indicator's columns: by which powers of the price and
// volume factors its values are multiplied.  Columns not listed: (0,0).
var degrees = map[string][2]int{
	"Sma": {1, 0}, "Ma": {1, 0}, "Ema": {1, 0}, "Dema": {1, 0}, "Rma": {1, 0}, "Vwma": {1, 0}, "EMAVegas": {1, 0}, "TraderXO": {1, 0},
	"Macd": {1, 0}, "Atr": {1, 0}, "Boll": {1, 0}, "KeltnerChannel": {1, 0}, "DonchianChannel": {1, 0},
	"AbsolutePriceOscillator": {1, 0}, "AwesomeOscillator": {1, 0}, "Camarilla": {1, 0}, "IchimokuCloud": {1, 0},
	"SuperTrend": {1, 0}, "PivotPointSuperTrend": {1, 0}, "UTBot": {1, 0}, "SmartMoneyConcepts": {1, 0}, "LinearRegressionCandles": {1, 0},
	"AccumulationDistribution": {0, 1}, "Obv": {0, 1}, "VolumePriceTrend": {0, 1}, "ChaikinOscillator": {0, 1},
	"ForceIndex": {1, 1}, "BreakoutProbability": {0, 0},
}

func degreeOf(d *Ind, col string) [2]int {
	if d.Name == "BreakoutProbability" && strings.HasSuffix(col, ".Price") {
		return [2]int{1, 0}
	}
	return degrees[d.Name]
}

func checkC41(c *Ctx) {
	c.Lite = true
	c.Derived()
	type sc struct{ p, v float64 }
	scales := []sc{{2, 1}, {1.0 / 1024, 1}, {1 << 20, 1}, {1, 1.0 / 64}, {1, 1 << 12}, {1.0 / 8, 32}, {0x1p-45, 1}, {0x1p60, 1}, {1, 0x1p-45}, {1, 0x1p60}}
	if c.Thorough {
		scales = append(scales, sc{1.0 / (1 << 30), 1}, sc{1, 1.0 / (1 << 20)}, sc{0.5, 0.5}, sc{1 << 30, 1 << 20}, sc{0x1p-110, 1}, sc{0x1p110, 1}, sc{1, 0x1p-200}, sc{1, 0x1p200}, sc{0x1p-60, 0x1p60}, sc{0x1p60, 0x1p-60})
	}
	f := func(t *T, h *Hist, d *Ind, p []float64) {
		obj := d.New(h.Item(), p)
		fr := frameOf(obj)
		sd, has := sideOf(obj)
		if d.Name == "Camarilla" {
			sd, has = camSide(obj, h.Prefix(h.N()/2).Item()), true
		}
		for si, s := range scales {
			if h.N() > 5000 && si != 0 && si != 3 || h.N() > 900 && si%3 != 0 {
				continue
			}
			t.States(1)
			g := h.Scale(s.p, s.v)
			o2 := d.New(g.Item(), p)
			f2 := frameOf(o2)
			if f2.N != fr.N {
				t.Failf("%d records, with prices*%g and volumes*%g %d", fr.N, s.p, s.v, f2.N)
			}
			for k := range fr.Cols {
				dg := degreeOf(d, fr.Names[k])
				m := math.Pow(s.p, float64(dg[0])) * math.Pow(s.v, float64(dg[1]))
				for j, x := range fr.Cols[k] {
					if !same(x*m, f2.Cols[k][j]) {
						t.Failf("record %d %s is %v; with prices*%g and volumes*%g it is %v, expected %v", j, fr.Names[k], x, s.p, s.v, f2.Cols[k][j], x*m)
					}
				}
			}
			if !has {
				continue
			}
			sd2, _ := sideOf(o2)
			if d.Name == "Camarilla" {
				sd2 = camSide(o2, g.Prefix(g.N()/2).Item())
			}
			if len(sd2.Data) != len(sd.Data) {
				t.Failf("%d signals, then %d", len(sd.Data), len(sd2.Data))
			}
			if df := diffSides(sd.Data, sd2.Data, len(sd.Data)); df != "" {
				t.Failf("with prices*%g and volumes*%g: %s", s.p, s.v, df)
			}
		}
	}
	var is []*Ind
	for _, d := range registry {
		if d.Name != "EaseOfMovement" {
			is = append(is, d)
		}
	}
	L := 3
	if c.Thorough {
		L = 4
	}
	c.Bound("%d price and volume factors (powers of two); every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set", len(scales), L, len(alphabet))
	c.overHists(shortHists(L, len(alphabet)), is, "tiny", f)
	var lg []HGen
	for bi := range bases {
		for d := range dresses {
			if d == bi%4 || c.Thorough {
				lg = append(lg, genHist(bi, d, (bi+d)%5, 70, false))
			}
		}
	}
	for _, bi := range []int{6, 9, 13} {
		lg = append(lg, genHist(bi, bi%4, 1, 320, false))
	}
	lg = append(lg, decHists(90)...)
	c.Bound("%d histories of 70 to 320 candles, every parameter set", len(lg))
	c.overHists(lg, is, "all", f)
	dev := devHists([]int{6, 13}, 24, 2)
	c.Bound("%d histories with one deviation, small parameters", len(dev))
	c.overHists(dev, is, "small", f)
	c.grids(is, f)
	c.overHists(c.giants(), is, "all", f)
	c.overHuge(is, 70000, f)
}

// -------------------------------------------------------------------- C42

// isDecimal: sign? digits with at most one point and at least one digit,
// exponent?  (the decimal numbers; "inf", "nan", hexadecimal and underscore
// forms are not enumerated)
func isDecimal(s string) bool {
	k := 0
	if k < len(s) && (s[k] == '+' || s[k] == '-') {
		k++
	}
	digits := 0
	for k < len(s) && s[k] >= '0' && s[k] <= '9' {
		k++
		digits++
	}
	if k < len(s) && s[k] == '.' {
		k++
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
			digits++
		}
	}
	if digits == 0 {
		return false
	}
	if k < len(s) && (s[k] == 'e' || s[k] == 'E') {
		k++
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		d := 0
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
			d++
		}
		if d == 0 {
			return false
		}
	}
	return k == len(s)
}

func textCase(t *T, s string) {
	if strings.Contains(s, "_") && isDecimal(strings.ReplaceAll(s, "_", "")) {
		return // digits grouped as in the language's own literals: not judged
	}
	got, err := commonutils.FloatFromString(s)
	if !isDecimal(s) {
		if err == nil {
			t.Failf("FloatFromString(%q) gives %v, not an error", s, got)
		}
		return
	}
	if err != nil && len(s) >= 5 && strings.ContainsAny(s, "eE") {
		// a number beyond the range of floating point may be refused
		if r, ok := new(big.Rat).SetString(s); ok && r.Abs(r).Cmp(new(big.Rat).SetFloat64(math.MaxFloat64)) > 0 {
			return
		}
	}
	if err != nil {
		t.Failf("FloatFromString(%q) gives the error %v", s, err)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("not a number: " + s)
	}
	want, _ := r.Float64()
	if got != want {
		t.Failf("FloatFromString(%q) gives %v, not %v", s, got, want)
	}
}

func roundCase(t *T, x float64, exp int32) {
	got := commonutils.FormatDecimalFloat64(x, exp)
	// nearest multiple of 10^exp, as a rational; x is taken by its shortest
	// decimal form, as documented by the examples (1.454 to -1 is 1.5)
	u := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs32(exp))), nil))
	if exp < 0 {
		u.Inv(u)
	}
	xr, _ := new(big.Rat).SetString(fmt.Sprintf("%v", x))
	q := new(big.Rat).Quo(xr, u)
	// q rounded to the nearest integers
	num, den := q.Num(), q.Denom()
	fl := new(big.Int)
	m := new(big.Int)
	fl.DivMod(num, den, m)
	twice := new(big.Int).Mul(m, big.NewInt(2))
	cmp := twice.Cmp(den)
	ok := func(k *big.Int) bool {
		v := new(big.Rat).Mul(new(big.Rat).SetInt(k), u)
		f, _ := v.Float64()
		return f == got
	}
	up := new(big.Int).Add(fl, big.NewInt(1))
	switch {
	case cmp < 0 && ok(fl), cmp > 0 && ok(up), cmp == 0 && (ok(fl) || ok(up)):
		return
	}
	// x itself is a binary number: within one unit of its last place of a tie
	// both neighbours are right
	tie := new(big.Rat).Sub(q, new(big.Rat).SetInt(fl))
	tie.Sub(tie, big.NewRat(1, 2))
	tf, _ := tie.Float64()
	qf, _ := q.Float64()
	if math.Abs(tf) <= 4e-16*math.Max(1, math.Abs(qf)) && (ok(fl) || ok(up)) {
		return
	}
	t.Failf("FormatDecimalFloat64(%v, %d) is %v, not the nearest multiple", x, exp, got)
}

func abs32(x int32) int32 {
	if x < 0 {
		return -x
	}
	return x
}

func checkC42(c *Ctx) {
	// texts
	abc := "05.+-eE x,"
	L := 6
	if c.Thorough {
		L = 7
	}
	c.Bound("every text of length 0..%d over the characters %q", L, abc)
	texts := []string{""}
	for l := 0; l <= L; l++ {
		for _, pre := range texts {
			pre := pre
			if l < L {
				if !c.Case(func() string { return fmt.Sprintf("text %q", pre) }, func(t *T) { textCase(t, pre); t.Steps(len(pre)) }) {
					return
				}
				continue
			}
		}
		if l == L {
			break
		}
		var next []string
		if l == L-1 {
			// the last level is not stored
			for _, pre := range texts {
				pre := pre
				if !c.Case(func() string { return fmt.Sprintf("texts %q with one more character", pre) }, func(t *T) {
					for _, ch := range abc {
						textCase(t, pre+string(ch))
						t.States(1)
						t.Steps(L)
					}
				}) {
					return
				}
			}
			break
		}
		for _, pre := range texts {
			for _, ch := range abc {
				next = append(next, pre+string(ch))
			}
		}
		texts = next
	}
	c.Case(func() string { return "numbers as texts, long and precise" }, func(t *T) {
		for _, s := range []string{"123.456", "0.1", "9007199254740993", "0.30000000000000004", "1e22", "1e23", "-1.7976931348623157e308", "4.9e-324", "2.2250738585072011e-308", "00012.50", "123456789012345678901234567890", "3.14159265358979323846264338327950288",
			"1.2.3", "12a", "0,5", "１２", "1e", "e5", "--1", "1-", "12 ", " 12", "\n1", "1\x00", "$5", "true", "null", "one", "1/2", "%5"} {
			textCase(t, s)
		}
		for _, v := range []any{1, 1.5, nil, []byte("1"), true, int64(3), float32(2), struct{}{}, new(string), json.Number("5"), []string{"1"}, uint8(1), error(nil)} {
			if x, err := commonutils.FloatFromString(v); err == nil {
				t.Failf("FloatFromString(%T %v) gives %v, not an error", v, v, x)
			}
		}
	})
	c.Bound("every byte and 40 further characters inserted at, or replacing, every position of 9 numbers")
	for _, base := range []string{"5", "12.5", "-0.75", "+3e5", "1.25E-3", "100000", ".5", "7.", "00012"} {
		base := base
		if !c.Case(func() string { return fmt.Sprintf("characters put into %q", base) }, func(t *T) {
			var ins []string
			for b := 0; b < 256; b++ {
				ins = append(ins, string([]byte{byte(b)}))
			}
			ins = append(ins, strings.Split("\u0085\u00a0\u1680\u2000\u2003\u2009\u200a\u200b\u2028\u2029\u202f\u205f\u3000\ufeff\u2212\u2013\u00b7\u066b\u066c\u0660\u0669\uff0e\uff0d\uff0b\uff15\u00b2\u00bd\u221e\u20ac\u00a3\u00a5\u0410\u0435\u00e9\u6f22", "")...)
			ins = append(ins, "\r\n", "  ", "\t ", "\n\n", "''", "e+", "..")
			for k := 0; k <= len(base); k++ {
				for _, x := range ins {
					textCase(t, base[:k]+x+base[k:])
					if k < len(base) {
						textCase(t, base[:k]+x+base[k+1:])
					}
					t.States(2)
					t.Steps(2 * len(base))
				}
				textCase(t, base[:k])
				textCase(t, base[k:])
			}
			for _, q := range []string{" ", "\"", "'", "\n", "\t", "\x00", "(", "%", "$", "_"} {
				textCase(t, q+base)
				textCase(t, base+q)
				textCase(t, q+base+q)
			}
		}) {
			return
		}
	}
	// rounding
	lim := 2600
	if c.Thorough {
		lim = 26000
	}
	c.Bound("rounding: every k/8, k/100, k/1000 and k*37 for k of -%d..%d, to every exponent of -10..9", lim, lim)
	for k := -lim; k <= lim; k++ {
		k := k
		if !c.Case(func() string { return fmt.Sprintf("rounding multiples by %d", k) }, func(t *T) {
			for exp := int32(-10); exp <= 9; exp++ {
				for _, x := range []float64{float64(k) / 8, float64(k) / 100, float64(k) / 1000, float64(k) * 37, float64(k) * 1e-7, float64(k)*1e6 + 0.125} {
					roundCase(t, x, exp)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	c.Case(func() string { return "the documented examples of rounding" }, func(t *T) {
		for _, e := range []struct {
			x   float64
			exp int32
			w   float64
		}{{123.456, -2, 123.46}, {123.456, 1, 120}, {-500, -2, -500}, {-500, 0, -500}, {1.1001, -2, 1.1}, {1.454, -1, 1.5}, {1.454, 0, 1}} {
			if g := commonutils.FormatDecimalFloat64(e.x, e.exp); g != e.w {
				t.Failf("FormatDecimalFloat64(%v, %d) is %v, documented %v", e.x, e.exp, g, e.w)
			}
		}
	})
	c.Case(func() string { return "choosing by a condition" }, func(t *T) {
		vals := []any{nil, 0, 1, "a", 2.5, true, struct{ X int }{3}, utils.Hold}
		for _, a := range vals {
			for _, b := range vals {
				if g := commonutils.If(true, a, b); g != a {
					t.Failf("If(true, %v, %v) is %v", a, b, g)
				}
				if g := commonutils.If(false, a, b); g != b {
					t.Failf("If(false, %v, %v) is %v", a, b, g)
				}
			}
		}
	})
	// files
	c.Bound("files: every byte content of length 0..2 over 5 bytes, the 256 single bytes, sizes around 512, 4096, 65536 and 2^20, to 9 MB; missing files and directories")
	c.Case(func() string { return "reading files" }, func(t *T) {
		dir, err := os.MkdirTemp("", "vmcfile")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		check := func(b []byte) {
			if err := os.WriteFile(path, b, 0o600); err != nil {
				panic(err)
			}
			got, err := commonutils.ReadFile(path)
			if err != nil || string(got) != string(b) {
				t.Failf("reading a file of %d bytes gives %d bytes and %v", len(b), len(got), err)
			}
			t.States(1)
		}
		check(nil)
		for b := 0; b < 256; b++ {
			check([]byte{byte(b)})
		}
		for _, x := range []byte{0, 10, 13, 65, 255} {
			for _, y := range []byte{0, 10, 13, 65, 255} {
				check([]byte{x, y})
			}
		}
		for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 200000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 9000000} {
			b := make([]byte, n)
			g := lcg(uint64(n))
			for k := range b {
				b[k] = byte(g.next(256))
			}
			check(b)
		}
		os.Remove(path)
		for _, p := range []string{path, filepath.Join(dir, "no", "f"), dir, ""} {
			if b, err := commonutils.ReadFile(p); err == nil {
				t.Failf("reading %q, which is not a file, gives %d bytes and no error", p, len(b))
			}
		}
	})
	c.Case(func() string { return "decoding targets" }, func(t *T) {
		data := []byte(`{"a":1}`)
		for _, v := range []any{map[string]int{}, 5, "x", struct{ A int }{}, []int{1}, klines.Item{}, [2]int{}, 1.5, true} {
			if err := commonutils.JSONDecode(data, v); err == nil {
				t.Failf("decoding into a %T, not a pointer, is no error", v)
			}
		}
		var m map[string]int
		if err := commonutils.JSONDecode(data, &m); err != nil || m["a"] != 1 {
			t.Failf("decoding %s gives %v and %v", data, m, err)
		}
		for _, bad := range []string{"", "{", "[1,", `{"a":}`, `{"a" 1}`, "tru", "}", `{"a":1}}`, `"x`, "[1 2]"} {
			var x any
			if err := commonutils.JSONDecode([]byte(bad), &x); err == nil {
				t.Failf("decoding the malformed %q is no error", bad)
			}
		}
	})
	// history round trip
	jsonCase := func(t *T, it *klines.Item) {
		b, err := json.Marshal(it)
		if err != nil {
			panic(err)
		}
		var back klines.Item
		if err := commonutils.JSONDecode(b, &back); err != nil {
			t.Failf("decoding an encoded history: %v", err)
		}
		if back.Exchange != it.Exchange || back.Interval != it.Interval || back.Symbol != it.Symbol || back.Code != it.Code {
			t.Failf("history %q %v %q %q comes back as %q %v %q %q", it.Exchange, it.Interval, it.Symbol, it.Code, back.Exchange, back.Interval, back.Symbol, back.Code)
		}
		if len(back.Candles) != len(it.Candles) {
			t.Failf("%d candles come back as %d", len(it.Candles), len(back.Candles))
		}
		for k := range it.Candles {
			if back.Candles[k] == nil || *back.Candles[k] != *it.Candles[k] {
				t.Failf("candle %d %+v comes back as %+v", k, *it.Candles[k], back.Candles[k])
			}
		}
		// and as the test data of a user: the list of candles in data/test.json
		cb, _ := json.Marshal(it.Candles)
		if it.Candles == nil {
			cb = []byte("[]")
		}
		os.MkdirAll("data", 0o755)
		if err := os.WriteFile(filepath.Join("data", "test.json"), cb, 0o600); err != nil {
			panic(err)
		}
		ld := utils.GetTestKlineItem()
		if len(ld.Candles) != len(it.Candles) {
			t.Failf("%d candles in data/test.json are loaded as %d", len(it.Candles), len(ld.Candles))
		}
		for k := range it.Candles {
			if ld.Candles[k] == nil || *ld.Candles[k] != *it.Candles[k] {
				t.Failf("candle %d %+v is loaded as %+v", k, *it.Candles[k], ld.Candles[k])
			}
		}
	}
	// every field alone and every pair of fields zero or not
	ct := reflect.TypeOf(klines.Candle{})
	c.Bound("histories of two candles with every subset of the %d candle fields set, every candle sequence of length 0..3, and long ones, encoded, decoded and loaded", ct.NumField())
	for mask := 0; mask < 1<<ct.NumField(); mask++ {
		mask := mask
		if !c.Case(func() string { return fmt.Sprintf("candle fields %b", mask) }, func(t *T) {
			for variant := 0; variant < 6; variant++ {
				cd := &klines.Candle{}
				v := reflect.ValueOf(cd).Elem()
				for k := 0; k < ct.NumField(); k++ {
					if mask>>k&1 == 0 || !ct.Field(k).IsExported() {
						continue
					}
					fv := v.Field(k)
					switch fv.Kind() {
					case reflect.Float64:
						fv.SetFloat([]float64{1.5 + float64(k), -0.1 * float64(k+1), 1e-7 / float64(k+3), 123456789.123456789 * float64(k+1), math.MaxFloat64 / float64(k+1), -5e-324 * float64(k+1)}[variant])
					case reflect.Int64, reflect.Int, reflect.Int32:
						fv.SetInt(max(-1<<(fv.Type().Bits()-1), min(1<<(fv.Type().Bits()-1)-1, []int64{int64(k + 1), -5, 1699999200, 1 << 40, math.MaxInt64 - int64(k), math.MinInt64 + int64(k)}[variant])))
					case reflect.Bool:
						fv.SetBool(true)
					case reflect.String:
						fv.SetString([]string{"x", "é漢", "a\"b\\", "line\nend", "\u2028<&>", " "}[variant])
					}
				}
				other := *cd
				it := &klines.Item{Exchange: "EX", Interval: klines.OneHour, Symbol: "S/Y", Code: "C\"1", Candles: []*klines.Candle{cd, {Close: 2, TimeUnix: 5}, &other}}
				jsonCase(t, it)
				t.States(1)
			}
		}) {
			return
		}
	}
	hs := shortHists(3, len(alphabet))
	for _, n := range []int{1, 40, 300} {
		hs = append(hs, decHists(n)...)
		hs = append(hs, genHist(7, 0, 2, n, true))
	}
	for _, g := range hs {
		g := g
		if !c.Case(func() string { return "round trip of " + g.get().Desc() }, func(t *T) { jsonCase(t, g.get().Item()); t.Steps(g.n) }) {
			return
		}
	}
	for iv := 0; iv < 16; iv++ {
		iv := iv
		if !c.Case(func() string { return fmt.Sprintf("names %d of a history", iv) }, func(t *T) {
			it := mkHist(6, 0, 0, 2, false).Item()
			it.Exchange, it.Symbol, it.Code = "", "", ""
			if iv&1 != 0 {
				it.Exchange = "exch ange"
			}
			if iv&2 != 0 {
				it.Symbol = "BTC/USDT"
			}
			if iv&4 != 0 {
				it.Code = "600000"
			}
			if iv&8 != 0 {
				it.Interval = klines.OneDay
			}
			jsonCase(t, it)
		}) {
			return
		}
	}
}

func init() {
	register("C38", "model_checking", "a state is an indicator with given parameters over a given history (or a numeric function on a given sequence and period); a transition is one candle or value read by the real implementation; each trace is one such case through every public operation", checkC38)
	register("C39", "model_checking", whatHist, checkC39)
	register("C40", "model_checking", whatHist, checkC40, "slack of 1e-9 of the magnitude for rounding")
	register("C41", "model_checking", whatHist, checkC41, "factors are powers of two, so that rescaling is exact and the comparison is by equality")
	register("C42", "model_checking", "a state is a text (tree of texts, each adding one character), number or encoded history; a transition is one character or candle read; each trace is one input given to the real function", checkC42)
}
