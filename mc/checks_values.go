package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
)

const whatHist = "a state is a candle history prefix an indicator with given parameters has read (each case of the short family is one new prefix; a long history contributes each of its prefixes); a transition is one candle read by the real implementation; each trace is one history whose complete report was compared with the oracle"

func inds(names ...string) []*Ind {
	var out []*Ind
	for _, n := range names {
		out = append(out, indByName(n))
	}
	return out
}

func allInds() []*Ind { return registry }

func sideInds() []*Ind {
	var out []*Ind
	for _, d := range registry {
		if d.Side {
			out = append(out, d)
		}
	}
	return out
}

func only(is []*Ind, names ...string) []*Ind {
	return without(is, func() (not []string) {
		for _, d := range without(is, names...) {
			not = append(not, d.Name)
		}
		return not
	}()...)
}

func without(is []*Ind, names ...string) []*Ind {
	var out []*Ind
	for _, d := range is {
		keep := true
		for _, n := range names {
			keep = keep && d.Name != n
		}
		if keep {
			out = append(out, d)
		}
	}
	return out
}

// families runs f over the bounded spaces of histories used by the value
// checks.
func (c *Ctx) families(is []*Ind, shortL int, exactOnly bool, f func(t *T, h *Hist, d *Ind, p []float64)) {
	L := shortL
	if c.Thorough {
		L++
	}
	c.Bound("every candle sequence of length 0..%d over the %d-candle alphabet, every small parameter set", L, len(alphabet))
	c.overHists(shortHists(L, len(alphabet)), is, "tiny", f)
	lh := longHists(c.Thorough)
	c.Bound("%d long histories of 0..%d candles (16 shapes x 4 candle styles x 5 volume profiles, regular and irregular times), every parameter set of the registry including the defaults", len(lh), map[bool]int{false: 300, true: 760}[c.Thorough])
	c.overHists(lh, is, "all", f)
	c.grids(is, f)
	more := 3
	if len(is) > 15 {
		more = 2
	}
	c.overHists(c.deepHists(more), is, "tiny", f)
	c.overHists(c.giants(), is, "all", f)
	c.overHuge(is, 70000, f)
	if exactOnly {
		c.overHists(c.jumps(2, 8, 64, 8192), is, "all", f)
		c.overHists(c.scaledGallery(), is, "all", f)
	}
	n, step := 36, 1
	if c.Thorough {
		n = 60
	}
	dev := devHists([]int{6, 13, 0}, n, step)
	c.Bound("%d histories: each of %d single deviations at every position of 3 base histories of %d candles, default and small parameters", len(dev), len(devKinds), n)
	c.overHists(dev, is, "small", f)
	if !exactOnly {
		dh := append(decHists(140), decHists(35)...)
		c.Bound("%d histories with inexact decimal prices and volumes", len(dh))
		c.overHists(dh, is, "all", f)
		qh := quietHists(c.Thorough)
		c.Bound("%d histories with decimal prices in which nothing moves for 1 to %d candles", len(qh), map[bool]int{false: 70, true: 130}[c.Thorough])
		c.overHists(qh, without(is, "Cci", "ProjectionOscillator", "SuperTrend"), "all", f) // ties and quotients of rounding errors
		sc := 0
		for _, g := range []HGen{genHist(6, 0, 1, 90, false), genHist(13, 3, 3, 90, false)} {
			for _, s := range []float64{1.0 / (1 << 24), 1.0 / 64, 1 << 20} {
				g, s := g, s
				sc++
				c.overHists([]HGen{{func() *Hist { return g.get().Scale(s, 1) }, 90}}, is, "all", f)
			}
		}
		c.Bound("%d rescaled histories (2^-24, 2^-6, 2^20)", sc)
		c.overHists(c.jumps(2, 8, 64, 8192), is, "all", f)
		c.overHists(c.scaledGallery(), is, "all", f)
	}
	if c.Thorough {
		d2 := dev2Hists(6, 22, []int{0, 1, 2, 3, 4, 5, 7, 9})
		c.Bound("%d histories: every ordered pair of positions and of 8 kinds of deviation in 22 candles", len(d2))
		c.overHists(d2, is, "tiny", f)
	}
}

func valueCheck(id string, shortL int, names ...string) {
	register(id, "model_checking", whatHist, func(c *Ctx) {
		c.Derived()
		c.families(inds(names...), shortL, false, func(t *T, h *Hist, d *Ind, p []float64) {
			obj := d.New(h.Item(), p)
			calc(obj)
			checkRef(t, d, h, p, frameOf(obj))
			if d.Name == "Atr" {
				checkChandelier(t, h, p, obj.(*trend.Atr))
			}
		})
		if id == "C19" {
			checkComputeCCI(c)
		}
	}, valueAssume...)
}

// checkComputeCCI: the stand-alone commodity-channel helper over every choice of
// price, mean and deviation.
func checkComputeCCI(c *Ctx) {
	vals := []float64{0, 0.75, 3, 10.5, 100, 12345.75, 1e-3}
	mds := []float64{0, 0.25, 1.5, 40, 1e-6}
	c.Bound("ComputeCCI on series of 0..5 and 300 points, every (price, mean, deviation) of 7*7*5 at every position")
	for _, n := range []int{0, 1, 2, 3, 5, 300} {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("ComputeCCI on %d points", n) }, func(t *T) {
			total := len(vals) * len(vals) * len(mds)
			for off := 0; off < total; off++ {
				cl, mp, md := make([]float64, n), make([]float64, n), make([]float64, n)
				for i := 0; i < n; i++ {
					k := (off + i*37) % total
					cl[i], mp[i], md[i] = vals[k%7], vals[k/7%7], mds[k/49]
				}
				got := trend.ComputeCCI(cl, mp, md)
				if len(got) != n {
					t.Failf("%d points give %d values", n, len(got))
				}
				for i, g := range got {
					want := 0.0
					if md[i] != 0 {
						want = (cl[i] - mp[i]) / (0.015 * md[i])
					}
					if !(math.Abs(g-want) <= 1e-9*math.Max(1, math.Abs(want))) {
						t.Failf("point %d of %d: price %g mean %g deviation %g: %g, want %g", i, n, cl[i], mp[i], md[i], g, want)
					}
				}
				t.States(1)
				if n == 0 {
					break
				}
			}
		}) {
			return
		}
	}
}

var valueAssume = []string{
	"oracle: direct O(n*period) definitions in /verif/mc/ref_*.go; agreement to 1e-9 of the column's magnitude (root of a variance: 1e-6)",
	"a comparison or quotient whose outcome is a matter of rounding is not judged (exact families use multiples of 0.75 so this is rare)",
}

func checkChandelier(t *T, h *Hist, p []float64, a *trend.Atr) {
	pers := []int{1, 3, 22}
	if len(p) > 0 && p[0] > 3 && p[0] < 65 {
		pers = append(pers, int(p[0]), int(p[0])+7)
	}
	for _, per := range pers {
		lo, sh := a.ChandelierExit(per)
		tr := rTR(h.H, h.L, h.C)
		if h.N() > 0 {
			tr[0] = h.H[0]
		}
		atr := rRma(int(p[0]), tr)
		cmpSeries(t, fmt.Sprintf("ChandelierExit(%d) long", per), lo, zip(rMax(per, h.H), atr, func(x, y float64) float64 { return x - 3*y }), h.MaxPrice(), 1e-9)
		cmpSeries(t, fmt.Sprintf("ChandelierExit(%d) short", per), sh, zip(rMin(per, h.L), atr, func(x, y float64) float64 { return x + 3*y }), h.MaxPrice(), 1e-9)
	}
}

func signalCheck(id string, shortL int, names ...string) {
	register(id, "model_checking", whatHist, func(c *Ctx) {
		c.Derived()
		c.families(inds(names...), shortL, true, func(t *T, h *Hist, d *Ind, p []float64) {
			if d.Name == "EMAVegas" {
				derived = 0 // its condition is about the rising flag
			}
			obj := d.New(h.Item(), p)
			calc(obj)
			fr := frameOf(obj)
			sd, _ := sideOf(obj)
			want := rules[d.Name](&sigCtx{h, fr, p})
			if len(sd.Data) != len(want) {
				t.Failf("%s%s gives %d signals for %d candles", d.Name, pstr(p), len(sd.Data), len(want))
			}
			for k := range want {
				if sd.Data[k] != want[k] {
					t.Failf("%s%s signal %d is %s, but the reported values say %s", d.Name, pstr(p), k, sd.Data[k], want[k])
				}
			}
		})
		if id == "C27" {
			camarillaSides(c)
		}
	}, "the documented condition is evaluated on the values the indicator itself reports (their correctness is C18 to C25)")
}

func checkSMC(t *T, h *Hist, d *Ind, p []float64) {
	obj := d.New(h.Item(), p).(*trend.SmartMoneyConcepts)
	calc(obj)
	fr := frameOf(obj)
	if fr.N != h.N() {
		t.Failf("%d records for %d candles", fr.N, h.N())
	}
	r := refSMC(h, p)
	for k, nm := range fr.Names {
		want, ok := r.cols[nm]
		if !ok {
			panic("unknown column " + nm)
		}
		if (nm == "EQH" || nm == "EQL") && r.undecEQ {
			continue
		}
		for j := range want {
			if fr.Cols[k][j] != want[j] {
				t.Failf("%s at candle %d is %v, expected %v", nm, j, fr.Cols[k][j], want[j])
			}
		}
	}
	ext := func(nm string, got trend.SmartMoneyConceptsDataStrongWeak, w smcExt) {
		if !w.set {
			if got.Value != 0 || !got.Time.IsZero() {
				t.Failf("%s is %v, expected none", nm, got)
			}
			return
		}
		if got.Value != w.v || got.Time.Unix() != w.t {
			t.Failf("%s is %v at %d, expected %v at %d", nm, got.Value, got.Time.Unix(), w.v, w.t)
		}
	}
	ext("StrongHigh", obj.StrongHigh, r.strongH)
	ext("WeakHigh", obj.WeakHigh, r.weakH)
	ext("StrongLow", obj.StrongLow, r.strongL)
	ext("WeakLow", obj.WeakLow, r.weakL)
	if r.undecidedBlocks {
		return
	}
	blocks := func(nm string, got trend.SmartMoneyConceptsDataOrderBlockList, want []smcBlock) {
		if len(got) != len(want) {
			t.Failf("%s has %d order blocks, expected %d", nm, len(got), len(want))
		}
		for k, w := range want {
			g := got[k]
			if g.IsTop != w.top || g.Time.Unix() != w.t || g.Open != w.o || g.High != w.h || g.Low != w.l || g.Close != w.c {
				t.Failf("%s order block %d is %+v, expected %+v", nm, k, g, w)
			}
		}
	}
	blocks("Bullish", obj.OrderBlockBullish, r.bull)
	blocks("Bearish", obj.OrderBlockBearish, r.bear)
}

// duplicate candle times make two candles indistinguishable in an order block
func init() {
	valueCheck("C18", 5, "Sma", "Ma", "Ema", "Dema", "Rma", "Vwma", "EMAVegas", "TraderXO", "Macd")
	valueCheck("C19", 5, "Rsi", "StochRsi", "Kdj", "Cci", "AiCoinCCI")
	valueCheck("C20", 5, "Atr", "Boll", "KeltnerChannel", "DonchianChannel", "UlcerIndex")
	valueCheck("C21", 5, "AccumulationDistribution", "ChaikinMoneyFlow", "EaseOfMovement", "ForceIndex", "MoneyFlowIndex", "NegativeVolumeIndex", "Obv", "VolumePriceTrend")
	valueCheck("C22", 5, "AbsolutePriceOscillator", "AwesomeOscillator", "Camarilla", "ChaikinOscillator", "IchimokuCloud", "PercentagePriceOscillator", "ProjectionOscillator", "StochasticOscillator", "VolumeOscillator", "WilliamsR")
	valueCheck("C23", 5, "AverageDirectionalIndex", "Vortex", "SuperTrend", "PivotPointSuperTrend", "UTBot")
	valueCheck("C25", 4, "BreakoutProbability", "ReversalSignals", "LinearRegressionCandles", "StochasticHeat")
	signalCheck("C26", 4, "Macd", "Kdj", "Rsi", "StochRsi", "Cci", "AiCoinCCI", "TraderXO", "EMAVegas", "SuperTrend", "PivotPointSuperTrend", "UTBot", "StochasticHeat")
	signalCheck("C27", 4, "Boll", "KeltnerChannel", "DonchianChannel", "AbsolutePriceOscillator", "AwesomeOscillator", "ChaikinOscillator", "PercentagePriceOscillator", "StochasticOscillator", "ProjectionOscillator", "IchimokuCloud", "WilliamsR", "MoneyFlowIndex")
	register("C24", "model_checking", whatHist, runC24, "oracle: the state machine of swings, levels and breaks in /verif/mc/ref_smc.go, compared exactly")
}

func runC24(c *Ctx) {
	c.Derived()
	d := indByName("SmartMoneyConcepts")
	L := 6
	if c.Thorough {
		L = 7
	}
	c.Bound("every candle sequence of length 0..%d over the 7-candle alphabet, swing lengths 1 to 3", L)
	c.overHists(shortHists(L, 7), []*Ind{d}, "tiny", checkSMC)
	lh := longHists(c.Thorough)
	c.Bound("%d long histories, every parameter set", len(lh))
	c.overHists(lh, []*Ind{d}, "all", checkSMC)
	c.overHists(c.giants(), []*Ind{d}, "all", checkSMC)
	c.overHists(c.jumps(2, 8, 64, 8192), []*Ind{d}, "all", checkSMC)
	c.overHists(c.scaledGallery(), []*Ind{d}, "all", checkSMC)
	dev := devHists([]int{6, 13, 0}, 36, 1)
	c.Bound("%d histories with a single deviation, small parameters", len(dev))
	c.overHists(dev, []*Ind{d}, "tiny", checkSMC)
	c.grids([]*Ind{d}, checkSMC)
	// zigzag paths: every sequence of up to m legs, each a run of `leg` candles up or down by a choice of sizes
	legs, sizes := 6, []int{-9, -4, 5, 10}
	if c.Thorough {
		legs = 9
	}
	num := 1
	for k := 0; k < legs; k++ {
		num *= len(sizes)
	}
	c.Bound("every zigzag of %d legs of 6 candles with %d leg sizes (%d histories), 2 parameter sets", legs, len(sizes), num)
	for code := 0; code < num; code++ {
		code := code
		for _, p := range [][]float64{{6, 3, 2, 1}, {10, 2, 5, 0}} {
			p := p
			mk := func() *Hist { return zigzagHist(code, legs, sizes, 0) }
			if !c.Case(func() string { return "SmartMoneyConcepts" + pstr(p) + " over " + mk().Name }, func(t *T) {
				h := mk()
				t.Steps(h.N())
				checkSMC(t, h, d, p)
			}) {
				return
			}
		}
	}
	// order blocks and equal levels need the 200-candle average true range
	legs = 5
	num = 1
	for k := 0; k < legs; k++ {
		num *= len(sizes)
	}
	c.Bound("every zigzag of %d legs after 205 candles of warm-up (order blocks, equal highs and lows), 3 parameter sets", legs)
	for code := 0; code < num; code++ {
		code := code
		for _, p := range [][]float64{{6, 3, 2, 1}, {10, 2, 9, 1}, {5, 1, 4, 1}} {
			p := p
			mk := func() *Hist { return zigzagHist(code, legs, sizes, 205) }
			if !c.Case(func() string { return "SmartMoneyConcepts" + pstr(p) + " over " + mk().Name }, func(t *T) {
				h := mk()
				t.Steps(h.N())
				checkSMC(t, h, d, p)
			}) {
				return
			}
		}
	}
}

// zigzagHist: warm candles of a triangle wave, then legs of six candles whose
// sizes are the digits of code.
func zigzagHist(code, legs int, sizes []int, warm int) *Hist {
	h := &Hist{Exact: true, Name: fmt.Sprintf("zigzag %d (%d legs after %d candles):", code, legs, warm)}
	x := 160
	prev := x
	put := func(c int) {
		w := len(h.C) % 3
		h.add(float64(prev)*unit, float64(max(c, prev)+w)*unit, float64(min(c, prev)-(2-w))*unit, float64(c)*unit, float64(8+len(h.C)%5))
		prev = c
	}
	for k := 0; k < warm; k++ {
		x = 150 + tri(k, 14, 20)
		put(x)
	}
	for l := 0; l < legs; l++ {
		s := sizes[code%len(sizes)]
		code /= len(sizes)
		h.Name += fmt.Sprintf(" %+d", s)
		for k := 0; k < 6; k++ {
			x = max(10, x+s)
			put(x)
		}
	}
	return h
}

// camarillaSides: every pair of a history and an other-interval history.
func camarillaSides(c *Ctx) {
	d := indByName("Camarilla")
	day := func(h *Hist, start, step int64) *Hist {
		g := h.clone()
		for k := range g.T {
			g.T[k] = start + int64(k)*step
		}
		return g
	}
	// the middle of a month, before a new year, before a leap day, before the end
	// of a month of 31 and one of 30 days, and the same day in two years
	starts := []int64{1699920000, 1672185600, 1709078400, 1690675200, 1719619200}
	type cfg struct {
		name        string
		step, other int64
		oStart      int64
		n, m        int
	}
	cfgs := []cfg{
		{"8-hour over daily", 8 * 3600, 86400, 0, 18, 6},
		{"8-hour over daily starting later", 8 * 3600, 86400, 2 * 86400, 18, 3},
		{"8-hour over sparse days", 8 * 3600, 2 * 86400, 0, 18, 3},
		{"8-hour over days three apart", 8 * 3600, 3 * 86400, 86400, 30, 4},
		{"8-hour over 12-hour", 8 * 3600, 12 * 3600, 0, 12, 8},
		{"8-hour over 5-hour", 8 * 3600, 5 * 3600, -3600, 12, 12},
		{"8-hour over days backwards", 8 * 3600, -86400, 5 * 86400, 18, 6},
		{"8-hour over nothing", 8 * 3600, 86400, 0, 6, 0},
		{"daily over daily last year", 86400, 86400, -365 * 86400, 6, 8},
		{"daily over the first day only", 86400, 86400, 0, 9, 1},
		{"daily over the third day only", 86400, 86400, 2 * 86400, 40, 1},
		{"daily over next month's days", 86400, 86400, 30 * 86400, 40, 30},
		{"weekly over daily", 7 * 86400, 86400, 0, 12, 60},
		{"hourly over daily", 3600, 86400, 0, 60, 3},
		{"candles backwards over daily", -8 * 3600, 86400, -4 * 86400, 18, 6},
		{"one instant over daily", 0, 86400, 0, 5, 2},
		{"yearly over yearly", 366 * 86400, 366 * 86400, 0, 5, 5},
		{"monthly over daily", 31 * 86400, 86400, 0, 14, 370},
	}
	c.Zoned(true)
	defer func() { c.zones = 0 }()
	c.Bound("Camarilla: %d pairings of intervals from %d starting days x 8 shapes x 8 other shapes (and the same shape) x 3 periods, every case against the day rule", len(cfgs), len(starts))
	for ci := range cfgs {
		for _, midnight := range starts {
			cf := cfgs[ci]
			cf.oStart += midnight
			midnight := midnight
			for a := 0; a < 8; a++ {
				for b := -1; b < 8; b++ {
					for _, per := range []float64{1, 3, 8} {
						cf, a, b, per := cf, a, b, per
						mk := func() (*Hist, *Hist) {
							h := day(mkHist(5+a, (a+b+4)%4, 0, cf.n, false), midnight, cf.step)
							o := day(mkHist(6+b, 3, 0, cf.m, false), cf.oStart, cf.other)
							if b < 0 {
								// levels just above the closes
								o = day(mkHist(5+a, 0, 0, cf.m, false), cf.oStart, cf.other)
								for j := range o.C {
									x := o.C[j]
									o.O[j], o.H[j], o.L[j] = x, x*1.001, x
								}
							}
							return h, o
						}
						if !c.Case(func() string { return fmt.Sprintf("Camarilla(%g) %s shapes %d %d", per, cf.name, a, b) }, func(t *T) {
							h, o := mk()
							t.Steps(h.N())
							obj := d.New(h.Item(), []float64{per})
							calc(obj)
							fr := frameOf(obj)
							oo := d.New(o.Item(), []float64{per})
							ofr := frameOf(oo)
							r := methodCall(obj, "AnalysisSide", reflect.ValueOf(o.Item()))
							sd := r[0].Interface().(utils.SideData)
							if len(sd.Data) != h.N() {
								t.Failf("%d signals for %d candles", len(sd.Data), h.N())
							}
							have := false
							var lvl float64
							ema, h4 := fr.Col("EMA"), ofr.Col("High4")
							for k := 0; k < h.N(); k++ {
								y, m, dd := time.Unix(h.T[k], 0).Date()
								for j := 0; j < o.N(); j++ {
									y2, m2, d2 := time.Unix(o.T[j], 0).Date()
									if y == y2 && m == m2 && dd == d2 {
										have, lvl = true, h4[j]
										break
									}
								}
								want := utils.Hold
								if have && h.C[k] < ema[k] && h.C[k] > lvl && h.O[k] < lvl {
									want = utils.Buy
								} else if have && h.C[k] > ema[k] && h.C[k] < lvl && h.O[k] > lvl {
									want = utils.Sell
								}
								if sd.Data[k] != want {
									t.Failf("signal %d is %s, expected %s (level %v, known %v)", k, sd.Data[k], want, lvl, have)
								}
							}
						}) {
							return
						}
					}
				}
			}
		}
	}
}

var _ = math.Abs
