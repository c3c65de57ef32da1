package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/idoall/stockindicator/utils/klines"
)

// Hist is a candle history.  Prices of the exact families are multiples of
// 0.75, so that sums, halves, thirds and quarters of them are exact in binary
// and "no range", "no change" and "equal" mean the same in every evaluation
// order.  The decimal families are not exact.
type Hist struct {
	Name          string
	O, H, L, C, V []float64
	T             []int64
	Exact         bool
	Iv            klines.Interval // zero: one hour
	plain         bool            // candle trees, whose times are free to vary
}

func (h *Hist) N() int { return len(h.C) }

func (h *Hist) add(o, hi, l, c, v float64) {
	h.O = append(h.O, o)
	h.H = append(h.H, hi)
	h.L = append(h.L, l)
	h.C = append(h.C, c)
	h.V = append(h.V, v)
	h.T = append(h.T, t0+int64(len(h.T))*3600)
}

const t0 = 1699999200

// retime moves some histories to other times and intervals: across the epoch,
// to odd seconds, to days, to quarter hours of the year 2100, to weeks at the zone's midnight, to times
// repeated or falling.
func (h *Hist) retime(sel int) {
	start, step := int64(0), int64(0)
	switch sel % 12 {
	case 1:
		start, step, h.Iv = -5*3600, 3600, klines.OneHour
		h.Name += "/1970"
	case 2:
		start, step, h.Iv = 1700000123, 3607, klines.OneHour
		h.Name += "/odd seconds"
	case 3:
		start, step, h.Iv = 1700006400, 86400, klines.OneDay
		h.Name += "/daily"
	case 5:
		start, step, h.Iv = 4102444800-1800, 900, klines.FifteenMin
		h.Name += "/2100"
	case 7:
		start, step, h.Iv = -7*86400*40, 7*86400, klines.OneWeek
		h.Name += "/weekly"
	case 6:
		start, step, h.Iv = 1700006400000, 3600000, klines.ThousandMilliseconds
		h.Name += "/far"
	case 4:
		start, step, h.Iv = 1700000000, 1, klines.Interval(1e9)
		h.Name += "/seconds"
	case 8: // each time twice
		h.Name += "/repeated times"
		for k := range h.T {
			h.T[k] = t0 + int64(k/2)*3600
		}
		return
	case 9:
		h.Name += "/one time"
		for k := range h.T {
			h.T[k] = t0
		}
		return
	case 10:
		start, step = t0, -3600
		h.Name += "/newest first"
	default:
		return
	}
	for k := range h.T {
		h.T[k] = start + int64(k)*step
	}
}

// Item builds a fresh history for the implementation.
func (h *Hist) Item() *klines.Item {
	it := &klines.Item{Exchange: "EX", Interval: klines.OneHour, Symbol: "SYM", Code: "CODE"}
	if h.Iv != 0 {
		it.Interval, it.Exchange, it.Symbol, it.Code = h.Iv, "", "", ""
	}
	n := h.N()
	cs := make([]klines.Candle, n+2)
	it.Candles = make([]*klines.Candle, n, n+2) // part of a longer history
	for k := 0; k < 2; k++ {
		cs[n+k] = klines.Candle{Open: 7e5, High: 9e5, Low: 1e-3, Close: 8e5, Volume: 6e7, TimeUnix: 4102444800 + int64(k)}
		it.Candles[:n+2][n+k] = &cs[n+k]
	}
	for k := 0; k < n; k++ {
		cs[k] = klines.Candle{
			Amount: h.C[k] * h.V[k], Count: int64(k%7 + 1),
			Open: h.O[k], High: h.H[k], Low: h.L[k], Close: h.C[k], Volume: h.V[k],
			ChangePercent: (h.C[k] - h.O[k]) / h.O[k], IsBullMarket: h.C[k] > h.O[k], TimeUnix: h.T[k],
		}
		switch c := &cs[k]; derived {
		case 1:
			c.Amount, c.Count, c.ChangePercent, c.IsBullMarket = 0, 0, 0, false
		case 2:
			c.Amount, c.Count, c.ChangePercent, c.IsBullMarket = float64(k%11)*1000-3000, int64(k%5)-1, float64(k%3)-1, (k*k/3)%2 == 0
		}
		it.Candles[k] = &cs[k]
	}
	return it
}

// cols gives the columns of a history as parts of longer columns.
func cols(it *klines.Item) *klines.OHLC {
	o := it.GetOHLC()
	for _, c := range []*[]float64{&o.Open, &o.High, &o.Low, &o.Close, &o.Volume} {
		n := len(*c)
		*c = append(append(make([]float64, 0, n+2), *c...), -7e5, 9e5)[:n]
	}
	n := len(o.TimeUnix)
	o.TimeUnix = append(append(make([]int64, 0, n+1), o.TimeUnix...), 4102444800)[:n]
	return o
}

func (h *Hist) Prefix(n int) *Hist {
	return &Hist{Name: fmt.Sprintf("%s[:%d]", h.Name, n), O: h.O[:n], H: h.H[:n], L: h.L[:n], C: h.C[:n], V: h.V[:n], T: h.T[:n], Exact: h.Exact, Iv: h.Iv}
}

func (h *Hist) clone() *Hist {
	c := func(a []float64) []float64 { return append([]float64(nil), a...) }
	return &Hist{Name: h.Name, O: c(h.O), H: c(h.H), L: c(h.L), C: c(h.C), V: c(h.V), T: append([]int64(nil), h.T...), Exact: h.Exact, Iv: h.Iv}
}

// Scale multiplies prices by p and volumes by v.
func (h *Hist) Scale(p, v float64) *Hist {
	g := h.clone()
	g.Name = fmt.Sprintf("%s price*%g volume*%g", h.Name, p, v)
	for k := range g.C {
		g.O[k] *= p
		g.H[k] *= p
		g.L[k] *= p
		g.C[k] *= p
		g.V[k] *= v
	}
	fp, _ := math.Frexp(p)
	fv, _ := math.Frexp(v)
	g.Exact = h.Exact && fp == 0.5 && fv == 0.5
	return g
}

func (h *Hist) MaxPrice() float64 {
	m := 0.0
	for _, x := range h.H {
		m = math.Max(m, x)
	}
	return m
}

func (h *Hist) MaxVol() float64 {
	m := 0.0
	for _, x := range h.V {
		m = math.Max(m, x)
	}
	return m
}

func (h *Hist) Desc() string {
	if h.N() == 0 {
		return h.Name + " {no candles}"
	}
	if h.N() <= 8 {
		var b strings.Builder
		b.WriteString(h.Name + " {O,H,L,C,V:")
		for k := range h.C {
			fmt.Fprintf(&b, " %g,%g,%g,%g,%g", h.O[k], h.H[k], h.L[k], h.C[k], h.V[k])
		}
		b.WriteString("}")
		return b.String()
	}
	return fmt.Sprintf("%s (%d candles)", h.Name, h.N())
}

// ------------------------------------------------------- short histories

var alphabet = []struct {
	n             byte
	o, h, l, c, v float64
}{
	{'a', 48, 48, 48, 48, 8},
	{'b', 48, 54, 46.5, 52.5, 16},
	{'c', 52.5, 54, 42, 43.5, 4},
	{'d', 48, 60, 36, 48, 32},
	{'e', 60, 60, 60, 60, 0},
	{'f', 84, 90, 81, 87, 8},
	{'g', 24, 27, 21, 22.5, 64},
}

func shortHist(code, l, k int) *Hist {
	h := &Hist{Exact: true}
	nm := make([]byte, l)
	div := 1
	for j := 1; j < l; j++ {
		div *= k
	}
	for j := 0; j < l; j++ {
		a := alphabet[code/div%k]
		div = max(1, div/k)
		if j == l-1 {
			a = alphabet[code%k]
		}
		nm[j] = a.n
		h.add(a.o, a.h, a.l, a.c, a.v)
	}
	h.Name, h.plain = "short:"+string(nm), true
	return h
}

// HGen is a lazily built history.
type HGen struct {
	get func() *Hist
	n   int
}

// shortHists: every sequence of length 0..L over the first k letters.
func shortHists(L, k int) []HGen {
	var out []HGen
	num := 1
	for l := 0; l <= L; l++ {
		for code := 0; code < num; code++ {
			code, l := code, l
			out = append(out, HGen{func() *Hist { return shortHist(code, l, k) }, l})
		}
		num *= k
	}
	return out
}

// letter is one candle of an alphabet.
type letter struct{ o, h, l, c, v float64 }

// treeHists: every sequence of length lo..hi over an alphabet.
func treeHists(name string, abc []letter, lo, hi int) []HGen {
	var out []HGen
	num := 1
	for l := 0; l <= hi; l++ {
		if l >= lo {
			for code := 0; code < num; code++ {
				code, l := code, l
				out = append(out, HGen{func() *Hist {
					h := &Hist{Exact: true, plain: true}
					x := code
					for j := 0; j < l; j++ {
						a := abc[x%len(abc)]
						x /= len(abc)
						h.add(a.o, a.h, a.l, a.c, a.v)
					}
					h.Name = fmt.Sprintf("%s:%d/%d", name, l, code)
					return h
				}, l})
			}
		}
		num *= len(abc)
	}
	return out
}

// deepHists: trees over other alphabets: longer sequences of fewer candles, and
// short ones of every possible candle over three price levels.
func (c *Ctx) deepHists(more int) []HGen {
	if c.Thorough {
		more++
	}
	var three, every, prices []letter
	for _, x := range []float64{24, 48, 60} {
		three = append(three, letter{x, x, x, x, x / 6})
	}
	lv := []float64{36, 48, 54}
	for l := 0; l < 3; l++ {
		for h := l; h < 3; h++ {
			for o := l; o <= h; o++ {
				for cl := l; cl <= h; cl++ {
					every = append(every, letter{lv[o], lv[h], lv[l], lv[cl], float64(8 * (o + 1))})
				}
			}
		}
	}
	for _, x := range []float64{36, 48} {
		for _, v := range []float64{0, 8, 12} {
			prices = append(prices, letter{x, x + 12, x - 12, x + v*3/4, v})
		}
	}
	two := []letter{{48, 54, 46.5, 52.5, 8}, {52.5, 54, 42, 43.5, 16}}
	gap := []letter{{48, 49.5, 46.5, 48, 8}, {96, 97.5, 93, 96, 8}}
	c.Bound("deeper trees: every sequence of %d price levels without range to length %d; of two candles to length %d (twice); of two prices and three volumes to length %d; of all %d candles over 3 price levels to length %d; every small parameter set", len(three), 6+more, 9+more, 3+more, len(every), 2+more/2)
	var out []HGen
	out = append(out, treeHists("levels", three, 3, 6+more)...)
	out = append(out, treeHists("two", two, 4, 9+more)...)
	out = append(out, treeHists("gap", gap, 4, 9+more)...)
	out = append(out, treeHists("volumes", prices, 2, 3+more)...)
	out = append(out, treeHists("every", every, 1, 2+more/2)...)
	return out
}

// giants: histories far longer than any default period.
func (c *Ctx) giants() []HGen {
	out := []HGen{genHist(9, 0, 3, 1100, false), genHist(13, 3, 1, 2100, true)}
	out = append(out, c.gallery()...)
	if c.Thorough {
		out = append(out, genHist(7, 2, 3, 4200, false), genHist(11, 1, 4, 1500, false), genHist(6, 3, 2, 10050, false))
	}
	c.Bound("these and 2 to 5 histories of 1100 to %d candles, every parameter set", map[bool]int{false: 2100, true: 10050}[c.Thorough])
	return out
}

// huge: one history beyond any plausible block or buffer size.
func huge(n int) []HGen { return []HGen{genHist(6, 3, 2, n, false)} }

// Indicators whose calculation takes time quadratic in the history.
var quadratic = []string{"Vwma", "ChaikinMoneyFlow", "Vortex", "StochasticHeat", "Camarilla"}

// overHuge runs f over the huge history with the default parameters.
func (c *Ctx) overHuge(is []*Ind, n int, f func(t *T, h *Hist, d *Ind, p []float64)) {
	c.Bound("a history of %d candles (%v: 10050), default parameters", n, quadratic)
	c.overHists(huge(n), without(is, quadratic...), "def", f)
	c.overHists(huge(10050), only(is, quadratic...), "def", f)
}

// -------------------------------------------------------- long histories

type lcg uint64

func (r *lcg) next(n int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int(uint64(*r)>>33) % n
}

type base struct {
	name string
	path func(n int) []int
}

func fn(g func(k int) int) func(int) []int {
	return func(n int) []int {
		r := make([]int, n)
		for k := range r {
			r[k] = g(k)
		}
		return r
	}
}

func walk(seed uint64, step, lo, hi int) func(int) []int {
	return func(n int) []int {
		g := lcg(seed)
		r := make([]int, n)
		x := (lo + hi) / 2
		for k := range r {
			r[k] = x
			x += g.next(2*step+1) - step
			if x < lo {
				x = 2*lo - x
			}
			if x > hi {
				x = 2*hi - x
			}
		}
		return r
	}
}

func tri(k, period, amp int) int {
	p := k % period
	if p > period/2 {
		p = period - p
	}
	return p * amp * 2 / period
}

var bases = []base{
	{"flat", fn(func(k int) int { return 64 })},
	{"up", fn(func(k int) int { return 40 + k })},
	{"down", fn(func(k int) int { return 860 - k })},
	{"zigzag", fn(func(k int) int { return 64 + k%2*4 })},
	{"saw", fn(func(k int) int { return 60 + k%7*3 })},
	{"steps", fn(func(k int) int { return 60 + 8*(k/9%4) })},
	{"walk1", walk(1, 3, 24, 200)},
	{"walk2", walk(2, 5, 24, 260)},
	{"walk3", walk(3, 1, 50, 80)},
	{"swings", walk(4, 14, 30, 400)},
	{"growth", fn(func(k int) int { return int(32*math.Pow(1.011, float64(min(k, 1200)))) + 1000*max(0, k-1200) })},
	{"crash", fn(func(k int) int {
		if k%60 < 40 {
			return 100 + k%60*4
		}
		return max(20, 260-(k%60-39)*30)
	})},
	{"plateau", fn(func(k int) int {
		switch k % 100 / 20 {
		case 0:
			return 60 + k%20
		case 1, 2:
			return 80
		case 3:
			return 80 - k%20
		}
		return 60
	})},
	{"waves12", fn(func(k int) int { return 80 + tri(k, 12, 24) + k/6 })},
	{"waves40", fn(func(k int) int { return 80 + tri(k, 40, 60) + k%3 })},
	{"pulse", fn(func(k int) int {
		if k%25 == 12 {
			return 120
		}
		return 64
	})},
}

var dresses = []string{"plain", "doji", "gaps", "wide"}
var vols = []string{"const", "ramp", "zeros", "random", "none"}

const unit = 0.75

func mkHist(bi int, dress, vol int, n int, irregular bool) *Hist {
	b := bases[bi]
	p := b.path(n)
	h := &Hist{Exact: true, Name: fmt.Sprintf("%s/%s/%s", b.name, dresses[dress], vols[vol])}
	g := lcg(uint64(bi*31 + dress*7 + vol))
	wick := []int{0, 1, 2, 1, 3, 0, 2}
	for k := 0; k < n; k++ {
		c := p[k]
		o := c
		if k > 0 {
			o = p[k-1]
		}
		var hi, lo int
		switch dress {
		case 0:
			hi, lo = max(o, c)+wick[k%7], min(o, c)-wick[(k+3)%5]
		case 1:
			o, hi, lo = c, c, c
		case 2:
			if k%5 == 3 {
				o = max(8, c+3)
			} else if k%5 == 1 {
				o = max(8, c-3)
			} else {
				o = c
			}
			hi, lo = max(o, c)+k%2, min(o, c)-(k+1)%2
		case 3:
			o = c + 1 - k%3
			hi, lo = max(o, c)+k*7%5, min(o, c)-k*5%4
		}
		var v float64
		switch vol {
		case 0:
			v = 16
		case 1:
			v = float64(4 + k%32)
		case 2:
			if k/10%3 == 1 || k%4 == 1 {
				v = 0
			} else {
				v = float64(8 * (1 + k%5))
			}
		case 3:
			v = float64(g.next(64))
		}
		h.add(float64(o)*unit, float64(hi)*unit, float64(max(1, lo))*unit, float64(c)*unit, v)
	}
	if irregular {
		h.Name += "/irregular"
		t := int64(t0)
		for k := range h.T {
			h.T[k] = t
			t += int64(60 * (k*k%7 + 1))
			if k%13 == 5 {
				t += 5 * 86400
			}
		}
	} else {
		h.retime(bi + 3*dress + vol)
	}
	return h
}

func genHist(bi, dress, vol, n int, irr bool) HGen {
	return HGen{func() *Hist { return mkHist(bi, dress, vol, n, irr) }, n}
}

var lengths = []int{0, 1, 2, 3, 4, 5, 7, 9, 10, 13, 14, 15, 16, 20, 21, 27, 30, 31, 35, 61}

// longHists: all bases, dressings and volume profiles at 140 candles (each
// base x dressing, with the volume profile rotating), all bases at many
// lengths around the default periods, and some at 420 candles (beyond every
// default period).
func longHists(thorough bool) []HGen {
	var out []HGen
	for _, n := range lengths {
		for bi := range bases {
			if n < 2 && bi > 0 {
				continue
			}
			out = append(out, genHist(bi, (bi+n)%4, (bi+n/2)%5, n, (bi+n)%3 == 0))
		}
	}
	for bi := range bases {
		for d := range dresses {
			if thorough {
				for v := range vols {
					out = append(out, genHist(bi, d, v, 140, (bi+d+v)%3 == 0))
				}
			} else {
				out = append(out, genHist(bi, d, (bi+d)%5, 140, (bi+d)%3 == 0))
			}
		}
	}
	for bi := range bases {
		if !thorough && bi%3 != 0 {
			continue
		}
		out = append(out, genHist(bi, bi%4, bi%4, 300, false))
	}
	if thorough {
		for bi := range bases {
			out = append(out, genHist(bi, (bi+1)%4, (bi+1)%4, 760, bi%2 == 0))
		}
	}
	return out
}

// decHists: inexact decimals, well-conditioned (no flat stretches, volume
// always traded).
func decHists(n int) []HGen {
	var out []HGen
	for _, bi := range []int{6, 7, 9, 13} {
		for d := 0; d < 4; d += 3 {
			bi, d := bi, d
			out = append(out, HGen{func() *Hist {
				h := mkHist(bi, d, 1, n, false)
				for k := range h.C {
					r := func(x float64) float64 { return math.Round(x*137) / 100 }
					h.O[k], h.H[k], h.L[k], h.C[k] = r(h.O[k]), r(h.H[k]), r(h.L[k]), r(h.C[k])
					h.V[k] = math.Round(h.V[k]*11.3) / 10
				}
				h.Name = "decimal " + h.Name
				h.Exact = false
				return h
			}, n})
		}
	}
	return out
}

// quietHists: decimal prices, then a stretch in which every candle is the last
// close (with or without volume, after a spike or not), then prices again:
// what a running sum leaves behind shows where nothing moves.
func quietHists(thorough bool) []HGen {
	var out []HGen
	lens := []int{1, 2, 3, 5, 9, 15, 32, 70}
	starts := []int{6, 23, 41}
	if thorough {
		lens = append(lens, 4, 7, 12, 21, 27, 55, 130)
		starts = append(starts, 3, 14, 60)
	}
	for qi, q := range lens {
		for si, st := range starts {
			for v := 0; v < 4; v++ {
				bi, q, st, v, d := []int{6, 7, 9, 13}[(qi+si+v)%4], q, st, v, (qi+si)%2*3
				n := st + q + 20
				out = append(out, HGen{func() *Hist {
					h := mkHist(bi, d, 1, n, false)
					for k := range h.C {
						m := 137.0
						if v&1 == 1 && k == st-2 {
							m = 137137
						}
						r := func(x float64) float64 { return math.Round(x*m) / 100 }
						h.O[k], h.H[k], h.L[k], h.C[k] = r(h.O[k]), r(h.H[k]), r(h.L[k]), r(h.C[k])
						h.V[k] = math.Round(h.V[k]*11.3) / 10
					}
					for k := st; k < st+q; k++ {
						x := h.C[st-1]
						h.O[k], h.H[k], h.L[k], h.C[k] = x, x, x, x
						if v&2 == 2 {
							h.V[k] = 0
						}
					}
					h.Name = fmt.Sprintf("decimal %s, nothing moves from %d for %d candles, variant %d,", h.Name, st, q, v)
					h.Exact = false
					return h
				}, n})
			}
		}
	}
	return out
}

// devKinds: single deviations applied at every position of a base history.
var devKinds = []string{"spike up", "spike down", "shift up", "shift down", "flat run", "no volume", "doji", "wide", "copy", "gap close", "volume burst"}

func deviate(h *Hist, kind, p int) *Hist {
	g := h.clone()
	g.Name = fmt.Sprintf("%s with %s at %d", h.Name, devKinds[kind], p)
	n := g.N()
	mul := func(k int, d float64) {
		g.O[k] = math.Max(unit, g.O[k]+d)
		g.H[k] = math.Max(unit, g.H[k]+d)
		g.L[k] = math.Max(unit, g.L[k]+d)
		g.C[k] = math.Max(unit, g.C[k]+d)
	}
	switch kind {
	case 0:
		mul(p, 30)
	case 1:
		mul(p, -24)
	case 2:
		for k := p; k < n; k++ {
			mul(k, 24)
		}
	case 3:
		for k := p; k < n; k++ {
			mul(k, -18)
		}
	case 4:
		for k := p; k < n && k < p+6; k++ {
			g.O[k], g.H[k], g.L[k], g.C[k] = g.C[p], g.C[p], g.C[p], g.C[p]
		}
	case 5:
		for k := p; k < n && k < p+4; k++ {
			g.V[k] = 0
		}
	case 6:
		g.O[p], g.H[p], g.L[p] = g.C[p], g.C[p], g.C[p]
	case 7:
		g.H[p] += 12
		g.L[p] = math.Max(unit, g.L[p]-12)
	case 8:
		if p > 0 {
			g.O[p], g.H[p], g.L[p], g.C[p], g.V[p] = g.O[p-1], g.H[p-1], g.L[p-1], g.C[p-1], g.V[p-1]
		}
	case 9:
		g.C[p] = g.H[p]
		g.O[p] = g.L[p]
	case 10:
		g.V[p] += 1024
	}
	return g
}

func devHists(bis []int, n int, step int) []HGen {
	var out []HGen
	for _, bi := range bis {
		for p := 0; p < n; p += step {
			for k := range devKinds {
				bi, p, k := bi, p, k
				out = append(out, HGen{func() *Hist { return deviate(mkHist(bi, 0, 1, n, false), k, p) }, n})
			}
		}
	}
	return out
}

// dev2Hists: every pair of positions of two deviations.
func dev2Hists(bi, n int, kinds []int) []HGen {
	var out []HGen
	for p := 0; p < n; p++ {
		for q := p + 1; q < n; q++ {
			for _, k1 := range kinds {
				for _, k2 := range kinds {
					p, q, k1, k2 := p, q, k1, k2
					out = append(out, HGen{func() *Hist { return deviate(deviate(mkHist(bi, 0, 1, n, false), k1, p), k2, q) }, n})
				}
			}
		}
	}
	return out
}

func pstr(p []float64) string {
	var b []string
	for _, x := range p {
		b = append(b, fmt.Sprintf("%g", x))
	}
	return "(" + strings.Join(b, ",") + ")"
}

// gridParams: every single period up to a bound, every combination of small
// parameters (equal, rising and falling) for those with more.
func gridParams(d *Ind, thorough bool, axis ...[]float64) [][]float64 {
	n := len(d.Def)
	if n == 0 {
		return [][]float64{{}}
	}
	var ints []float64
	switch {
	case n == 1:
		top := 64
		if thorough {
			top = 130
		}
		for k := 1; k <= top; k++ {
			ints = append(ints, float64(k))
		}
	case n == 2:
		ints = []float64{1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 33}
		if thorough {
			ints = append(ints, 8, 10, 14, 26, 60, 91)
		}
	case n == 3:
		ints = []float64{1, 2, 3, 5, 9, 21}
		if thorough {
			ints = []float64{1, 2, 3, 4, 5, 7, 9, 14, 26, 40}
		}
	default:
		ints = []float64{1, 2, 4}
		if thorough {
			ints = []float64{1, 2, 4, 9}
		}
	}
	vals := make([][]float64, n)
	for k := range vals {
		vals[k] = ints
	}
	switch d.Name {
	case "Rsi":
		vals[0] = ints[1:]
	case "ProjectionOscillator":
		vals[0] = ints[1:]
	case "Boll":
		vals[1] = []float64{1, 2, 3, 7}
	case "StochRsi":
		vals[2] = []float64{2, 3, 7}
	case "SuperTrend":
		vals[1] = []float64{1, 2, 3, 5}
		vals[2] = []float64{0, 1}
	case "LinearRegressionCandles":
		vals[1] = ints[1:]
		vals[2] = []float64{0, 1}
	case "PivotPointSuperTrend":
		vals[0] = []float64{1, 2, 3, 5}
		vals[2] = []float64{0.25, 1, 2.8}
	case "UTBot":
		vals[0] = []float64{1, 2, 3, 5}
	case "SmartMoneyConcepts":
		vals[0] = []float64{2, 3, 5, 9}
		vals[1] = []float64{1, 3}
		vals[2] = []float64{1, 5}
		vals[3] = []float64{0, 1}
	case "BreakoutProbability":
		vals[0] = []float64{0.25, 1, 2, 10}
		vals[1] = []float64{1, 2, 3, 4, 5, 6, 50}
	case "StochasticHeat":
		vals[0] = []float64{1, 3}
		vals[1] = []float64{1, 2, 5}
		vals[2] = []float64{1, 3}
		vals[3] = []float64{25, 28}
		vals[4] = []float64{0, 2, 4, 8}
	}
	if len(axis) > 0 {
		return axisParams(d, vals, axis[0])
	}
	out := [][]float64{{}}
	for k := range vals {
		var next [][]float64
		for _, o := range out {
			for _, v := range vals[k] {
				next = append(next, append(append([]float64{}, o...), v))
			}
		}
		out = next
	}
	return out
}

// axisParams: the defaults with one period or factor replaced by each value.
func axisParams(d *Ind, vals [][]float64, axis []float64) [][]float64 {
	var out [][]float64
	if d.Name == "BreakoutProbability" || d.Name == "StochasticHeat" {
		return nil
	}
	for k, vs := range vals {
		if vs[0] != math.Trunc(vs[0]) || vs[len(vs)-1] == 1 {
			continue // fractions and switches
		}
		for _, x := range axis {
			if x >= vs[0] && x != d.Def[k] {
				p := append([]float64{}, d.Def...)
				p[k] = x
				out = append(out, p)
			}
		}
	}
	return out
}

// axisValues: every period to 40 and the common longer ones.
func axisValues(thorough bool) []float64 {
	var out []float64
	top := 40
	if thorough {
		top = 130
	}
	for k := 1; k <= top; k++ {
		out = append(out, float64(k))
	}
	for _, k := range []float64{42, 50, 52, 55, 60, 64, 65, 77, 89, 90, 99, 100, 120, 127, 128, 129, 144, 150, 169, 180, 200, 233, 250, 255, 256, 257, 300} {
		if k > float64(top) {
			out = append(out, k)
		}
	}
	return out
}

// gridHists: the histories every parameter combination is tried on.
func gridHists(thorough bool) []HGen {
	out := []HGen{genHist(7, 2, 3, 92, true), genHist(14, 0, 2, 75, false), genHist(6, 3, 1, 40, false)}
	if thorough {
		out = append(out, genHist(9, 0, 3, 140, false), genHist(0, 0, 0, 92, false), genHist(11, 1, 4, 92, false), genHist(8, 2, 2, 200, false))
	}
	return out
}

// grids runs f for every combination of parameters.
func (c *Ctx) grids(is []*Ind, f func(t *T, h *Hist, d *Ind, p []float64)) {
	gh := gridHists(c.Thorough)
	num := 0
	for _, d := range is {
		num += len(gridParams(d, c.Thorough))
	}
	c.Bound("%d parameter sets (every single period to %d; every combination of small values, equal, rising and falling, of several) over %d histories", num, map[bool]int{false: 64, true: 130}[c.Thorough], len(gh))
	c.overHists(gh, is, "grid", f)
	ax := []HGen{genHist(13, 3, 1, 330, false), {func() *Hist { return galleryHist(3, 11, 9) }, 0}}
	c.Bound("the defaults with one period or factor replaced by each of %v, over a history of 330 candles and a gallery of 369", axisValues(c.Thorough))
	c.overHists(ax, is, "axis", f)
}

// overHists runs f for every history x indicator x parameter set.  kind selects
// which parameter sets: "tiny" for the short histories, "all" otherwise.
func (c *Ctx) overHists(hs []HGen, inds []*Ind, kind string, f func(t *T, h *Hist, d *Ind, p []float64)) {
	for hi := range hs {
		g := hs[hi]
		var h *Hist
		get := func() *Hist {
			if h == nil {
				if h = g.get(); h.plain && hi%2 == 1 {
					h.retime(hi / 2)
				}
			}
			return h
		}
		for _, d := range inds {
			var ps [][]float64
			switch kind {
			case "tiny":
				ps = d.Tiny
			case "grid":
				ps = gridParams(d, c.Thorough)
			case "axis":
				ps = gridParams(d, c.Thorough, axisValues(c.Thorough))
			case "def":
				ps = [][]float64{d.Def}
			case "small":
				ps = append([][]float64{d.Def}, d.Tiny...)
			default:
				ps = d.AllParams()
			}
			for pi, p := range ps {
				if d.Heavy >= 20 && kind == "all" && g.n > 200 && pi > 2 || d.Name == "SmartMoneyConcepts" && g.n > 1200 && p[3] != 0 && c.ID != "C24" && c.ID != "C29" {
					continue
				}
				d, p := d, p
				ok := c.Case(func() string { return d.Name + pstr(p) + " over " + get().Desc() }, func(t *T) {
					hh := get()
					t.Steps(hh.N())
					if kind != "tiny" {
						t.States(int64(hh.N()))
					}
					f(t, hh, d, p)
				})
				if !ok {
					return
				}
			}
		}
	}
}
