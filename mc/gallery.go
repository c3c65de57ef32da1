package main

import (
	"fmt"
	"math"
)

// The gallery: histories made of runs, each run one candle pattern kept up for
// k candles with ordinary candles in between, so that every pattern occurs in
// every length, early and late, after every warm-up.

type bar struct{ o, h, l, c, v int }

const galleryBase = 600

// a pattern gives candle j of a run of k after candle p.
var patterns = []struct {
	name string
	next func(p bar, j, k int) bar
}{
	{"close unchanged", func(p bar, j, k int) bar { return bar{p.c + j%2, p.c + 2 + j%3, p.c - 1 - j%2, p.c, -1} }},
	{"close up", func(p bar, j, k int) bar { return bar{p.c, p.c + 2, p.c - 1, p.c + 1, -1} }},
	{"close down", func(p bar, j, k int) bar { return bar{p.c, p.c + 1, p.c - 2, p.c - 1, -1} }},
	{"open is close", func(p bar, j, k int) bar { x := p.c + j%3 - 1; return bar{x, x + 2, x - 2 - j%2, x, -1} }},
	{"same high", func(p bar, j, k int) bar { return bar{p.h - 1, p.h, p.h - 4 - j%3, p.h - 2 + j%2, -1} }},
	{"same low", func(p bar, j, k int) bar { return bar{p.l + 1, p.l + 4 + j%3, p.l, p.l + 2 - j%2, -1} }},
	{"same high and low", func(p bar, j, k int) bar {
		if j == 0 {
			return bar{p.c, p.c + 4, p.c - 4, p.c, -1}
		}
		return bar{p.c, p.h, p.l, p.l + 1 + (j*3)%7, -1}
	}},
	{"inside", func(p bar, j, k int) bar {
		if j == 0 {
			return bar{p.c, p.c + k + 2, p.c - k - 2, p.c, -1}
		}
		return bar{p.c, p.h - 1, p.l + 1, (p.h+p.l)/2 + j%2, -1}
	}},
	{"outside", func(p bar, j, k int) bar { return bar{p.c, p.h + 1, p.l - 1, p.l + (p.h-p.l)*(1+j%3)/3, -1} }},
	{"nothing moves", func(p bar, j, k int) bar { return bar{p.c, p.c, p.c, p.c, -1} }},
	{"no range, up", func(p bar, j, k int) bar { x := p.c + 1; return bar{x, x, x, x, -1} }},
	{"no range, down", func(p bar, j, k int) bar { x := p.c - 1; return bar{x, x, x, x, -1} }},
	{"close is high", func(p bar, j, k int) bar { x := p.c + 1 - j%2*2; return bar{x - 1, x, x - 3 - j%4, x, -1} }},
	{"close is low", func(p bar, j, k int) bar { x := p.c + 1 - j%2*2; return bar{x + 1, x + 3 + j%4, x, x, -1} }},
	{"no volume", func(p bar, j, k int) bar { x := p.c + j%5 - 2; return bar{p.c, max(x, p.c) + 1, min(x, p.c) - 1, x, 0} }},
	{"same volume", func(p bar, j, k int) bar {
		x := p.c + j%5 - 2
		return bar{p.c, max(x, p.c) + 1, min(x, p.c) - 1, x, max(p.v, 1)}
	}},
	{"volume up", func(p bar, j, k int) bar {
		x := p.c + j%5 - 2
		return bar{p.c, max(x, p.c) + 1, min(x, p.c) - 1, x, p.v + 1 + j%3}
	}},
	{"volume down", func(p bar, j, k int) bar {
		x := p.c + j%5 - 2
		return bar{p.c, max(x, p.c) + 1, min(x, p.c) - 1, x, 3*(k-j) - 1}
	}},
	{"gap up", func(p bar, j, k int) bar { x := p.h + 1; return bar{x, x + 1, x, x + j%2, -1} }},
	{"gap down", func(p bar, j, k int) bar { x := p.l - 1; return bar{x, x, x - 1, x - j%2, -1} }},
	{"full up", func(p bar, j, k int) bar { return bar{p.c, p.c + 2, p.c, p.c + 2, -1} }},
	{"full down", func(p bar, j, k int) bar { return bar{p.c, p.c, p.c - 2, p.c - 2, -1} }},
	{"open and close at high", func(p bar, j, k int) bar { x := p.c + j%3 - 1; return bar{x, x, x - 4, x, -1} }},
	{"open and close at low", func(p bar, j, k int) bar { x := p.c + j%3 - 1; return bar{x, x + 4, x, x, -1} }},
	{"engulfing", func(p bar, j, k int) bar {
		lo, hi := min(p.o, p.c)-1, max(p.o, p.c)+1
		if j%2 == 0 {
			lo, hi = hi, lo
		}
		return bar{lo, max(lo, hi) + 1, min(lo, hi) - 1, hi, -1}
	}},
	{"close at last high", func(p bar, j, k int) bar { return bar{p.c, p.h + 1, p.c - 1, p.h, -1} }},
	{"close at last low", func(p bar, j, k int) bar { return bar{p.c, p.c + 1, p.l - 1, p.l, -1} }},
	{"up candles, closes down", func(p bar, j, k int) bar { x := p.c - 1; return bar{x - 2, x + 1, x - 3, x, -1} }},
	{"down candles, closes up", func(p bar, j, k int) bar { x := p.c + 1; return bar{x + 2, x + 3, x - 1, x, -1} }},
	{"volume now and then", func(p bar, j, k int) bar {
		x := p.c + j%5 - 2
		return bar{p.c, max(x, p.c) + 1, min(x, p.c) - 1, x, j % 2 * 12}
	}},
	{"same candle", func(p bar, j, k int) bar {
		if j == 0 {
			return bar{p.c, p.c + 3, p.c - 2, p.c + 1, 12}
		}
		return p
	}},
	{"to and fro", func(p bar, j, k int) bar {
		x := p.c + 3 - j%2*6
		return bar{p.c, max(x, p.c), min(x, p.c), x, 12}
	}},
	{"close in the middle", func(p bar, j, k int) bar { x := p.c + j%3 - 1; return bar{x - 1, x + 2, x - 2, x, -1} }},
	{"high up, low down alike", func(p bar, j, k int) bar { return bar{p.c, p.h + 2, p.l - 2, p.c, -1} }},
	{"steep", func(p bar, j, k int) bar { x := p.c + 9; return bar{p.c + 1, x + 1, p.c, x, -1} }},
	{"plunge", func(p bar, j, k int) bar { x := p.c - 9; return bar{p.c - 1, p.c, x - 1, x, -1} }},
}

func galleryHist(k, rot, lead int) *Hist {
	h := &Hist{Exact: true, Name: fmt.Sprintf("gallery of runs of %d from pattern %d after %d", k, rot, lead)}
	g := lcg(uint64(k*131 + rot*17 + lead))
	p := bar{galleryBase, galleryBase, galleryBase, galleryBase, 9}
	put := func(b bar) {
		if b.v < 0 {
			b.v = 4 + g.next(24)
		}
		h.add(float64(b.o)*unit, float64(b.h)*unit, float64(b.l)*unit, float64(b.c)*unit, float64(b.v))
		p = b
	}
	ordinary := func() {
		x := p.c + g.next(5) - 2
		switch {
		case p.c > 2*galleryBase:
			x -= 60
		case p.c > galleryBase+150:
			x -= 4
		case p.c < galleryBase/3:
			x += 20
		case p.c < galleryBase-150:
			x += 4
		}
		put(bar{p.c, max(x, p.c) + g.next(3), min(x, p.c) - g.next(3), x, -1})
	}
	for j := 0; j < lead; j++ {
		ordinary()
	}
	for q := range patterns {
		pt := patterns[(q+rot)%len(patterns)]
		for p.c > galleryBase+4*k+100 || p.c < galleryBase-4*k-100 {
			ordinary()
		}
		for j := 0; j < k && p.c > 12; j++ {
			put(pt.next(p, j, k))
		}
		for j := 0; j < 5+(q+k)%4; j++ {
			ordinary()
		}
	}
	h.retime(k + rot)
	return h
}

// gallery of runs of ks candles; the first at the start, after 8 and after 60
// ordinary candles.
func (c *Ctx) gallery(ks ...int) []HGen {
	if len(ks) == 0 {
		ks = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 21, 30, 52}
		if c.Lite && !c.Thorough {
			ks = []int{2, 3, 5, 9, 14}
		}
		if c.Thorough {
			ks = append(ks, 11, 12, 16, 17, 20, 22, 25, 26, 27, 33, 40, 70, 100)
		}
	}
	var out []HGen
	for ki, k := range ks {
		for r, lead := range []int{1, 8, 60} {
			if c.Lite && !c.Thorough && r != ki%3 && k > 3 {
				continue
			}
			k, rot, lead := k, (12*r+ki)%len(patterns), lead
			out = append(out, HGen{func() *Hist { return galleryHist(k, rot, lead) }, len(patterns)*(k+7) + lead})
		}
	}
	c.Bound("%d gallery histories: each of %d candle patterns kept up for k candles, in up to 3 orders, k of %v", len(out), len(patterns), ks)
	return out
}

// jumps: prices, ranges and volumes that change by a factor from one candle to
// the next, stay there for a while and come back; tiny changes.
func (c *Ctx) jumps(factors ...float64) []HGen {
	var out []HGen
	for fi, f := range factors {
		for kind := 0; kind < 8; kind++ {
			for si, at := range []int{4, 33, 210} {
				for ti, stay := range []int{1, 3, 40} {
					if (fi+kind+si+ti)%3 != 0 && !c.Thorough {
						continue
					}
					f, kind, at, stay := f, kind, at, stay
					n := at + stay + 30
					out = append(out, HGen{func() *Hist {
						h := mkHist([]int{6, 13, 9}[(kind+stay)%3], kind%4, 1, n, false)
						if stay+at%2 != 1 { // volume falls where it rose
							for j := range h.V {
								h.V[j] = 40 - h.V[j]
							}
						}
						for j := at; j < at+stay; j++ {
							switch kind {
							case 0: // everything up
								h.O[j], h.H[j], h.L[j], h.C[j] = h.O[j]*f, h.H[j]*f, h.L[j]*f, h.C[j]*f
							case 1: // everything down
								h.O[j], h.H[j], h.L[j], h.C[j] = h.O[j]/f, h.H[j]/f, h.L[j]/f, h.C[j]/f
							case 2: // a wick up
								h.H[j] *= f
							case 3: // a wick down
								h.L[j] /= f
							case 4:
								h.V[j] *= f
							case 5:
								h.V[j] /= f
							case 6: // tiny change
								x := h.C[at-1] * (1 + float64(j-at+1)/(f*1024))
								h.O[j], h.H[j], h.L[j], h.C[j] = x, x, x, x
							case 7: // tiny range around an unchanged close
								x := h.C[at-1]
								h.O[j], h.H[j], h.L[j], h.C[j] = x, x*(1+1/(f*1024)), x*(1-1/(f*1024)), x
							}
						}
						h.Name += fmt.Sprintf(" with jump kind %d by %g at %d for %d", kind, f, at, stay)
						h.Exact = false
						return h
					}, n})
				}
			}
		}
	}
	c.Bound("%d histories with jumps of price, range or volume, or tiny changes, by factors %v for 1, 3 or 40 candles", len(out), factors)
	return append(out, c.mixtures()...)
}

// scaledGallery: the gallery at other orders of magnitude.
func (c *Ctx) scaledGallery() []HGen {
	var out []HGen
	for j, s := range [][2]float64{{0x1p-27, 1}, {0x1p-12, 0x1p-10}, {0x1p8, 0x1p17}, {0x1p17, 0x1p-3}, {1, 0x1p31}, {0x1p-4, 0x1p-24}} {
		for r, lead := range []int{1, 60} {
			k, rot, lead, s := 3+4*((j+r)%2), (12*r+5*j)%len(patterns), lead, s
			out = append(out, HGen{func() *Hist { return galleryHist(k, rot, lead).Scale(s[0], s[1]) }, len(patterns)*(k+7) + lead})
		}
	}
	c.Bound("%d gallery histories rescaled to prices of 3e-6 to 6e7 and volumes of 1e-7 to 5e10", len(out))
	return out
}

// value patterns: x(j) of a run of k values after value p.
var runsOf = []struct {
	name string
	next func(p, j, k int) int
}{
	{"constant", func(p, j, k int) int { return p }},
	{"up", func(p, j, k int) int { return p + 1 }},
	{"down", func(p, j, k int) int { return p - 1 }},
	{"up faster", func(p, j, k int) int { return p + 1 + j%8 }},
	{"down faster", func(p, j, k int) int { return p - 1 - j%8 }},
	{"zero", func(p, j, k int) int { return 0 }},
	{"signs change", func(p, j, k int) int { return (7 + j%3) * (1 - j%2*2) }},
	{"zero now and then", func(p, j, k int) int { return j % 2 * 9 }},
	{"below zero", func(p, j, k int) int { return -20 - j*3%7 }},
	{"two values", func(p, j, k int) int { return p + 5 - j%2*10 }},
	{"pairs", func(p, j, k int) int { return p + (j+1)%2 }},
	{"peaks alike", func(p, j, k int) int { return 30 - j%4*5 }},
	{"troughs alike", func(p, j, k int) int { return -30 + j%3*4 }},
	{"widening", func(p, j, k int) int { return (j + 1) * (1 - j%2*2) }},
	{"narrowing", func(p, j, k int) int { return (k - j) * (1 - j%2*2) }},
	{"steps", func(p, j, k int) int { return p + j%3/2*6 }},
	{"steps down", func(p, j, k int) int { return p - j%4/3*6 }},
	{"spike", func(p, j, k int) int { return 1000*(1-min(j, 1)) + j%3 }},
	{"drop", func(p, j, k int) int { return -1000*(1-min(j, 1)) + j%3 }},
	{"far", func(p, j, k int) int { return 4096 + j%5 }},
}

// gallerySeries: runs of k values of every pattern with others in between.
func (c *Ctx) gallerySeries(ks ...int) []Series {
	var out []Series
	for ki, k := range ks {
		for r := 0; r < 2; r++ {
			for oi, off := range []float64{0, 768, -4800} {
				f := []float64{0.75, 0x1p-27, 0x1p30}[(ki+r+oi)%3]
				if oi == 0 {
					f = 0.75
				}
				g := lcg(uint64(k*7 + r))
				p := 3
				var v []float64
				put := func(x int) {
					v = append(v, (float64(x)+off)*f)
					p = x
				}
				for q := range runsOf {
					for j := 0; j < k; j++ {
						put(runsOf[(q+r*9+ki)%len(runsOf)].next(p, j, k))
					}
					if p > 200 || p < -200 {
						p = 0
					}
					for j := 0; j < 3+q%4; j++ {
						put(p + g.next(7) - 3)
					}
				}
				out = append(out, Series{fmt.Sprintf("gallery of runs of %d, order %d, from %g, times %g", k, r, off, f), v})
			}
		}
	}
	c.Bound("%d gallery series: each of %d value patterns kept up for k values, 2 orders, around 0, above and below, k of %v", len(out), len(runsOf), ks)
	return out
}

// mixtures: histories in which candle after candle takes the next combination
// of a move of the price, a shape and a move of the volume.
const mixMoves, mixShapes, mixVols = 11, 10, 7

// onGrid is the nearest multiple of 3/1024: of these, sums, halves and thirds
// of three are exact, so that no tie hangs on rounding.
func onGrid(x float64) float64 { return math.Round(x*1024/3) * 3 / 1024 }

func mixtureHist(order, from, n int) *Hist {
	const num = mixMoves * mixShapes * mixVols
	h := &Hist{Name: fmt.Sprintf("mixture of moves, shapes and volumes in order %d from %d", order, from)}
	step := []int{1, 333, 101, 457}[order] // none shares a factor with the number of combinations
	o, hi, lo, c, v := 96.0, 98.0, 95.0, 97.0, 16.0
	h.add(o, hi, lo, c, v)
	for j := 0; j < n; j++ {
		x := (from + j) * step % num
		m, s, w := x%mixMoves, x/mixMoves%mixShapes, x/mixMoves/mixShapes
		if c > 4096 && m == 5 {
			m = 6
		} else if c < 4 && m == 6 {
			m = 5
		}
		y := c // the close
		switch m {
		case 1:
			y = c + c/64
		case 2:
			y = c - c/64
		case 3:
			y = hi + c/32
		case 4:
			y = lo - lo/8
		case 5:
			y = c * 16
		case 6:
			y = c / 16
		case 7:
			y = c + c*0x1p-16
		case 8:
			y = c - c*0x1p-16
		case 9:
			y = hi
		case 10:
			y = lo
		}
		if y > 1<<16 || y < 0.25 {
			y = 96
		}
		u := y / 128
		po, pc, ph, pl := o, c, hi, lo
		switch s {
		case 0:
			o, hi, lo = y, y, y
		case 1:
			o, hi, lo = y-u, y, y-u
		case 2:
			o, hi, lo = y+u, y+u, y
		case 3:
			o, hi, lo = y, y+u, y-u
		case 4:
			o, hi, lo = y, y+u, y
		case 5:
			o, hi, lo = y, y, y-u
		case 6:
			o, hi, lo = pc, max(pc, y)+u, min(pc, y)*255/256
		case 7: // engulfing
			if pc > po {
				o, y = max(pc, y)*129/128, min(po, y)*127/128
			} else {
				o, y = min(pc, y)*127/128, max(po, y)*129/128
			}
			hi, lo = max(o, y), min(o, y)
		case 8:
			o, hi, lo = y, y+y*0x1p-18, y-y*0x1p-18
		case 9: // the range of the candle before, or sixteen times
			if y <= ph && y >= pl {
				o, hi, lo = (ph+pl)/2, ph, pl
			} else {
				o, hi, lo = y, y*4, y/4
			}
		}
		o, hi, lo, y = onGrid(o), onGrid(hi), onGrid(lo), onGrid(y)
		c = y
		pv := v
		switch w {
		case 1:
			v *= 16
		case 2:
			v /= 16
		case 3:
			v = 0
		case 4:
			v++
		case 5:
			v = max(0, v-1)
		case 6:
			v = 12
		}
		if v > 1<<20 || v < 0x1p-10 && v > 0 {
			v = 16
		}
		if w < 3 && pv == 0 {
			v = float64(w) * 8
		}
		h.add(o, hi, lo, c, v)
	}
	h.retime(order + from/100)
	return h
}

func (c *Ctx) mixtures() []HGen {
	var out []HGen
	n := 192
	for order := 0; order < 4; order++ {
		for from := 0; from < mixMoves*mixShapes*mixVols; from += n {
			if c.Lite && !c.Thorough && (from/n+order)%4 != 0 {
				continue
			}
			order, from := order, from
			out = append(out, HGen{func() *Hist { return mixtureHist(order, from, n) }, n + 1})
		}
	}
	c.Bound("%d histories taking each of %d combinations of %d moves of the price, %d candle shapes and %d moves of the volume in turn, in %d orders", len(out), mixMoves*mixShapes*mixVols, mixMoves, mixShapes, mixVols, 4)
	return out
}
