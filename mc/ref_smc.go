package main

import (
	"math"
)

// Reference of the market-structure analysis, written as a state machine over
// candles: swings, structure levels, breaks, equal highs/lows, order blocks.

type smcBlock struct {
	top        bool
	t          int64
	o, h, l, c float64
}

type smcRef struct {
	cols                     map[string][]float64
	bull, bear               []smcBlock
	strongH, weakH           smcExt
	strongL, weakL           smcExt
	undecidedBlocks, undecEQ bool
}

type smcExt struct {
	set bool
	t   int64
	v   float64
}

// swing detector: the candle len places back is a top (bottom) when it is
// above (below) everything after it and the last swing was of the other kind.
type swing struct {
	len   int
	state int
}

func (s *swing) step(h *Hist, k int) (top, btm bool) {
	m := k - s.len
	if m < 0 {
		m = k
	}
	lo := max(0, k-s.len+1)
	up, dn := h.H[lo], h.L[lo]
	for j := lo; j <= k; j++ {
		up, dn = math.Max(up, h.H[j]), math.Min(dn, h.L[j])
	}
	next := s.state
	if h.H[m] > up {
		next = 0
	} else if h.L[m] < dn {
		next = 1
	}
	top, btm = next == 0 && s.state != 0, next == 1 && s.state != 1
	s.state = next
	return
}

type level struct {
	y    float64
	x    int
	live bool
}

func refSMC(h *Hist, p []float64) *smcRef {
	n := h.N()
	swingLen, conf, thr, eq := int(p[0]), int(p[1]), p[2]/10, p[3] != 0
	r := &smcRef{cols: map[string][]float64{}}
	names := []string{"HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong", "LowBOSShort", "LowChoCHShort", "LowBOSLong", "LowChoCHLong", "EQH", "EQL"}
	for _, nm := range names {
		r.cols[nm] = make([]float64, n)
	}
	atr := rAtr(h.H, h.L, h.C, 200)
	mark := func(nm string, a, b int, v float64) {
		for k := a; k <= b; k++ {
			r.cols[nm][k] = v
		}
	}
	long, short := &swing{len: swingLen}, &swing{len: 5}
	var top, btm, itop, ibtm = level{live: true}, level{live: true}, level{live: true}, level{live: true}
	trend, itrend := 0, 0
	var up, dn float64
	var upX, dnX int
	var lastIdx [2]int // fallback candle of each list's order-block search
	var eqTop, eqBtm level

	block := func(list []smcBlock, which int, top bool, from, to int) []smcBlock {
		hi, lo := 0.0, math.MaxFloat64
		idx := 1
		for k := from; k >= to; k-- {
			rg := h.H[k] - h.L[k]
			if tie(rg, 2*atr[k], h.MaxPrice()) {
				r.undecidedBlocks = true
			}
			if rg >= 2*atr[k] {
				continue
			}
			if top {
				hi = math.Max(hi, h.H[k])
				if hi == h.H[k] {
					idx = k
				} else {
					idx = lastIdx[which]
				}
			} else {
				lo = math.Min(lo, h.L[k])
				if lo == h.L[k] {
					idx = k
				} else {
					idx = lastIdx[which]
				}
			}
			lastIdx[which] = idx
		}
		b := smcBlock{top, h.T[idx], h.O[idx], h.H[idx], h.L[idx], h.C[idx]}
		for _, x := range list {
			if x.top == b.top && x.t == b.t {
				return list
			}
		}
		return append([]smcBlock{b}, list...)
	}
	prune := func(list []smcBlock, c float64) []smcBlock {
		var out []smcBlock
		for j, b := range list {
			if !b.top && c < b.c || b.top && c > b.h || j > 5 {
				continue
			}
			out = append(out, b)
		}
		return out
	}

	for k := 1; k < n; k++ {
		H, L, C, P := h.H[k], h.L[k], h.C[k], h.C[k-1]
		if up == 0 {
			up = H
		}
		if dn == 0 {
			dn = L
		}
		if k < swingLen {
			continue
		}
		lt, lb := long.step(h, k)
		st, sb := short.step(h, k)
		if lt {
			m := k - swingLen
			top = level{h.H[m], m, true}
			up, upX = h.H[m], m
		}
		if st {
			itop = level{h.H[k-5], k - 5, true}
		}
		if H >= up {
			up, upX = H, k
		}
		if lb {
			m := k - swingLen
			btm = level{h.L[m], m, true}
			dn, dnX = h.L[m], m
		}
		if sb {
			ibtm = level{h.L[k-5], k - 5, true}
		}
		if L <= dn {
			dn, dnX = L, k
		}
		over := func(y float64) bool { return C > y && P < y }
		under := func(y float64) bool { return C < y && P > y }

		if itop.live && over(itop.y) && itop.y != top.y {
			if itrend < 0 {
				mark("HighCHoCHShort", itop.x, k, itop.y)
			} else {
				mark("HighBOSShort", itop.x, k, itop.y)
			}
			itop.live, itrend = false, 1
			r.bull = block(r.bull, 0, false, k, itop.x)
		}
		if top.live && over(top.y) {
			if trend < 0 {
				mark("HighCHoCHLong", top.x, k, top.y)
			} else {
				mark("HighBOSLong", top.x, k, top.y)
			}
			top.live, trend = false, 1
			r.bear = block(r.bear, 1, false, k, top.x)
		}
		if ibtm.live && under(ibtm.y) && ibtm.y != btm.y {
			if itrend > 0 {
				mark("LowChoCHShort", ibtm.x, k, ibtm.y)
			} else {
				mark("LowBOSShort", ibtm.x, k, ibtm.y)
			}
			ibtm.live, itrend = false, -1
			r.bull = block(r.bull, 0, true, k, ibtm.x)
		}
		if btm.live && under(btm.y) {
			if trend > 0 {
				mark("LowChoCHLong", btm.x, k, btm.y)
			} else {
				mark("LowBOSLong", btm.x, k, btm.y)
			}
			btm.live, trend = false, -1
			r.bear = block(r.bear, 1, true, k, btm.x)
		}
		r.bull, r.bear = prune(r.bull, C), prune(r.bear, C)

		if eq {
			m := k - conf
			if k >= 2*conf {
				isTop, isBtm := true, true
				for j := m - conf; j <= k; j++ {
					isTop = isTop && h.H[j] <= h.H[m]
					isBtm = isBtm && h.L[j] >= h.L[m]
				}
				if isTop {
					y := h.H[m]
					d := math.Abs(y-eqTop.y) - atr[k]*thr
					if d != 0 && math.Abs(d) <= 1e-9*h.MaxPrice() {
						r.undecEQ = true
					}
					if math.Max(y, eqTop.y) < math.Min(y, eqTop.y)+atr[k]*thr {
						mark("EQH", eqTop.x, m, eqTop.y)
					}
					eqTop = level{y: y, x: m}
				}
				if isBtm {
					y := h.L[m]
					d := math.Abs(y-eqBtm.y) - atr[k]*thr
					if d != 0 && math.Abs(d) <= 1e-9*h.MaxPrice() {
						r.undecEQ = true
					}
					if math.Min(y, eqBtm.y) > math.Max(y, eqBtm.y)-atr[k]*thr {
						mark("EQL", eqBtm.x, m, eqBtm.y)
					}
					eqBtm = level{y: y, x: m}
				}
			}
		}
		if trend < 0 {
			r.strongH = smcExt{true, h.T[upX], up}
		} else {
			r.weakH = smcExt{true, h.T[upX], up}
		}
		if trend > 0 {
			r.strongL = smcExt{true, h.T[dnX], dn}
		} else {
			r.weakL = smcExt{true, h.T[dnX], dn}
		}
	}
	return r
}
