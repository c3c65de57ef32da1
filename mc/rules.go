package main

import (
	"github.com/idoall/stockindicator/utils"
)

// Signal rules: the documented condition over the reported columns and the
// closes.  They are evaluated on what the indicator itself reports, so that
// they are exact.

type sigCtx struct {
	h  *Hist
	fr *Frame
	p  []float64
}

func (s *sigCtx) col(n string) []float64 {
	c := s.fr.Col(n)
	if c == nil && s.fr.N > 0 {
		panic("no column " + n)
	}
	return c
}

type ruleFn func(s *sigCtx) []utils.Side

var rules = map[string]ruleFn{}

// from builds a rule that holds before candle `start` and otherwise asks.
func from(start func(s *sigCtx) int, prep func(s *sigCtx) func(k int) (buy, sell bool)) ruleFn {
	return func(s *sigCtx) []utils.Side {
		n := s.h.N()
		out := make([]utils.Side, n)
		g := prep(s)
		for k := range out {
			out[k] = utils.Hold
			if k < start(s) || k < 1 {
				continue
			}
			b, sl := g(k)
			if b {
				out[k] = utils.Buy
			} else if sl {
				out[k] = utils.Sell
			}
		}
		return out
	}
}

func at1(s *sigCtx) int { return 1 }

// cross: a crosses b.
func cross(a, b string) ruleFn {
	return from(at1, func(s *sigCtx) func(int) (bool, bool) {
		x, y := s.col(a), s.col(b)
		return func(k int) (bool, bool) {
			return x[k] > y[k] && x[k-1] < y[k-1], x[k] < y[k] && x[k-1] > y[k-1]
		}
	})
}

// crossZero: a crosses zero.
func crossZero(a string) ruleFn {
	return from(at1, func(s *sigCtx) func(int) (bool, bool) {
		x := s.col(a)
		return func(k int) (bool, bool) { return x[k] > 0 && x[k-1] < 0, x[k] < 0 && x[k-1] > 0 }
	})
}

// priceCross: buy when the close passes `up` from below, sell when it passes `dn` from above.
func priceCross(up, dn string) ruleFn {
	return from(at1, func(s *sigCtx) func(int) (bool, bool) {
		u, d, c := s.col(up), s.col(dn), s.h.C
		return func(k int) (bool, bool) { return c[k] > u[k] && c[k-1] < u[k-1], c[k] < d[k] && c[k-1] > d[k-1] }
	})
}

func init() {
	dn := func(x []float64, k int, v float64) bool { return x[k] < v && x[k-1] > v }
	up := func(x []float64, k int, v float64) bool { return x[k] > v && x[k-1] < v }
	level := func(f func(x []float64, k int) (bool, bool)) ruleFn {
		return from(at1, func(s *sigCtx) func(int) (bool, bool) {
			x := s.col("Value")
			return func(k int) (bool, bool) { return f(x, k) }
		})
	}
	begin := from(at1, func(s *sigCtx) func(int) (bool, bool) {
		u, d := s.col("UpTrendBegin"), s.col("DownTrendBegin")
		return func(k int) (bool, bool) { return u[k] != 0, d[k] != 0 }
	})

	// C26
	rules["Macd"] = from(at1, func(s *sigCtx) func(int) (bool, bool) {
		f, e := s.col("DIF"), s.col("DEA")
		return func(k int) (bool, bool) {
			return f[k] > 0 && e[k] > 0 && f[k] > e[k] && f[k-1] < e[k-1], f[k] < 0 && e[k] < 0 && f[k] < e[k] && f[k-1] > e[k-1]
		}
	})
	rules["Kdj"] = from(at1, func(s *sigCtx) func(int) (bool, bool) {
		K, D, J := s.col("K"), s.col("D"), s.col("J")
		return func(k int) (bool, bool) {
			return K[k] > D[k] && J[k] > D[k] && K[k-1] < D[k-1] && J[k-1] < D[k-1], K[k] < D[k] && J[k] < D[k] && K[k-1] > D[k-1] && J[k-1] > D[k-1]
		}
	})
	rules["Rsi"] = level(func(x []float64, k int) (bool, bool) { return dn(x, k, 20), dn(x, k, 80) })
	rules["StochRsi"] = cross("K", "D")
	rules["Cci"] = level(func(x []float64, k int) (bool, bool) { return dn(x, k, -100), up(x, k, 100) })
	rules["AiCoinCCI"] = rules["Cci"]
	rules["TraderXO"] = func(s *sigCtx) []utils.Side {
		f, sl := s.col("Fast"), s.col("Slow")
		out := make([]utils.Side, s.h.N())
		// buy at the first candle whose fast average is above the slow one
		// since the last time it was below (sell: mirrored)
		last := 0
		for k := range out {
			out[k] = utils.Hold
			if k < 1 {
				continue
			}
			if f[k] > sl[k] {
				if last != 1 {
					out[k] = utils.Buy
				}
				last = 1
			} else if f[k] < sl[k] {
				if last != -1 {
					out[k] = utils.Sell
				}
				last = -1
			}
		}
		return out
	}
	rules["EMAVegas"] = from(func(s *sigCtx) int { return 11 }, func(s *sigCtx) func(int) (bool, bool) {
		v, s1, s2, l1, l2 := s.col("Value"), s.col("Short1Value"), s.col("Short2Value"), s.col("Long1Value"), s.col("Long2Value")
		return func(k int) (bool, bool) {
			golden, dead := false, false
			for j := k - 10; j < k; j++ {
				golden = golden || s2[j] > l2[j] && s2[j-1] < l2[j-1]
				dead = dead || s2[j] < l2[j] && s2[j-1] > l2[j-1]
			}
			bull := s.h.C[k] > s.h.O[k]
			return v[k] > s1[k] && s1[k] > l1[k] && s1[k] > l2[k] && s2[k] > l1[k] && s2[k] > l2[k] && bull && golden,
				v[k] < s1[k] && s1[k] < l1[k] && s1[k] < l2[k] && s2[k] < l1[k] && s2[k] < l2[k] && !bull && dead
		}
	})
	rules["SuperTrend"] = begin
	rules["PivotPointSuperTrend"] = begin
	rules["UTBot"] = cross("Close", "Value")
	rules["StochasticHeat"] = cross("Slow", "Fast")

	// C27
	rules["Boll"] = priceCross("Upper", "Lower")
	rules["KeltnerChannel"] = priceCross("Middle", "Middle")
	rules["DonchianChannel"] = priceCross("Middle", "Middle")
	rules["AbsolutePriceOscillator"] = crossZero("Value")
	rules["AwesomeOscillator"] = crossZero("Value")
	rules["ChaikinOscillator"] = crossZero("Value")
	rules["PercentagePriceOscillator"] = cross("PPO", "Signal")
	rules["StochasticOscillator"] = cross("K", "D")
	rules["ProjectionOscillator"] = from(at1, func(s *sigCtx) func(int) (bool, bool) {
		a, b := s.col("Po"), s.col("Spo")
		return func(k int) (bool, bool) { return a[k] > b[k], a[k] < b[k] }
	})
	rules["IchimokuCloud"] = from(func(s *sigCtx) int { return int(s.p[0]) }, func(s *sigCtx) func(int) (bool, bool) {
		a, b, c := s.col("LeadingSpanA"), s.col("LeadingSpanB"), s.h.C
		return func(k int) (bool, bool) {
			return c[k] > a[k] && c[k] > b[k] && c[k-1] < a[k-1] && c[k-1] < b[k-1], c[k] < a[k] && c[k] < b[k] && c[k-1] > a[k-1] && c[k-1] > b[k-1]
		}
	})
	rules["WilliamsR"] = level(func(x []float64, k int) (bool, bool) { return dn(x, k, -80), up(x, k, -20) })
	rules["MoneyFlowIndex"] = level(func(x []float64, k int) (bool, bool) { return dn(x, k, 10), up(x, k, 90) })
}
