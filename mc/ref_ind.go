package main

import (
	"fmt"
	"math"

	"github.com/idoall/stockindicator/utils"
)

// RefCol is the reference of one reported column.
type RefCol struct {
	Name  string
	V     []float64
	Scale float64 // magnitude rounding errors are relative to
	Rel   float64 // relative tolerance (0: 1e-9)
}

func rc(name string, v []float64, scale float64) RefCol {
	return RefCol{Name: name, V: v, Scale: scale}
}

type refFn func(h *Hist, p []float64) []RefCol

var refs = map[string]refFn{}

func hl2(h *Hist) []float64 { return zip(h.H, h.L, func(a, b float64) float64 { return (a + b) / 2 }) }
func hlc3(h *Hist) []float64 {
	r := make([]float64, h.N())
	for k := range r {
		r[k] = (h.H[k] + h.L[k] + h.C[k]) / 3
	}
	return r
}

func one(name string, f func(h *Hist, p []float64) ([]float64, float64)) refFn {
	return func(h *Hist, p []float64) []RefCol {
		v, s := f(h, p)
		return []RefCol{rc(name, v, s)}
	}
}

// rRsi: Wilder's relative strength index (period >= 2).
func rRsi(c []float64, p int) []float64 {
	r := make([]float64, len(c))
	if len(c) <= p {
		return r
	}
	if p < 2 {
		for k := range r {
			r[k] = nan
		}
		return r
	}
	var g, l float64
	for k := 1; k < len(c); k++ {
		d := c[k] - c[k-1]
		up, dn := math.Max(d, 0), math.Max(-d, 0)
		if k <= p {
			g += up / float64(p)
			l += dn / float64(p)
		} else {
			g = (g*float64(p-1) + up) / float64(p)
			l = (l*float64(p-1) + dn) / float64(p)
		}
		if k >= p {
			if g+l == 0 {
				r[k] = 0
			} else if g+l < 1e-200 {
				r[k] = nan
			} else {
				r[k] = 100 * g / (g + l)
			}
		}
	}
	return r
}

func rStochOf(v []float64, p int, scale float64) []float64 {
	hi, lo := rMax(p, v), rMin(p, v)
	r := make([]float64, len(v))
	for k := range v {
		r[k] = 100 * ratio(v[k]-lo[k], hi[k]-lo[k], scale)
		if math.IsNaN(v[k]) || (hi[k]-lo[k] == 0 && scale == 0) {
			r[k] = nan
		}
		if hi[k] == lo[k] && v[k] != 0 && v[k] != 100 {
			// equal quotients of unequal sums: rounding decides whether
			// there is a range at all
			r[k] = nan
		}
	}
	return r
}

func mulv(a, b []float64) []float64 { return zip(a, b, func(x, y float64) float64 { return x * y }) }

// rAD: accumulation/distribution line.
func rAD(h *Hist) []float64 {
	r := make([]float64, h.N())
	s := 0.0
	for k := range r {
		if h.H[k] != h.L[k] {
			s += h.V[k] * ((h.C[k] - h.L[k]) - (h.H[k] - h.C[k])) / (h.H[k] - h.L[k])
		}
		r[k] = s
	}
	return r
}

func cumScale(v []float64) float64 {
	s := 1e-12
	for _, x := range v {
		s += math.Abs(x)
	}
	return s
}

func init() {
	R := func(name string, f refFn) { refs[name] = f }
	i0 := func(p []float64) int { return int(p[0]) }
	i1 := func(p []float64) int { return int(p[1]) }
	i2 := func(p []float64) int { return int(p[2]) }
	pr := func(h *Hist) float64 { return h.MaxPrice() }

	// C18
	R("Sma", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rSma(i0(p), h.C), pr(h) }))
	R("Ma", refs["Sma"])
	R("Ema", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rEma(i0(p), h.C), pr(h) }))
	R("Dema", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rDema(i0(p), h.C), pr(h) }))
	R("Rma", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rRma(i0(p), h.C), pr(h) }))
	R("Vwma", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		num, den := rSum(i0(p), mulv(h.C, h.V)), rSum(i0(p), h.V)
		return zip(num, den, func(a, b float64) float64 { return ratio(a, b, h.MaxVol()) }), pr(h)
	}))
	R("EMAVegas", func(h *Hist, p []float64) []RefCol {
		s := pr(h)
		return []RefCol{rc("Value", rEma(i0(p), h.C), s), rc("Short1Value", rEma(i1(p), h.C), s), rc("Short2Value", rEma(i2(p), h.C), s),
			rc("Long1Value", rEma(int(p[3]), h.C), s), rc("Long2Value", rEma(int(p[4]), h.C), s)}
	})
	R("TraderXO", func(h *Hist, p []float64) []RefCol {
		return []RefCol{rc("Fast", rEma(i0(p), h.C), pr(h)), rc("Slow", rEma(i1(p), h.C), pr(h))}
	})
	R("Macd", func(h *Hist, p []float64) []RefCol {
		dif := zip(rEma(i0(p), h.C), rEma(i2(p), h.C), func(a, b float64) float64 { return a - b })
		dea := rEma(i1(p), dif)
		return []RefCol{rc("DIF", dif, pr(h)), rc("DEA", dea, pr(h)), rc("Macd", zip(dif, dea, func(a, b float64) float64 { return 2 * (a - b) }), pr(h))}
	})

	// C19
	R("Rsi", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rRsi(h.C, i0(p)), 100 }))
	R("StochRsi", func(h *Hist, p []float64) []RefCol {
		rsi := rRsi(h.C, i2(p))
		k := rEma(i0(p), rStochOf(rsi, int(p[3]), 100))
		return []RefCol{{"K", k, 100, 1e-5}, {"D", rEma(i1(p), k), 100, 1e-5}}
	})
	R("Kdj", func(h *Hist, p []float64) []RefCol {
		n, per := h.N(), i0(p)
		hh, ll := rMax(per, h.H), rMin(per, h.L)
		rsv, K, D, J := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		pk, pd := 50.0, 50.0
		for k := 0; k < n; k++ {
			if k >= per-1 {
				if hh[k] == ll[k] {
					rsv[k] = 100
				} else {
					rsv[k] = (h.C[k] - ll[k]) / (hh[k] - ll[k]) * 100
				}
				pk = pk*2/3 + rsv[k]/3
				pd = pd*2/3 + pk/3
			}
			K[k], D[k], J[k] = pk, pd, 3*pk-2*pd
		}
		return []RefCol{rc("RSV", rsv, 100), rc("K", K, 100), rc("D", D, 100), rc("J", J, 100)}
	})
	R("Cci", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		tp := hlc3(h)
		ma := rSma(i1(p), tp)
		return rCCI(tp, ma, rMeanDev(tp, i0(p), ma), i0(p)-1, pr(h), h.Exact), 100
	}))
	R("AiCoinCCI", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		return rCCI(h.C, rMA(i0(p), h.C), rDev(i0(p), h.C), i0(p)-1, pr(h), h.Exact), 100
	}))

	// C20
	atrInd := func(h *Hist, p int) (tr, atr []float64) {
		tr = rTR(h.H, h.L, h.C)
		if h.N() > 0 {
			// the first candle has no previous close (taken as zero)
			tr[0] = h.H[0]
		}
		return tr, rRma(p, tr)
	}
	R("Atr", func(h *Hist, p []float64) []RefCol {
		tr, a := atrInd(h, i0(p))
		return []RefCol{rc("TR", tr, pr(h)), rc("Atr", a, pr(h))}
	})
	R("Boll", func(h *Hist, p []float64) []RefCol {
		mid := rSma(i0(p), h.C)
		md := mapf(rVar(i0(p), h.C), math.Sqrt)
		up := zip(mid, md, func(a, b float64) float64 { return a + p[1]*b })
		lo := zip(mid, md, func(a, b float64) float64 { return a - p[1]*b })
		// sqrt(E[x^2]-E[x]^2): rounding of the order of sqrt(eps) of the price
		return []RefCol{rc("Middle", mid, pr(h)), {"MD", md, pr(h), 2e-7}, {"Upper", up, pr(h), 1e-6}, {"Lower", lo, pr(h), 1e-6}}
	})
	R("KeltnerChannel", func(h *Hist, p []float64) []RefCol {
		_, a := atrInd(h, i0(p))
		m := rEma(i0(p), h.C)
		return []RefCol{rc("Middle", m, pr(h)), rc("Upper", zip(m, a, func(x, y float64) float64 { return x + 2*y }), pr(h)),
			rc("Lower", zip(m, a, func(x, y float64) float64 { return x - 2*y }), pr(h))}
	})
	R("DonchianChannel", func(h *Hist, p []float64) []RefCol {
		u, l := rMax(i0(p), h.C), rMin(i0(p), h.C)
		return []RefCol{rc("Upper", u, pr(h)), rc("Lower", l, pr(h)), rc("Middle", zip(u, l, func(a, b float64) float64 { return (a + b) / 2 }), pr(h))}
	})
	R("UlcerIndex", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		dd := zip(h.C, rMax(i0(p), h.C), func(c, m float64) float64 { return 100 * (c - m) / m })
		return mapf(rEma(i0(p), mulv(dd, dd)), math.Sqrt), 100
	}))

	// C21
	R("AccumulationDistribution", one("Value", func(h *Hist, p []float64) ([]float64, float64) { return rAD(h), cumScale(h.V) }))
	R("ChaikinMoneyFlow", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		mfv := make([]float64, h.N())
		for k := range mfv {
			if h.H[k] != h.L[k] {
				mfv[k] = h.V[k] * ((h.C[k] - h.L[k]) - (h.H[k] - h.C[k])) / (h.H[k] - h.L[k])
			}
		}
		return zip(rSum(i0(p), mfv), rSum(i0(p), h.V), func(a, b float64) float64 { return ratio(a, b, h.MaxVol()) }), 1
	}))
	R("EaseOfMovement", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		d := rDiff(hl2(h), 1)
		e := make([]float64, h.N())
		for k := range e {
			if h.H[k] != h.L[k] && h.V[k] != 0 {
				e[k] = d[k] / (h.V[k] / 1e8 / (h.H[k] - h.L[k]))
			}
		}
		return rSma(i0(p), e), maxAbs(e)
	}))
	R("ForceIndex", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		v := mulv(rDiff(h.C, 1), h.V)
		return rEma(i0(p), v), pr(h) * h.MaxVol()
	}))
	R("MoneyFlowIndex", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		raw := mulv(hlc3(h), h.V)
		d := rDiff(raw, 1)
		pos, neg := make([]float64, h.N()), make([]float64, h.N())
		for k := range raw {
			if math.Abs(d[k]) < 1e-10*raw[k] && d[k] != 0 {
				return filled(h.N(), nan), 100 // up or down is a matter of rounding
			}
			if d[k] >= 0 {
				pos[k] = raw[k]
			} else {
				neg[k] = raw[k]
			}
		}
		ps, ns := rSum(i0(p), pos), rSum(i0(p), neg)
		r := make([]float64, h.N())
		for k := range r {
			switch {
			case ns[k] == 0 && ps[k] > 0:
				r[k] = 100
			case ns[k] == 0:
				r[k] = 0
			default:
				r[k] = 100 - 100/(1+ps[k]/ns[k])
			}
		}
		return r, 100
	}))
	R("NegativeVolumeIndex", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		r := make([]float64, h.N())
		for k := range r {
			if k == 0 {
				r[k] = 1000
			} else if h.V[k] > h.V[k-1] {
				r[k] = r[k-1]
			} else {
				r[k] = r[k-1] * h.C[k] / h.C[k-1]
			}
		}
		return r, 1
	}))
	R("Obv", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		r := make([]float64, h.N())
		for k := 1; k < len(r); k++ {
			r[k] = r[k-1]
			if h.C[k] > h.C[k-1] {
				r[k] += h.V[k]
			} else if h.C[k] < h.C[k-1] {
				r[k] -= h.V[k]
			}
		}
		return r, cumScale(h.V)
	}))
	R("VolumePriceTrend", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		r := make([]float64, h.N())
		s := 0.0
		for k := range r {
			prev := h.C[0]
			if k >= i0(p) {
				prev = h.C[k-i0(p)]
			}
			s += h.V[k] * (h.C[k] - prev) / prev
			r[k] = s
		}
		return r, cumScale(h.V)
	}))

	// C22
	R("AbsolutePriceOscillator", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		return zip(rEma(14, h.C), rEma(30, h.C), func(a, b float64) float64 { return a - b }), pr(h)
	}))
	R("AwesomeOscillator", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		m := hl2(h)
		return zip(rSma(5, m), rSma(34, m), func(a, b float64) float64 { return a - b }), pr(h)
	}))
	R("ChaikinOscillator", func(h *Hist, p []float64) []RefCol {
		ad := rAD(h)
		return []RefCol{rc("AD", ad, cumScale(h.V)), rc("Value", zip(rEma(i0(p), ad), rEma(i1(p), ad), func(a, b float64) float64 { return a - b }), cumScale(h.V))}
	})
	R("PercentagePriceOscillator", func(h *Hist, p []float64) []RefCol {
		ppo := zip(rEma(i0(p), h.C), rEma(i1(p), h.C), func(a, b float64) float64 { return 100 * (a - b) / b })
		sig := rEma(i2(p), ppo)
		return []RefCol{rc("PPO", ppo, 100), rc("Signal", sig, 100), rc("Histogram", zip(ppo, sig, func(a, b float64) float64 { return a - b }), 100)}
	})
	R("ProjectionOscillator", func(h *Hist, p []float64) []RefCol {
		n, per := h.N(), i0(p)
		x := seq(n)
		vh, vl := make([]float64, n), make([]float64, n)
		for k := 0; k < n; k++ {
			w := win(k, per)
			mh, _ := rLine(x[w:k+1], h.H[w:k+1])
			ml, _ := rLine(x[w:k+1], h.L[w:k+1])
			vh[k], vl[k] = h.H[k]+mh*x[k], h.L[k]+ml*x[k]
		}
		pu, pl := rMax(per, vh), rMin(per, vl)
		po := make([]float64, n)
		sc := maxAbs(vh, vl)
		big := 100.0
		for k := range po {
			po[k] = 100 * ratio(h.C[k]-pl[k], pu[k]-pl[k], 1e3*sc)
			if !math.IsNaN(po[k]) {
				big = math.Max(big, math.Abs(po[k]))
			}
		}
		return []RefCol{{"Po", po, big, 1e-4}, {"Spo", rEma(i1(p), po), big, 1e-4}}
	})
	R("StochasticOscillator", func(h *Hist, p []float64) []RefCol {
		k, d := rStoch(h.C, h.H, h.L, i0(p))
		return []RefCol{rc("K", k, 100), rc("D", d, 100)}
	})
	R("VolumeOscillator", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		s, l := rEma(i0(p), h.V), rEma(i1(p), h.V)
		r := make([]float64, h.N())
		for k := range r {
			r[k] = 100 * ratio(s[k]-l[k], l[k], 1e-200)
		}
		return r, 100
	}))
	R("WilliamsR", one("Value", func(h *Hist, p []float64) ([]float64, float64) {
		hh, ll := rMax(i0(p), h.H), rMin(i0(p), h.L)
		r := make([]float64, h.N())
		for k := range r {
			if hh[k] != ll[k] {
				r[k] = -100 * (hh[k] - h.C[k]) / (hh[k] - ll[k])
			}
		}
		return r, 100
	}))
	R("IchimokuCloud", func(h *Hist, p []float64) []RefCol {
		mid := func(per int) []float64 {
			return zip(rMax(per, h.H), rMin(per, h.L), func(a, b float64) float64 { return (a + b) / 2 })
		}
		cv, bl := mid(i0(p)), mid(26)
		return []RefCol{rc("ConversionLine", cv, pr(h)), rc("BaseLine", bl, pr(h)),
			rc("LeadingSpanA", zip(cv, bl, func(a, b float64) float64 { return (a + b) / 2 }), pr(h)),
			rc("LeadingSpanB", mid(i1(p)), pr(h)), rc("LaggingLine", rShift(i2(p), 0, h.C), pr(h))}
	})
	R("Camarilla", func(h *Hist, p []float64) []RefCol {
		n := h.N()
		cols := map[string][]float64{}
		put := func(nm string, k int, v float64) {
			if cols[nm] == nil {
				cols[nm] = make([]float64, n)
			}
			cols[nm][k] = v
		}
		for k := 0; k < n; k++ {
			H, L, C := h.H[k], h.L[k], h.C[k]
			r := H - L
			put("Pivot", k, (H+L+C)/3)
			for q, d := range []float64{12, 6, 4, 2} {
				put(fmt.Sprintf("High%d", q+1), k, C+r*1.1/d)
				put(fmt.Sprintf("Low%d", q+1), k, C-r*1.1/d)
			}
			h5 := H / L * C
			h6 := h5 + 1.168*(h5-(C+r*1.1/2))
			put("High5", k, h5)
			put("High6", k, h6)
			put("Low5", k, C-(h5-C))
			put("Low6", k, C-(h6-C))
		}
		out := []RefCol{rc("EMA", rEma(i0(p), h.C), pr(h))}
		for _, nm := range []string{"Pivot", "High1", "High2", "High3", "High4", "High5", "High6", "Low1", "Low2", "Low3", "Low4", "Low5", "Low6"} {
			v := cols[nm]
			if v == nil {
				v = []float64{}
			}
			out = append(out, rc(nm, v, pr(h)))
		}
		return out
	})

	// C23
	R("AverageDirectionalIndex", func(h *Hist, p []float64) []RefCol {
		n, per, ln := h.N(), i0(p), i1(p)
		tr := rTR(h.H, h.L, h.C)
		pdm, mdm := make([]float64, n), make([]float64, n)
		for k := 1; k < n; k++ {
			up, dn := h.H[k]-h.H[k-1], h.L[k-1]-h.L[k]
			if up > dn && up > 0 {
				pdm[k] = up
			}
			if dn > up && dn > 0 {
				mdm[k] = dn
			}
		}
		sm := func(v []float64) []float64 {
			r := make([]float64, n)
			for k := 1; k < n; k++ {
				if ln == 1 {
					r[k] = v[k]
				} else {
					r[k] = r[k-1]*(1-1/float64(ln)) + v[k]
				}
			}
			return r
		}
		st, sp, sn := sm(tr), sm(pdm), sm(mdm)
		dip, dim, dx := make([]float64, n), make([]float64, n), make([]float64, n)
		for k := per - 1; k < n; k++ {
			if st[k] == 0 {
				continue
			}
			dip[k], dim[k] = 100*sp[k]/st[k], 100*sn[k]/st[k]
			if s := sp[k] + sn[k]; s != 0 {
				dx[k] = 100 * math.Abs(sp[k]-sn[k]) / s
			}
		}
		return []RefCol{{"DIPlus", dip, 100, 1e-7}, {"DIMins", dim, 100, 1e-7}, {"ADX", rSma(ln, dx), 100, 1e-7}}
	})
	R("Vortex", func(h *Hist, p []float64) []RefCol {
		n := h.N()
		a, b := make([]float64, n), make([]float64, n)
		for k := 1; k < n; k++ {
			a[k], b[k] = math.Abs(h.H[k]-h.L[k-1]), math.Abs(h.L[k]-h.H[k-1])
		}
		tr := rSum(i0(p), rTR(h.H, h.L, h.C))
		rt := func(x []float64) []float64 {
			r := zip(rSum(i0(p), x), tr, func(s, t float64) float64 { return ratio(s, t, pr(h)) })
			return r
		}
		return []RefCol{{"PlusVi", rt(a), 1, 1e-7}, {"MinusVi", rt(b), 1, 1e-7}}
	})
	R("SuperTrend", refSuperTrend)
	R("PivotPointSuperTrend", refPPST)
	R("UTBot", refUTBot)

	// C25
	R("LinearRegressionCandles", func(h *Hist, p []float64) []RefCol {
		lr := func(v []float64) []float64 { r, _, _, _ := rLinReg(v, i1(p)); return r }
		c := lr(h.C)
		sig := rEma(i0(p), c)
		if p[2] != 0 {
			sig = rSma(i0(p), c)
		}
		return []RefCol{rc("Open", lr(h.O), pr(h)), rc("High", lr(h.H), pr(h)), rc("Low", lr(h.L), pr(h)), rc("Close", c, pr(h)), rc("Signal", sig, pr(h))}
	})
	R("StochasticHeat", func(h *Hist, p []float64) []RefCol {
		n := h.N()
		inc, sf, ss, ma := i0(p), i1(p), i2(p), int(p[4])
		avg := func(w int, v []float64) []float64 {
			switch ma {
			case 2:
				return rSma(w, v)
			case 4:
				return rEma(w, v)
			case 8:
				return rWma(w, v)
			}
			return v
		}
		fast := make([]float64, n)
		for j := 1; j <= 28; j++ {
			k, _ := rStoch(h.C, h.H, h.L, j*inc)
			k = avg(sf, k)
			for q := range fast {
				fast[q] += k[q] / 100
			}
		}
		if ma != 2 && ma != 4 {
			ma = 8
		}
		return []RefCol{rc("Fast", fast, 100), rc("Slow", avg(ss, fast), 100)}
	})
	R("ReversalSignals", func(h *Hist, p []float64) []RefCol {
		n := h.N()
		side := make([]float64, n)
		down, up := 0, 0
		for k := 0; k < n; k++ {
			side[k] = float64(utils.Hold)
			if k < 4 {
				continue
			}
			if h.C[k] < h.C[k-4] {
				down, up = down+1, 0
			} else {
				down, up = 0, up+1
			}
			L, H := h.L, h.H
			if down == 9 && (L[k] <= L[k-3] && L[k] <= L[k-2] || L[k-1] < L[k-3] && L[k-1] <= L[k-2]) {
				side[k] = float64(utils.Buy)
			}
			if up == 9 && (H[k] >= H[k-3] && H[k] >= H[k-2] || H[k-1] >= H[k-3] && H[k-1] >= H[k-2]) {
				side[k] = float64(utils.Sell)
			}
		}
		return []RefCol{rc("Side", side, 0)}
	})
	R("BreakoutProbability", refBreakout)
}

func filled(n int, v float64) []float64 {
	r := make([]float64, n)
	for k := range r {
		r[k] = v
	}
	return r
}

// tie reports that a comparison of a and b is a matter of rounding.  Values
// that are exactly equal because they are copies of each other are decided.
func tie(a, b, scale float64) bool {
	return a != b && math.Abs(a-b) <= 1e-9*scale
}

func undecide(from int, cols ...[]float64) {
	for _, c := range cols {
		for k := from; k < len(c); k++ {
			c[k] = nan
		}
	}
}

func refSuperTrend(h *Hist, p []float64) []RefCol {
	n := h.N()
	per, mult := int(p[0]), p[1]
	src := hl2(h)
	var atr []float64
	if p[2] != 0 {
		atr = rAtr(h.H, h.L, h.C, per)
	} else {
		atr = rSma(per, rTR(h.H, h.L, h.C))
	}
	sc := h.MaxPrice() + mult*maxAbs(atr)
	up, upb, dn, dnb := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	trend := 1
	und := n
	for k := 1; k < n; k++ {
		// the bands of the first candle are zero
		up[k], dn[k] = src[k]-mult*atr[k], src[k]+mult*atr[k]
		if tie(h.C[k-1], up[k-1], sc) || tie(h.C[k-1], dn[k-1], sc) || tie(h.C[k], up[k-1], sc) || tie(h.C[k], dn[k-1], sc) {
			und = k
			break
		}
		if h.C[k-1] > up[k-1] {
			up[k] = math.Max(up[k], up[k-1])
		}
		if h.C[k-1] < dn[k-1] {
			dn[k] = math.Min(dn[k], dn[k-1])
		}
		was := trend
		if trend == -1 && h.C[k] > dn[k-1] {
			trend = 1
		} else if trend == 1 && h.C[k] < up[k-1] {
			trend = -1
		}
		if trend == 1 && was == -1 {
			upb[k] = up[k]
		}
		if trend == -1 && was == 1 {
			dnb[k] = dn[k]
		}
	}
	undecide(und, up, upb, dn, dnb)
	return []RefCol{rc("UpTrend", up, sc), rc("UpTrendBegin", upb, sc), rc("DownTrend", dn, sc), rc("DownTrendBegin", dnb, sc)}
}

// rPivots: pivot value at the confirming index (right candles later).
func rPivots(v []float64, left, right int, high bool) []float64 {
	r := make([]float64, len(v))
	for k := left + right; k < len(v); k++ {
		m := k - right
		ok := true
		for j := m - left; j <= k; j++ {
			if high && v[j] > v[m] || !high && v[j] < v[m] {
				ok = false
			}
		}
		if ok {
			r[k] = v[m]
		}
	}
	return r
}

func refPPST(h *Hist, p []float64) []RefCol {
	n := h.N()
	per, f := int(p[0]), p[2]
	atr := rAtr(h.H, h.L, h.C, int(p[1]))
	ph, pl := rPivots(h.H, per, per, true), rPivots(h.L, per, per, false)
	sc := h.MaxPrice() + f*maxAbs(atr)
	up, upb, dn, dnb := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	var center, tu, td float64
	trend := 0
	und := n
	for k := 1; k < n; k++ {
		pp := ph[k]
		if pp == 0 {
			pp = pl[k]
		}
		if pp != 0 {
			if center == 0 {
				center = pp
			} else {
				center = (2*center + pp) / 3
			}
		}
		u, d := center-f*atr[k], center+f*atr[k]
		if tie(h.C[k-1], tu, sc) || tie(h.C[k-1], td, sc) || tie(h.C[k], tu, sc) || tie(h.C[k], td, sc) {
			und = k
			break
		}
		was := trend
		if h.C[k] > td {
			trend = 1
		} else if h.C[k] < tu {
			trend = -1
		}
		if h.C[k-1] > tu {
			u = math.Max(u, tu)
		}
		if h.C[k-1] < td {
			d = math.Min(d, td)
		}
		tu, td = u, d
		switch {
		case trend == 1 && was == 1:
			up[k] = tu
		case trend == 1 && was == -1:
			upb[k] = tu
		case trend == -1 && was == -1:
			dn[k] = td
		case trend == -1 && was == 1:
			dnb[k] = td
		}
	}
	undecide(und, up, upb, dn, dnb)
	return []RefCol{rc("UpTrend", up, sc), rc("UpTrendBegin", upb, sc), rc("DownTrend", dn, sc), rc("DownTrendBegin", dnb, sc)}
}

func refUTBot(h *Hist, p []float64) []RefCol {
	n := h.N()
	atr := rAtr(h.H, h.L, h.C, int(p[1]))
	sc := h.MaxPrice() + p[0]*maxAbs(atr)
	stop := make([]float64, n)
	und := n
	for k := 1; k < n; k++ {
		s, c, pc := stop[k-1], h.C[k], h.C[k-1]
		if tie(c, s, sc) || tie(pc, s, sc) {
			und = k
			break
		}
		loss := p[0] * atr[k]
		switch {
		case c > s && pc > s:
			stop[k] = math.Max(s, c-loss)
		case c < s && pc < s:
			stop[k] = math.Min(s, c+loss)
		case c > s:
			stop[k] = c - loss
		default:
			stop[k] = c + loss
		}
	}
	undecide(und, stop)
	return []RefCol{rc("Close", h.C, 0), rc("Value", stop, sc)}
}

func refBreakout(h *Hist, p []float64) []RefCol {
	n := h.N()
	lines := int(math.Max(1, math.Min(5, p[1])))
	if n == 0 {
		return []RefCol{rc("Win", []float64{}, 0), rc("Loss", []float64{}, 0)}
	}
	price, per, upf := make([][]float64, 10), make([][]float64, 10), make([][]float64, 10)
	for j := range price {
		price[j], per[j], upf[j] = make([]float64, n), make([]float64, n), make([]float64, n)
	}
	win, loss := make([]float64, n), make([]float64, n)
	// counts per line: [colour of the previous candle][high or low passed]
	var cnt, pct [5][2][2]float64
	var tot [2]float64
	und := n
	nWin, nLoss := 0.0, 0.0
	for k := 1; k < n && und == n; k++ {
		colour := -1
		if h.C[k-1] > h.O[k-1] {
			colour = 0
		} else if h.C[k-1] < h.O[k-1] {
			colour = 1
		}
		step := h.C[k] * p[0] / 100
		sc := h.MaxPrice()
		if colour >= 0 {
			tot[colour]++
			for j := 0; j < 5; j++ {
				x := step * float64(j)
				if j > 0 && (math.Abs(h.H[k]-h.H[k-1]-x) <= 1e-9*sc || math.Abs(h.L[k]-h.L[k-1]+x) <= 1e-9*sc) {
					und = k
				}
				if h.H[k] > h.H[k-1]+x {
					cnt[j][colour][0]++
					pct[j][colour][0] = 100 * cnt[j][colour][0] / tot[colour]
				}
				if h.L[k] > h.L[k-1]-x {
					cnt[j][colour][1]++
					pct[j][colour][1] = 100 * cnt[j][colour][1] / tot[colour]
				}
			}
			for j := 0; j < lines && j < 5; j++ {
				if math.Min(pct[j][colour][0], pct[j][colour][1]) > 0 {
					price[j][k], per[j][k], upf[j][k] = h.H[k]+step*float64(j), pct[j][colour][0], 1
					price[5+j][k], per[5+j][k] = h.L[k]-step*float64(j), pct[j][colour][1]
				}
			}
		}
		// a candle without colour is tested with the falling candles' shares
		q := 1
		if colour == 0 {
			q = 0
		}
		target := h.L[k-1]
		if pct[0][q][0] >= pct[0][q][1] {
			target = h.H[k-1]
		}
		hit := h.L[k] <= target
		if target == h.H[k-1] {
			hit = h.H[k] >= target
		}
		if hit {
			nWin++
		} else {
			nLoss++
		}
		win[k], loss[k] = nWin, nLoss
	}
	undecide(und, win, loss)
	out := []RefCol{rc("Win", win, 0), rc("Loss", loss, 0)}
	for j := range price {
		undecide(und, price[j], per[j], upf[j])
		out = append(out, rc(fmt.Sprintf("List%d.Price", j), price[j], h.MaxPrice()), rc(fmt.Sprintf("List%d.Per", j), per[j], 100), rc(fmt.Sprintf("List%d.Up", j), upf[j], 0))
	}
	return out
}

// checkRef compares every referenced column of an indicator.
func checkRef(t *T, d *Ind, h *Hist, p []float64, fr *Frame) {
	ref := refs[d.Name]
	if ref == nil {
		panic("no reference for " + d.Name)
	}
	cols := ref(h, p)
	if fr.N != h.N() {
		t.Failf("%s%s reports %d records for %d candles", d.Name, pstr(p), fr.N, h.N())
	}
	for _, c := range cols {
		got := fr.Col(c.Name)
		if got == nil {
			if fr.N == 0 {
				continue
			}
			panic("no column " + c.Name + " in " + d.Name)
		}
		rel := c.Rel
		if rel == 0 {
			rel = 1e-9
		}
		cmpSeries(t, fmt.Sprintf("%s%s.%s", d.Name, pstr(p), c.Name), got, c.V, c.Scale, rel)
	}
}
