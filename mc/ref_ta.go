package main

import "math"

// Direct definitions of the numeric functions, used as oracles.  NaN in a
// reference means "not decided here" (a quotient or comparison too close to
// call in floating point).

var nan = math.NaN()

func win(k, p int) int { return max(0, k-p+1) } // first index of the window

func rMax(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := range v {
		m := v[k]
		for j := win(k, p); j <= k; j++ {
			m = math.Max(m, v[j])
		}
		r[k] = m
	}
	return r
}

func rMin(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := range v {
		m := v[k]
		for j := win(k, p); j <= k; j++ {
			m = math.Min(m, v[j])
		}
		r[k] = m
	}
	return r
}

func rSum(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := range v {
		for j := win(k, p); j <= k; j++ {
			r[k] += v[j]
		}
	}
	return r
}

func rSma(p int, v []float64) []float64 {
	r := rSum(p, v)
	for k := range r {
		r[k] /= float64(min(k+1, p))
	}
	return r
}

// rMA is zero until the window is full.
func rMA(p int, v []float64) []float64 {
	r := rSma(p, v)
	for k := 0; k < len(r) && k < p-1; k++ {
		r[k] = 0
	}
	return r
}

func rEma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	a := 2 / float64(p+1)
	for k := range v {
		if k == 0 {
			r[k] = v[k]
		} else {
			r[k] = r[k-1] + a*(v[k]-r[k-1])
		}
	}
	return r
}

func rDema(p int, v []float64) []float64 {
	e := rEma(p, v)
	ee := rEma(p, e)
	return zip(e, ee, func(a, b float64) float64 { return 2*a - b })
}

func rWma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := p - 1; k < len(v); k++ {
		s := 0.0
		for j := 0; j < p; j++ {
			s += float64(j+1) * v[k-p+1+j]
		}
		r[k] = s / (float64(p) * float64(p+1) / 2)
	}
	return r
}

func rRma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := 1; k < len(v); k++ {
		if k < p {
			s := 0.0
			for j := 1; j <= k; j++ {
				s += v[j]
			}
			r[k] = s / float64(k+1)
		} else {
			r[k] = (r[k-1]*float64(p-1) + v[k]) / float64(p)
		}
	}
	return r
}

func zip(a, b []float64, f func(x, y float64) float64) []float64 {
	r := make([]float64, len(a))
	for k := range a {
		r[k] = f(a[k], b[k])
	}
	return r
}

func mapf(a []float64, f func(x float64) float64) []float64 {
	r := make([]float64, len(a))
	for k := range a {
		r[k] = f(a[k])
	}
	return r
}

func mean(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

// rVar: population variance of each full window, two-pass.
func rVar(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := p - 1; k < len(v); k++ {
		w := v[k-p+1 : k+1]
		m := mean(w)
		for _, x := range w {
			r[k] += (x - m) * (x - m)
		}
		r[k] /= float64(p)
	}
	return r
}

// rDev: mean absolute distance to the window's mean.
func rDev(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := p - 1; k < len(v); k++ {
		w := v[k-p+1 : k+1]
		m := mean(w)
		for _, x := range w {
			r[k] += math.Abs(x - m)
		}
		r[k] /= float64(p)
	}
	return r
}

// rMeanDev: mean absolute distance of the window to ma[k].
func rMeanDev(v []float64, p int, ma []float64) []float64 {
	r := make([]float64, len(v))
	for k := p - 1; k < len(v); k++ {
		for j := k - p + 1; j <= k; j++ {
			r[k] += math.Abs(v[j] - ma[k])
		}
		r[k] /= float64(p)
	}
	return r
}

// ratio: num/den, zero for a zero den, undecided when the denominator is
// indistinguishable from zero at the given scale.
func ratio(num, den, scale float64) float64 {
	if den == 0 {
		return 0
	}
	if math.Abs(den) <= 1e-10*scale {
		return nan
	}
	return num / den
}

// rCCI from value, average and mean deviation.
func rCCI(v, ma, md []float64, from int, scale float64, exact bool) []float64 {
	r := make([]float64, len(v))
	for k := from; k < len(v); k++ {
		if !exact && md[k] <= 1e-10*scale {
			r[k] = nan // whether equal decimals average to themselves is rounding
			continue
		}
		r[k] = ratio(v[k]-ma[k], 0.015*md[k], 0.015*scale)
	}
	return r
}

func rTR(h, l, c []float64) []float64 {
	r := make([]float64, len(c))
	for k := 1; k < len(c); k++ {
		r[k] = math.Max(h[k]-l[k], math.Max(math.Abs(h[k]-c[k-1]), math.Abs(l[k]-c[k-1])))
	}
	return r
}

func rAtr(h, l, c []float64, p int) []float64 {
	tr := rTR(h, l, c)
	r := make([]float64, len(c))
	if p == 1 {
		return tr
	}
	if p < 1 || len(c) <= p {
		return r
	}
	r[p] = rRma(p, tr)[p]
	for k := p + 1; k < len(c); k++ {
		r[k] = (r[k-1]*float64(p-1) + tr[k]) / float64(p)
	}
	return r
}

func rNatr(h, l, c []float64, p int) []float64 {
	tr := rTR(h, l, c)
	r := make([]float64, len(c))
	if p == 1 {
		return tr
	}
	if p < 1 || len(c) <= p {
		return r
	}
	s := make([]float64, len(c))
	s[p] = rSma(p, tr)[p]
	for k := p + 1; k < len(c); k++ {
		s[k] = (s[k-1]*float64(p-1) + tr[k]) / float64(p)
	}
	for k := p; k < len(c); k++ {
		if c[k] != 0 {
			r[k] = s[k] / c[k] * 100
		}
	}
	return r
}

func rStoch(c, h, l []float64, p int) (k, d []float64) {
	hh, ll := rMax(p, h), rMin(p, l)
	k = make([]float64, len(c))
	for j := range c {
		if hh[j] != ll[j] {
			k[j] = 100 * (c[j] - ll[j]) / (hh[j] - ll[j])
		}
	}
	return k, rSma(3, k)
}

func rShift(p int, fill float64, v []float64) []float64 {
	r := make([]float64, len(v))
	for k := range v {
		if k < p {
			r[k] = fill
		} else {
			r[k] = v[k-p]
		}
	}
	return r
}

func rDiff(v []float64, p int) []float64 {
	return zip(v, rShift(p, 0, v), func(a, b float64) float64 { return a - b })
}

// rLine: least squares through y at abscissas 0..n-1: slope, intercept.
func rLine(x, y []float64) (m, b float64) {
	n := float64(len(x))
	if len(x) == 0 {
		return 0, 0
	}
	if len(x) == 1 {
		return 0, y[0]
	}
	mx, my := mean(x), mean(y)
	var sxy, sxx float64
	for k := range x {
		sxy += (x[k] - mx) * (y[k] - my)
		sxx += (x[k] - mx) * (x[k] - mx)
	}
	_ = n
	m = sxy / sxx
	return m, my - m*mx
}

func seq(n int) []float64 {
	r := make([]float64, n)
	for k := range r {
		r[k] = float64(k)
	}
	return r
}

// rLinReg: value at the window's end, slope, intercept, angle in degrees.
func rLinReg(v []float64, p int) (val, slope, icpt, angle []float64) {
	n := len(v)
	val, slope, icpt, angle = make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	for k := p - 1; k < n; k++ {
		m, b := rLine(seq(p), v[k-p+1:k+1])
		val[k], slope[k], icpt[k] = b+m*float64(p-1), m, b
		angle[k] = math.Atan(m) * 180 / math.Pi
	}
	return
}

func maxAbs(v ...[]float64) float64 {
	m := 0.0
	for _, a := range v {
		for _, x := range a {
			if y := math.Abs(x); y > m && !math.IsInf(y, 0) {
				m = y
			}
		}
	}
	return m
}

// near: agreement up to rounding.
func near(got, want, tol float64) bool {
	if math.IsNaN(want) {
		return true // undecided
	}
	return math.Abs(got-want) <= tol
}

// cmpSeries compares a result with its reference.
func cmpSeries(t *T, what string, got, want []float64, scale, rel float64) {
	if len(got) != len(want) {
		t.Failf("%s has %d values, expected %d", what, len(got), len(want))
	}
	for k := range want {
		if !near(got[k], want[k], rel*(math.Abs(want[k])+scale)+1e-300) {
			t.Failf("%s[%d] = %v, expected %v", what, k, got[k], want[k])
		}
	}
}
