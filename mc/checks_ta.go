package main

import (
	"fmt"
	"math"
	"strings"
	"unsafe"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/ta"
)

// A Series is a named list of numbers.
type Series struct {
	Name string
	V    []float64
}

func (s *Series) String() string {
	if len(s.V) <= 12 {
		return fmt.Sprintf("%s%v", s.Name, s.V)
	}
	return fmt.Sprintf("%s (%d values)", s.Name, len(s.V))
}

var letters = []float64{0, 3, -1.5, 0.75, 96, 3.75, -24}

// shortSeries: every sequence of length 0..L over k letters.
func shortSeries(L, k int) []Series {
	var out []Series
	num := 1
	for l := 0; l <= L; l++ {
		for code := 0; code < num; code++ {
			v := make([]float64, l)
			x := code
			for j := range v {
				v[j] = letters[x%k]
				x /= k
			}
			out = append(out, Series{"", v})
		}
		num *= k
	}
	return out
}

// longSeries: closes of every base, shifted and of either sign, at several
// lengths; exact and decimal.
func longSeries(lens []int) []Series {
	var out []Series
	for _, n := range lens {
		for bi, b := range bases {
			p := b.path(n)
			mk := func(nm string, f func(k, x int) float64) {
				v := make([]float64, n)
				for k := range v {
					v[k] = f(k, p[k])
				}
				out = append(out, Series{fmt.Sprintf("%s %s", b.name, nm), v})
			}
			mk("exact", func(k, x int) float64 { return float64(x) * 0.75 })
			switch (bi + n) % 4 {
			case 0:
				mk("centred", func(k, x int) float64 { return float64(x-p[0]) * 0.75 })
			case 1:
				mk("alternating", func(k, x int) float64 { return float64(x*(1-k%3)) * 0.25 })
			case 2:
				mk("decimal", func(k, x int) float64 { return math.Round(float64(x)*137+float64(k*k%11)) / 100 })
			case 3:
				mk("large", func(k, x int) float64 { return float64(x)*0.75 + float64(k%5/4*4096) })
			}
		}
	}
	return out
}

func periodsFor(n int) []int {
	if n <= 64 {
		var r []int
		for p := 1; p <= n+2; p++ {
			r = append(r, p)
		}
		return r
	}
	if n > 20000 {
		return []int{1, 3, 14, 200}
	}
	if n > 500 {
		return []int{1, 2, 3, 9, 14, 26, 50, 100, 128, 200, 255, 256, 257, 365, 500, n/2 + 1, n - 1, n, n + 1, 3 * n}
	}
	return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 20, 21, 26, 30, 50, 52, 64, 100, 128, n / 2, n - 2, n - 1, n, n + 1, n + 2, 3 * n}
}

// overSeries runs f for every series of the bounded spaces and every period.
func (c *Ctx) overSeries(L, k int, f func(t *T, s *Series, p int)) {
	L++
	if c.Thorough {
		L++
	}
	run := func(s Series) bool {
		return c.Case(func() string { return s.String() + " with every period" }, func(t *T) {
			for _, p := range periodsFor(len(s.V)) {
				f(t, &s, p)
				t.Steps(len(s.V))
				t.States(1)
			}
		})
	}
	c.Bound("every sequence of length 0..%d over %d values (repeats, zero, both signs), every period from 1 to two beyond the length", L, k)
	for _, s := range shortSeries(L, k) {
		if !run(s) {
			return
		}
	}
	// longer sequences of fewer values
	deep := []struct{ k, lo, hi int }{{2, L + 1, 12}, {3, L + 1, 9}}
	if c.Thorough {
		deep = []struct{ k, lo, hi int }{{2, L + 1, 15}, {3, L + 1, 10}}
	}
	for _, d := range deep {
		vals := [][]float64{{2, -3}, {0, 5, 6}}[d.k-2]
		c.Bound("every sequence of length %d..%d over %v, every period", d.lo, d.hi, vals)
		num := 1
		for l := 1; l <= d.hi; l++ {
			num *= d.k
			if l < d.lo {
				continue
			}
			for code := 0; code < num; code++ {
				v := make([]float64, l)
				x := code
				for j := range v {
					v[j] = vals[x%d.k]
					x /= d.k
				}
				if !run(Series{fmt.Sprintf("sequence %v", v), v}) {
					return
				}
			}
		}
	}
	lens := []int{13, 14, 21, 34, 60, 90, 140}
	if c.Thorough {
		lens = []int{13, 14, 15, 20, 21, 27, 34, 50, 60, 61, 90, 140, 200, 420}
	}
	ls := longSeries(lens)
	giants := longSeries([]int{1030})
	if c.Thorough {
		giants = longSeries([]int{513, 1030, 2200, 5000})
	}
	for k, s := range giants {
		if k%5 == 0 || c.Thorough {
			ls = append(ls, s)
		}
	}
	if !c.Thorough {
		for k, s := range longSeries([]int{5000}) {
			if k == 13 || k == 22 {
				ls = append(ls, s)
			}
		}
	}
	for k, s := range longSeries([]int{70000}) {
		if k == 12 || k == 26 {
			ls = append(ls, s)
		}
	}
	c.Bound("among the longer series: two of 70000 values, periods 1, 3, 14 and 200")
	c.Bound("%d longer series of %v and from 1030 to 5000 values (16 shapes; exact, centred, alternating, decimal, large), every period to two beyond the length up to 64 values, 29 periods for longer, 20 (to three times the length) for the longest", len(ls), lens)
	gs := c.gallerySeries(1, 2, 3, 4, 5, 7, 9, 14, 21, 33)
	if c.Thorough {
		gs = append(gs, c.gallerySeries(6, 8, 10, 12, 16, 26, 50, 64, 130)...)
	}
	for _, s := range append(ls, gs...) {
		if !run(s) {
			return
		}
	}
	// single deviations at every position
	n := 30
	c.Bound("a spike up, a spike down, a step and a zero run at every position of 3 series of %d values", n)
	for _, bi := range []int{6, 0, 4} {
		for p := 0; p < n; p++ {
			for kind := 0; kind < 4; kind++ {
				v := mapf(make([]float64, n), func(x float64) float64 { return x })
				for k, x := range bases[bi].path(n) {
					v[k] = float64(x) * 0.75
				}
				for k := p; k < n; k++ {
					switch {
					case kind == 0 && k == p:
						v[k] += 300
					case kind == 1 && k == p:
						v[k] -= 300
					case kind == 2:
						v[k] += 48
					case kind == 3 && k < p+6:
						v[k] = 0
					}
				}
				if !run(Series{fmt.Sprintf("%s deviation %d at %d", bases[bi].name, kind, p), v}) {
					return
				}
			}
		}
	}
}

func cmpS(t *T, s *Series, what string, got, want []float64, scale, rel float64) {
	if len(got) != len(want) {
		t.Failf("%s of %s has %d values, expected %d", what, s, len(got), len(want))
	}
	for k := range want {
		if !near(got[k], want[k], rel*(math.Abs(want[k])+scale)+1e-300) {
			t.Failf("%s of %s at %d is %v, expected %v", what, s, k, got[k], want[k])
		}
	}
}

// cmpQuot compares quotients by 0.015 times a deviation: the rounding of a
// running sum of that many values, divided by a small deviation, is allowed.
func cmpQuot(t *T, s *Series, what string, got, want, dev []float64, sc float64) {
	if len(got) != len(want) {
		t.Failf("%s of %s has %d values, expected %d", what, s, len(got), len(want))
	}
	for k, w := range want {
		tol := 1e-7 * (1 + math.Abs(w))
		if dev[k] > 0 {
			tol += float64(len(want)) * 1e-15 * sc * (1 + 0.015*math.Abs(w)) / (0.015 * dev[k])
		}
		if !near(got[k], w, tol) {
			t.Failf("%s of %s at %d is %v, expected %v", what, s, k, got[k], w)
		}
	}
}

func cp(v []float64) []float64 { return append([]float64(nil), v...) }

// ------------------------------------------------------------ C10 windows

func checkC10(c *Ctx) {
	c.overSeries(6, 6, func(t *T, s *Series, p int) {
		v := s.V
		sc := maxAbs(v)
		nm := func(f string) string { return fmt.Sprintf("%s(%d)", f, p) }
		cmpS(t, s, nm("Max"), ta.Max(p, cp(v)), rMax(p, v), 0, 0)
		cmpS(t, s, nm("Min"), ta.Min(p, cp(v)), rMin(p, v), 0, 0)
		cmpS(t, s, nm("Sum"), ta.Sum(p, cp(v)), rSum(p, v), sc*float64(p), 1e-12)
		cmpS(t, s, nm("Sma"), ta.Sma(p, cp(v)), rSma(p, v), sc, 1e-11)
		cmpS(t, s, nm("MA"), ta.MA(cp(v), p), rMA(p, v), sc, 1e-11)
		if len(v) > 0 {
			n := len(v)
			if g, w := ta.Highest(cp(v), p), rMax(p, v)[n-1]; g != w {
				t.Failf("%s of %s is %v, expected %v", nm("Highest"), s, g, w)
			}
			if g, w := ta.Lowest(cp(v), p), rMin(p, v)[n-1]; g != w {
				t.Failf("%s of %s is %v, expected %v", nm("Lowest"), s, g, w)
			}
		}
	})
	// permutations with ties: the tree behind the windows in every shape
	n := 7
	if c.Thorough {
		n = 8
	}
	c.Bound("every order type of %d values with ties, every period", n)
	pats := weakPatterns(n)
	for lo := 0; lo < len(pats); lo += 64 {
		lo := lo
		if !c.Case(func() string { return fmt.Sprintf("order types %d..%d", lo, lo+63) }, func(t *T) {
			for _, pat := range pats[lo:min(len(pats), lo+64)] {
				v := make([]float64, n)
				for k, x := range pat {
					v[k] = float64(x) - 2
				}
				s := &Series{"", v}
				for p := 1; p <= n; p++ {
					cmpS(t, s, fmt.Sprintf("Max(%d)", p), ta.Max(p, cp(v)), rMax(p, v), 0, 0)
					cmpS(t, s, fmt.Sprintf("Min(%d)", p), ta.Min(p, cp(v)), rMin(p, v), 0, 0)
					t.Steps(n)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
}

// ------------------------------------------------------------ C11 averages

func checkC11(c *Ctx) {
	c.overSeries(6, 6, func(t *T, s *Series, p int) {
		v := s.V
		sc := maxAbs(v)
		nm := func(f string) string { return fmt.Sprintf("%s(%d)", f, p) }
		cmpS(t, s, nm("Ema"), ta.Ema(p, cp(v)), rEma(p, v), sc, 1e-11)
		cmpS(t, s, nm("Dema"), ta.Dema(p, cp(v)), rDema(p, v), sc, 1e-11)
		cmpS(t, s, nm("Wma"), ta.Wma(p, cp(v)), rWma(p, v), sc, 1e-10)
		cmpS(t, s, nm("Rma"), ta.Rma(p, cp(v)), rRma(p, v), sc, 1e-11)
	})
}

// ---------------------------------------------------------- C12 dispersion

func checkC12(c *Ctx) {
	c.overSeries(6, 5, func(t *T, s *Series, p int) {
		v := s.V
		n := len(v)
		sc := maxAbs(v)
		nm := func(f string) string { return fmt.Sprintf("%s(%d)", f, p) }
		va := rVar(p, v)
		cmpS(t, s, nm("Variance"), ta.Variance(cp(v), p), va, sc*sc, 1e-11)
		for _, nb := range []float64{1, 2, 0.5, 3} {
			got := ta.StdDev(cp(v), p, nb)
			if len(got) != n {
				t.Failf("%s of %s has %d values", nm("StdDev"), s, len(got))
			}
			for k := range got {
				// compared through its square: a root magnifies rounding near zero
				w := math.Sqrt(va[k]) * nb
				if got[k] < 0 || math.IsNaN(got[k]) || math.Abs(got[k]*got[k]-w*w) > 1e-11*(w*w+sc*sc*nb*nb) {
					t.Failf("%s times %g of %s at %d is %v, expected %v", nm("StdDev"), nb, s, k, got[k], w)
				}
			}
		}
		dv := rDev(p, v)
		cmpS(t, s, nm("Dev"), ta.Dev(cp(v), p), dv, sc, 1e-11)
		for q := 1; q <= 3; q++ {
			ma := rSma(q, v)
			cmpS(t, s, nm("MeanDeviation"), ta.MeanDeviation(cp(v), p, cp(ma)), rMeanDev(v, p, ma), sc, 1e-11)
			cc := make([]float64, n)
			md := rMeanDev(v, p, ma)
			for k := p - 1; k < n; k++ {
				cc[k] = guardRatio(s, v[k]-ma[k], 0.015*md[k], sc, md[k])
			}
			cmpQuot(t, s, fmt.Sprintf("CCI(%d,%d)", p, q), ta.CCI(cp(v), p, q), cc, md, sc)
		}
		cc := make([]float64, n)
		ma := rMA(p, v)
		for k := p - 1; k < n; k++ {
			cc[k] = guardRatio(s, v[k]-ma[k], 0.015*dv[k], sc, dv[k])
		}
		cmpQuot(t, s, nm("AiCoinCCI"), ta.AiCoinCCI(cp(v), p, 0.015), cc, dv, sc)
		if p == 1 && n > 0 {
			m := mean(v)
			if g := ta.Mean(cp(v)); !near(g, m, 1e-12*sc) {
				t.Failf("Mean of %s is %v, expected %v", s, g, m)
			}
			sum, sq := 0.0, 0.0
			for _, x := range v {
				sum += x
				sq += (x - m) * (x - m)
			}
			if g := ta.Cum(cp(v)); !near(g, sum, 1e-12*sc*float64(n)) {
				t.Failf("Cum of %s is %v, expected %v", s, g, sum)
			}
			w := sq / float64(n)
			if g := ta.SD(cp(v)); !(g >= 0) || math.Abs(g*g-w) > 1e-11*(w+sc*sc) {
				t.Failf("SD of %s is %v, expected %v", s, g, math.Sqrt(w))
			}
		}
		if n == 0 {
			if g := ta.SD(nil); g != 0 {
				t.Failf("SD of an empty series is %v", g)
			}
			if g := ta.SD([]float64{}); g != 0 {
				t.Failf("SD of an empty series is %v", g)
			}
			if g := ta.Cum(nil); g != 0 {
				t.Failf("Cum of an empty series is %v", g)
			}
		}
	})
}

// guardRatio: num/den, zero where the deviation is zero, undecided where it
// is only rounding away from zero.
func guardRatio(s *Series, num, den, scale, dev float64) float64 {
	if dev == 0 && !strings.Contains(s.Name, "decimal") {
		return 0
	}
	if dev <= 1e-9*scale {
		return nan
	}
	return num / den
}

// ---------------------------------------------------------- C13 regression

func checkC13(c *Ctx) {
	c.overSeries(6, 5, func(t *T, s *Series, p int) {
		v := s.V
		n := len(v)
		sc := maxAbs(v)
		if p >= 2 {
			val, slope, icpt, ang := rLinReg(v, p)
			nm := func(f string) string { return fmt.Sprintf("%s(%d)", f, p) }
			cmpS(t, s, nm("LinearReg"), ta.LinearReg(cp(v), p), val, sc, 1e-9)
			cmpS(t, s, nm("LinearRegSlope"), ta.LinearRegSlope(cp(v), p), slope, sc, 1e-9)
			cmpS(t, s, nm("LinearRegIntercept"), ta.LinearRegIntercept(cp(v), p), icpt, sc, 1e-9)
			got := ta.LinearRegAngle(cp(v), p)
			if len(got) != n {
				t.Failf("%s of %s has %d values", nm("LinearRegAngle"), s, len(got))
			}
			for k := range got {
				// through the slope: the angle is flat for steep slopes
				if math.Abs(got[k]-ang[k]) > 60*1e-9*(sc+1) {
					t.Failf("%s of %s at %d is %v, expected %v", nm("LinearRegAngle"), s, k, got[k], ang[k])
				}
			}
		}
		xs := [][]float64{seq(n), mapf(seq(n), func(k float64) float64 { return k*k*0.5 - 4 }), mapf(seq(n), func(k float64) float64 { return float64(int(k)*5%7) - 1.5*k })}
		for xi, x := range xs {
			if n == 0 || n > 40 && xi > 0 {
				continue
			}
			sx := maxAbs(x) + 1
			whole := distinct(x)
			if p == 1 && whole {
				m, b := rLine(x, v)
				gm, gb := utils.LeastSquare(cp(x), cp(v))
				if !near(gm, m, 1e-8*(math.Abs(m)+sc)) || !near(gb, b, 1e-8*(math.Abs(b)+sc*sx)) {
					t.Failf("LeastSquare of %s over x%v is %v, %v, expected %v, %v", s, x, gm, gb, m, b)
				}
				cmpS(t, s, "LinearRegressionUsingLeastSquare", utils.LinearRegressionUsingLeastSquare(cp(x), cp(v)), mapf(x, func(z float64) float64 { return m*z + b }), sc*sx, 1e-8)
			}
			wm, wb, wr := make([]float64, n), make([]float64, n), make([]float64, n)
			for k := range v {
				a := win(k, p)
				wx := x[a : k+1]
				if !distinct(wx) {
					wm[k], wb[k], wr[k] = nan, nan, nan
					continue
				}
				wm[k], wb[k] = rLine(wx, v[a:k+1])
				wr[k] = wm[k]*x[k] + wb[k]
			}
			gm, gb := utils.MovingLeastSquare(p, cp(x), cp(v))
			tol := 1e-8
			if xi == 1 {
				tol = 1e-6
			}
			cmpS(t, s, fmt.Sprintf("MovingLeastSquare(%d) slope over x%d", p, xi), gm, wm, sc, tol)
			cmpS(t, s, fmt.Sprintf("MovingLeastSquare(%d) intercept over x%d", p, xi), gb, wb, sc*sx, tol)
			cmpS(t, s, fmt.Sprintf("MovingLinearRegressionUsingLeastSquare(%d) over x%d", p, xi), utils.MovingLinearRegressionUsingLeastSquare(p, cp(x), cp(v)), wr, sc*sx, tol)
		}
	})
}

// distinct: a single point, or not all equal.
func distinct(x []float64) bool {
	if len(x) == 1 {
		return true
	}
	for _, y := range x {
		if y != x[0] {
			return true
		}
	}
	return false
}

// -------------------------------------------------------------- C14 pivots

func pivotCase(t *T, s *Series, top int) {
	v := s.V
	n := len(v)
	for l := 0; l <= top; l++ {
		for r := 0; r <= top; r++ {
			ph, pl := make([]float64, n), make([]float64, n)
			for k := l + r; k < n; k++ {
				x := v[k-r]
				hi, lo := x, x
				for j := k - r - l; j <= k; j++ {
					hi, lo = math.Max(hi, v[j]), math.Min(lo, v[j])
				}
				if x == hi {
					ph[k] = x
				}
				if x == lo {
					pl[k] = x
				}
			}
			cmpS(t, s, fmt.Sprintf("PivotHigh(%d,%d)", l, r), ta.PivotHigh(cp(v), l, r), ph, 0, 0)
			cmpS(t, s, fmt.Sprintf("PivotLow(%d,%d)", l, r), ta.PivotLow(cp(v), l, r), pl, 0, 0)
			for k := 0; k < n; k++ {
				a, b := max(0, k-l), min(n-1, k+r)
				hi, lo := v[k], v[k]
				for j := a; j <= b; j++ {
					hi, lo = math.Max(hi, v[j]), math.Min(lo, v[j])
				}
				g, pos := ta.PivotMax(cp(v), k, l, r)
				if g != hi || pos < a || pos > b || v[pos] != hi {
					t.Failf("PivotMax(%d,%d,%d) of %s is %v at %d, expected %v", k, l, r, s, g, pos, hi)
				}
				g, pos = ta.PivotMin(cp(v), k, l, r)
				if g != lo || pos < a || pos > b || v[pos] != lo {
					t.Failf("PivotMin(%d,%d,%d) of %s is %v at %d, expected %v", k, l, r, s, g, pos, lo)
				}
			}
			t.States(1)
		}
	}
	if n >= 2 {
		for _, lev := range append([]float64{-30, -1, 0, 1.5, 100}, v...) {
			a, b := v[n-2], v[n-1]
			if g, w := ta.CrossOver(cp(v), lev), b > lev && a < lev; g != w {
				t.Failf("CrossOver(%s, %g) is %v", s, lev, g)
			}
			if g, w := ta.CrossUnder(cp(v), lev), b < lev && a > lev; g != w {
				t.Failf("CrossUnder(%s, %g) is %v", s, lev, g)
			}
		}
	}
	t.Steps(n)
}

func checkC14(c *Ctx) {
	L, n := 7, 8
	if c.Thorough {
		L, n = 9, 8
	}
	c.Bound("every sequence of length 0..%d over 4 values of either sign, every order type of %d values with ties, every left and right from 0 to 4, every position and level", L, n)
	for _, s := range shortSeries(L, 4) {
		s := s
		if !c.Case(s.String, func(t *T) { pivotCase(t, &s, 4) }) {
			return
		}
	}
	pats := weakPatterns(n)
	for lo := 0; lo < len(pats); lo += 32 {
		lo := lo
		if !c.Case(func() string { return fmt.Sprintf("order types %d..%d of %d values", lo, lo+31, n) }, func(t *T) {
			for _, pat := range pats[lo:min(len(pats), lo+32)] {
				v := make([]float64, n)
				for k, x := range pat {
					v[k] = float64(x)*1.5 - 3
				}
				pivotCase(t, &Series{"", v}, 3)
			}
		}) {
			return
		}
	}
	ls := longSeries([]int{13, 40, 90, 300})
	c.Bound("%d longer series, left and right from 0 to 12", len(ls))
	for _, s := range append(ls, c.gallerySeries(1, 2, 3, 5, 9, 14)...) {
		s := s
		if !c.Case(s.String, func(t *T) { pivotCase(t, &s, 12) }) {
			return
		}
	}
}

// --------------------------------------------------------- C15 elementwise

var specials = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 2.5, -2.5, 3, -7.25, 1e-300, -1e-300, 5e-324, 1e300, -1e300, math.MaxFloat64, 100.125}

func eachCmp(t *T, what string, in []float64, got []float64, want func(k int) float64, rel float64) {
	if len(got) != len(in) {
		t.Failf("%s of %v has %d values", what, in, len(got))
	}
	for k := range in {
		w := want(k)
		if same(got[k], w) || math.Abs(got[k]-w) <= rel*math.Abs(w) {
			continue
		}
		t.Failf("%s of %v at %d is %v, expected %v", what, in, k, got[k], w)
	}
}

func elementCase(t *T, v, w []float64) {
	zero := func(x float64) float64 {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return 0
		}
		return x
	}
	eachCmp(t, "Add", v, ta.Add(cp(v), cp(w)), func(k int) float64 { return v[k] + w[k] }, 0)
	eachCmp(t, "Subtract", v, ta.Subtract(cp(v), cp(w)), func(k int) float64 { return v[k] - w[k] }, 0)
	eachCmp(t, "Multiply", v, ta.Multiply(cp(v), cp(w)), func(k int) float64 { return v[k] * w[k] }, 0)
	eachCmp(t, "Divide", v, ta.Divide(cp(v), cp(w)), func(k int) float64 { return zero(v[k] / w[k]) }, 0)
	for _, s := range []float64{0, 1, -1, 3, 0.1, -2.5, 1000} {
		eachCmp(t, fmt.Sprintf("AddBy %g", s), v, ta.AddBy(cp(v), s), func(k int) float64 { return v[k] + s }, 0)
		eachCmp(t, fmt.Sprintf("MultiplyBy %g", s), v, ta.MultiplyBy(cp(v), s), func(k int) float64 { return v[k] * s }, 0)
		if s != 0 {
			got := ta.DivideBy(cp(v), s)
			for k := range v {
				if math.Abs(v[k]) < 1e-290 && v[k] != 0 && math.Abs(got[k]-v[k]/s) < 1e-300 {
					got[k] = v[k] / s // the reciprocal of a constant rounds differently among denormals
				}
			}
			eachCmp(t, fmt.Sprintf("DivideBy %g", s), v, got, func(k int) float64 { return v[k] / s }, 1e-14)
		}
	}
	for _, e := range []float64{0, 1, 2, 3, -1, 0.5} {
		eachCmp(t, fmt.Sprintf("Pow %g", e), v, ta.Pow(cp(v), e), func(k int) float64 { return math.Pow(v[k], e) }, 1e-14)
	}
	eachCmp(t, "Sqrt", v, ta.Sqrt(cp(v)), func(k int) float64 { return math.Sqrt(v[k]) }, 1e-15)
	eachCmp(t, "Abs", v, ta.Abs(cp(v)), func(k int) float64 { return math.Abs(v[k]) }, 0)
	eachCmp(t, "ExtractSign", v, ta.ExtractSign(cp(v)), func(k int) float64 {
		if v[k] < 0 {
			return -1
		}
		return 1
	}, 0)
	eachCmp(t, "KeepPositives", v, ta.KeepPositives(cp(v)), func(k int) float64 { return math.Max(v[k], 0) }, 0)
	eachCmp(t, "KeepNegatives", v, ta.KeepNegatives(cp(v)), func(k int) float64 { return math.Min(v[k], 0) }, 0)
	for p := 0; p <= len(v)+2; p++ {
		for _, fill := range []float64{0, -3.5, 7} {
			eachCmp(t, fmt.Sprintf("ShiftRightAndFillBy(%d,%g)", p, fill), v, ta.ShiftRightAndFillBy(p, fill, cp(v)), func(k int) float64 {
				if k < p {
					return fill
				}
				return v[k-p]
			}, 0)
		}
		eachCmp(t, fmt.Sprintf("ShiftRight(%d)", p), v, ta.ShiftRight(p, cp(v)), func(k int) float64 {
			if k < p {
				return 0
			}
			return v[k-p]
		}, 0)
		eachCmp(t, fmt.Sprintf("Diff(%d)", p), v, ta.Diff(cp(v), p), func(k int) float64 {
			if k < p {
				return v[k]
			}
			return v[k] - v[k-p]
		}, 0)
		got := ta.PercentDiff(cp(v), p)
		eachCmp(t, fmt.Sprintf("PercentDiff(%d)", p), v, got, func(k int) float64 {
			if k < p {
				return 0
			}
			if v[k-p] == 0 || math.Abs(v[k-p]) < 1e-200 || math.Abs(v[k]) > 1e200 {
				return got[k] // not judged
			}
			return (v[k] - v[k-p]) / v[k-p]
		}, 1e-12)
	}
	for _, d := range []int{0, 1, 2, 3, 4, 8} {
		all := ta.RoundDigitsAll(cp(v), d)
		f := math.Pow(10, float64(d))
		for k, x := range v {
			one := ta.RoundDigits(x, d)
			if !same(one, all[k]) {
				t.Failf("RoundDigitsAll(%v, %d) at %d is %v but RoundDigits is %v", v, d, k, all[k], one)
			}
			if math.Abs(x) > 1e6 {
				continue
			}
			checkRound(t, fmt.Sprintf("RoundDigits(%v, %d)", x, d), x, f, one)
		}
	}
	// not-a-number replacement, in place
	for _, r := range []float64{0, -1, 2.5} {
		in := cp(v)
		for k := range in {
			if k%2 == 1 {
				in[k] = math.NaN()
			}
		}
		want := cp(in)
		for k := range want {
			if math.IsNaN(want[k]) {
				want[k] = r
			}
			if g := ta.Nz(in[k], r); !same(g, want[k]) {
				t.Failf("Nz(%v, %g) is %v", in[k], r, g)
			}
		}
		orig := cp(in)
		got := ta.Nzs(in, r)
		eachCmp(t, fmt.Sprintf("Nzs %g", r), orig, got, func(k int) float64 { return want[k] }, 0)
	}
	t.Steps(len(v))
}

// checkRound: got is the multiple of 1/f nearest to x; exact ties go away
// from zero.
func checkRound(t *T, what string, x, f, got float64) {
	y := x * f
	r := math.Round(y)
	if math.Abs(math.Abs(y-math.Trunc(y))-0.5) < 1e-9 && y*2 != math.Trunc(y*2) {
		// a tie up to rounding: either neighbour
		if math.Abs(got*f-y) > 0.5+1e-6 || math.Abs(got*f-math.Round(got*f)) > 1e-6 {
			t.Failf("%s is %v", what, got)
		}
		return
	}
	if !near(got, r/f, 1e-12*math.Abs(r/f)+1e-300) {
		t.Failf("%s is %v, expected %v", what, got, r/f)
	}
}

func checkC15(c *Ctx) {
	L := 6
	if c.Thorough {
		L = 7
	}
	ls := append(longSeries([]int{13, 40, 140, 1030}), longSeries([]int{5000})[13])
	c.Bound("every sequence of length 0..%d over 5 values against every rotation of it, %d longer series against six", L, len(ls))
	for _, s := range append(append(shortSeries(L, 5), ls...), c.gallerySeries(1, 2, 3, 5, 9, 14, 33)...) {
		s := s
		if !c.Case(func() string { return "elementwise over " + s.String() }, func(t *T) {
			n := len(s.V)
			step := 1
			if n > 20 {
				step = n/6 + 1
			}
			for r := 0; r < max(1, n); r += step {
				w := make([]float64, n)
				for k := range w {
					w[k] = s.V[(k+r)%n]
				}
				elementCase(t, s.V, w)
				t.States(1)
			}
		}) {
			return
		}
	}
	c.Bound("every pair of %d special values (zeros, denormals, largest) at every position of 3", len(specials))
	for a := range specials {
		a := a
		if !c.Case(func() string { return fmt.Sprintf("elementwise with special value %v", specials[a]) }, func(t *T) {
			for _, b := range specials {
				for p := 0; p < 3; p++ {
					v, w := []float64{1, 2, 3}, []float64{4, -5, 6}
					v[p], w[p] = specials[a], b
					elementCase(t, v, w)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	c.Bound("rounding of every multiple of 1/16 from -50 to 50, of 1/1000 from -3 to 3 and of 1234.5 to 1e6 to -2..6 digits")
	for d := -2; d <= 6; d++ {
		d := d
		if !c.Case(func() string { return fmt.Sprintf("rounding to %d digits", d) }, func(t *T) {
			f := math.Pow(10, float64(d))
			for k := -800; k <= 800; k++ {
				x := float64(k) / 16
				checkRound(t, fmt.Sprintf("RoundDigits(%v, %d)", x, d), x, f, ta.RoundDigits(x, d))
			}
			for k := -3000; k <= 3000; k++ {
				x := float64(k) / 1000
				checkRound(t, fmt.Sprintf("RoundDigits(%v, %d)", x, d), x, f, ta.RoundDigits(x, d))
			}
			for k := -800; k <= 800; k++ {
				x := float64(k) * 1234.5
				checkRound(t, fmt.Sprintf("RoundDigits(%v, %d)", x, d), x, f, ta.RoundDigits(x, d))
			}
			t.Steps(2*1601 + 6001)
		}) {
			return
		}
	}
	c.Bound("every number range of 0..60, 127..129, 255..257 and 1000 numbers, 7 starts, 8 steps")
	var counts []int
	for n := 0; n <= 60; n++ {
		counts = append(counts, n)
	}
	for _, n := range append(counts, 127, 128, 129, 255, 256, 257, 1000) {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("number ranges of %d numbers", n) }, func(t *T) {
			for _, b := range []float64{0, 1, -1, 2.5, -7.75, 1000, 0.1} {
				for _, st := range []float64{1, 2, 0.5, 0.25, 3, -1, -0.5, 0.1} {
					got := ta.GenerateNumbers(b, b+st*float64(n), st)
					if len(got) != n {
						t.Failf("GenerateNumbers(%g, %g, %g) has %d numbers, expected %d", b, b+st*float64(n), st, len(got), n)
					}
					for k, x := range got {
						if !near(x, b+st*float64(k), 1e-12*(math.Abs(b)+math.Abs(st)*float64(60+n))) {
							t.Failf("GenerateNumbers(%g, .., %g) at %d is %v", b, st, k, x)
						}
					}
					t.Steps(n)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
}

// --------------------------------------------------------- C16 true ranges

func rangesCase(t *T, h *Hist, H, L, C []float64, ps []int) {
	sc := maxAbs(H, L, C)
	s := &Series{h.Desc(), nil}
	tr := rTR(H, L, C)
	cmpS(t, s, "TRange", ta.TRange(cp(H), cp(L), cp(C)), tr, sc, 1e-12)
	cmpS(t, s, "TrueRange", ta.TrueRange(cp(H), cp(L), cp(C)), tr, sc, 1e-12)
	for _, p := range ps {
		cmpS(t, s, fmt.Sprintf("Atr(%d)", p), ta.Atr(cp(H), cp(L), cp(C), p), rAtr(H, L, C, p), sc, 1e-11)
		na := ta.Natr(cp(H), cp(L), cp(C), p)
		wn := rNatr(H, L, C, p)
		if len(na) != len(wn) {
			t.Failf("Natr(%d) of %s has %d values", p, s, len(na))
		}
		for k := range wn {
			tol := 1e-10 * (math.Abs(wn[k]) + 100)
			if C[k] != 0 {
				tol += 1e-10 * 100 * sc / math.Abs(C[k])
			}
			if !near(na[k], wn[k], tol) {
				t.Failf("Natr(%d) of %s at %d is %v, expected %v", p, s, k, na[k], wn[k])
			}
		}
		wk, wd := rStoch(C, H, L, p)
		gk, gd := ta.Stochastic(cp(C), cp(H), cp(L), p)
		cmpS(t, s, fmt.Sprintf("Stochastic(%d) K", p), gk, wk, 100, 1e-9)
		cmpS(t, s, fmt.Sprintf("Stochastic(%d) D", p), gd, wd, 100, 1e-9)
		t.States(1)
	}
	t.Steps(h.N())
}

func checkC16(c *Ctx) {
	L := 5
	if c.Thorough {
		L = 6
	}
	c.Bound("every candle sequence of length 0..%d over %d candles, as is and shifted so that some closes are zero, every period from 1 to two beyond the length", L, len(alphabet))
	for _, g := range shortHists(L, len(alphabet)) {
		g := g
		if !c.Case(func() string { return "ranges of " + g.get().Desc() }, func(t *T) {
			h := g.get()
			ps := periodsFor(h.N())
			rangesCase(t, h, h.H, h.L, h.C, ps)
			sh := func(x float64) float64 { return x - 48 }
			rangesCase(t, h, mapf(h.H, sh), mapf(h.L, sh), mapf(h.C, sh), ps)
		}) {
			return
		}
	}
	hs := append(longHists(c.Thorough), decHists(140)...)
	hs = append(hs, devHists([]int{6, 13}, 36, 1)...)
	hs = append(append(hs, c.giants()...), huge(70000)...)
	hs = append(hs, c.deepHists(2)...)
	c.Bound("%d longer histories, every period to two beyond the length up to 64 candles, 20 or more for longer", len(hs))
	for _, g := range hs {
		g := g
		if !c.Case(func() string { return "ranges of " + g.get().Desc() }, func(t *T) {
			h := g.get()
			rangesCase(t, h, h.H, h.L, h.C, periodsFor(h.N()))
		}) {
			return
		}
	}
}

// -------------------------------------------------------------- C17 purity

// taFn is one exported numeric series function: so many input series, an
// integer parameter, the series it returns.
type taFn struct {
	name    string
	in      int
	inplace bool
	f       func(p int, a ...[]float64) [][]float64
}

func out1(v []float64) [][]float64    { return [][]float64{v} }
func out2(a, b []float64) [][]float64 { return [][]float64{a, b} }
func num1(x ...float64) [][]float64   { return [][]float64{append([]float64{}, x...)} }

var taFns = []taFn{
	{"LinearReg", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.LinearReg(a[0], p)) }},
	{"LinearRegAngle", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.LinearRegAngle(a[0], p)) }},
	{"LinearRegIntercept", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.LinearRegIntercept(a[0], p)) }},
	{"LinearRegSlope", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.LinearRegSlope(a[0], p)) }},
	{"TRange", 3, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.TRange(a[0], a[1], a[2])) }},
	{"TrueRange", 3, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.TrueRange(a[0], a[1], a[2])) }},
	{"Stochastic", 3, false, func(p int, a ...[]float64) [][]float64 { return out2(ta.Stochastic(a[2], a[0], a[1], p)) }},
	{"SD", 1, false, func(p int, a ...[]float64) [][]float64 { return num1(ta.SD(a[0])) }},
	{"MA", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.MA(a[0], p)) }},
	{"Sma", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Sma(p, a[0])) }},
	{"Rma", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Rma(p, a[0])) }},
	{"Dema", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Dema(p, a[0])) }},
	{"Ema", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Ema(p, a[0])) }},
	{"Wma", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Wma(p, a[0])) }},
	{"MeanDeviation", 2, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.MeanDeviation(a[0], p, a[1])) }},
	{"CCI", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.CCI(a[0], p, p+1)) }},
	{"AiCoinCCI", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.AiCoinCCI(a[0], p, 0.015)) }},
	{"Atr", 3, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Atr(a[0], a[1], a[2], p)) }},
	{"Natr", 3, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Natr(a[0], a[1], a[2], p)) }},
	{"Cum", 1, false, func(p int, a ...[]float64) [][]float64 { return num1(ta.Cum(a[0])) }},
	{"MultiplyBy", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.MultiplyBy(a[0], float64(p))) }},
	{"Multiply", 2, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Multiply(a[0], a[1])) }},
	{"DivideBy", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.DivideBy(a[0], float64(p))) }},
	{"Divide", 2, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Divide(a[0], a[1])) }},
	{"Add", 2, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Add(a[0], a[1])) }},
	{"AddBy", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.AddBy(a[0], float64(p-1))) }},
	{"Subtract", 2, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Subtract(a[0], a[1])) }},
	{"Diff", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Diff(a[0], p-1)) }},
	{"PercentDiff", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.PercentDiff(a[0], p)) }},
	{"ShiftRightAndFillBy", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.ShiftRightAndFillBy(p-1, 2.5, a[0])) }},
	{"ShiftRight", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.ShiftRight(p-1, a[0])) }},
	{"RoundDigitsAll", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.RoundDigitsAll(a[0], min(p-1, 9))) }},
	{"GenerateNumbers", 0, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.GenerateNumbers(0, float64(p-1), 1)) }},
	{"Pow", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Pow(a[0], float64(min(p, 4)))) }},
	{"ExtractSign", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.ExtractSign(a[0])) }},
	{"KeepPositives", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.KeepPositives(a[0])) }},
	{"KeepNegatives", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.KeepNegatives(a[0])) }},
	{"Max", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Max(p, a[0])) }},
	{"Min", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Min(p, a[0])) }},
	{"Highest", 1, false, func(p int, a ...[]float64) [][]float64 {
		if len(a[0]) == 0 {
			return nil
		}
		return num1(ta.Highest(a[0], p))
	}},
	{"Lowest", 1, false, func(p int, a ...[]float64) [][]float64 {
		if len(a[0]) == 0 {
			return nil
		}
		return num1(ta.Lowest(a[0], p))
	}},
	{"PivotHigh", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.PivotHigh(a[0], p-1, p/2)) }},
	{"PivotLow", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.PivotLow(a[0], p/2, p-1)) }},
	{"PivotMax", 1, false, func(p int, a ...[]float64) [][]float64 {
		r := []float64{}
		for k := range a[0] {
			x, pos := ta.PivotMax(a[0], k, p-1, p)
			r = append(r, x, float64(pos))
		}
		return out1(r)
	}},
	{"PivotMin", 1, false, func(p int, a ...[]float64) [][]float64 {
		r := []float64{}
		for k := range a[0] {
			x, pos := ta.PivotMin(a[0], k, p-1, p)
			r = append(r, x, float64(pos))
		}
		return out1(r)
	}},
	{"Sum", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Sum(p, a[0])) }},
	{"Sqrt", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Sqrt(a[0])) }},
	{"Abs", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Abs(a[0])) }},
	{"Mean", 1, false, func(p int, a ...[]float64) [][]float64 { return num1(ta.Mean(a[0])) }},
	{"Variance", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Variance(a[0], p)) }},
	{"Dev", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.Dev(a[0], p)) }},
	{"StdDev", 1, false, func(p int, a ...[]float64) [][]float64 { return out1(ta.StdDev(a[0], p, float64(1+p%2))) }},
	{"Nzs", 1, true, func(p int, a ...[]float64) [][]float64 { return num1(ta.Nzs(a[0], float64(p))...) }},
	{"CrossOver", 1, false, func(p int, a ...[]float64) [][]float64 {
		if len(a[0]) < 2 {
			return nil
		}
		return num1(b2f(ta.CrossOver(a[0], float64(p)/2)), b2f(ta.CrossUnder(a[0], float64(p)/2)))
	}},
	{"LeastSquare", 2, false, func(p int, a ...[]float64) [][]float64 {
		m, b := utils.LeastSquare(a[0], a[1])
		return num1(m, b)
	}},
	{"MovingLeastSquare", 2, false, func(p int, a ...[]float64) [][]float64 { return out2(utils.MovingLeastSquare(p, a[0], a[1])) }},
	{"LinearRegressionUsingLeastSquare", 2, false, func(p int, a ...[]float64) [][]float64 {
		return out1(utils.LinearRegressionUsingLeastSquare(a[0], a[1]))
	}},
	{"MovingLinearRegressionUsingLeastSquare", 2, false, func(p int, a ...[]float64) [][]float64 {
		return out1(utils.MovingLinearRegressionUsingLeastSquare(p, a[0], a[1]))
	}},
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// guarded is a series inside a larger array whose surroundings must survive.
type guarded struct {
	buf, v []float64
	orig   []float64
}

const guardLen = 6

func guardSeries(v []float64) *guarded {
	g := &guarded{buf: make([]float64, len(v)+2*guardLen)}
	for k := range g.buf {
		g.buf[k] = 1000 + float64(k)
	}
	copy(g.buf[guardLen:], v)
	g.v = g.buf[guardLen : guardLen+len(v)] // capacity reaches into the guard
	g.orig = cp(g.buf)
	return g
}

func (g *guarded) diff() string {
	for k := range g.buf {
		if math.Float64bits(g.buf[k]) != math.Float64bits(g.orig[k]) {
			return fmt.Sprintf("position %d changed from %v to %v", k-guardLen, g.orig[k], g.buf[k])
		}
	}
	return ""
}

// overlap: do the arrays behind two slices (to capacity) share memory?
func overlap(a, b []float64) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return pa < pb+uintptr(cap(b))*8 && pb < pa+uintptr(cap(a))*8
}

func sameResult(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if len(a[k]) != len(b[k]) {
			return false
		}
		for j := range a[k] {
			if !same(a[k][j], b[k][j]) {
				return false
			}
		}
	}
	return true
}

func copyResult(a [][]float64) [][]float64 {
	r := make([][]float64, len(a))
	for k := range a {
		r[k] = cp(a[k])
	}
	return r
}

// pureCall runs fn once on guarded copies and checks the inputs and memory.
func pureCall(t *T, fn *taFn, p int, ins [][]float64) [][]float64 {
	gs := make([]*guarded, fn.in)
	args := make([][]float64, fn.in)
	for k := range gs {
		gs[k] = guardSeries(ins[k])
		args[k] = gs[k].v
	}
	out := fn.f(p, args...)
	t.Steps(1)
	for k, g := range gs {
		if fn.inplace {
			continue
		}
		if d := g.diff(); d != "" {
			t.Failf("%s with parameter %d over %v changes its input series %d: %s", fn.name, p, ins[:fn.in], k, d)
		}
	}
	for a := range out {
		for k := range gs {
			if overlap(out[a], gs[k].buf) {
				t.Failf("%s with parameter %d over %v returns memory of its input", fn.name, p, ins[:fn.in])
			}
		}
		for b := 0; b < a; b++ {
			if overlap(out[a], out[b]) {
				t.Failf("%s with parameter %d returns two series that share memory", fn.name, p)
			}
		}
	}
	return out
}

func checkC17(c *Ctx) {
	L := 5
	if c.Thorough {
		L = 6
	}
	ins3 := func(v []float64) [][]float64 {
		n := len(v)
		lo, cl := make([]float64, n), make([]float64, n)
		for k := range v {
			lo[k], cl[k] = v[k]-float64(k%3), v[(k+1)%n]
		}
		return [][]float64{v, lo, cl}
	}
	c.Bound("every function of %d on every sequence of length 0..%d over 5 values and 80 longer series, every small period: inputs and memory", len(taFns), L)
	all := append(shortSeries(L, 5), longSeries([]int{13, 34, 60})...)
	all = append(all, c.gallerySeries(2, 3, 5, 9, 14)...)
	for _, s := range all {
		s := s
		if !c.Case(func() string { return "every function over " + s.String() }, func(t *T) {
			ins := ins3(s.V)
			for fi := range taFns {
				fn := &taFns[fi]
				for _, p := range []int{1, 2, 3, 5, 14, len(s.V) + 1} {
					a := pureCall(t, fn, p, ins)
					keep := copyResult(a)
					b := pureCall(t, fn, p, ins)
					if !sameResult(a, keep) {
						t.Failf("%s with parameter %d over %s: a second call changes the first result", fn.name, p, &s)
					}
					if !sameResult(a, b) {
						t.Failf("%s with parameter %d over %s gives %v and then %v", fn.name, p, &s, a, b)
					}
					for x := range a {
						for y := range b {
							if overlap(a[x], b[y]) {
								t.Failf("%s with parameter %d: two results share memory", fn.name, p)
							}
						}
					}
					for x := range a { // destroying one result must not reach the next
						for j := range a[x][:cap(a[x])] {
							a[x][:cap(a[x])][j] = -12345
						}
					}
					d := pureCall(t, fn, p, ins)
					if !sameResult(d, keep) {
						t.Failf("%s with parameter %d over %s: after its result was overwritten it gives %v instead of %v", fn.name, p, &s, d, keep)
					}
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	// every ordered pair (triple in the thorough tier) of functions: f; g; f again
	var pool [][][]float64
	for _, v := range [][]float64{{}, {3}, {3, 1.5, 3.75, -1.5, 0}, bases2(6, 20), bases2(13, 33)} {
		pool = append(pool, ins3(v))
	}
	ps := []int{1, 2, 5, 30}
	c.Bound("every ordered pair of functions f, g on every pair of 5 inputs and 4 parameters: f, g, f gives f's result twice and keeps the first")
	for fi := range taFns {
		for gi := range taFns {
			fn, gn := &taFns[fi], &taFns[gi]
			if !c.Case(func() string { return fmt.Sprintf("%s, then %s, then %s", fn.name, gn.name, fn.name) }, func(t *T) {
				for a := range pool {
					for _, p := range ps {
						r1 := pureCall(t, fn, p, pool[a])
						k1 := copyResult(r1)
						for b := range pool {
							for _, q := range ps {
								r2 := pureCall(t, gn, q, pool[b])
								for x := range r1 {
									for y := range r2 {
										if overlap(r1[x], r2[y]) {
											t.Failf("results of %s and %s share memory", fn.name, gn.name)
										}
									}
								}
								if !sameResult(r1, k1) {
									t.Failf("%s(%d) changed an earlier result of %s(%d)", gn.name, q, fn.name, p)
								}
								t.States(1)
							}
						}
						r3 := pureCall(t, fn, p, pool[a])
						if !sameResult(r3, k1) {
							t.Failf("%s(%d) over input %d gives another result after %s was called: %v, before %v", fn.name, p, a, gn.name, r3, k1)
						}
					}
				}
			}) {
				return
			}
		}
	}
	c.lookFunctions()
}

func bases2(bi, n int) []float64 {
	v := make([]float64, n)
	for k, x := range bases[bi].path(n) {
		v[k] = float64(x) * 0.75
	}
	return v
}

const whatSeries = "a state is a number series with a period (or other parameter); a transition is one value the real function reads; each trace is one series whose every result was compared with the direct definition"

func init() {
	as := "results are compared with direct O(n*period) definitions up to rounding (1e-9..1e-12 of the largest magnitude in the series)"
	register("C10", "model_checking", whatSeries, checkC10, as)
	register("C11", "model_checking", whatSeries, checkC11, as)
	register("C12", "model_checking", whatSeries, checkC12, as, "a quotient by a deviation that differs from zero by rounding only is not judged")
	register("C13", "model_checking", whatSeries, checkC13, as, "windows whose abscissas are all equal have no regression line and are not judged")
	register("C14", "model_checking", whatSeries, checkC14)
	register("C15", "model_checking", whatSeries, checkC15, "relative differences from a zero previous value, and number ranges whose length is not a whole number of steps, are not judged")
	register("C16", "model_checking", whatSeries, checkC16, as)
	register("C17", "model_checking", "a state is a sequence of function calls (up to three) with their inputs; a transition is one call of the real function inside guarded memory; each trace is one group of call sequences", checkC17)
}
