package main

import (
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

// ------------------------------------------------------------- snapshots

type snapshot struct {
	it   *klines.Item
	head klines.Item
	ptrs []*klines.Candle
	vals []klines.Candle

	room, rptrs []*klines.Candle // what the array behind Candles holds after them
	rvals       []klines.Candle
}

func snap(it *klines.Item) *snapshot {
	s := &snapshot{it: it, head: *it, ptrs: append([]*klines.Candle(nil), it.Candles...)}
	for _, p := range it.Candles {
		s.vals = append(s.vals, *p)
	}
	s.room = it.Candles[len(it.Candles):cap(it.Candles)]
	for _, p := range s.room {
		s.rptrs = append(s.rptrs, p)
		if p == nil {
			p = &klines.Candle{}
		}
		s.rvals = append(s.rvals, *p)
	}
	return s
}

func feq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a == b }

func sameCandle(a, b klines.Candle) bool { return a == b }

// diff: "" if the history is exactly as it was.
func (s *snapshot) diff() string {
	it := s.it
	if it.Exchange != s.head.Exchange || it.Interval != s.head.Interval || it.Symbol != s.head.Symbol || it.Code != s.head.Code {
		return fmt.Sprintf("the history's fields changed to %s %s %s %s", it.Exchange, it.Interval, it.Symbol, it.Code)
	}
	if len(it.Candles) != len(s.ptrs) {
		return fmt.Sprintf("the history has %d candles instead of %d", len(it.Candles), len(s.ptrs))
	}
	for k, p := range s.ptrs {
		if it.Candles[k] != p {
			return fmt.Sprintf("candle %d is another object than before", k)
		}
		if *p != s.vals[k] {
			return fmt.Sprintf("candle %d changed from %+v to %+v", k, s.vals[k], *p)
		}
	}
	for k, p := range s.rptrs {
		if s.room[k] != p || p != nil && *p != s.rvals[k] {
			return fmt.Sprintf("candle %d after the last one, of the longer history this one is part of, was overwritten", k+1)
		}
	}
	return ""
}

func rel(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// ------------------------------------------------------ C06 longer candles

func convertCase(t *T, h *Hist, iv klines.Interval, k int, start int64) {
	it := h.Item()
	it.Interval = iv
	sec := int64(time.Duration(iv) / time.Second)
	for j, cd := range it.Candles {
		cd.TimeUnix = start + int64(j)*sec
	}
	before := snap(it)
	out, err := it.ConvertToNewInterval(iv * klines.Interval(k))
	if d := before.diff(); d != "" {
		t.Failf("converting changed the old history: %s", d)
	}
	n := h.N()
	t.Steps(n)
	if n < k {
		if err == nil {
			t.Failf("%d candles converted to an interval of %d candles without an error", n, k)
		}
		return
	}
	if err != nil {
		t.Failf("converting %d candles by %d: error %v", n, k, err)
	}
	if out.Exchange != it.Exchange || out.Interval != iv*klines.Interval(k) {
		t.Failf("the new history has exchange %q and interval %s", out.Exchange, out.Interval)
	}
	if len(out.Candles) != n/k {
		t.Failf("%d candles by %d give %d candles", n, k, len(out.Candles))
	}
	for g, cd := range out.Candles {
		a := g * k
		hi, lo, v := h.H[a], h.L[a], 0.0
		for j := a; j < a+k; j++ {
			hi, lo, v = math.Max(hi, h.H[j]), math.Min(lo, h.L[j]), v+h.V[j]
		}
		o, cl := h.O[a], h.C[a+k-1]
		if cd == nil {
			t.Failf("new candle %d is missing", g)
		}
		if cd.TimeUnix != start+int64(a)*sec {
			t.Failf("new candle %d has time %d, expected %d", g, cd.TimeUnix, start+int64(a)*sec)
		}
		if cd.Open != o || cd.High != hi || cd.Low != lo || cd.Close != cl || !rel(cd.Volume, v) {
			t.Failf("new candle %d is O%g H%g L%g C%g V%g, expected O%g H%g L%g C%g V%g", g, cd.Open, cd.High, cd.Low, cd.Close, cd.Volume, o, hi, lo, cl, v)
		}
		if !rel(cd.ChangePercent, (cl-o)/o) || cd.IsBullMarket != (cl > o) {
			t.Failf("new candle %d has change %g and rising %v, expected %g and %v", g, cd.ChangePercent, cd.IsBullMarket, (cl-o)/o, cl > o)
		}
	}
	for _, cd := range out.Candles {
		*cd = klines.Candle{}
	}
	if d := before.diff(); d != "" {
		t.Failf("the new history shares memory with the old: %s", d)
	}
}

func checkC06(c *Ctx) {
	c.Zoned(true)
	L, K := 7, 7
	if c.Thorough {
		L = 8
	}
	starts := []int64{1700006400, 1698364800, 1700006400 + 3*86400, 1699999200, 1700001234, 86400, 7, -86400 * 3, -100000}
	ivs := []klines.Interval{klines.OneMin, klines.OneHour, klines.OneDay, klines.FifteenSecond, klines.Interval(time.Second), klines.SevenHour}
	c.Bound("every candle sequence of length 1..%d over %d candles, every k from 2 to 6, interval and start varied", L, K)
	for gi, g := range shortHists(L, K) {
		g, gi := g, gi
		if !c.Case(func() string { return "converting " + g.get().Desc() + " by every k" }, func(t *T) {
			h := g.get()
			for k := 2; k <= 6; k++ {
				if h.N() == 0 {
					it := h.Item()
					if _, err := it.ConvertToNewInterval(it.Interval * klines.Interval(k)); err == nil {
						t.Failf("an empty history is converted without an error")
					}
					continue
				}
				convertCase(t, h, ivs[(gi+k)%len(ivs)], k, starts[(gi/5+k)%len(starts)])
				t.States(1)
			}
		}) {
			return
		}
	}
	N := 80
	if c.Thorough {
		N = 160
	}
	c.Bound("every history length 1..%d, every k from 2 to 26, every interval of %d, every start of %d, 4 price shapes", N, len(ivs), len(starts))
	for n := 1; n <= N; n++ {
		for k := 2; k <= 26; k++ {
			n, k := n, k
			if !c.Case(func() string { return fmt.Sprintf("converting %d candles by %d", n, k) }, func(t *T) {
				for bi, b := range []int{6, 9, 4, 11} {
					h := mkHist(b, bi, 1+bi%3, n, false)
					for _, iv := range ivs {
						for _, s := range starts {
							convertCase(t, h, iv, k, s)
							t.States(1)
						}
					}
				}
			}) {
				return
			}
		}
	}
	c.Bound("23 long conversions, up to 70000 candles and k of 66000")
	for _, nk := range [][2]int{{180, 60}, {181, 60}, {239, 60}, {300, 7}, {300, 128}, {511, 256}, {512, 256}, {513, 2}, {1000, 3}, {1023, 4}, {1440, 1440}, {1441, 1440}, {2880, 1440}, {2879, 1440}, {4097, 64}, {10050, 5}, {10050, 5000}, {65535, 3}, {65537, 256}, {66000, 66000}, {70000, 2}, {70000, 1440}, {70001, 65536}} {
		nk := nk
		if !c.Case(func() string { return fmt.Sprintf("converting %d candles by %d", nk[0], nk[1]) }, func(t *T) {
			for bi, b := range []int{6, 9, 4, 11} {
				h := mkHist(b, bi, 1+bi%3, nk[0], false)
				for j, iv := range ivs {
					convertCase(t, h, iv, nk[1], starts[(bi+j)%len(starts)])
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	c.Bound("every removal of one or more inner candles of a history of 3..9 candles, every k from 2 to 5")
	for n := 3; n <= 9; n++ {
		for mask := 1; mask < 1<<(n-2); mask++ {
			n, mask := n, mask
			if !c.Case(func() string { return fmt.Sprintf("history of %d candles without inner candles %b", n, mask) }, func(t *T) {
				for k := 2; k <= 5; k++ {
					it := mkHist(6, 0, 1, n, false).Item()
					var keep []*klines.Candle
					for j, cd := range it.Candles {
						if j > 0 && j < n-1 && mask>>(j-1)&1 == 1 {
							continue
						}
						keep = append(keep, cd)
					}
					it.Candles = keep
					s := snap(it)
					if out, err := it.ConvertToNewInterval(it.Interval * klines.Interval(k)); err == nil {
						t.Failf("a history with missing candles is converted to %d candles", len(out.Candles))
					}
					if d := s.diff(); d != "" {
						t.Failf("a refused conversion changed the history: %s", d)
					}
					t.Steps(len(keep))
					t.States(1)
				}
			}) {
				return
			}
		}
	}
	c.Bound("every pair of old and new interval from 14 values including zero and negative, nil history")
	is := []klines.Interval{0, -1, klines.Interval(-time.Hour), klines.OneMin, 2 * klines.OneMin, klines.ThreeMin, klines.FiveMin, klines.FifteenMin, klines.OneHour, klines.SevenHour, klines.OneDay, klines.OneWeek, klines.OneMonth, klines.Interval(90 * time.Second)}
	for _, a := range is {
		for _, b := range is {
			a, b := a, b
			if !c.Case(func() string { return fmt.Sprintf("converting interval %s to %s", a, b) }, func(t *T) {
				good := a > 0 && b > a && b%a == 0
				for _, n := range []int{0, 1, 6} {
					it := mkHist(6, 0, 1, n, false).Item()
					it.Interval = a
					for j, cd := range it.Candles {
						cd.TimeUnix = t0 + int64(j)*int64(a/klines.Interval(time.Second))
					}
					_, err := it.ConvertToNewInterval(b)
					want := good && n > 0 && int64(n) >= int64(b/max(a, 1))
					if (err == nil) != want {
						t.Failf("%d candles of %s to %s: error %v", n, a, b, err)
					}
				}
				var no *klines.Item
				if _, err := no.ConvertToNewInterval(b); err == nil {
					t.Failf("a missing history is converted")
				}
				t.Steps(4)
			}) {
				return
			}
		}
	}
}

// ------------------------------------------------------------- C07 ranges

type ivl struct{ s, e int64 }

func checkC07(c *Ctx) {
	c.Zoned(true)
	nlen := 100
	if c.Thorough {
		nlen = 200
	}
	ivs := []time.Duration{time.Minute, time.Hour, 7 * time.Hour, 24 * time.Hour, 7 * 24 * time.Hour, 4 * time.Second, 100 * time.Millisecond}
	limits := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 100, 1 << 20, math.MaxUint32}
	zone := func(name string) *time.Location {
		loc, err := time.LoadLocation(name)
		if err != nil {
			panic(err)
		}
		return loc
	}
	// in the last two the clocks change within the range
	origins := []time.Time{time.Unix(1700000000, 0).UTC(), time.Unix(1709164800, 0).In(time.FixedZone("x", 19800)), time.Date(2199, 12, 31, 22, 0, 0, 0, time.UTC), time.Unix(3600*24*3, 0), time.Unix(1709856000, 0).In(zone("America/New_York")), time.Unix(1698364800, 0).In(zone("Europe/Berlin"))}
	c.Bound("every start of 8 quarter intervals, every length of 1..%d quarter intervals, %d limits, %d intervals, %d origins (past, other zone, future, near 1970, over a change of the clocks in both directions)", nlen, len(limits), len(ivs), len(origins))
	for oi, org := range origins {
		for _, iv := range ivs {
			for a := 0; a < 8; a++ {
				org, iv, a, oi := org, iv, a, oi
				if !c.Case(func() string {
					return fmt.Sprintf("ranges of %s from %s plus %d quarters", iv, org.Format(time.RFC3339), a)
				}, func(t *T) {
					for l := 1; l <= nlen; l++ {
						start := org.Truncate(iv).Add(time.Duration(a) * iv / 4)
						end := start.Add(time.Duration(l) * iv / 4)
						for _, lim := range limits {
							rangeCase(t, start, end, klines.Interval(iv), lim)
							t.States(1)
							t.Steps(1)
						}
						if g := klines.TotalCandlesPerInterval(start, end, klines.Interval(iv)); g != int64(l/4) {
							t.Failf("%d quarter intervals count as %d candles", l, g)
						}
						for _, bad := range []klines.Interval{0, -1, klines.Interval(-iv)} {
							if g := klines.TotalCandlesPerInterval(start, end, bad); g != 0 {
								t.Failf("%d candles for interval %d", g, bad)
							}
							if _, err := klines.CalculateCandleDateRanges(start, end, bad, 3); err == nil {
								t.Failf("ranges of interval %d without an error", bad)
							}
						}
						if _, err := klines.CalculateCandleDateRanges(end, start, klines.Interval(iv), 3); err == nil {
							t.Failf("reversed dates without an error")
						}
						if err := commonutils.StartEndTimeCheck(end, start); !errors.Is(err, commonutils.ErrStartAfterEnd) {
							t.Failf("reversed dates: %v", err)
						}
						err := commonutils.StartEndTimeCheck(start, end)
						if oi == 2 && !errors.Is(err, commonutils.ErrStartAfterTimeNow) || oi != 2 && err != nil {
							t.Failf("dates %s to %s: %v", start, end, err)
						}
					}
					st := org.Truncate(iv).Add(time.Duration(a) * iv / 4)
					for _, z := range []time.Time{{}, time.Unix(0, 0), time.Unix(0, 0).UTC()} {
						for _, p := range [][2]time.Time{{z, st}, {st, z}, {z, z}} {
							if _, err := klines.CalculateCandleDateRanges(p[0], p[1], klines.Interval(iv), 3); err == nil {
								t.Failf("unset date without an error")
							}
							if err := commonutils.StartEndTimeCheck(p[0], p[1]); !errors.Is(err, commonutils.ErrDateUnset) {
								t.Failf("unset date: %v", err)
							}
						}
					}
					if _, err := klines.CalculateCandleDateRanges(st, st, klines.Interval(iv), 3); err == nil {
						t.Failf("equal dates without an error")
					}
					if err := commonutils.StartEndTimeCheck(st, st); !errors.Is(err, commonutils.ErrStartEqualsEnd) {
						t.Failf("equal dates: %v", err)
					}
				}) {
					return
				}
			}
		}
	}
	named := map[string]struct {
		iv klines.Interval
		d  time.Duration
	}{
		"HundredMilliseconds": {klines.HundredMilliseconds, 100 * time.Millisecond}, "ThousandMilliseconds": {klines.ThousandMilliseconds, time.Second},
		"TenSecond": {klines.TenSecond, 10 * time.Second}, "FifteenSecond": {klines.FifteenSecond, 15 * time.Second}, "ThirtySecond": {klines.ThirtySecond, 30 * time.Second},
		"OneMin": {klines.OneMin, time.Minute}, "ThreeMin": {klines.ThreeMin, 3 * time.Minute}, "FiveMin": {klines.FiveMin, 5 * time.Minute}, "TenMin": {klines.TenMin, 10 * time.Minute},
		"FifteenMin": {klines.FifteenMin, 15 * time.Minute}, "ThirtyMin": {klines.ThirtyMin, 30 * time.Minute},
		"OneHour": {klines.OneHour, time.Hour}, "TwoHour": {klines.TwoHour, 2 * time.Hour}, "ThreeHour": {klines.ThreeHour, 3 * time.Hour}, "FourHour": {klines.FourHour, 4 * time.Hour},
		"SixHour": {klines.SixHour, 6 * time.Hour}, "SevenHour": {klines.SevenHour, 7 * time.Hour}, "EightHour": {klines.EightHour, 8 * time.Hour}, "TwelveHour": {klines.TwelveHour, 12 * time.Hour},
		"OneDay": {klines.OneDay, 24 * time.Hour}, "TwoDay": {klines.TwoDay, 48 * time.Hour}, "ThreeDay": {klines.ThreeDay, 72 * time.Hour}, "FiveDay": {klines.FiveDay, 120 * time.Hour},
		"SevenDay": {klines.SevenDay, 168 * time.Hour}, "FifteenDay": {klines.FifteenDay, 360 * time.Hour}, "OneWeek": {klines.OneWeek, 168 * time.Hour}, "TwoWeek": {klines.TwoWeek, 336 * time.Hour},
		"ThreeWeek": {klines.ThreeWeek, 504 * time.Hour}, "OneMonth": {klines.OneMonth, 720 * time.Hour}, "ThreeMonth": {klines.ThreeMonth, 2160 * time.Hour},
		"SixMonth": {klines.SixMonth, 4320 * time.Hour}, "NineMonth": {klines.NineMonth, 6480 * time.Hour}, "OneYear": {klines.OneYear, 8760 * time.Hour},
	}
	c.Bound("%d named intervals; counts of windows of 0..2^20 intervals and within a nanosecond of a whole number of them, up to 290 years", len(named))
	if !c.Case(func() string { return "named intervals and long windows" }, func(t *T) {
		for n, v := range named {
			if v.iv.Duration() != v.d || v.iv.String() != v.d.String() {
				t.Failf("%s lasts %s (%s), expected %s", n, v.iv.Duration(), v.iv, v.d)
			}
			t.States(1)
			for k := int64(0); k <= 1<<20; k = k*3/2 + 1 {
				if float64(k)*float64(v.d) > float64(290*365*24*time.Hour) {
					break
				}
				for _, off := range []time.Duration{-1, 0, 1, v.d / 2, v.d - 1} {
					w := time.Duration(k)*v.d + off
					if w < 0 {
						continue
					}
					start := time.Unix(1000000007, 0).UTC()
					if g, want := klines.TotalCandlesPerInterval(start, start.Add(w), v.iv), int64(w/v.d); g != want {
						t.Failf("a window of %s counts %d intervals of %s, expected %d", w, g, v.d, want)
					}
					t.Steps(1)
				}
			}
		}
		for _, at := range []time.Time{time.Unix(0, 0), time.Unix(1700000000, 0).UTC(), time.Unix(1700000000, 999999999).In(time.FixedZone("x", -12600)), time.Unix(-5, 1), time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC)} {
			it := klines.CreateIntervalTime(at)
			if !it.Time.Equal(at) || it.Ticks != at.Unix() {
				t.Failf("interval time of %s is %v", at, it)
			}
			sec := time.Unix(at.Unix(), 0)
			for _, d := range []time.Duration{-time.Hour, -time.Second, -1, 0, 1, time.Second - 1, time.Second, time.Hour, 24 * time.Hour} {
				q := sec.Add(d)
				if g, want := it.Equal(q), d >= 0 && d < time.Second; g != want {
					t.Failf("interval time %s equal to %s: %v", at, q, g)
				}
			}
			t.States(1)
		}
	}) {
		return
	}
	m := 11
	if c.Thorough {
		m = 14
	}
	many := []int{100, 257, 1000, 3001}
	c.Bound("periods of %v intervals with 9 limits: single marks, single gaps and alternating marks, queries at every interval", many)
	for _, n := range many {
		for _, lim := range []int{0, 1, 2, 7, 100, 256, 999, 1000, 5000} {
			n, lim := n, lim
			if !c.Case(func() string { return fmt.Sprintf("queries over %d intervals with limit %d", n, lim) }, func(t *T) {
				iv := time.Hour
				start := time.Unix(1700000000, 0).UTC().Truncate(iv)
				rangeCase(t, start, start.Add(time.Duration(n)*iv), klines.Interval(iv), uint32(lim))
				for pat := 0; pat < 8; pat++ {
					marked := func(j int) bool {
						switch pat {
						case 0:
							return j == 0
						case 1:
							return j == n-1
						case 2:
							return j == n/2
						case 3:
							return j != n/3
						case 4:
							return j%2 == 0
						case 5:
							return j*j%7 < 3
						case 6:
							return lim > 0 && j%lim == 0
						}
						return lim > 0 && j%lim != lim-1
					}
					rh, err := klines.CalculateCandleDateRanges(start, start.Add(time.Duration(n)*iv), klines.Interval(iv), uint32(lim))
					if err != nil {
						t.Failf("ranges: %v", err)
					}
					j := 0
					for r := range rh.Ranges {
						for q := range rh.Ranges[r].Intervals {
							rh.Ranges[r].Intervals[q].HasData = marked(j)
							j++
						}
					}
					for x := -1; x <= n; x++ {
						for _, d := range []time.Duration{0, iv - 1} {
							at := start.Add(time.Duration(x)*iv + d)
							if g, want := rh.HasDataAtDate(at), x >= 0 && x < n && marked(x); g != want {
								t.Failf("%d intervals, limit %d, marking pattern %d: in interval %d data is %v", n, lim, pat, x, g)
							}
						}
						t.Steps(2)
					}
					t.States(1)
				}
			}) {
				return
			}
		}
	}
	c.Bound("periods of 65535 to 70000 intervals with 8 limits: a mark or a gap at the ends, in the middle and around the 65536th, queries around each")
	for _, n := range []int{65535, 65537, 70000} {
		for _, lim := range []int{0, 1, 7, 256, 1000, 65535, 65536, 100000} {
			n, lim := n, lim
			if !c.Case(func() string { return fmt.Sprintf("%d intervals with limit %d", n, lim) }, func(t *T) {
				iv := time.Hour
				start := time.Unix(1700000000, 0).UTC().Truncate(iv)
				end := start.Add(time.Duration(n) * iv)
				rangeCase(t, start, end, klines.Interval(iv), uint32(lim))
				rh, err := klines.CalculateCandleDateRanges(start, end, klines.Interval(iv), uint32(lim))
				if err != nil {
					t.Failf("ranges: %v", err)
				}
				at := func(x int) *klines.IntervalData {
					if lim > 0 {
						return &rh.Ranges[x/lim].Intervals[x%lim]
					}
					return &rh.Ranges[0].Intervals[x]
				}
				ask := func(x int, want bool) {
					for _, d := range []time.Duration{0, iv - 1} {
						if g := rh.HasDataAtDate(start.Add(time.Duration(x)*iv + d)); g != want {
							t.Failf("%d intervals, limit %d: in interval %d data is %v", n, lim, x, g)
						}
					}
				}
				marks := []int{0, 1, n / 2, 65533, 65534, n - 2, n - 1}
				if n > 65536 {
					marks = append(marks, 65535, 65536)
				}
				for gap := 0; gap < 2; gap++ {
					for x := 0; x < n; x++ {
						at(x).HasData = gap == 1
					}
					for _, x := range marks {
						at(x).HasData = gap == 0
						for y := max(0, x-2); y < n && y <= x+2; y++ {
							ask(y, (y == x) == (gap == 0))
						}
						ask(n, false)
						ask(-1, false)
						at(x).HasData = gap == 1
					}
				}
				t.Steps(n)
				t.States(1)
			}) {
				return
			}
		}
	}
	c.Bound("every marking of 0..%d intervals, every limit of 0..%d, every query at half-interval steps and next to each boundary", m, m+1)
	for n := 0; n <= m; n++ {
		for lim := 0; lim <= m+1; lim++ {
			for _, iv := range []time.Duration{time.Hour, 24 * time.Hour, 2 * time.Second, 100 * time.Millisecond, 1500 * time.Millisecond} {
				n, lim, iv := n, lim, iv
				if !c.Case(func() string { return fmt.Sprintf("queries over %d intervals of %s with limit %d", n, iv, lim) }, func(t *T) {
					start := time.Unix(1700000000, 0).UTC().Truncate(iv)
					end := start.Add(time.Duration(n) * iv)
					if n == 0 {
						end = start.Add(iv / 4)
					}
					for mask := 0; mask < 1<<n; mask++ {
						rh, err := klines.CalculateCandleDateRanges(start, end, klines.Interval(iv), uint32(lim))
						if err != nil {
							t.Failf("ranges: %v", err)
						}
						j := 0
						for r := range rh.Ranges {
							for q := range rh.Ranges[r].Intervals {
								rh.Ranges[r].Intervals[q].HasData = mask>>j&1 == 1
								j++
							}
						}
						if j != n {
							t.Failf("%d intervals in a period of %d", j, n)
						}
						for x := -2; x <= 2*n+2; x++ {
							for _, d := range []time.Duration{-time.Second, -1, 0, 1, iv / 4, time.Second - 1} {
								at := start.Add(time.Duration(x)*iv/2 + d)
								off := at.Sub(start)
								idx := int(math.Floor(float64(off) / float64(iv)))
								want := idx >= 0 && idx < n && mask>>idx&1 == 1
								if g := rh.HasDataAtDate(at); g != want {
									t.Failf("%d intervals of %s, limit %d, marks %b: at start%+v data is %v", n, iv, lim, mask, off, g)
								}
								t.Steps(1)
							}
						}
						t.States(1)
					}
				}) {
					return
				}
			}
		}
	}
}

func rangeCase(t *T, start, end time.Time, iv klines.Interval, lim uint32) {
	rh, err := klines.CalculateCandleDateRanges(start, end, iv, lim)
	d := time.Duration(iv)
	name := func() string {
		return fmt.Sprintf("%s to %s by %s limit %d", start.Format(time.RFC3339), end.Format(time.RFC3339), d, lim)
	}
	if err != nil {
		t.Failf("%s: error %v", name(), err)
	}
	s, e := start.Round(d), end.Round(d)
	n := int64(e.Sub(s) / d)
	want := int64(1)
	if lim > 0 && n > 0 {
		want = (n + int64(lim) - 1) / int64(lim)
	}
	eq := func(it klines.IntervalTime, w time.Time, what string) {
		if !it.Time.Equal(w) || it.Ticks != w.Unix() {
			t.Failf("%s: %s is %s (%d), expected %s", name(), what, it.Time, it.Ticks, w)
		}
	}
	eq(rh.Start, s, "start")
	eq(rh.End, e, "end")
	if int64(len(rh.Ranges)) != want {
		t.Failf("%s: %d ranges for %d intervals, expected %d", name(), len(rh.Ranges), n, want)
	}
	at := s
	tot := int64(0)
	for r := range rh.Ranges {
		rg := &rh.Ranges[r]
		eq(rg.Start, at, fmt.Sprintf("start of range %d", r))
		m := int64(len(rg.Intervals))
		if lim > 0 && m > int64(lim) {
			t.Failf("%s: range %d has %d intervals", name(), r, m)
		}
		if m == 0 && n > 0 {
			t.Failf("%s: range %d is empty", name(), r)
		}
		for q := range rg.Intervals {
			if rg.Intervals[q].HasData {
				t.Failf("%s: a new interval is marked", name())
			}
			eq(rg.Intervals[q].Start, at, "interval start")
			at = at.Add(d)
			eq(rg.Intervals[q].End, at, "interval end")
		}
		tot += m
		eq(rg.End, at, fmt.Sprintf("end of range %d", r))
	}
	if tot != n {
		t.Failf("%s: %d intervals, expected %d", name(), tot, n)
	}
}

// ------------------------------------------------- C08 sort, dedupe and cut

func arranged(times []int64) *klines.Item {
	it := &klines.Item{Exchange: "EX", Interval: klines.OneMin, Symbol: "S", Code: "C"}
	for k, x := range times {
		f := float64(k + 1)
		it.Candles = append(it.Candles, &klines.Candle{Amount: f * 10, Count: int64(k), Open: f, Close: f + 2, Low: f - 0.5, High: f + 3, Volume: f * 7, ChangePercent: f / 8, IsBullMarket: k%2 == 0, TimeUnix: x})
	}
	return it
}

func vals(it *klines.Item) []klines.Candle {
	var r []klines.Candle
	for _, p := range it.Candles {
		r = append(r, *p)
	}
	return r
}

func sameList(a, b []klines.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if a[k] != b[k] {
			return false
		}
	}
	return true
}

func ids(a []klines.Candle) string {
	s := "["
	for _, x := range a {
		s += fmt.Sprintf(" #%g@%d", x.Open, x.TimeUnix)
	}
	return s + " ]"
}

func permuted(a, b []klines.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[klines.Candle]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

// listOp applies operation o to the item and checks the result against what
// was there before; it returns the history to continue with.
func listOp(t *T, it *klines.Item, o int, base, s, e int64, log func() string) *klines.Item {
	before := vals(it)
	tm := func(x int64) time.Time { return time.Unix(base+x, 0) }
	keep := func() []klines.Candle {
		var r []klines.Candle
		for _, x := range before {
			if x.TimeUnix >= base+s && x.TimeUnix < base+e {
				r = append(r, x)
			}
		}
		return r
	}
	ex, iv, sy, co := it.Exchange, it.Interval, it.Symbol, it.Code
	t.Steps(1)
	switch o {
	case 0, 1:
		it.SortCandlesByTimestamp(o == 1)
		after := vals(it)
		if !permuted(before, after) {
			t.Failf("%s: sorting %s gives %s", log(), ids(before), ids(after))
		}
		for k := 1; k < len(after); k++ {
			a, b := after[k-1].TimeUnix, after[k].TimeUnix
			if o == 0 && a > b || o == 1 && a < b {
				t.Failf("%s: sorted (descending %v) is %s", log(), o == 1, ids(after))
			}
		}
	case 2:
		it.RemoveDuplicates()
		seen := map[int64]bool{}
		var want []klines.Candle
		for _, x := range before {
			if !seen[x.TimeUnix] {
				seen[x.TimeUnix] = true
				want = append(want, x)
			}
		}
		if got := vals(it); !sameList(got, want) {
			t.Failf("%s: without duplicates %s is %s, expected %s", log(), ids(before), ids(got), ids(want))
		}
	case 3:
		it.RemoveOutsideRange(tm(s), tm(e))
		if got, want := vals(it), keep(); !sameList(got, want) {
			t.Failf("%s: %s cut to [%d,%d) is %s, expected %s", log(), ids(before), base+s, base+e, ids(got), ids(want))
		}
	case 4:
		sn := snap(it)
		cp := it.RemoveOutsideRangeCopy(tm(s), tm(e))
		if d := sn.diff(); d != "" {
			t.Failf("%s: the copying cut changed the history: %s", log(), d)
		}
		want := keep()
		if got := vals(cp); !sameList(got, want) {
			t.Failf("%s: copy of %s cut to [%d,%d) is %s, expected %s", log(), ids(before), base+s, base+e, ids(got), ids(want))
		}
		if cp.Exchange != ex || cp.Interval != iv {
			t.Failf("%s: the copy has exchange %q interval %s", log(), cp.Exchange, cp.Interval)
		}
		for _, p := range cp.Candles {
			p.Open += 1000
			p.TimeUnix += 1000
		}
		if d := sn.diff(); d != "" {
			t.Failf("%s: the copy shares candles with the history: %s", log(), d)
		}
		for _, p := range cp.Candles {
			p.Open -= 1000
			p.TimeUnix -= 1000
		}
		cp.SortCandlesByTimestamp(false)
		cp.RemoveOutsideRange(tm(s), tm(s))
		cp.Clear()
		if d := sn.diff(); d != "" {
			t.Failf("%s: working on the copy changed the history: %s", log(), d)
		}
		return it
	case 5:
		it.Clear()
		if len(it.Candles) != 0 {
			t.Failf("%s: %d candles after clearing", log(), len(it.Candles))
		}
	}
	if it.Exchange != ex || it.Interval != iv || it.Symbol != sy || it.Code != co {
		t.Failf("%s: the fields of the history changed", log())
	}
	return it
}

var listOps = []string{"sort", "sort descending", "remove duplicates", "cut", "copy", "clear"}

func checkC08(c *Ctx) {
	c.Zoned(false)
	L, depth := 6, 3
	if c.Thorough {
		L, depth = 6, 4
	}
	bases := []int64{1700000000, 0, -3}
	c.Bound("every arrangement of 0..%d candles over 4 times, every sequence of %d of %d operations with every range over 6 boundaries, and over half seconds and a nanosecond off them (first operation), %d origins", L, depth, len(listOps), len(bases))
	num := 1
	for l := 0; l <= L; l++ {
		for code := 0; code < num; code++ {
			code, l := code, l
			times := func(base int64) []int64 {
				ts := make([]int64, l)
				x := code
				for j := range ts {
					ts[j] = base + int64(x%4)
					x /= 4
				}
				return ts
			}
			if !c.Case(func() string { return fmt.Sprintf("history with times %v, every operation sequence", times(0)) }, func(t *T) {
				nseq := 1
				for j := 0; j < depth; j++ {
					nseq *= 6
				}
				base := bases[(code+l)%3]
				for seq := 0; seq < nseq; seq++ {
					it := arranged(times(base))
					x := seq
					log := func() string {
						s, y := "after", seq
						for j := 0; j < depth; j++ {
							s += " " + listOps[y%6]
							y /= 6
						}
						return s + " (up to the failing one)"
					}
					for j := 0; j < depth; j++ {
						it = listOp(t, it, x%6, base, int64((seq/7+j)%3), int64(3+(seq+j)%2), log)
						x /= 6
					}
					t.States(1)
				}
				for s := int64(-1); s <= 4; s++ {
					for e := s + 1; e <= 5; e++ {
						for o := 3; o <= 4; o++ {
							it := arranged(times(base))
							listOp(t, it, o, base, s, e, func() string { return "first operation" })
							t.States(1)
						}
					}
				}
				// ends inside a second, in another zone
				for s := -2; s <= 9; s++ {
					for e := s + 1; e <= 10; e++ {
						for _, off := range []time.Duration{0, 1, -1} {
							start := time.Unix(base, 0).Add(time.Duration(s)*time.Second/2 + off)
							end := time.Unix(base, 0).Add(time.Duration(e)*time.Second/2 - off).In(time.FixedZone("x", 19800))
							it := arranged(times(base))
							var want []klines.Candle
							for _, x := range vals(it) {
								if at := time.Unix(x.TimeUnix, 0); !at.Before(start) && at.Before(end) {
									want = append(want, x)
								}
							}
							cp := it.RemoveOutsideRangeCopy(start, end)
							if got := vals(cp); !sameList(got, want) {
								t.Failf("copy of %s cut to %s..%s (half seconds %d..%d%+d) is %s, expected %s", ids(vals(it)), start, end, s, e, off, ids(got), ids(want))
							}
							it.RemoveOutsideRange(start, end)
							if got := vals(it); !sameList(got, want) {
								t.Failf("cut to %s..%s is %s, expected %s", start, end, ids(got), ids(want))
							}
							t.Steps(2)
						}
					}
				}
			}) {
				return
			}
		}
		num *= 4
	}
	wide := []int64{-1 << 40, -86400, 0, 59, 60, 1 << 31, 1<<32 + 59, 1 << 53}
	wl := 4
	if c.Thorough {
		wl = 6
	}
	c.Bound("every arrangement of 0..%d candles over the far times %v: every single operation, cuts at every two of the times, and sorting after removing duplicates", wl, wide)
	num = 1
	for l := 0; l <= wl; l++ {
		for from := 0; from < num; from += 64 {
			from, l, num := from, l, num
			if !c.Case(func() string { return fmt.Sprintf("%d candles over far times, arrangements from %d", l, from) }, func(t *T) {
				for code := from; code < num && code < from+64; code++ {
					ts := make([]int64, l)
					x := code
					for j := range ts {
						ts[j] = wide[x%len(wide)]
						x /= len(wide)
					}
					log := func() string { return fmt.Sprintf("times %v", ts) }
					for o := 0; o < 3; o++ {
						for p := 0; p < 3; p++ {
							listOp(t, listOp(t, arranged(ts), o, 0, 0, 0, log), p, 0, 0, 0, log)
						}
					}
					for a := range wide {
						for b := a + 1; b < len(wide); b++ {
							listOp(t, arranged(ts), 3+(a+b)%2, 0, wide[a], wide[b], log)
						}
					}
					t.States(1)
				}
			}) {
				return
			}
		}
		num *= len(wide)
	}
	c.Bound("every history of 6..60 candles, and of 100 to 66000, in 8 time patterns, every single operation")
	for n := 6; n <= 66000; n++ {
		switch {
		case n == 61:
			n = 100
		case n == 101:
			n = 127
		case n == 130:
			n = 255
		case n == 258:
			n = 513
		case n == 514:
			n = 1025
		case n == 1026:
			n = 3000
		case n == 3001:
			n = 66000
		}
		for pat := 0; pat < 8; pat++ {
			n, pat := n, pat
			if !c.Case(func() string { return fmt.Sprintf("%d candles in time pattern %d", n, pat) }, func(t *T) {
				ts := make([]int64, n)
				g := lcg(pat)
				for j := range ts {
					switch pat {
					case 0:
						ts[j] = int64(j)
					case 1:
						ts[j] = int64(n - j)
					case 2:
						ts[j] = int64(j * 7 % n)
					case 3:
						ts[j] = 5
					case 4:
						ts[j] = int64(j / 2)
					default:
						ts[j] = int64(g.next(n * pat / 5))
					}
					ts[j] += 1700000000
				}
				for o := 0; o < 6; o++ {
					for q := 0; q < 5; q++ {
						it := arranged(ts)
						it = listOp(t, it, o, 1700000000, int64(q*n/6), int64((q+2)*n/6), func() string { return "single operation" })
						if o < 2 {
							it = listOp(t, it, 1-o, 1700000000, 0, 0, func() string { return "sorted twice" })
							listOp(t, it, 2, 1700000000, 0, 0, func() string { return "sorted twice, then without duplicates" })
						}
						t.States(1)
					}
				}
			}) {
				return
			}
		}
	}
}

// ----------------------------------------------------------- C09 price views

func viewCase(t *T, h *Hist) {
	it := h.Item()
	n := h.N()
	for k, cd := range it.Candles { // the raw flags are the candle's own, whatever they say
		if k%3 == 1 {
			cd.IsBullMarket = !cd.IsBullMarket
		}
	}
	s := snap(it)
	var prevO *klines.OHLC
	for pass := 0; pass < 2; pass++ {
		o := it.GetOHLC()
		for nm, l := range map[string]int{"Open": len(o.Open), "High": len(o.High), "Low": len(o.Low), "Close": len(o.Close), "Volume": len(o.Volume), "BullMarket": len(o.BullMarket), "TimeUnix": len(o.TimeUnix)} {
			if l != n {
				t.Failf("column %s has %d values for %d candles", nm, l, n)
			}
		}
		hl2, hlc3, ohlc4 := it.HL2(), it.HLC3(), it.OHLC4()
		if len(hl2) != n || len(hlc3) != n || len(ohlc4) != n {
			t.Failf("averaged views have %d, %d and %d values for %d candles", len(hl2), len(hlc3), len(ohlc4), n)
		}
		for k, cd := range s.vals {
			if o.Open[k] != cd.Open || o.High[k] != cd.High || o.Low[k] != cd.Low || o.Close[k] != cd.Close || o.Volume[k] != cd.Volume || o.BullMarket[k] != cd.IsBullMarket || o.TimeUnix[k] != cd.TimeUnix {
				t.Failf("columns at %d are O%g H%g L%g C%g V%g %v %d for candle %+v", k, o.Open[k], o.High[k], o.Low[k], o.Close[k], o.Volume[k], o.BullMarket[k], o.TimeUnix[k], cd)
			}
			if !rel(hl2[k], (cd.High+cd.Low)/2) || !rel(hlc3[k], (cd.High+cd.Low+cd.Close)/3) || !rel(ohlc4[k], (cd.Open+cd.High+cd.Low+cd.Close)/4) {
				t.Failf("averages at %d are %g, %g and %g for candle %+v", k, hl2[k], hlc3[k], ohlc4[k], cd)
			}
		}
		ha := it.ToHeikinAshi()
		if ha.Exchange != it.Exchange || ha.Interval != it.Interval || len(ha.Candles) != n {
			t.Failf("the Heikin-Ashi history has exchange %q, interval %s and %d candles", ha.Exchange, ha.Interval, len(ha.Candles))
		}
		for k, g := range ha.Candles {
			cd := s.vals[k]
			p := cd
			if k > 0 {
				p = s.vals[k-1]
			}
			op := (p.Open + p.Close) / 2
			cl := (cd.Open + cd.High + cd.Low + cd.Close) / 4
			hi := math.Max(cd.High, math.Max(op, cd.Close))
			lo := math.Min(cd.Low, math.Min(op, cd.Close))
			if !rel(g.Open, op) || !rel(g.Close, cl) || !rel(g.High, hi) || !rel(g.Low, lo) || g.TimeUnix != cd.TimeUnix {
				t.Failf("Heikin-Ashi candle %d is O%g H%g L%g C%g at %d, expected O%g H%g L%g C%g at %d", k, g.Open, g.High, g.Low, g.Close, g.TimeUnix, op, hi, lo, cl, cd.TimeUnix)
			}
			if !rel(g.ChangePercent, (cd.Close-cd.Open)/cd.Open) || g.IsBullMarket != (cd.Close > cd.Open) {
				t.Failf("Heikin-Ashi candle %d has change %g and rising %v for candle %+v", k, g.ChangePercent, g.IsBullMarket, cd)
			}
		}
		if d := s.diff(); d != "" {
			t.Failf("a price view changed the history: %s", d)
		}
		if prevO != nil && n > 0 && (prevO == o || &prevO.Close[0] == &o.Close[0]) {
			t.Failf("two column views share memory")
		}
		// destroy everything handed out: the history must not notice, nor the next views
		for k := 0; k < n; k++ {
			o.Open[k], o.High[k], o.Low[k], o.Close[k], o.Volume[k], o.TimeUnix[k] = -1, -1, -1, -1, -1, -1
			o.BullMarket[k] = !o.BullMarket[k]
			hl2[k], hlc3[k], ohlc4[k] = -1, -1, -1
			*ha.Candles[k] = klines.Candle{}
		}
		if d := s.diff(); d != "" {
			t.Failf("a price view shares memory with the history: %s", d)
		}
		prevO = o
	}
	t.Steps(n)
}

func checkC09(c *Ctx) {
	L := 7
	if c.Thorough {
		L = 8
	}
	c.Bound("every candle sequence of length 0..%d over %d candles", L, len(alphabet))
	run := func(g HGen) bool {
		return c.Case(func() string { return "price views of " + g.get().Desc() }, func(t *T) { viewCase(t, g.get()) })
	}
	for _, g := range shortHists(L, len(alphabet)) {
		if !run(g) {
			return
		}
	}
	lh := append(append(append(longHists(true), decHists(140)...), c.giants()...), huge(70000)...)
	c.Bound("%d longer histories, exact and decimal", len(lh))
	for _, g := range lh {
		if !run(g) {
			return
		}
	}
	// times: the views are positional, whatever the times say
	c.Bound("every sequence of 1..5 time steps of -3600, 0, 1 or 3600 seconds, from two starting times, prices changing or not")
	for _, start := range []int64{0, t0} {
		for l := 1; l <= 5; l++ {
			num := 1
			for k := 0; k < l; k++ {
				num *= 4
			}
			for code := 0; code < num; code++ {
				start, l, code := start, l, code
				if !run(HGen{func() *Hist {
					h := mkHist(9, 0, 1, l+1, false)
					for k := range h.T {
						h.T[k] = start
					}
					x := code
					for k := 1; k <= l; k++ {
						h.T[k] = h.T[k-1] + []int64{-3600, 0, 1, 3600}[x%4]
						x /= 4
					}
					h.Name = fmt.Sprintf("times %v", h.T)
					return h
				}, l + 1}) {
					return
				}
			}
		}
	}
	// candle shapes: every arrangement of open, high, low, close over 4 levels, in pairs
	c.Bound("every pair of candles with open, high, low and close over 4 price levels (low <= open, close <= high)")
	var shapes [][4]float64
	lv := []float64{0.75, 1.5, 3, 1e9}
	for o := 0; o < 4; o++ {
		for h := o; h < 4; h++ {
			for l := 0; l <= o; l++ {
				for cl := l; cl <= h; cl++ {
					shapes = append(shapes, [4]float64{lv[o], lv[h], lv[l], lv[cl]})
				}
			}
		}
	}
	for a := range shapes {
		a := a
		if !c.Case(func() string { return fmt.Sprintf("candle %v followed by each shape", shapes[a]) }, func(t *T) {
			for b := range shapes {
				h := &Hist{}
				for _, x := range [][4]float64{shapes[a], shapes[b]} {
					h.add(x[0], x[1], x[2], x[3], 3)
				}
				viewCase(t, h)
				t.States(1)
			}
		}) {
			return
		}
	}
}

func init() {
	register("C06", "model_checking", "a state is a gap-free (or gapped) candle history with a conversion factor, a transition is one candle consumed by the real conversion; each trace is one group of histories whose converted candles were compared with the definition", checkC06,
		"intervals are whole seconds, prices are positive, times are distinct")
	register("C07", "model_checking", "a state is a period with interval and limit, or a marking of its intervals; a transition is one split or one query executed on the real code; each trace is one group of them compared with the arithmetic model", checkC07,
		"intervals are whole seconds (the interval times are kept in seconds)")
	register("C08", "model_checking", "a state is a history after a sequence of list operations; a transition is one operation executed on the real history and compared with the list model; each trace is one initial arrangement with all its operation sequences", checkC08,
		"range ends are whole seconds, the end after the start; the order of candles with equal times after sorting is not specified and is taken as found")
	register("C09", "model_checking", "a state is a candle history; a transition is one candle read by the views; each trace is one history whose views were compared with their definitions, twice, and destroyed afterwards to show that nothing is shared", checkC09)
}
