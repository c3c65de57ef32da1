package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// -------------------------------------------------------------------- C43
// What is printed is what was computed.

func sideText(s utils.Side) string {
	switch s {
	case utils.Buy:
		return "BUY"
	case utils.Sell:
		return "SELL"
	case utils.Hold:
		return "HOLD"
	}
	return "UNKNOWN"
}

var candleText = regexp.MustCompile(`^(\S+ \S+)\s+Open:(\S+)\s+High:(\S+)\s+Low:(\S+)\s+Close:(\S+)\s+Volume:(\S+)\s+Bull:(\S+)\s+ChangePercent:(\S+)%$`)

func candleTextCase(t *T, cd klines.Candle) {
	keep := cd
	s := cd.String()
	if cd != keep {
		t.Failf("printing changes candle %+v to %+v", keep, cd)
	}
	m := candleText.FindStringSubmatch(s)
	if m == nil {
		t.Failf("candle %+v prints as %q", cd, s)
	}
	f := func(x float64, d int) string { return strconv.FormatFloat(x, 'f', d, 64) }
	want := []string{time.Unix(cd.TimeUnix, 0).Format("2006-01-02 15:04:05"), f(cd.Open, 6), f(cd.High, 6), f(cd.Low, 6), f(cd.Close, 6), f(cd.Volume, 6), strconv.FormatBool(cd.IsBullMarket), f(cd.ChangePercent*100, 4)}
	for k, w := range want {
		if m[k+1] != w {
			t.Failf("candle %+v prints as %q: %q where %q is right", cd, s, m[k+1], w)
		}
	}
}

var adxText = regexp.MustCompile(`^\[(\S+ \S+)\]\s*DI\+:(\S+)\s+DI-:(\S+)\s+ADX:(\S+)$`)

func adxTextCase(t *T, d trend.AverageDirectionalIndexData) {
	f := func(x float64) string { return strconv.FormatFloat(x, 'f', 6, 64) }
	want := []string{d.Time.Format("2006-01-02 15:04:05"), f(d.DIPlus), f(d.DIMins), f(d.ADX)}
	for _, s := range []string{d.String(), fmt.Sprint(d), fmt.Sprint(&d)} {
		m := adxText.FindStringSubmatch(s)
		if m == nil {
			t.Failf("the record {DI+ %v DI- %v ADX %v at %v} prints as %q", d.DIPlus, d.DIMins, d.ADX, d.Time, s)
		}
		for k, w := range want {
			if m[k+1] != w {
				t.Failf("the record {DI+ %v DI- %v ADX %v at %v} prints as %q: %q where %q is right", d.DIPlus, d.DIMins, d.ADX, d.Time, s, m[k+1], w)
			}
		}
	}
}

var reportLine = regexp.MustCompile(`^\[(\d+)\]\s*Time:(\d+-\d+-\d+ \d+:\d+:\d+)\s+Close:(\S+)\s+(.*)$`)

// reportCase runs the report program on a history and reads what it prints.
func reportCase(t *T, prog, dir string, h *Hist) {
	it := h.Item()
	cb, err := json.Marshal(it.Candles)
	if err != nil {
		panic(err)
	}
	if it.Candles == nil {
		cb = []byte("[]")
	}
	if err := os.MkdirAll(filepath.Join(dir, "data"), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "data", "test.json"), cb, 0o600); err != nil {
		panic(err)
	}
	var stdout, stderr strings.Builder
	cmd := exec.Command(prog)
	cmd.Dir = dir
	zone := time.UTC
	if _, err := os.Stat("/usr/share/zoneinfo/" + time.Local.String()); err == nil {
		zone = time.Local
	}
	cmd.Env = append(os.Environ(), "TZ="+zone.String())
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		t.Failf("the report of %s ends with %v: %.300s", h.Desc(), err, stderr.String())
	}
	var lines []string
	for _, l := range strings.Split(stdout.String(), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	if len(lines) != h.N() {
		t.Failf("the report of %d candles has %d lines", h.N(), len(lines))
	}
	if h.N() == 0 {
		return
	}
	list := h.Item()
	var want []utils.SideData
	for _, s := range []utils.IStrategy{
		trend.NewDefaultMacd(list), trend.NewDefaultKdj(list), oscillator.NewAbsolutePriceOscillator(list),
		trend.NewDefaultCci(list), trend.NewDefaultRsi(list), oscillator.NewAwesomeOscillator(list),
		oscillator.NewDefaultChaikinOscillator(list), oscillator.NewDefaultIchimokuCloud(list),
		oscillator.NewDefaultPercentagePriceOscillator(list), oscillator.NewDefaultStochasticOscillator(list),
		oscillator.NewDefaultWilliamsR(list),
	} {
		want = append(want, s.AnalysisSide())
	}
	for k, l := range lines {
		m := reportLine.FindStringSubmatch(l)
		if m == nil {
			t.Failf("line %d of the report is %q", k+1, l)
		}
		cd := it.Candles[k]
		if m[1] != strconv.Itoa(k+1) {
			t.Failf("line %d of the report is numbered %s", k+1, m[1])
		}
		if w := time.Unix(cd.TimeUnix, 0).In(zone).Format("2006-01-02 15:04:05"); m[2] != w {
			t.Failf("line %d of the report is of %s, the candle of %s", k+1, m[2], w)
		}
		if w := strconv.FormatFloat(cd.Close, 'f', 2, 64); m[3] != w {
			t.Failf("line %d of the report has close %s, the candle %s", k+1, m[3], w)
		}
		cells := strings.Split(strings.TrimSpace(m[4]), "\t")
		if len(cells) != len(want) {
			t.Failf("line %d of the report has %d strategies: %q", k+1, len(cells), l)
		}
		for j, cell := range cells {
			cell = strings.TrimSpace(cell)
			p := strings.LastIndex(cell, ":")
			if p < 0 {
				t.Failf("line %d of the report: %q", k+1, cell)
			}
			s := want[j].Data[k]
			w := sideText(s)
			switch s {
			case utils.Buy:
				w = "\x1b[32m" + w + "\x1b[0m"
			case utils.Sell:
				w = "\x1b[31m" + w + "\x1b[0m"
			}
			if cell[:p] != want[j].Name || cell[p+1:] != w {
				t.Failf("line %d of the report has %q where %s's own signal is %q", k+1, cell, want[j].Name, w)
			}
			switch s {
			case utils.Buy:
				t.Count("buys printed", 1)
			case utils.Sell:
				t.Count("sells printed", 1)
			}
		}
	}
}

func checkC43(c *Ctx) {
	c.Zoned(true)
	// sides
	shift := 22
	if c.Thorough {
		shift = 32
	}
	c.Bound("every side value below 2^%d, and every value within 3 of a power of two or of its complement", shift)
	const blocks = 256
	per := (uint64(1) << shift) / blocks
	for b := uint64(0); b < blocks; b++ {
		b := b
		if !c.Case(func() string { return fmt.Sprintf("side values from %d", b*per) }, func(t *T) {
			for v := b * per; v < (b+1)*per; v++ {
				s := utils.Side(v)
				if g := s.String(); g != sideText(s) {
					t.Failf("side %d prints as %q", v, g)
				}
			}
			t.States(int64(per))
		}) {
			return
		}
	}
	c.Case(func() string { return "side values around powers of two" }, func(t *T) {
		for b := 0; b < 32; b++ {
			for d := -3; d <= 3; d++ {
				for _, s := range []utils.Side{utils.Side(uint32(1)<<b + uint32(d)), utils.Side(^(uint32(1) << b) + uint32(d))} {
					if g := s.String(); g != sideText(s) {
						t.Failf("side %d prints as %q", s, g)
					}
					t.States(1)
				}
			}
		}
	})
	L := 7
	if c.Thorough {
		L = 10
	}
	abc := []utils.Side{utils.Buy, utils.Sell, utils.Hold, 7}
	c.Bound("every list of length 0..%d over buy, sell, hold and an unknown side", L)
	sides := func(t *T, in utils.Sides) {
		keep := append(utils.Sides(nil), in...)
		out := in.Strings()
		if len(out) != len(in) {
			t.Failf("%d sides print as %d texts", len(in), len(out))
		}
		for k := range out {
			if in[k] != keep[k] {
				t.Failf("printing changes side %d of %v", k, keep)
			}
			if out[k] != sideText(in[k]) {
				t.Failf("side %d of %v prints as %q", k, []utils.Side(keep), out[k])
			}
		}
		t.States(1)
		t.Steps(len(in))
	}
	num := 1
	for l := 0; l <= L; l++ {
		step := 256
		for from := 0; from < num; from += step {
			from, l, num := from, l, num
			if !c.Case(func() string { return fmt.Sprintf("lists of %d sides, from %d", l, from) }, func(t *T) {
				for code := from; code < num && code < from+step; code++ {
					in := make(utils.Sides, l)
					for k, x := 0, code; k < l; k++ {
						in[k] = abc[x%4]
						x /= 4
					}
					sides(t, in)
				}
			}) {
				return
			}
		}
		num *= 4
	}
	c.Case(func() string { return "long lists of sides" }, func(t *T) {
		sides(t, nil)
		for _, n := range []int{15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 5000} {
			for off := 0; off < 5; off++ {
				in := make(utils.Sides, n)
				for k := range in {
					in[k] = abc[(k*k+k/3+off)%4]
				}
				sides(t, in)
			}
		}
	})
	// intervals
	c.Bound("intervals: 0, every power of two and its neighbours of both signs, every whole number of nanoseconds, milliseconds, seconds, minutes, hours and days up to 400")
	c.Case(func() string { return "intervals" }, func(t *T) {
		one := func(d int64) {
			i := klines.Interval(d)
			if i.Duration() != time.Duration(d) {
				t.Failf("interval %d has duration %d", d, i.Duration())
			}
			if g, w := i.String(), time.Duration(d).String(); g != w {
				t.Failf("interval %d prints as %q, not %q", d, g, w)
			}
			t.States(1)
		}
		for b := 0; b < 64; b++ {
			for d := -2; d <= 2; d++ {
				one(int64(uint64(1)<<b + uint64(d)))
				one(-int64(uint64(1)<<b + uint64(d)))
			}
		}
		for k := int64(0); k <= 400; k++ {
			for _, u := range []time.Duration{1, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour} {
				one(k * int64(u))
				one(-k * int64(u))
			}
		}
		for _, x := range []struct {
			i klines.Interval
			s string
		}{{klines.OneMin, "1m0s"}, {klines.FifteenMin, "15m0s"}, {klines.OneHour, "1h0m0s"}, {klines.OneDay, "24h0m0s"}, {klines.OneWeek, "168h0m0s"}} {
			if x.i.String() != x.s {
				t.Failf("the interval of %s prints as %q", x.s, x.i)
			}
		}
	})
	// candles
	fields := []float64{0, 1, -1, 0.5, 1.0000005, 0.0000004, 123456.789, -0.0123456, 1e9 + 0.25, 1e15}
	c.Bound("candles: every combination of two of %d values over the six printed numbers, bull and bear, 7 times", len(fields))
	for a := range fields {
		for b := range fields {
			a, b := a, b
			if !c.Case(func() string { return fmt.Sprintf("printing candles of %v and %v", fields[a], fields[b]) }, func(t *T) {
				for mask := 0; mask < 64; mask++ {
					v := func(k int) float64 {
						x := fields[a]
						if mask>>k&1 == 1 {
							x = fields[b]
						}
						return x
					}
					for k, tu := range []int64{0, 1, -1, 1699999200, 1700006399, 4102444800, -86400 * 365} {
						candleTextCase(t, klines.Candle{Open: v(0), High: v(1), Low: v(2), Close: v(3), Volume: v(4), ChangePercent: v(5), IsBullMarket: (mask+k)%2 == 0, TimeUnix: tu, Amount: 77, Count: 3})
						t.States(1)
					}
				}
			}) {
				return
			}
		}
	}
	c.Case(func() string { return "printing candles of distinct fields" }, func(t *T) {
		for k := 0; k < 500; k++ {
			x := math.Ldexp(float64(k*k+1)/7, k%40-15)
			candleTextCase(t, klines.Candle{Open: x + 1, High: x*2 + 3, Low: x / 3, Close: x + 0.125, Volume: x * 99, ChangePercent: x / 1000, IsBullMarket: k%3 == 0, TimeUnix: int64(k) * 86399})
			t.States(1)
		}
	})
	c.Bound("directional index records: every choice of %d values for the three printed numbers, 7 times, in local time and UTC; every record over 7 histories", len(fields))
	for a := range fields {
		a := a
		if !c.Case(func() string { return fmt.Sprintf("printing directional index records of %v", fields[a]) }, func(t *T) {
			for _, y := range fields {
				for _, z := range fields {
					for k, tu := range []int64{0, 1, -1, 1699999200, 1700006399, 4102444800, -86400 * 365} {
						at := time.Unix(tu, int64(k)*999999999/7)
						if (k+a)%2 == 1 {
							at = at.UTC()
						}
						adxTextCase(t, trend.AverageDirectionalIndexData{DIPlus: fields[a], DIMins: y, ADX: z, Time: at})
						t.States(1)
					}
				}
			}
		}) {
			return
		}
	}
	for bi := 0; bi < 14; bi += 2 {
		g := genHist(bi, bi%4, bi%5, 90, bi%4 == 0)
		if !c.Case(func() string { return "printing directional index records over " + g.get().Desc() }, func(t *T) {
			for _, p := range []int{2, 14} {
				for _, d := range trend.NewAverageDirectionalIndex(g.get().Item(), p, p).GetData() {
					adxTextCase(t, d)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	// the report program
	prog := os.Getenv("MC_REPORT")
	if prog == "" {
		return
	}
	dir, err := os.MkdirTemp("", "vmcreport")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var hs []HGen
	n := 5
	if c.Thorough {
		n = 7
	}
	hs = append(hs, shortHists(n, 3)...)
	sizes := []int{10, 27, 60, 140}
	if c.Thorough {
		sizes = append(sizes, 35, 80, 300)
	}
	for _, size := range sizes {
		for bi := range bases {
			for d := range dresses {
				bi, d, size := bi, d, size
				hs = append(hs, HGen{func() *Hist {
					h := mkHist(bi, d, (bi+d)%5, size, bi%2 == 0)
					h.retime(bi + d)
					return h
				}, size})
			}
		}
		hs = append(hs, decHists(size)...)
		for _, f := range []float64{1e-4, 0.37, 12345.678, 98765432.1} {
			f, g := f, decHists(size)[size%4]
			hs = append(hs, HGen{func() *Hist { return g.get().Scale(f, f) }, size})
		}
	}
	c.Bound("the report program run on %d histories: every history of 0..%d candles over 3 letters, and histories of %v candles of every path, at five scales of price", len(hs), n, sizes)
	for _, g := range hs {
		g := g
		if !c.Case(func() string { return "the report of " + g.get().Desc() }, func(t *T) {
			reportCase(t, prog, dir, g.get())
			t.Steps(g.n)
			t.Count("reports", 1)
		}) {
			return
		}
	}
}

func init() {
	register("C43", "model_checking", "a state is a side, list of sides, interval, candle or history; a transition is one element or candle printed; each trace is one printed text read back and compared with what was to be printed", checkC43)
}
