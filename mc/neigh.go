package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/idoall/stockindicator/utils/klines"
)

// Whether what was computed before can be felt is decided here against runs
// of their own process: every history (or series) of a family of histories
// that are easily taken for each other is given to an indicator in a process
// that computes nothing else; then one process walks through every ordered
// pair of them.

// lookalikes returns h and the valid histories that agree with it in much:
// in length, times, first or last candles, closes, sums, or all but one field.
func lookalikes(h *Hist) []*Hist {
	n := h.N()
	out := []*Hist{h}
	add := func(name string, f func(g *Hist)) {
		g := h.clone()
		g.Name = h.Name + " " + name
		f(g)
		out = append(out, g)
	}
	fit := func(g *Hist, k int) {
		g.H[k] = math.Max(g.H[k], math.Max(g.O[k], g.C[k]))
		g.L[k] = math.Min(g.L[k], math.Min(g.O[k], g.C[k]))
	}
	pos := []int{0, 1, n / 2, n - 2, n - 1}
	for _, k := range pos {
		k := k
		add(fmt.Sprintf("volume of %d", k), func(g *Hist) { g.V[k] = g.V[k]*2 + 3 })
		add(fmt.Sprintf("no volume at %d", k), func(g *Hist) { g.V[k] = 0 })
		add(fmt.Sprintf("high of %d", k), func(g *Hist) { g.H[k] += 7.5 })
		add(fmt.Sprintf("low of %d", k), func(g *Hist) { g.L[k] /= 2 })
		add(fmt.Sprintf("close of %d", k), func(g *Hist) { g.C[k] += 4.5; fit(g, k) })
		add(fmt.Sprintf("open of %d", k), func(g *Hist) { g.O[k] += 4.5; fit(g, k) })
	}
	// everything but the kept candles comes from elsewhere
	other := func(name string, keep func(k int) bool) {
		add(name, func(g *Hist) {
			for k := 0; k < n; k++ {
				if keep(k) {
					continue
				}
				j := n - 1 - k
				g.O[k], g.H[k], g.L[k], g.C[k], g.V[k] = h.O[j]+3, h.H[j]+6, h.L[j], h.C[j]+1.5, h.V[j]+1
				fit(g, k)
			}
		})
	}
	other("other candles", func(k int) bool { return false })
	other("same last", func(k int) bool { return k == n-1 })
	other("same first", func(k int) bool { return k == 0 })
	other("same ends", func(k int) bool { return k == 0 || k == n-1 })
	other("same last three", func(k int) bool { return k >= n-3 })
	other("same first three", func(k int) bool { return k < 3 })
	other("same ends and middle", func(k int) bool { return k == 0 || k == n-1 || k == n/2 })
	add("two candles swapped", func(g *Hist) {
		a, b := n/3, n/3+1
		for _, c := range [][]float64{g.O, g.H, g.L, g.C, g.V} {
			c[a], c[b] = c[b], c[a]
		}
	})
	add("middle reversed", func(g *Hist) {
		for a, b := 1, n-2; a < b; a, b = a+1, b-1 {
			for _, c := range [][]float64{g.O, g.H, g.L, g.C, g.V} {
				c[a], c[b] = c[b], c[a]
			}
		}
	})
	add("same closes, other ranges", func(g *Hist) {
		for k := 1; k < n-1; k++ {
			g.H[k] += float64(k % 4)
			g.L[k] *= 1 - float64(k%3)/8
		}
	})
	add("same ranges, other closes", func(g *Hist) {
		for k := 1; k < n-1; k++ {
			g.C[k] = g.L[k] + (g.H[k]-g.L[k])*float64(k%5)/4
		}
	})
	add("same prices, other volumes", func(g *Hist) {
		for k := 1; k < n-1; k++ {
			g.V[k] = float64((k * 5) % 11)
		}
	})
	add("a day later", func(g *Hist) {
		for k := range g.T {
			g.T[k] += 86400
		}
	})
	add("a gap inside", func(g *Hist) {
		for k := n / 2; k < n-1; k++ {
			g.T[k] += 60
		}
	})
	add("prices doubled", func(g *Hist) { *g = *h.Scale(2, 1); g.Name = h.Name + " doubled" })
	add("one less", func(g *Hist) { *g = *h.Prefix(n - 1).clone(); g.Name = h.Name + " one less" })
	add("without the first", func(g *Hist) {
		*g = Hist{Name: h.Name + " without the first", O: g.O[1:], H: g.H[1:], L: g.L[1:], C: g.C[1:], V: g.V[1:], T: g.T[1:]}
	})
	add("without the middle", func(g *Hist) {
		m := n / 2
		cut := func(a []float64) []float64 { return append(a[:m:m], a[m+1:]...) }
		*g = Hist{Name: h.Name + " without the middle", O: cut(g.O), H: cut(g.H), L: cut(g.L), C: cut(g.C), V: cut(g.V), T: append(g.T[:m:m], g.T[m+1:]...)}
	})
	add("the last again", func(g *Hist) {
		g.O, g.H, g.L, g.C, g.V = append(g.O, g.C[n-1]), append(g.H, g.H[n-1]), append(g.L, g.L[n-1]), append(g.C, g.C[n-1]), append(g.V, g.V[n-1])
		g.T = append(g.T, g.T[n-1]+3600)
	})
	return out
}

func lookBases(thorough bool) []*Hist {
	b := []*Hist{mkHist(7, 0, 1, 34, false)}
	if thorough {
		b = append(b, mkHist(13, 3, 3, 21, false), mkHist(9, 2, 2, 130, false))
	}
	return b
}

// digest of everything an indicator object reports
func digest(d *Ind, obj any) string {
	f := fnv.New64a()
	put := func(x uint64) {
		var b [8]byte
		for k := range b {
			b[k] = byte(x >> (8 * k))
		}
		f.Write(b[:])
	}
	fr := frameOf(obj)
	put(uint64(fr.N))
	for k := range fr.Cols {
		f.Write([]byte(fr.Names[k]))
		for j, x := range fr.Cols[k] {
			if x == 0 {
				x = 0 // one zero
			}
			put(math.Float64bits(x))
			put(uint64(fr.Times[j]))
		}
	}
	for _, op := range opsOf(d) {
		if op.name == "AnalysisSide" {
			o, _ := op.run(obj)
			f.Write([]byte(o.Name))
			for _, s := range o.Sides {
				put(uint64(s))
			}
		}
	}
	f.Write([]byte(smcFields(obj)))
	return strconv.FormatUint(f.Sum64(), 16)
}

// tryDigest makes the object and digests it
func tryDigest(d *Ind, mk func() any) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return digest(d, mk())
}

func digestCols(out [][]float64) string {
	f := fnv.New64a()
	for _, c := range out {
		fmt.Fprintf(f, "%d ", len(c))
		for _, x := range c {
			if x == 0 {
				x = 0
			}
			if x != x {
				fmt.Fprint(f, "nan ")
				continue
			}
			fmt.Fprintf(f, "%x ", math.Float64bits(x))
		}
	}
	return strconv.FormatUint(f.Sum64(), 16)
}

func tryFn(fn *taFn, p int, ins [][]float64) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return digestCols(fn.f(p, ins[:fn.in]...))
}

// freshMain: mc fresh ind NAME PARAMS BASE VARIANT | fn NUMBER PARAM VARIANT
func freshMain(a []string) {
	at := func(k int) int { n, _ := strconv.Atoi(a[k]); return n }
	switch a[0] {
	case "ind":
		d := indByName(a[1])
		h := lookalikes(lookBases(true)[at(3)])[at(4)]
		fmt.Print(tryDigest(d, func() any { return d.New(h.Item(), lookParams(d)[at(2)]) }))
	case "fn":
		fmt.Print(tryFn(&taFns[at(1)], at(2), lookSeries()[at(3)]))
	}
}

// fresh runs the computation in a process of its own; "" if that is impossible.
func fresh(a ...string) string {
	exe, err := os.Executable()
	if err != nil {
		return ""
	}
	for try := 0; try < 3; try++ {
		cmd := exec.Command(exe, append([]string{"fresh"}, a...)...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		if b, err := cmd.Output(); err == nil {
			return strings.TrimSpace(string(b))
		}
	}
	return ""
}

func lookParams(d *Ind) [][]float64 {
	ps := [][]float64{d.Def}
	for _, p := range d.Tiny {
		if pstr(p) != pstr(d.Def) {
			ps = append(ps, p)
			break
		}
	}
	return ps
}

// setItem makes the history object it hold what h holds, in place: the same
// candles with new contents as far as there are any.
func setItem(it *klines.Item, h *Hist) {
	src := h.Item().Candles
	for k := range src {
		if k < len(it.Candles) {
			*it.Candles[k] = *src[k]
		} else {
			it.Candles = append(it.Candles, src[k])
		}
	}
	it.Candles = it.Candles[:len(src)]
}

func (c *Ctx) lookIndicators() {
	bases := lookBases(c.Thorough)
	c.Bound("every ordered pair of %d histories easily taken for each other (equal in all but one field of one candle, or in length, times, ends, closes, ranges or volumes alone) times 2 parameter sets, %d base histories, new objects over separate history objects and over one history object rewritten in place, against runs in a process of their own", len(lookalikes(bases[0])), len(bases))
	for bi := range bases {
		vs := lookalikes(bases[bi])
		for _, d := range registry {
			bi, d := bi, d
			for pi, p := range lookParams(d) {
				pi, p := pi, p
				if !c.Case(func() string {
					return fmt.Sprintf("%s%s over histories like %s", d.Name, pstr(p), bases[bi].Name)
				}, func(t *T) {
					ref := make([]string, len(vs))
					for k := range vs {
						ref[k] = fresh("ind", d.Name, strconv.Itoa(pi), strconv.Itoa(bi), strconv.Itoa(k))
					}
					it := &klines.Item{Exchange: "EX", Interval: klines.OneHour, Symbol: "SYM", Code: "CODE"}
					last := "nothing"
					visit := func(k int) {
						t.States(1)
						t.Steps(1)
						if ref[k] == "" {
							return
						}
						if g := tryDigest(d, func() any { return d.New(vs[k].Item(), p) }); g != ref[k] {
							t.Failf("%s%s over %s, after %s, is not what it is in a process of its own", d.Name, pstr(p), vs[k].Desc(), last)
						}
						setItem(it, vs[k])
						if g := tryDigest(d, func() any { return d.New(it, p) }); g != ref[k] {
							t.Failf("%s%s over %s, on a history object that held another history (%s) before, is not what it is in a process of its own", d.Name, pstr(p), vs[k].Desc(), last)
						}
						last = d.Name + pstr(p) + " over " + vs[k].Name
					}
					full := d.Heavy <= 4 || c.Thorough
					for a := range vs {
						for b := a + 1; b < len(vs); b++ {
							if !full && a > 0 && b > a+1 {
								break // heavy: each with the base and with its neighbour
							}
							visit(a)
							visit(b)
						}
					}
					visit(len(vs) - 1)
					visit(0)
					// the other parameters over the same histories, then these again
					for _, q := range lookParams(d) {
						for k := range vs {
							tryDigest(d, func() any { return d.New(vs[k].Item(), q) })
							last = d.Name + pstr(q) + " over " + vs[k].Name
							visit(k)
						}
					}
				}) {
					return
				}
			}
		}
	}
	// other kinds of indicators over the same and like histories before
	c.Bound("every ordered pair of indicators (the second over one history, the first over each of 12 like ones before), against a run in a process of its own")
	vs := lookalikes(bases[0])
	for _, a := range registry {
		a := a
		if !c.Case(func() string { return a.Name + " after each other kind, against a process of its own" }, func(t *T) {
			ref := fresh("ind", a.Name, "0", "0", "0")
			if ref == "" {
				return
			}
			for _, b := range registry {
				for k := 0; k < len(vs); k += 4 {
					tryDigest(b, func() any { return b.New(vs[k].Item(), b.Def) })
					t.States(1)
					t.Steps(1)
					if g := tryDigest(a, func() any { return a.New(vs[0].Item(), a.Def) }); g != ref {
						t.Failf("%s over %s, after %s over %s, is not what it is in a process of its own", a.Name, vs[0].Desc(), b.Name, vs[k].Name)
					}
				}
			}
		}) {
			return
		}
	}
}

var lookSer [][][]float64

// lookSeries: inputs (three series each) easily taken for each other
func lookSeries() [][][]float64 {
	if lookSer != nil {
		return lookSer
	}
	for _, h := range lookalikes(mkHist(7, 0, 1, 21, false)) {
		lookSer = append(lookSer, [][]float64{h.H, h.L, h.C}, [][]float64{h.C, h.V, h.O})
	}
	return lookSer
}

func (c *Ctx) lookFunctions() {
	ss := lookSeries()
	ps := []int{2, 5}
	if c.Thorough {
		ps = []int{1, 2, 3, 5, 14}
	}
	c.Bound("every ordered pair of %d inputs easily taken for each other, of every function with %d parameters, in separate and in rewritten memory, against calls in a process of their own", len(ss), len(ps))
	for fi := range taFns {
		fn := &taFns[fi]
		for _, p := range ps {
			fi, p := fi, p
			if !c.Case(func() string { return fmt.Sprintf("%s with parameter %d over like inputs", fn.name, p) }, func(t *T) {
				ref := make([]string, len(ss))
				for k := range ss {
					ref[k] = fresh("fn", strconv.Itoa(fi), strconv.Itoa(p), strconv.Itoa(k))
				}
				mem := make([][]float64, 3)
				for k := range mem {
					mem[k] = make([]float64, 0, 64)
				}
				last := "nothing"
				visit := func(k int) {
					t.States(1)
					t.Steps(1)
					if ref[k] == "" {
						return
					}
					cp := make([][]float64, 3)
					for j := range cp {
						cp[j] = append([]float64(nil), ss[k][j]...)
						mem[j] = append(mem[j][:0], ss[k][j]...)
					}
					if tryFn(fn, p, cp) != ref[k] {
						t.Failf("%s with parameter %d over %v, after %s, is not what it is in a process of its own", fn.name, p, ss[k][:fn.in], last)
					}
					if tryFn(fn, p, mem) != ref[k] {
						t.Failf("%s with parameter %d over %v, in memory that held another series before, is not what it is in a process of its own", fn.name, p, ss[k][:fn.in])
					}
					last = fmt.Sprint(ss[k][:fn.in])
				}
				for a := range ss {
					for b := a + 1; b < len(ss); b++ {
						visit(a)
						visit(b)
					}
				}
				visit(len(ss) - 1)
				visit(0)
			}) {
				return
			}
		}
	}
}
