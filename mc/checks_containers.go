package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

// ---------------------------------------------------------------- C01 tree

type key struct {
	k, id int
}

func (a *key) Compare(o container.Comparable) int {
	b := o.(*key)
	if a.k < b.k {
		return -1
	}
	if a.k > b.k {
		return 1
	}
	return 0
}

// domains: eight increasing values of each kind; rank k of a domain is its
// k-th smallest value.
type domain struct {
	name string
	val  func(k int) any
	rank func(v any) int
}

var fvals = []float64{math.Inf(-1), -math.MaxFloat64, -1, 0, 5e-324, 1, 1 + 1.0/(1<<52), math.MaxFloat64}
var ivals = []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, 1 << 53, 1<<53 + 1, math.MaxInt64}

var domains = []domain{
	{"float64", func(k int) any { return fvals[k] }, func(v any) int { return sort.SearchFloat64s(fvals, v.(float64)) }},
	{"int64", func(k int) any { return ivals[k] }, func(v any) int {
		return sort.Search(len(ivals), func(j int) bool { return ivals[j] >= v.(int64) })
	}},
	{"user type", func(k int) any { return &key{k, 0} }, func(v any) int { return v.(*key).k }},
}

type treeModel struct {
	cnt [8]int
	n   int
}

func (m *treeModel) min() int {
	for k, c := range m.cnt {
		if c > 0 {
			return k
		}
	}
	return -1
}
func (m *treeModel) max() int {
	for k := 7; k >= 0; k-- {
		if m.cnt[k] > 0 {
			return k
		}
	}
	return -1
}

type treeRun struct {
	t    *T
	d    *domain
	tree *bst.Tree
	m    treeModel
	log  func() string
}

func (r *treeRun) check() {
	for w, got := range []any{r.tree.Min(), r.tree.Max()} {
		want, nm := r.m.min(), "Min"
		if w == 1 {
			want, nm = r.m.max(), "Max"
		}
		if want < 0 {
			if got != nil {
				r.t.Failf("%s of an empty tree is %v after %s", nm, got, r.log())
			}
			continue
		}
		if got == nil {
			r.t.Failf("%s is absent with %d values in the tree after %s", nm, r.m.n, r.log())
		}
		if k := r.d.rank(got); k != want {
			r.t.Failf("%s is %v, expected %v, after %s", nm, got, r.d.val(want), r.log())
		}
	}
}

// ops 0..7 insert rank, 8..15 remove rank, 16.. bulk inserts (floats only)
var bulks = [][]int{{}, {1, 0, 1}, {2, 3, 1, 0}}

func (r *treeRun) op(o int) {
	switch {
	case o < 8:
		r.tree.Insert(r.d.val(o))
		r.m.cnt[o]++
		r.m.n++
	case o < 16:
		k := o - 8
		got := r.tree.Remove(r.d.val(k))
		want := r.m.cnt[k] > 0
		if got != want {
			r.t.Failf("removing %v reports %v, expected %v, after %s", r.d.val(k), got, want, r.log())
		}
		if want {
			r.m.cnt[k]--
			r.m.n--
		}
	default:
		var fs []float64
		for _, k := range bulks[o-16] {
			fs = append(fs, fvals[k])
			r.m.cnt[k]++
			r.m.n++
		}
		if r.tree.Inserts(fs) != r.tree {
			r.t.Failf("a bulk insert returns another tree")
		}
	}
}

func opNames(ops []int) string {
	var b []string
	for _, o := range ops {
		switch {
		case o < 8:
			b = append(b, fmt.Sprintf("+%d", o))
		case o < 16:
			b = append(b, fmt.Sprintf("-%d", o-8))
		default:
			b = append(b, fmt.Sprintf("bulk%v", bulks[o-16]))
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

func checkC01(c *Ctx) {
	// 1. every sequence of operations
	type cfg struct{ vals, depth int }
	cfgs := []cfg{{2, 9}, {3, 8}, {4, 7}}
	if c.Thorough {
		cfgs = []cfg{{2, 11}, {3, 9}, {4, 8}, {5, 8}}
	}
	for di := range domains {
		d := &domains[di]
		for _, g := range cfgs {
			var alpha []int
			for k := 0; k < g.vals; k++ {
				// spread over the domain so that extremes take part
				alpha = append(alpha, k*7/max(1, g.vals-1), 8+k*7/max(1, g.vals-1))
			}
			if di == 0 && g.vals == 3 && !c.Thorough {
				alpha = append(alpha, 17)
			} else if di == 0 && g.vals <= 3 {
				alpha = append(alpha, 16, 17, 18)
			}
			depth := g.depth
			if len(alpha) > 2*g.vals {
				depth--
			}
			c.Bound("every sequence of %d operations (insert or remove any of %d values, %d bulk inserts) on a tree of %s", depth, g.vals, len(alpha)-2*g.vals, d.name)
			// a case is a prefix of three operations; inside, all continuations
			n3 := len(alpha) * len(alpha) * len(alpha)
			for pre := 0; pre < n3; pre++ {
				pre := pre
				prefix := []int{alpha[pre/len(alpha)/len(alpha)], alpha[pre/len(alpha)%len(alpha)], alpha[pre%len(alpha)]}
				if !c.Case(func() string {
					return fmt.Sprintf("%s tree, operations starting %s, all continuations to %d", d.name, opNames(prefix), depth)
				}, func(t *T) {
					seq := make([]int, depth)
					copy(seq, prefix)
					ctr := make([]int, depth)
					for {
						for j := 3; j < depth; j++ {
							seq[j] = alpha[ctr[j]]
						}
						r := &treeRun{t: t, d: d, tree: bst.New()}
						for j, o := range seq {
							at := j
							r.log = func() string { return opNames(seq[:at+1]) }
							r.op(o)
							r.check()
						}
						t.Steps(depth)
						t.States(1)
						j := depth - 1
						for j >= 3 {
							ctr[j]++
							if ctr[j] < len(alpha) {
								break
							}
							ctr[j] = 0
							j--
						}
						if j < 3 {
							break
						}
					}
				}) {
					return
				}
			}
		}
	}
	// 2. every tree of n values (repeats included) emptied in every order
	n := 6
	if c.Thorough {
		n = 7
	}
	for m := 1; m <= n; m++ {
		c.Bound("every order and repetition pattern of %d insertions, each emptied in every order of values, absent values removed in between", m)
		pats := weakPatterns(m)
		for pi := range pats {
			p := pats[pi]
			di := pi % 3
			if pi/3%2 == 1 { // the upper end of the domain
				hi := 0
				for _, k := range p {
					hi = max(hi, k)
				}
				q := append([]int(nil), p...)
				for j := range q {
					q[j] += 7 - hi
				}
				p = q
			}
			if !c.Case(func() string {
				return fmt.Sprintf("%s tree of insertions %v emptied in every order", domains[di].name, p)
			}, func(t *T) {
				permuteMulti(p, func(order []int) {
					r := &treeRun{t: t, d: &domains[di], tree: bst.New()}
					at := 0
					r.log = func() string { return fmt.Sprintf("inserting %v and removing %v", p, order[:at]) }
					for _, k := range p {
						r.op(k)
					}
					r.check()
					for j, k := range order {
						at = j + 1
						r.op(8 + k)
						r.check()
						if j%2 == 0 {
							for q := 0; q < 8; q++ {
								if r.m.cnt[q] == 0 {
									r.op(8 + q)
									break
								}
							}
							r.check()
						}
					}
					t.Steps(2 * m)
					t.States(1)
				})
			}) {
				return
			}
		}
	}
	if !largeTrees(c) {
		return
	}
	// 3. two trees do not share anything
	c.Bound("every sequence of 7 operations spread over two trees of two values")
	for code := 0; code < 8*8*8*8; code++ {
		code := code
		if !c.Case(func() string { return fmt.Sprintf("two trees, operations starting with code %d", code) }, func(t *T) {
			for tail := 0; tail < 512; tail++ {
				full := code*512 + tail
				var ops [7]int
				for j := range ops {
					ops[j] = full & 7
					full >>= 3
				}
				mk := func() *treeRun { return &treeRun{t: t, d: &domains[0], tree: bst.New()} }
				rs := []*treeRun{mk(), mk()}
				for j, o := range ops {
					for _, r := range rs {
						at := j
						r.log = func() string { return fmt.Sprintf("two-tree operations %v", ops[:at+1]) }
					}
					rs[o&1].op(2 + o>>1&1 + 8*(o>>2))
					rs[0].check()
					rs[1].check()
				}
				t.Steps(7)
				t.States(1)
			}
		}) {
			return
		}
	}
}

// orders: ways to visit 0..n-1.
var orders = []struct {
	name string
	f    func(n, k int) int
}{
	{"rising", func(n, k int) int { return k }},
	{"falling", func(n, k int) int { return n - 1 - k }},
	{"ends to middle", func(n, k int) int {
		if k%2 == 0 {
			return k / 2
		}
		return n - 1 - k/2
	}},
	{"middle to ends", func(n, k int) int {
		k = n - 1 - k
		if k%2 == 0 {
			return k / 2
		}
		return n - 1 - k/2
	}},
	{"strided", func(n, k int) int {
		s := 1
		for _, q := range []int{89, 55, 34, 21, 13, 8, 5, 3, 2} {
			a, b := n, q
			for b > 0 {
				a, b = b, a%b
			}
			if a == 1 && q < n {
				s = q
				break
			}
		}
		return k * s % n
	}},
}

// largeTrees: trees of many values filled and emptied in every pair of orders,
// with repeats, and used as the window of a series.
func largeTrees(c *Ctx) bool {
	var sizes []int
	for n := 7; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025)
	if c.Thorough {
		sizes = append(sizes, 2049, 4097)
	}
	kinds := []struct {
		name string
		val  func(x int) any
		rank func(v any) int
	}{
		{"float64", func(x int) any { return float64(x)*0.75 - 100 }, func(v any) int { return int((v.(float64) + 100) / 0.75) }},
		{"int64", func(x int) any { return int64(x)*7 - 100 }, func(v any) int { return int((v.(int64) + 100) / 7) }},
		{"user type", func(x int) any { return &key{x, 1} }, func(v any) int { return v.(*key).k }},
	}
	c.Bound("trees of 7..40 and of %d sizes to %d values, each value once, twice, or of 5 distinct ones, filled in %d orders, emptied in %d, absent values removed in between; sliding windows of each size over twice as many values", len(sizes)-34, sizes[len(sizes)-1], len(orders), len(orders))
	for si, n := range sizes {
		for fi, fill := range orders {
			for ki := range kinds {
				if n > 130 && ki != (si+fi)%3 {
					continue
				}
				n, fill, kd := n, fill, kinds[ki]
				if !c.Case(func() string { return fmt.Sprintf("%s trees of %d values filled %s", kd.name, n, fill.name) }, func(t *T) {
					for rep := 0; rep < 3; rep++ {
						div := []int{1, 2, (n + 4) / 5}[rep]
						for _, drain := range orders {
							tree := bst.New()
							cnt := make([]int, n)
							lo, hi, size := n, -1, 0
							check := func(what string, k int) {
								for lo < n && cnt[lo] == 0 {
									lo++
								}
								for hi >= 0 && cnt[hi] == 0 {
									hi--
								}
								mn, mx := tree.Min(), tree.Max()
								if size == 0 {
									if mn != nil || mx != nil {
										t.Failf("%s tree of %d (each value %d times) filled %s, emptied %s: at step %d of %s, empty, the minimum is %v and the maximum %v", kd.name, n, div, fill.name, drain.name, k, what, mn, mx)
									}
									return
								}
								if mn == nil || mx == nil || kd.rank(mn) != lo || kd.rank(mx) != hi {
									t.Failf("%s tree of %d (each value %d times) filled %s, emptied %s: at step %d of %s the minimum is %v and the maximum %v, expected %v and %v", kd.name, n, div, fill.name, drain.name, k, what, mn, mx, kd.val(lo), kd.val(hi))
								}
							}
							ins := func(x int) {
								tree.Insert(kd.val(x))
								cnt[x]++
								size++
								lo, hi = min(lo, x), max(hi, x)
							}
							del := func(x int, what string, k int) {
								want := cnt[x] > 0
								if got := tree.Remove(kd.val(x)); got != want {
									t.Failf("%s tree of %d filled %s, emptied %s: at step %d of %s removing %v reports %v", kd.name, n, fill.name, drain.name, k, what, kd.val(x), got)
								}
								if want {
									cnt[x]--
									size--
								}
							}
							for k := 0; k < n; k++ {
								ins(fill.f(n, k) / div)
								check("filling", k)
							}
							for k := 0; k < n; k++ {
								x := drain.f(n, k) / div
								del(x, "emptying", k)
								if k%3 == 0 {
									if y := drain.f(n, 0) / div; cnt[y] == 0 {
										del(y, "emptying (absent value)", k)
									}
								}
								check("emptying", k)
							}
							// refill, as a window over a series
							w := n/2 + 1
							for k := 0; k < 2*n; k++ {
								ins(drain.f(n, k%n) / div)
								if k >= w {
									del(drain.f(n, (k-w)%n)/div, "sliding", k)
								}
								check("sliding", k)
							}
							t.Steps(5 * n)
							t.States(1)
						}
					}
				}) {
					return false
				}
			}
		}
	}
	c.Bound("trees of 70000 values, each once, twice or 200 times, filled at golden strides and emptied rising, falling or at strides")
	for ki, kd := range kinds {
		for rep, div := range []int{1, 2, 200} {
			for dr := 0; dr < 3; dr++ {
				if div == 200 && dr > 0 { // long rows of equal values
					continue
				}
				kd, rep, div, dr := kd, rep, div, dr
				if !c.Case(func() string { return fmt.Sprintf("%s tree of 70000 values, each %d times", kd.name, div) }, func(t *T) {
					const n = 70000
					tree := bst.New()
					cnt := make([]int, n/div+1)
					lo, hi, size := len(cnt), -1, 0
					check := func(what string, k int) {
						for size > 0 && cnt[lo] == 0 {
							lo++
						}
						for size > 0 && cnt[hi] == 0 {
							hi--
						}
						mn, mx := tree.Min(), tree.Max()
						if size == 0 && (mn != nil || mx != nil) || size > 0 && (mn == nil || mx == nil || kd.rank(mn) != lo || kd.rank(mx) != hi) {
							t.Failf("%s tree of %d values, each %d times: at step %d of %s with %d left the minimum is %v and the maximum %v", kd.name, n, div, k, what, size, mn, mx)
						}
					}
					stride := []int{43261, 26737, 16529}[rep]
					for k := 0; k < n; k++ {
						x := k * stride % n / div
						tree.Insert(kd.val(x))
						cnt[x]++
						size++
						lo, hi = min(lo, x), max(hi, x)
						check("filling", k)
					}
					for k := 0; k < n; k++ {
						x := k
						switch dr {
						case 1:
							x = n - 1 - k
						case 2:
							x = (k*26739 + ki*1000) % n
						}
						x /= div
						want := cnt[x] > 0
						if got := tree.Remove(kd.val(x)); got != want {
							t.Failf("%s tree of %d values, each %d times: at step %d removing %v reports %v", kd.name, n, div, k, kd.val(x), got)
						}
						if want {
							cnt[x]--
							size--
						}
						if k%3 == 0 && cnt[x] == 0 && tree.Remove(kd.val(x)) {
							t.Failf("%s tree of %d values: removing the absent %v reports true", kd.name, n, kd.val(x))
						}
						check("emptying", k)
					}
					t.Steps(2 * n)
					t.States(1)
				}) {
					return false
				}
			}
		}
	}
	return true
}

// weakPatterns: every sequence of n ranks 0..k-1 in which each of some k ranks
// occurs (all order types of n values with ties).
func weakPatterns(n int) [][]int {
	var out [][]int
	seq := make([]int, n)
	var rec func(j, k int)
	rec = func(j, k int) {
		if j == n {
			used := make([]bool, k)
			for _, s := range seq {
				used[s] = true
			}
			for _, u := range used {
				if !u {
					return
				}
			}
			out = append(out, append([]int(nil), seq...))
			return
		}
		for s := 0; s < k; s++ {
			seq[j] = s
			rec(j+1, k)
		}
	}
	for k := 1; k <= n && k <= 8; k++ {
		rec(0, k)
	}
	return out
}

// permuteMulti calls f for every distinct order of the values of p.
func permuteMulti(p []int, f func([]int)) {
	s := append([]int(nil), p...)
	sort.Ints(s)
	for {
		f(s)
		k := len(s) - 2
		for k >= 0 && s[k] >= s[k+1] {
			k--
		}
		if k < 0 {
			return
		}
		l := len(s) - 1
		for s[l] <= s[k] {
			l--
		}
		s[k], s[l] = s[l], s[k]
		for a, b := k+1, len(s)-1; a < b; a, b = a+1, b-1 {
			s[a], s[b] = s[b], s[a]
		}
	}
}

// --------------------------------------------------------------- C02 queue

type queueRun struct {
	t    *T
	q    *queue.Queue
	m    []any
	next int
}

func (r *queueRun) empty(log func() string) {
	if got := r.q.Empty(); got != (len(r.m) == 0) {
		r.t.Failf("Empty reports %v with %d values in the queue after %s", got, len(r.m), log())
	}
}

func (r *queueRun) enq() {
	r.next++
	var v any = r.next
	switch r.next % 5 {
	case 2:
		v = float64(r.next)
	case 3:
		v = nil
	case 4:
		v = 7 // repeated values
	}
	r.q.Enqueue(v)
	r.m = append(r.m, v)
}

func (r *queueRun) deq(log func() string) {
	var got any
	pan := func() (p any) {
		defer func() { p = recover() }()
		got = r.q.Dequeue()
		return nil
	}()
	if len(r.m) == 0 {
		if pan == nil {
			r.t.Failf("Dequeue of an empty queue returns %v after %s", got, log())
		}
		return
	}
	if pan != nil {
		r.t.Failf("Dequeue panics (%v) with %d values in the queue after %s", pan, len(r.m), log())
	}
	if got != r.m[0] {
		r.t.Failf("Dequeue gives %v, expected %v, after %s", got, r.m[0], log())
	}
	r.m = r.m[1:]
}

func checkC02(c *Ctx) {
	depth := 20
	if c.Thorough {
		depth = 24
	}
	c.Bound("every sequence of %d operations (enqueue, dequeue; empty asked after each, and not at all in a second pass)", depth)
	for code := 0; code < 1<<depth; code += 256 {
		code := code
		if !c.Case(func() string { return fmt.Sprintf("queue operations from code %b", code) }, func(t *T) {
			for k := 0; k < 256; k++ {
				for pass := 0; pass < 2; pass++ {
					r := &queueRun{t: t, q: queue.New()}
					bits := code + k
					at := 0
					log := func() string {
						s := ""
						for j := 0; j <= at && j < depth; j++ {
							s += string("ed"[bits>>j&1])
						}
						return s
					}
					if pass == 0 {
						r.empty(log)
					}
					for j := 0; j < depth; j++ {
						at = j
						if bits>>j&1 == 0 {
							r.enq()
						} else {
							r.deq(log)
						}
						if pass == 0 {
							r.empty(log)
						}
					}
					for len(r.m) > 0 {
						r.deq(log)
					}
					r.empty(log)
					t.Steps(depth)
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	top := 70
	if c.Thorough {
		top = 100
	}
	c.Bound("every fill-drain-fill-drain of 0..%d, 0..%d and 0..%d values", top, top, top)
	for a := 0; a <= top; a++ {
		for b := 0; b <= a; b++ {
			a, b := a, b
			if !c.Case(func() string { return fmt.Sprintf("enqueue %d, dequeue %d, enqueue 0..%d, drain", a, b, top) }, func(t *T) {
				for e := 0; e <= top; e++ {
					r := &queueRun{t: t, q: queue.New()}
					log := func() string { return fmt.Sprintf("enqueue %d dequeue %d enqueue %d and draining", a, b, e) }
					for k := 0; k < a; k++ {
						r.enq()
					}
					for k := 0; k < b; k++ {
						r.deq(log)
					}
					for k := 0; k < e; k++ {
						r.enq()
					}
					for len(r.m) > 0 {
						r.deq(log)
						r.empty(log)
					}
					r.deq(log)
					r.enq()
					r.deq(log)
					r.empty(log)
					t.Steps(a + b + e + a - b + e + 3)
					t.States(1)
				}
			}) {
				return
			}
		}
	}
	big := []int{41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}
	if c.Thorough {
		big = append(big, 2047, 2048, 2049, 4097, 10000)
	}
	c.Bound("enqueue, dequeue, enqueue and drain of %d sizes from 41 to %d, 9 and 14 sizes", len(big), big[len(big)-1])
	for _, a := range big {
		a := a
		if !c.Case(func() string { return fmt.Sprintf("enqueue %d, dequeue, enqueue, drain", a) }, func(t *T) {
			for _, b := range []int{0, 1, 2, a / 3, a / 2, a/2 + 1, a - 2, a - 1, a} {
				for _, e := range []int{0, 1, 2, 31, 32, 33, 64, 65, 128, 200, a - 1, a, a + 1, 2*a + 1} {
					r := &queueRun{t: t, q: queue.New()}
					log := func() string { return fmt.Sprintf("enqueue %d dequeue %d enqueue %d and draining", a, b, e) }
					for k := 0; k < a; k++ {
						r.enq()
					}
					for k := 0; k < b; k++ {
						r.deq(log)
					}
					for k := 0; k < e; k++ {
						r.enq()
						if k%7 == 3 {
							r.deq(log)
						}
						r.empty(log)
					}
					for len(r.m) > 0 {
						r.deq(log)
						r.empty(log)
					}
					r.deq(log)
					t.Steps(2 * (a + e))
					t.States(1)
				}
			}
		}) {
			return
		}
	}
	c.Bound("enqueue, dequeue, enqueue and drain of 65535 to 70000, and 70000 elements passing through a queue of 0 to 3")
	for _, a := range []int{65535, 65536, 65537, 70000} {
		for _, b := range []int{0, 1, a / 2, a - 1, a} {
			a, b := a, b
			if !c.Case(func() string { return fmt.Sprintf("enqueue %d, dequeue %d, enqueue, drain", a, b) }, func(t *T) {
				r := &queueRun{t: t, q: queue.New()}
				log := func() string { return fmt.Sprintf("enqueue %d dequeue %d enqueue as many and draining", a, b) }
				for k := 0; k < a; k++ {
					r.enq()
				}
				for k := 0; k < b; k++ {
					r.deq(log)
				}
				r.empty(log)
				for k := 0; k < b; k++ {
					r.enq()
				}
				for len(r.m) > 0 {
					r.deq(log)
				}
				r.deq(log)
				for k := 0; k < 70000; k++ {
					r.enq()
					if len(r.m) > k%4 {
						r.deq(log)
					}
					r.empty(log)
				}
				for len(r.m) > 0 {
					r.deq(log)
					r.empty(log)
				}
				t.Steps(4 * a)
				t.States(1)
			}) {
				return
			}
		}
	}
	c.Bound("every sequence of 8 operations over two queues")
	for code := 0; code < 1<<16; code += 256 {
		code := code
		if !c.Case(func() string { return fmt.Sprintf("two queues, operations from code %d", code) }, func(t *T) {
			for k := 0; k < 256; k++ {
				rs := []*queueRun{{t: t, q: queue.New()}, {t: t, q: queue.New(), next: 1000}}
				ops := code + k
				log := func() string { return fmt.Sprintf("two-queue operations %016b", ops) }
				for j := 0; j < 8; j++ {
					o := ops >> (2 * j) & 3
					r := rs[o&1]
					if o>>1 == 0 {
						r.enq()
					} else {
						r.deq(log)
					}
					rs[0].empty(log)
					rs[1].empty(log)
				}
				for _, r := range rs {
					for len(r.m) > 0 {
						r.deq(log)
					}
				}
				t.Steps(8)
				t.States(1)
			}
		}) {
			return
		}
	}
}

func init() {
	register("C01", "model_checking", "a state is an operation history of one or two trees (the model is the multiset of the values in it); a transition is one operation executed on the real tree, after which minimum, maximum and the reported result are compared with the model; each trace is one complete group of histories", checkC01,
		"NaN is not an ordered value and is not inserted")
	register("C02", "model_checking", "a state is an operation history of one or two queues (the model is a list); a transition is one operation executed on the real queue and compared with the model; each trace is one complete group of histories", checkC02)
}
