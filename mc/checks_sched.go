//go:build sched

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/idoall/stockindicator/vsched"
	"verifmc/pipes"
)

const whatSched = "a state is a distinct point of a program at which goroutines have operations pending, identified by the causal past of every goroutine; a transition is one channel or lock operation (or one preemption at a statement) of the real library code under the controlled scheduler"

func init() {
	register("C03", "model_checked", whatSched, func(c *Ctx) {
		checkStreams(c, true)
		if !c.Stop() {
			freely(c)
		}
	})
	register("C04", "model_checked", whatSched, func(c *Ctx) { checkStreams(c, false) })
	register("C05", "model_checked", whatSched, checkEquals)
	register("C35", "model_checked", whatSched, checkTogether)
}

// explore runs a program under every schedule and judges every outcome.
func explore(t *T, o vsched.Options, run func() any, judge func(vsched.Outcome) string) {
	if vsched.Atomics && o.Preemptions < 0 {
		// atomic variables are not operations of the scheduler: preempt at statements
		o.Preemptions = 2
		o.MaxExecs = 30000
	}
	t0 := time.Now()
	st, bad := vsched.Explore(run, o, judge)
	if os.Getenv("MC_SLOW") != "" && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %.1f s %d executions %d steps: %s\n", time.Since(t0).Seconds(), st.Executions, st.Steps, t.c.curDesc())
	}
	t.States(st.States)
	t.Traces(st.Executions - 1)
	t.c.transitions += st.Transitions
	if int64(st.MaxDepth) > t.c.maxDepth {
		t.c.maxDepth = int64(st.MaxDepth)
	}
	t.Count("schedules_executed", st.Executions)
	t.Count("complete_executions", st.Terminals)
	if st.NonDet {
		t.Count("programs_not_deterministic", 1)
	}
	if vsched.Native {
		t.Count("programs_run_freely_because_the_library_could_not_be_rewritten", 1)
		t.c.cut = true
	} else if st.Cut {
		t.Count("programs_cut_short", 1)
		t.c.cut = true
	}
	if bad != "" {
		t.Failf("%s", bad)
	}
}

// selfTest: the three ways of exploring schedules find the same outcomes.
func selfTest(c *Ctx) bool {
	for _, p := range pipes.SelfTests() {
		p := p
		if !c.Case(func() string { return "self test: " + p.Name }, func(t *T) {
			if vsched.Native {
				return
			}
			var ref string
			for k, o := range []vsched.Options{{Preemptions: -1, NoStore: true}, {Preemptions: -1}, {Preemptions: -1, Reduce: true}, {Preemptions: 2}} {
				set := map[string]bool{}
				st, _ := vsched.Explore(p.Run, o, func(o vsched.Outcome) string {
					set[o.Kind+" "+fmt.Sprint(o.Result)] = true
					return ""
				})
				var l []string
				for s := range set {
					l = append(l, s)
				}
				sort.Strings(l)
				got := strings.Join(l, " / ")
				if os.Getenv("MC_SLOW") != "" {
					fmt.Fprintf(os.Stderr, "SELF %s %d: %d executions %d states: %s\n", p.Name, k, st.Executions, st.States, got)
				}
				if k == 0 {
					ref = got
				} else if k == 3 {
					for s := range set {
						if !strings.Contains(" / "+ref+" / ", " / "+s+" / ") {
							panic(fmt.Sprintf("scheduler self test %s: with preemptions %s, not among %s", p.Name, s, ref))
						}
					}
				} else if got != ref {
					panic(fmt.Sprintf("scheduler self test %s: exploration %d found %s, want %s", p.Name, k, got, ref))
				}
				t.Count("self_test_executions", st.Executions)
			}
		}) {
			return false
		}
	}
	return true
}

const caseTime = 40 * time.Second

// every explores all interleavings without reduction, unless that takes more
// than n executions.
func every(t *T, n int64, run func() any, judge func(vsched.Outcome) string) {
	if vsched.Atomics || vsched.Native {
		return
	}
	st, bad := vsched.Explore(run, vsched.Options{Preemptions: -1, MaxExecs: n, Limit: caseTime}, judge)
	t.States(st.States)
	t.Traces(st.Executions)
	t.c.transitions += st.Transitions
	t.Count("schedules_executed", st.Executions)
	t.Count("complete_executions", st.Terminals)
	if st.Cut {
		t.Count("programs_explored_with_reduction_only", 1)
	} else {
		t.Count("programs_explored_with_and_without_reduction", 1)
	}
	if bad != "" {
		t.Failf("%s", bad)
	}
}

func seqs(alpha []float64, n int) [][]float64 {
	out := [][]float64{nil}
	last := out
	for k := 0; k < n; k++ {
		var next [][]float64
		for _, p := range last {
			for _, v := range alpha {
				next = append(next, append(append([]float64{}, p...), v))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func numbered(k, n int) []float64 {
	var l []float64
	for i := 0; i < n; i++ {
		l = append(l, float64(100*(k+1)+i+1))
	}
	return l
}

func refRound(v float64, d int) float64 {
	p := math.Pow(10, float64(d))
	return math.Round(v*p) / p
}

func checkStreams(c *Ctx, values bool) {
	runtime.GOMAXPROCS(1)
	judge := func(want string) func(vsched.Outcome) string {
		return func(o vsched.Outcome) string {
			switch o.Kind {
			case "done", "leak":
				if values {
					if got := fmt.Sprint(o.Result); got != want {
						return fmt.Sprintf("delivered %s, want %s", got, want)
					}
				} else if o.Kind == "leak" {
					return "goroutines left: " + o.Detail
				}
				return ""
			}
			return o.Kind + ": " + o.Detail
		}
	}
	allStates := int64(1500)
	if c.Thorough {
		allStates = 60000
	}
	// one: every interleaving of channel operations, and, with pre >= 0, also
	// every schedule with that many preemptions between statements
	one := func(p pipes.Program, pre int) bool {
		if !c.Case(func() string { return p.Name }, func(t *T) {
			explore(t, vsched.Options{Preemptions: -1, Reduce: true, Limit: caseTime}, p.Run, judge(p.Want))
			if t.c.cut {
				return
			}
			// small enough: the same again, in every state
			every(t, allStates, p.Run, judge(p.Want))
		}) {
			return false
		}
		if pre < 0 {
			return true
		}
		return c.Case(func() string { return fmt.Sprintf("%s, %d preemptions between statements", p.Name, pre) }, func(t *T) {
			explore(t, vsched.Options{Preemptions: pre, Limit: caseTime}, p.Run, judge(p.Want))
		})
	}
	if !selfTest(c) {
		return
	}
	maxLen, preS := 4, 2
	if c.Thorough {
		maxLen, preS = 6, 3
	}
	units := func(full bool) []pipes.Unary {
		u := []pipes.Unary{pipes.Apply(), pipes.Round(0, refRound), pipes.PipeTo(0), pipes.PipeTo(1), pipes.Rechan(),
			pipes.Shift(0, -7), pipes.Shift(1, -7), pipes.Shift(2, 0), pipes.Skip(0), pipes.Skip(1), pipes.Skip(2), pipes.SmaT(1), pipes.SmaT(2)}
		if full {
			u = append(u, pipes.Shift(3, -7), pipes.Skip(3), pipes.Skip(5), pipes.PipeTo(3), pipes.Round(1, refRound), pipes.Round(2, refRound), pipes.SmaT(3), pipes.SmaT(4))
		}
		return u
	}
	caps := []int{0, 1, 2, -1, -2}
	// every operator alone, input lengths and buffers
	c.Bound("each operator alone: input lengths 0..%d, unbuffered, buffers 1 and 2, slices, closed full channels: all interleavings; up to %d preemptions between statements for lengths to 2", maxLen, preS)
	for _, u := range units(true) {
		for n := 0; n <= maxLen; n++ {
			for _, cp := range caps {
				pre := -1
				smat := strings.HasPrefix(u.Name, "smat")
				if smat && (cp == -2 || cp == 2) && n > maxLen-2 {
					continue
				}
				if n <= 2 && cp <= 1 {
					pre = preS
					if n == 2 {
						pre--
					}
					if smat {
						pre = 1
						if n > 0 && !(c.Thorough && n == 1) {
							pre = -1
						}
					}
				}
				if !one(u.Of(pipes.In(0)).Of([][]float64{numbered(0, n)}, []int{cp}), pre) {
					return
				}
			}
		}
	}
	// values: zeros, repeated, negative and fractional elements
	c.Bound("each operator alone over every sequence of up to 3 elements of {0, 1, -2.5} (streaming average: {0, 1, -2}), unbuffered")
	for _, u := range units(true) {
		alpha := []float64{0, 1, -2.5}
		if strings.HasPrefix(u.Name, "smat") {
			alpha[2] = -2
		}
		for _, l := range seqs(alpha, 3) {
			if len(l) > 0 && !one(u.Of(pipes.In(0)).Of([][]float64{l}, []int{0}), -1) {
				return
			}
		}
	}
	// rounding
	for d := 0; d <= 4; d++ {
		if !one(pipes.Round(d, refRound).Of(pipes.In(0)).Of([][]float64{{1.23456, -9.87654, 0, 2.5, 1e5 + .125}}, []int{1}), -1) {
			return
		}
	}
	// streaming averages, also of integers
	for p := 1; p <= 5; p++ {
		for n := 0; n <= maxLen+1; n++ {
			l := []float64{}
			var li []int
			for k := 0; k < n; k++ {
				l = append(l, math.Pow(10, float64(k))*float64(k+1))
				li = append(li, (k+1)*(k+1)*7-20)
			}
			for _, cp := range []int{0, 1} {
				if !one(pipes.SmaT(p).Of(pipes.In(0)).Of([][]float64{l}, []int{cp}), -1) || !one(pipes.SmaInt(li, p, cp), -1) {
					return
				}
			}
		}
	}
	// duplicate: one consumer for each copy
	c.Bound("duplicate: 0..4 copies with a consumer each, lengths 0..3, buffers 0..2; copies shifted, skipped and copied again; operate: all pairs of lengths 0..%d, also of differing types", maxLen)
	for count := 0; count <= 4; count++ {
		for n := 0; n <= 3; n++ {
			for cp := 0; cp <= 2; cp++ {
				pre := -1
				if count <= 2 && n <= 2 && cp <= 1 {
					pre = preS - 1
				}
				if !c.Thorough && count == 4 && n == 3 {
					continue
				}
				if !one(pipes.Dup(numbered(0, n), cp, count, nil), pre) {
					return
				}
			}
		}
	}
	after := func(k int) *pipes.Unary {
		us := []pipes.Unary{pipes.Skip(1), pipes.Shift(1, -7), pipes.Apply()}
		return &us[k%3]
	}
	for count := 1; count <= 3; count++ {
		for n := 0; n <= 3; n++ {
			if count == 3 && n == 3 && !c.Thorough {
				continue
			}
			for cp := 0; cp <= 1; cp++ {
				if !one(pipes.Dup(numbered(0, n), cp, count, after), -1) {
					return
				}
			}
		}
	}
	for n := 0; n <= 3; n++ {
		for cp := 0; cp <= 1; cp++ {
			if !one(pipes.DupDup(numbered(0, n), cp), -1) {
				return
			}
			if !one(pipes.DrainIt(numbered(0, n), cp), preS) {
				return
			}
		}
	}
	longStreams(c, judge)
	if c.Stop() {
		return
	}
	// operate: unequal lengths
	zip := pipes.Zip(pipes.In(0), pipes.In(1))
	for a := 0; a <= maxLen; a++ {
		for b := 0; b <= maxLen; b++ {
			for _, ca := range []int{0, 1, 2, -2} {
				for _, cb := range []int{0, 1, -2} {
					pre := -1
					if a+b <= 3 && ca == 0 && cb <= 0 {
						pre = preS
						if a+b == 3 {
							pre--
						}
					}
					if !one(zip.Of([][]float64{numbered(0, a), numbered(1, b)}, []int{ca, cb}), pre) {
						return
					}
					if !one(pipes.Mixed(a, b, max(0, ca), max(0, cb)), -1) {
						return
					}
				}
			}
		}
	}
	for _, x := range seqs([]float64{0, 1}, 2) {
		for _, y := range seqs([]float64{0, 1}, 2) {
			if !one(zip.Of([][]float64{x, y}, []int{0, 0}), -1) {
				return
			}
		}
	}
	// two operators
	n2 := 3
	if c.Thorough {
		n2 = 4
	}
	c.Bound("every chain of two unary operators of %d, lengths 0..%d; every operate of two operators over unequal inputs; duplicate and operate again", len(units(false)), n2)
	for _, u := range units(false) {
		for _, v := range units(false) {
			for n := 0; n <= n2; n++ {
				for cp := 0; cp <= 1; cp++ {
					if !one(u.Of(v.Of(pipes.In(0))).Of([][]float64{numbered(0, n)}, []int{cp}), -1) {
						return
					}
				}
			}
		}
	}
	small := []pipes.Unary{pipes.Apply(), pipes.Shift(1, -7), pipes.Shift(2, -7), pipes.Skip(1), pipes.Skip(2), pipes.PipeTo(1), pipes.SmaT(2)}
	for _, u := range small {
		for _, v := range small {
			for a := 0; a <= n2; a++ {
				for b := 0; b <= n2; b++ {
					if !c.Thorough && (a+b > 4 || strings.HasPrefix(u.Name, "smat") && strings.HasPrefix(v.Name, "smat") && a+b > 3) {
						continue
					}
					if !one(pipes.Zip(u.Of(pipes.In(0)), v.Of(pipes.In(1))).Of([][]float64{numbered(0, a), numbered(1, b)}, []int{0, 0}), -1) {
						return
					}
				}
			}
		}
	}
	for _, u := range small {
		for a := 0; a <= n2; a++ {
			for b := 0; b <= n2; b++ {
				if !one(u.Of(zip).Of([][]float64{numbered(0, a), numbered(1, b)}, []int{0, 1}), -1) ||
					!one(pipes.Zip(zip, pipes.In(2)).Of([][]float64{numbered(0, a), numbered(1, b), numbered(2, (a+2*b)%4)}, []int{0, 0, 0}), -1) ||
					!one(pipes.Zip(pipes.In(2), zip).Of([][]float64{numbered(0, a), numbered(1, b), numbered(2, (2*a+b)%4)}, []int{0, 0, 0}), -1) {
					return
				}
			}
		}
	}
	for _, u := range []pipes.Unary{pipes.Apply(), pipes.Shift(1, -7), pipes.Shift(2, -7), pipes.PipeTo(1), pipes.Round(0, refRound)} {
		for _, v := range []pipes.Unary{pipes.Apply(), pipes.Shift(1, -7), pipes.Shift(3, -7), pipes.PipeTo(0)} {
			for n := 0; n <= n2; n++ {
				for cp := 0; cp <= 1; cp++ {
					if !one(pipes.Fork(pipes.In(0), u, v).Of([][]float64{numbered(0, n)}, []int{cp}), -1) {
						return
					}
				}
			}
		}
	}
	for _, u := range small {
		if !one(pipes.Twice(u, numbered(0, 3), numbered(1, 2)), -1) {
			return
		}
	}
	// three operators
	n3 := 2
	if c.Thorough {
		n3 = 3
	}
	c.Bound("every chain of three unary operators of %d, lengths 0..%d", len(small), n3)
	for _, u := range small {
		for _, v := range small {
			for _, w := range small {
				for n := 0; n <= n3; n++ {
					if !one(u.Of(v.Of(w.Of(pipes.In(0)))).Of([][]float64{numbered(0, n)}, []int{0}), -1) {
						return
					}
				}
			}
		}
	}
}

// longStreams: streams longer than any buffer, all interleavings (with
// reduction) where these are few enough, else every schedule without a
// preemption.
func longStreams(c *Ctx, judge func(string) func(vsched.Outcome) string) {
	lens := []int{17, 40, 130}
	if c.Thorough {
		lens = append(lens, 33, 65, 300)
	}
	max := int64(3000)
	c.Bound("streams of %v elements through each operator, with parameters to 40 and buffers 0, 1 and 16: all interleavings with reduction if not more than %d executions", lens, max)
	one := func(p pipes.Program) bool {
		return c.Case(func() string { return p.Name }, func(t *T) {
			st, bad := vsched.Explore(p.Run, vsched.Options{Preemptions: -1, Reduce: true, MaxExecs: max, Limit: caseTime}, judge(p.Want))
			t.States(st.States)
			t.Traces(st.Executions)
			t.c.transitions += st.Transitions
			t.Count("schedules_executed", st.Executions)
			t.Count("complete_executions", st.Terminals)
			if st.Cut {
				t.Count("long_streams_explored_in_part", 1)
			} else {
				t.Count("long_streams_explored_completely", 1)
			}
			if bad != "" {
				t.Failf("%s", bad)
			}
		})
	}
	us := []pipes.Unary{pipes.Apply(), pipes.Round(1, refRound), pipes.PipeTo(0), pipes.PipeTo(40), pipes.Rechan(),
		pipes.Shift(1, -7), pipes.Shift(16, -7), pipes.Shift(40, 0), pipes.Skip(1), pipes.Skip(16), pipes.Skip(40), pipes.SmaT(2), pipes.SmaT(9), pipes.SmaT(20)}
	for _, n := range lens {
		for _, u := range us {
			for _, cp := range []int{0, 1, 16} {
				if strings.HasPrefix(u.Name, "smat") && n > 40 && !c.Thorough {
					continue
				}
				if !one(u.Of(pipes.In(0)).Of([][]float64{numbered(0, n)}, []int{cp})) {
					return
				}
			}
		}
		zip := pipes.Zip(pipes.In(0), pipes.In(1))
		for _, m := range []int{0, 3, n - 1, n, n + 20} {
			for _, cp := range []int{0, 16} {
				if !one(zip.Of([][]float64{numbered(0, n), numbered(1, m)}, []int{cp, 0})) ||
					!one(zip.Of([][]float64{numbered(0, m), numbered(1, n)}, []int{0, cp})) {
					return
				}
			}
		}
		for count := 1; count <= 3; count++ {
			if !one(pipes.Dup(numbered(0, n), count-1, count, nil)) {
				return
			}
		}
	}
	// very long ones: a bounded number of their interleavings
	max = 12
	c.Bound("streams of 257 and 1030 elements through each operator, parameters to 300: the first %d interleavings", max)
	for _, n := range []int{257, 1030} {
		for _, u := range []pipes.Unary{pipes.Apply(), pipes.Round(2, refRound), pipes.PipeTo(0), pipes.PipeTo(300), pipes.Rechan(),
			pipes.Shift(1, -7), pipes.Shift(300, 3), pipes.Skip(1), pipes.Skip(256), pipes.Skip(300), pipes.SmaT(3), pipes.SmaT(65), pipes.SmaT(260)} {
			for _, cp := range []int{0, 300} {
				if !one(u.Of(pipes.In(0)).Of([][]float64{numbered(0, n)}, []int{cp})) {
					return
				}
			}
		}
		if !one(pipes.Zip(pipes.In(0), pipes.In(1)).Of([][]float64{numbered(0, n), numbered(1, n+300)}, []int{0, 0})) ||
			!one(pipes.Dup(numbered(0, n), 1, 3, nil)) {
			return
		}
	}
}

// freely runs the same programs once more with the library as it is (not
// rewritten), in a build with the race detector: the rewritten library and the
// real one deliver the same.
func freely(c *Ctx) {
	bin := os.Getenv("MC_FREE")
	if bin == "" || vsched.Native {
		return
	}
	c.Bound("besides: the same programs run freely with the library not rewritten, in a build with the race detector")
	const parts = 8
	for k := 0; k < parts; k++ {
		k := k
		if !c.Case(func() string {
			return fmt.Sprintf("programs %d mod %d run freely with the library not rewritten", k, parts)
		}, func(t *T) {
			tier := "quick"
			if c.Thorough {
				tier = "thorough"
			}
			cmd := exec.Command(bin, "child", c.ID, tier, fmt.Sprint(k), fmt.Sprint(parts), "-1", "-1", "", "120s")
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "MC_FREE=")
			var errb strings.Builder
			cmd.Stderr = &limited{w: &errb, n: 1 << 20}
			so, err := cmd.Output()
			s := errb.String()
			if strings.Contains(s, "DATA RACE") && strings.Contains(s, "idoall/stockindicator") {
				t.Failf("data race: %s", raceText(s))
			}
			for _, l := range strings.Split(string(so), "\n") {
				var m childMsg
				if json.Unmarshal([]byte(l), &m) != nil {
					continue
				}
				if m.Type == "viol" {
					t.Failf("run freely: %s: %s", m.Desc, m.Msg)
				}
				if m.Type == "done" {
					t.Count("free_runs_of_the_unchanged_library", m.Extra["schedules_executed"])
				}
			}
			if err != nil {
				if strings.Contains(s, "idoall/stockindicator") {
					t.Failf("run freely: %s", tail(s, 600))
				}
				panic("free build: " + err.Error() + tail(s, 2000))
			}
		}) {
			return
		}
	}
}

func checkEquals(c *Ctx) {
	runtime.GOMAXPROCS(1)
	judge := func(want string) func(vsched.Outcome) string {
		return func(o vsched.Outcome) string {
			if o.Kind != "done" && o.Kind != "leak" {
				return o.Kind + ": " + o.Detail
			}
			if got := fmt.Sprint(o.Result); got != want {
				return fmt.Sprintf("reported %s, want %s", got, want)
			}
			return ""
		}
	}
	one := func(p pipes.Program, pre int) bool {
		return c.Case(func() string { return fmt.Sprintf("%s, preemptions %d", p.Name, pre) }, func(t *T) {
			explore(t, vsched.Options{Preemptions: pre, AllowLeak: true, Limit: caseTime}, p.Run, judge(p.Want))
		})
	}
	lists := func(alpha []int, n int) [][]int {
		out := [][]int{{}}
		last := out
		for k := 0; k < n; k++ {
			var next [][]int
			for _, p := range last {
				for _, v := range alpha {
					next = append(next, append(append([]int{}, p...), v))
				}
			}
			out = append(out, next...)
			last = next
		}
		return out
	}
	rec := func(ls [][]int, k int, caps [][]int, pre int) bool {
		var cur [][]int
		var f func() bool
		f = func() bool {
			if len(cur) == k {
				for _, cp := range caps {
					var cc []int
					for j := 0; j < k; j++ {
						cc = append(cc, cp[j%len(cp)])
					}
					if !one(pipes.Equal(append([][]int{}, cur...), cc), pre) {
						return false
					}
				}
				return true
			}
			for _, l := range ls {
				cur = append(cur, l)
				ok := f()
				cur = cur[:len(cur)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		return f()
	}
	n1, n2 := 4, 2
	if c.Thorough {
		n1, n2 = 5, 2
	}
	c.Bound("no streams; odd numbers of streams; one pair: all sequences of up to %d elements of {0, 1}; two pairs: up to %d elements of {0, 1}; three pairs: up to 1 element of {0, 1} and up to 3 elements of {0}; unbuffered, buffered and full channels", n1, n2)
	if !rec(lists([]int{0, 1}, 1), 0, [][]int{{0}}, 1) ||
		!rec(lists([]int{0, 1}, 1), 1, [][]int{{0}, {1}, {-1}}, 1) ||
		!rec(lists([]int{0, 1}, 1), 3, [][]int{{0}, {1}, {-1}}, -1) {
		return
	}
	_ = rec(lists([]int{0}, 1), 5, [][]int{{0}}, -1) &&
		rec(lists([]int{0, 1}, n1), 2, [][]int{{0, 0}, {0, 1}, {2, 0}, {3, 3}, {-1, -1}, {0, -1}}, -1) &&
		rec(lists([]int{0, 1}, 2), 2, [][]int{{0, 0}, {1, 0}}, 2) &&
		rec(lists([]int{-1, 0, 7}, 2), 2, [][]int{{0, 0}}, -1) &&
		rec(lists([]int{0, 1}, 2), 4, [][]int{{0, 0, 0, 0}, {1, 0, 0, 2}}, -1) &&
		rec(lists([]int{0, 1}, 1), 6, [][]int{{0}, {-1}}, -1) &&
		rec(lists([]int{0}, 2), 6, [][]int{{0}}, -1) &&
		rec(lists([]int{0}, 3), 4, [][]int{{0}, {1}}, -1) &&
		rec(lists([]int{0, 1}, 3), 4, [][]int{{-1}}, -1)
	evs := pipes.EqualValues()
	c.Bound("every two values of strings, floats, integers, truths, records, arrays and complex numbers in %d arrangements", len(evs))
	for _, p := range evs {
		if !one(p, -1) {
			return
		}
	}
	// long streams and many pairs
	c.Bound("pairs of 17 and 40 elements, equal, one longer, or different at one position; four to eight pairs, one of them different or one longer: all interleavings with reduction up to 3000 executions")
	long := func(ls [][]int, cp int) bool {
		caps := make([]int, len(ls))
		for k := range caps {
			caps[k] = cp
		}
		p := pipes.Equal(ls, caps)
		return c.Case(func() string { return p.Name }, func(t *T) {
			explore(t, vsched.Options{Preemptions: -1, Reduce: true, MaxExecs: 3000, AllowLeak: true, Limit: caseTime}, p.Run, judge(p.Want))
		})
	}
	run := func(n, at, v int) []int {
		var l []int
		for k := 0; k < n; k++ {
			x := k * k % 7
			if k == at {
				x = v
			}
			l = append(l, x)
		}
		return l
	}
	for _, n := range []int{17, 40} {
		for _, cp := range []int{0, 1, 16, -1} {
			for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
				for _, m := range []int{n, n + 1, n + 9} {
					if !long([][]int{run(n, -1, 0), run(m, at, 9)}, cp) || !long([][]int{run(m, at, 9), run(n, -1, 0)}, cp) ||
						(cp < 0 && !long([][]int{run(n, -1, 0), run(n, -1, 0), run(n, -1, 0), run(m, at, 9)}, cp)) {
						return
					}
				}
			}
		}
	}
	c.Bound("pairs of 64 to 5000 elements delivered at once, different at the start, in the middle, at the end or in length")
	for _, n := range []int{63, 64, 65, 128, 255, 256, 257, 1000, 1024, 1025, 5000} {
		for _, at := range []int{-1, 0, n / 2, n - 1} {
			for _, m := range []int{n, n + 1, n + 256} {
				if !long([][]int{run(n, -1, 0), run(m, at, 9)}, -1) || !long([][]int{run(m, at, 9), run(n, -1, 0)}, -1) {
					return
				}
			}
		}
	}
	for pairs := 4; pairs <= 8; pairs++ {
		for bad := -1; bad < pairs; bad++ {
			for _, at := range []int{0, 1, 2, 3} {
				var ls [][]int
				for k := 0; k < pairs; k++ {
					a, b := run(3, -1, 0), run(3, -1, 0)
					if k == bad {
						b = run(3, at, 5)
						if at == 3 {
							b = run(4, -1, 0)
						}
					}
					ls = append(ls, a, b)
				}
				if !long(ls, -1) {
					return
				}
			}
		}
	}
	if c.Thorough && !c.Stop() {
		_ = rec(lists([]int{0, 1}, 1), 6, [][]int{{1}, {0, 1}}, -1) &&
			rec(lists([]int{0, 1}, 3), 4, [][]int{{-1}}, -1) &&
			rec(lists([]int{0}, 3), 6, [][]int{{0}}, -1) &&
			rec(lists([]int{0, 1}, 1), 4, [][]int{{0}}, 2)
	}
}

// atomically runs f under one schedule: for reference results.
func atOnce(f func()) {
	if o := vsched.RunOnce(func() any { f(); return nil }); o.Kind != "done" && o.Kind != "leak" {
		panic(failure{"alone: " + o.Kind + " " + o.Detail})
	}
}

func checkTogether(c *Ctx) {
	runtime.GOMAXPROCS(1)
	jobs := conJobs()
	h1, h2 := mkHist(7, 0, 1, 5, false), mkHist(13, 3, 3, 4, false)
	g1, g2 := mkHist(7, 0, 1, 9, false), mkHist(13, 3, 3, 7, false)
	if c.Thorough {
		h1, h2 = mkHist(7, 0, 1, 8, false), mkHist(13, 3, 3, 6, false)
		g1, g2 = mkHist(7, 0, 1, 14, false), mkHist(13, 3, 3, 9, false)
	}
	per1, per2 := uint16(3), uint16(1)
	if c.Thorough {
		per1, per2 = 8, 2
	}
	pair := func(a, b conJob, ha, hb *Hist, shared bool, pre int, per uint16) bool {
		name := func() string {
			return fmt.Sprintf("%s beside %s, histories of %d and %d candles, shared %v, %d preemptions at the first %d visits of a statement", a.name, b.name, len(ha.C), len(hb.C), shared, pre, per)
		}
		return c.Case(name, func(t *T) {
			if shared {
				hb = ha
			}
			var ra, rb []*Out
			atOnce(func() { ra = a.run(ha.Item()) })
			atOnce(func() { rb = b.run(hb.Item()) })
			var oa, ob []*Out
			explore(t, vsched.Options{Preemptions: pre, PerSite: per, Limit: caseTime}, func() any {
				ia := ha.Item()
				ib := ia
				if !shared {
					ib = hb.Item()
				}
				oa, ob = nil, nil
				pipes.Together([]func() string{
					func() string { oa = a.run(ia); return "" },
					func() string { ob = b.run(ib); return "" },
				})
				return nil
			}, func(o vsched.Outcome) string {
				if o.Kind != "done" {
					return o.Kind + ": " + o.Detail
				}
				if df := diffOuts(oa, ra); df != "" {
					return a.name + " differs from the same alone: " + df
				}
				if df := diffOuts(ob, rb); df != "" {
					return b.name + " differs from the same alone: " + df
				}
				return ""
			})
		})
	}
	c.Bound("every pair of %d jobs (construct, calculate, read and analyse an indicator): every schedule with 1 preemption at any statement of the library, both orders, over one shared history of %d candles; jobs of one kind over separate histories of %d and %d candles too", len(jobs), len(h1.C), len(g1.C), len(g2.C))
	for k, a := range jobs {
		if !pair(a, a, g1, g2, false, 1, per1) || !pair(a, a, g1, g1, true, 1, per1) {
			return
		}
		for _, b := range jobs[k+1:] {
			if !pair(a, b, h1, h1, true, 1, per1) {
				return
			}
			if c.Thorough && (!pair(a, b, h2, h1, false, 1, per1)) {
				return
			}
		}
	}
	// more preemptions over the shortest histories
	s1, s2 := mkHist(7, 0, 1, 2, false), mkHist(13, 3, 3, 2, false)
	if c.Thorough {
		s1, s2 = mkHist(7, 0, 1, 3, false), mkHist(13, 3, 3, 3, false)
	}
	c.Bound("jobs of one kind over separate histories of %d candles: every schedule with 2 preemptions", len(s1.C))
	for _, a := range jobs {
		if a.heavy > 4 && !c.Thorough {
			continue
		}
		if !pair(a, a, s1, s2, false, 2, per2) {
			return
		}
	}
	raceParts(c)
}

// raceParts runs all pairs freely in a build with the race detector.
func raceParts(c *Ctx) {
	bin := os.Getenv("MC_RACE")
	if bin == "" {
		return
	}
	c.Bound("besides: every pair of jobs run freely at the same time in a build with the race detector (any two conflicting accesses without synchronisation are reported)")
	n, reps := len(conJobs()), 1
	if c.Thorough {
		reps = 5
	}
	for k := 0; k < n; k++ {
		k := k
		if !c.Case(func() string {
			return conJobs()[k].name + " and each job from it on, at the same time, under the race detector"
		}, func(t *T) {
			for j := k; j < n; j++ {
				cmd := exec.Command(bin, "race35", fmt.Sprint(k), fmt.Sprint(j), fmt.Sprint(reps))
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
				var out strings.Builder
				cmd.Stdout, cmd.Stderr = &limited{w: &out, n: 1 << 20}, &limited{w: &out, n: 1 << 20}
				err := cmd.Run()
				s := out.String()
				if strings.Contains(s, "DATA RACE") && strings.Contains(s, "idoall/stockindicator") {
					t.Failf("%s beside %s: data race: %s", conJobs()[k].name, conJobs()[j].name, raceText(s))
				}
				if j := strings.Index(s, "DIFFERS: "); j >= 0 {
					t.Failf("at the same time: %s", strings.SplitN(s[j+9:], "\n", 2)[0])
				}
				if err != nil {
					if strings.Contains(s, "idoall/stockindicator") {
						t.Failf("at the same time: %s", tail(s, 600))
					}
					panic("race build: " + err.Error() + tail(s, 2000))
				}
				t.Count("pairs_run_under_the_race_detector", 1)
			}
		}) {
			return
		}
	}
}

func raceText(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.Contains(x, "idoall/stockindicator") || strings.Contains(x, "Write at") || strings.Contains(x, "Read at") || strings.Contains(x, "Previous") {
			l = append(l, strings.TrimSpace(x))
		}
	}
	if len(l) > 8 {
		l = l[:8]
	}
	return strings.Join(l, "; ")
}
