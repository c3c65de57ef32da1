// Package pipes holds the stream programs that are run under every schedule.
// It is written with ordinary goroutines and channels; the build rewrites it
// together with the library.
package pipes

import (
	"fmt"
	"math"
	"strings"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/ta"
)

// Program is one closed program: producers, operators and consumers.  Run
// returns what the consumers received; Want is what they should receive.
type Program struct {
	Name string
	Run  func() any
	Want string
}

// Produce starts a producer of the values on a channel with the capacity.
func Produce[T any](l []T, cap int) <-chan T {
	c := make(chan T, cap)
	go func() {
		for _, v := range l {
			c <- v
		}
		close(c)
	}()
	return c
}

// Filled is a channel that holds all of its values and is closed.
func Filled[T any](l []T) <-chan T {
	c := make(chan T, len(l))
	for _, v := range l {
		c <- v
	}
	close(c)
	return c
}

func Consume[T any](c <-chan T) []T {
	var l []T
	for v := range c {
		l = append(l, v)
	}
	return l
}

// ConsumeAll reads every channel in a goroutine of its own.
func ConsumeAll[T any](cs []<-chan T) [][]T {
	out := make([][]T, len(cs))
	done := make([]chan int, len(cs))
	for k := range cs {
		k := k
		done[k] = make(chan int, 1)
		go func() {
			out[k] = Consume(cs[k])
			done[k] <- k
		}()
	}
	for k := range cs {
		<-done[k]
	}
	return out
}

func show(l []float64) string { return fmt.Sprint(l) }

// ------------------------------------------------------ terms over inputs

// Term is a pipeline with one output.
type Term struct {
	Name  string
	Build func(in []<-chan float64) <-chan float64
	Ref   func(in [][]float64) []float64
	Lag   int // reads this many elements more than it has delivered
}

// In is input k.
func In(k int) Term {
	return Term{Name: fmt.Sprintf("in%d", k),
		Build: func(in []<-chan float64) <-chan float64 { return in[k] },
		Ref:   func(in [][]float64) []float64 { return in[k] }}
}

func Affine(x float64) float64        { return 3*x + 1 }
func Second(a, b float64) float64     { return 1000*a + b }
func third(a int, b string) []float64 { return []float64{float64(a), float64(len(b))} }

// Unary is an operator with one input and one output.
type Unary struct {
	Name  string
	Build func(c <-chan float64) <-chan float64
	Ref   func(l []float64) []float64
}

func (u Unary) Of(t Term) Term {
	return Term{Name: u.Name + "(" + t.Name + ")",
		Build: func(in []<-chan float64) <-chan float64 { return u.Build(t.Build(in)) },
		Ref:   func(in [][]float64) []float64 { return u.Ref(t.Ref(in)) }}
}

func Apply() Unary {
	return Unary{"apply", func(c <-chan float64) <-chan float64 { return helpertools.Apply(c, Affine) },
		func(l []float64) []float64 {
			var r []float64
			for _, v := range l {
				r = append(r, Affine(v))
			}
			return r
		}}
}

func Shift(n int, fill float64) Unary {
	return Unary{fmt.Sprintf("shift %d", n), func(c <-chan float64) <-chan float64 { return helpertools.Shift(c, n, fill) },
		func(l []float64) []float64 {
			var r []float64
			for k := 0; k < n; k++ {
				r = append(r, fill)
			}
			return append(r, l...)
		}}
}

func Skip(n int) Unary {
	return Unary{fmt.Sprintf("skip %d", n), func(c <-chan float64) <-chan float64 { return helpertools.Skip(c, n) },
		func(l []float64) []float64 {
			if n > len(l) {
				return nil
			}
			return l[n:]
		}}
}

func Round(d int, ref func(float64, int) float64) Unary {
	return Unary{fmt.Sprintf("round %d", d), func(c <-chan float64) <-chan float64 { return helpertools.RoundDigits(c, d) },
		func(l []float64) []float64 {
			var r []float64
			for _, v := range l {
				r = append(r, ref(v, d))
			}
			return r
		}}
}

// PipeTo pipes into a channel of the capacity.
func PipeTo(n int) Unary {
	return Unary{fmt.Sprintf("pipe cap %d", n), func(c <-chan float64) <-chan float64 {
		t := make(chan float64, n)
		go helpertools.Pipe(c, t)
		return t
	}, func(l []float64) []float64 { return l }}
}

// Rechan collects the stream and streams the collection again.
func Rechan() Unary {
	return Unary{"slice", func(c <-chan float64) <-chan float64 { return helpertools.Slice2Chan(helpertools.Chan2Slice(c)) },
		func(l []float64) []float64 { return l }}
}

func SmaT(p int) Unary {
	return Unary{fmt.Sprintf("smat %d", p), func(c <-chan float64) <-chan float64 { return ta.SmaT(p, c) },
		func(l []float64) []float64 {
			var r []float64
			for k := range l {
				s := 0.0
				for j := max(0, k-p+1); j <= k; j++ {
					s += l[j]
				}
				r = append(r, s/float64(p))
			}
			return r
		}}
}

// Zip combines two pipelines.
func Zip(a, b Term) Term {
	return Term{Name: "operate(" + a.Name + ", " + b.Name + ")",
		Build: func(in []<-chan float64) <-chan float64 {
			return helpertools.Operate(a.Build(in), b.Build(in), Second)
		},
		Ref: func(in [][]float64) []float64 {
			x, y := a.Ref(in), b.Ref(in)
			var r []float64
			for k := 0; k < len(x) && k < len(y); k++ {
				r = append(r, Second(x[k], y[k]))
			}
			return r
		}}
}

// Fork duplicates a pipeline, passes both copies through operators and
// combines them again.
func Fork(t Term, a, b Unary) Term {
	return Term{Name: "fork(" + t.Name + "; " + a.Name + "; " + b.Name + ")",
		Build: func(in []<-chan float64) <-chan float64 {
			cs := helpertools.Duplicate(t.Build(in), 2)
			return helpertools.Operate(a.Build(cs[0]), b.Build(cs[1]), Second)
		},
		Ref: func(in [][]float64) []float64 {
			l := t.Ref(in)
			x, y := a.Ref(l), b.Ref(l)
			var r []float64
			for k := 0; k < len(x) && k < len(y); k++ {
				r = append(r, Second(x[k], y[k]))
			}
			return r
		}}
}

// Of makes a program of a pipeline over inputs with given buffer capacities
// (-1: a slice converted to a stream by the library; -2: all there before).
func (t Term) Of(ins [][]float64, caps []int) Program {
	return Program{
		Name: fmt.Sprintf("%s over %v buffers %v", t.Name, ins, caps),
		Want: show(t.Ref(ins)),
		Run: func() any {
			cs := make([]<-chan float64, len(ins))
			for k := range ins {
				switch caps[k] {
				case -1:
					cs[k] = helpertools.Slice2Chan(ins[k])
				case -2:
					cs[k] = Filled(ins[k])
				default:
					cs[k] = Produce(ins[k], caps[k])
				}
			}
			return show(Consume(t.Build(cs)))
		}}
}

// Dup: count copies, each with a consumer of its own.
func Dup(l []float64, cap, count int, after func(k int) *Unary) Program {
	name := fmt.Sprintf("duplicate %d of %v buffer %d", count, l, cap)
	var want []string
	for k := 0; k < count; k++ {
		r := l
		if after != nil {
			if u := after(k); u != nil {
				r = u.Ref(l)
				name += " then " + u.Name
			}
		}
		want = append(want, show(r))
	}
	return Program{Name: name, Want: strings.Join(want, " "), Run: func() any {
		cs := helpertools.Duplicate(Produce(l, cap), count)
		if after != nil {
			for k := range cs {
				if u := after(k); u != nil {
					cs[k] = u.Build(cs[k])
				}
			}
		}
		var s []string
		for _, r := range ConsumeAll(cs) {
			s = append(s, show(r))
		}
		return strings.Join(s, " ")
	}}
}

// DupDup: a copy is copied again.
func DupDup(l []float64, cap int) Program {
	return Program{Name: fmt.Sprintf("duplicate of a duplicate of %v buffer %d", l, cap), Want: show(l) + show(l) + show(l),
		Run: func() any {
			a := helpertools.Duplicate(Produce(l, cap), 2)
			b := helpertools.Duplicate(a[1], 2)
			r := ConsumeAll([]<-chan float64{a[0], b[0], b[1]})
			return show(r[0]) + show(r[1]) + show(r[2])
		}}
}

// DrainIt drains a stream.
func DrainIt(l []float64, cap int) Program {
	return Program{Name: fmt.Sprintf("drain %v buffer %d", l, cap), Want: "0 left", Run: func() any {
		c := Produce(l, cap)
		helpertools.Drain(c)
		return fmt.Sprint(len(Consume(c)), " left")
	}}
}

// Mixed combines streams of different types into a third.
func Mixed(na, nb, ca, cb int) Program {
	var a []int
	var b []string
	for k := 0; k < na; k++ {
		a = append(a, k+1)
	}
	for k := 0; k < nb; k++ {
		b = append(b, strings.Repeat("x", k))
	}
	var want [][]float64
	for k := 0; k < na && k < nb; k++ {
		want = append(want, third(a[k], b[k]))
	}
	return Program{Name: fmt.Sprintf("operate of %d integers and %d strings buffers %d, %d", na, nb, ca, cb), Want: fmt.Sprint(want),
		Run: func() any {
			return fmt.Sprint(Consume(helpertools.Operate(Produce(a, ca), Produce(b, cb), third)))
		}}
}

// SmaInt: the streaming average of integers.
func SmaInt(l []int, p, cap int) Program {
	var want []int
	for k := range l {
		s := 0
		for j := max(0, k-p+1); j <= k; j++ {
			s += l[j]
		}
		want = append(want, s/p)
	}
	return Program{Name: fmt.Sprintf("smat %d of integers %v buffer %d", p, l, cap), Want: fmt.Sprint(want),
		Run: func() any { return fmt.Sprint(Consume(ta.SmaT(p, Produce(l, cap)))) }}
}

// Twice: two pipelines of the same kind run side by side.
func Twice(u Unary, a, b []float64) Program {
	return Program{Name: fmt.Sprintf("%s of %v beside %s of %v", u.Name, a, u.Name, b), Want: show(u.Ref(a)) + show(u.Ref(b)),
		Run: func() any {
			r := ConsumeAll([]<-chan float64{u.Build(Produce(a, 0)), u.Build(Produce(b, 0))})
			return show(r[0]) + show(r[1])
		}}
}

// Equal compares pairs of streams.
func Equal(ls [][]int, caps []int) Program {
	want := "equal"
	if len(ls)%2 != 0 {
		want = "error"
	} else {
		for k := 0; k < len(ls); k += 2 {
			if fmt.Sprint(ls[k]) != fmt.Sprint(ls[k+1]) {
				want = "error"
			}
		}
	}
	return Program{Name: fmt.Sprintf("check-equals %v buffers %v", ls, caps), Want: want, Run: func() any {
		cs := make([]<-chan int, len(ls))
		for k := range ls {
			if caps[k] < 0 {
				cs[k] = Filled(ls[k])
			} else {
				cs[k] = Produce(ls[k], caps[k])
			}
		}
		if err := helpertools.CheckEquals(cs...); err != nil {
			return "error"
		}
		return "equal"
	}}
}

// EqualValues: for every two values of one type, streams that hold them in the
// same and in different places.
func EqualValues() []Program {
	type pair struct{ A, B string }
	var l []Program
	l = append(l, equalValues("strings", []string{"", "a", "A", "a ", "aa", "1", "01", "+1", "a\x00", "\u00e9", "e\u0301"})...)
	l = append(l, equalValues("floats", []float64{0, 1, -1, 1 + 0x1p-52, 1e-9, 1e-12, 5e-324, 1e300, 1e300 * (1 + 0x1p-50), 100.1, 100.1000001, math.Inf(1), math.Inf(-1)})...)
	l = append(l, equalValues("short floats", []float32{0, 1, 1 + 0x1p-23, 3e38, 1e-45})...)
	l = append(l, equalValues("64-bit integers", []int64{0, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, 1 << 32, -1})...)
	l = append(l, equalValues("bytes", []uint8{0, 1, 128, 255})...)
	l = append(l, equalValues("truths", []bool{false, true})...)
	l = append(l, equalValues("records", []pair{{}, {"a b", "c"}, {"a", "b c"}, {"", "a"}, {"a", ""}, {"b c", "a"}, {"A", "b c"}})...)
	l = append(l, equalValues("arrays", [][3]int8{{}, {1}, {0, 1}, {0, 0, 1}, {1, 1}, {-1}})...)
	l = append(l, equalValues("complex numbers", []complex128{0, 1, 1i, 1 + 1i, 1 - 1i})...)
	return l
}

func equalValues[T comparable](kind string, vs []T) []Program {
	var out []Program
	for _, x := range vs {
		for _, y := range vs {
			for _, ls := range [][][]T{{{x}, {y}}, {{x, x}, {x, y}}, {{x, y}, {y, x}}, {{x}, {x}, {x}, {y}}, {{x}, {x}, {y}, {y}}, {{x, y}, {x}}} {
				want := "equal"
				for k := 0; k < len(ls); k += 2 {
					if len(ls[k]) != len(ls[k+1]) {
						want = "error"
						break
					}
					for q := range ls[k] {
						if ls[k][q] != ls[k+1][q] {
							want = "error"
						}
					}
				}
				ls := ls
				out = append(out, Program{Name: fmt.Sprintf("check-equals of %s %#v", kind, ls), Want: want, Run: func() any {
					cs := make([]<-chan T, len(ls))
					for k := range ls {
						cs[k] = Filled(ls[k])
					}
					if err := helpertools.CheckEquals(cs...); err != nil {
						return "error"
					}
					return "equal"
				}})
			}
		}
	}
	return out
}

// Together runs functions in goroutines of their own and returns their results.
func Together(fs []func() string) []string {
	out := make([]string, len(fs))
	done := make([]chan int, len(fs))
	for k := range fs {
		k := k
		done[k] = make(chan int, 1)
		go func() {
			out[k] = fs[k]()
			done[k] <- k
		}()
	}
	for k := range fs {
		<-done[k]
	}
	return out
}
