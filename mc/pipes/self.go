package pipes

import (
	"fmt"
	"sync"
)

// SelfTests are programs whose outcomes depend on the schedule: every way of
// exploring schedules must find the same set of outcomes.
func SelfTests() []Program {
	p := func(name string, f func() any) Program { return Program{Name: name, Run: f} }
	merge := func(na, nb, cp int) Program {
		return p(fmt.Sprintf("merge %d %d %d", na, nb, cp), func() any {
			c := make(chan int, cp)
			done := make(chan bool, 2)
			for k, n := range []int{na, nb} {
				k, n := k, n
				go func() {
					for i := 0; i < n; i++ {
						c <- 10*k + i
					}
					done <- true
				}()
			}
			go func() {
				<-done
				<-done
				close(c)
			}()
			return fmt.Sprint(Consume(c))
		})
	}
	return []Program{
		merge(1, 1, 0), merge(2, 1, 0), merge(2, 2, 0), merge(1, 1, 1), merge(2, 2, 1), merge(2, 1, 2), merge(0, 2, 3),
		p("two consumers", func() any {
			c := Produce([]int{1, 2, 3}, 1)
			r := make(chan string, 2)
			for k := 0; k < 2; k++ {
				k := k
				go func() { r <- fmt.Sprint(k, Consume(c)) }()
			}
			return <-r + <-r
		}),
		p("select of two", func() any {
			a, b := Produce([]int{1, 2}, 0), Produce([]int{11}, 1)
			s := ""
			for n := 0; n < 3; n++ {
				select {
				case v, ok := <-a:
					s += fmt.Sprint(v, ok, " ")
				case v := <-b:
					s += fmt.Sprint("b", v, " ")
				}
			}
			return s
		}),
		p("select with default", func() any {
			a := Produce([]int{1, 2}, 1)
			s := ""
			for n := 0; n < 3; n++ {
				select {
				case v := <-a:
					s += fmt.Sprint(v)
				default:
					s += "-"
				}
			}
			for v := range a {
				s += fmt.Sprint("+", v)
			}
			return s
		}),
		p("select send and receive", func() any {
			a, b := make(chan int), make(chan int)
			out := make(chan string, 2)
			go func() {
				select {
				case a <- 1:
					out <- "sent"
				case v := <-b:
					out <- fmt.Sprint("got ", v)
				}
			}()
			go func() {
				select {
				case b <- 2:
					out <- "SENT"
				case v := <-a:
					out <- fmt.Sprint("GOT ", v)
				}
			}()
			return <-out + <-out
		}),
		p("crossed", func() any {
			a, b := make(chan int), make(chan int)
			go func() { a <- 1; b <- 1 }()
			go func() { b <- 2; a <- 2 }()
			x := <-a
			return fmt.Sprint(x, <-b)
		}),
		p("send on closed", func() any {
			a := make(chan int, 2)
			go func() { a <- 1 }()
			go func() { close(a) }()
			v, ok := <-a
			return fmt.Sprint(v, ok)
		}),
		p("close twice", func() any {
			a := make(chan int, 2)
			d := make(chan int, 3)
			for k := 0; k < 2; k++ {
				go func() {
					select {
					case <-a:
					default:
						close(a)
					}
					d <- 1
				}()
			}
			<-d
			return <-d
		}),
		p("len", func() any {
			a := make(chan int, 3)
			go func() { a <- 1; a <- 2 }()
			return len(a)*10 + len(a)
		}),
		p("lock order", func() any {
			var m sync.Mutex
			var w sync.WaitGroup
			s := ""
			for k := 0; k < 3; k++ {
				k := k
				w.Add(1)
				go func() {
					defer w.Done()
					m.Lock()
					s += fmt.Sprint(k)
					m.Unlock()
				}()
			}
			w.Wait()
			return s
		}),
		p("two locks", func() any {
			var a, b sync.Mutex
			var w sync.WaitGroup
			w.Add(2)
			go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); w.Done() }()
			go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); w.Done() }()
			w.Wait()
			return "both"
		}),
		p("readers", func() any {
			var m sync.RWMutex
			x := 0
			c := make(chan int, 2)
			for k := 0; k < 2; k++ {
				go func() { m.RLock(); v := x; m.RUnlock(); c <- v }()
			}
			m.Lock()
			x = 1
			m.Unlock()
			m.Lock()
			x = 2
			m.Unlock()
			return fmt.Sprint(<-c, <-c)
		}),
		p("once", func() any {
			var o sync.Once
			r := make(chan int, 2)
			x := 0
			for k := 1; k < 3; k++ {
				k := k
				go func() { o.Do(func() { x = k }); r <- x }()
			}
			return fmt.Sprint(<-r, <-r)
		}),
		p("token passed by free slot", func() any {
			c := make(chan int, 1)
			x := 0
			d := make(chan int)
			go func() { x = 1; <-c; d <- 1 }()
			c <- 1
			c <- 2
			y := x
			<-d
			return y
		}),
		p("leak", func() any {
			c := make(chan int)
			for k := 0; k < 2; k++ {
				k := k
				go func() { c <- k }()
			}
			return <-c
		}),
		p("panics in a goroutine", func() any {
			c := make(chan int)
			go func() { c <- 1 }()
			go func() { c <- 2 }()
			if <-c == 2 {
				var m map[int]int
				m[1] = 1
			}
			return <-c
		}),
	}
}
