package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/idoall/stockindicator/utils/klines"
)

// conJob is what one goroutine does in C35.
type conJob struct {
	name  string
	heavy int
	run   func(it *klines.Item) []*Out
}

func conJobs() []conJob {
	var js []conJob
	for _, d := range registry {
		d := d
		p := d.Tiny[0]
		js = append(js, conJob{d.Name + pstr(p), d.Heavy, func(it *klines.Item) []*Out {
			obj := d.New(it, p)
			var l []*Out
			for _, o := range opsOf(d) {
				out, _ := o.run(obj)
				l = append(l, out)
			}
			return l
		}})
	}
	return js
}

func diffOuts(a, b []*Out) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results instead of %d", len(a), len(b))
	}
	for k := range a {
		if (a[k] == nil) != (b[k] == nil) {
			return "a result is missing"
		}
		if a[k] == nil {
			continue
		}
		if df := a[k].diff(b[k]); df != "" {
			return a[k].What + ": " + df
		}
	}
	return ""
}

// race35 runs jobs x and y at the same time (in a build with the race
// detector), in a process of their own so that nothing is warmed up.
func race35(x, y, reps int) {
	noCache = true
	jobs := conJobs()
	for _, d := range registry {
		opsOf(d)
	}
	ha, hb := mkHist(7, 0, 1, 34, false), mkHist(13, 3, 3, 21, false)
	a, b := jobs[x], jobs[y]
	for r := 0; r < reps; r++ {
		for shared := 1; shared >= 0; shared-- {
			h2 := hb
			ia := ha.Item()
			ib := hb.Item()
			if shared == 1 {
				h2, ib = ha, ia
			}
			var oa, ob []*Out
			var wg sync.WaitGroup
			start := make(chan int)
			wg.Add(2)
			go func() { defer wg.Done(); <-start; oa = a.run(ia) }()
			go func() { defer wg.Done(); <-start; ob = b.run(ib) }()
			close(start)
			wg.Wait()
			if df := diffOuts(oa, a.run(ha.Item())); df != "" {
				fmt.Printf("DIFFERS: %s beside %s: %s\n", a.name, b.name, df)
				os.Exit(1)
			}
			if df := diffOuts(ob, b.run(h2.Item())); df != "" {
				fmt.Printf("DIFFERS: %s beside %s: %s\n", b.name, a.name, df)
				os.Exit(1)
			}
		}
	}
}
