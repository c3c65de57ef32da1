package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"
)

// A Check decides one property by enumerating cases in a fixed order.  The
// order is the replay token: case k of a check is always the same case.
type Check struct {
	ID     string
	Level  string
	What   string // what a state and a transition are
	Run    func(c *Ctx)
	Shards int
	Assume []string
}

var checks = map[string]*Check{}

func register(id, level, what string, run func(c *Ctx), assume ...string) {
	checks[id] = &Check{ID: id, Level: level, What: what, Run: run, Assume: assume}
}

type Ctx struct {
	Lite     bool // the smaller gallery in the quick tier
	ID       string
	Thorough bool
	shard, n int
	only     int64 // replay exactly this case
	upto     int64 // stop after this case
	idx      int64
	deadline time.Time
	stopped  bool
	cut      bool

	states, transitions, traces int64
	maxDepth                    int64
	bounds                      []string
	extra                       map[string]int64
	samples                     []string
	nextSample                  int64

	curFile *os.File
	curIdx  atomic.Int64
	curT    atomic.Int64
	out     *json.Encoder
	curDesc func() string
	derives bool // the fields derived from the prices vary by case
	zones   int  // local time zones: 0 UTC, 1 by case, 2 UTC and by case
}

// Zones with and without daylight saving, on both sides, with half hours.
var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Europe/Berlin", "Australia/Lord_Howe", "Pacific/Apia"}

// Zoned makes the following cases run with other local time zones too.
func (c *Ctx) Zoned(both bool) {
	c.zones = 1
	if both {
		c.zones = 2
	}
	c.Bound("local time zone of every case: one of %v by case%s", zones, map[bool]string{true: ", and UTC"}[both])
}

// How Item fills the fields that follow from the prices: 0 as they follow, 1
// left out, 2 from some other source.
var derived int

// Derived makes the following cases vary the fields of a candle which follow
// from the others (amount, count, change and the rising flag).
func (c *Ctx) Derived() {
	c.derives = true
	c.Bound("amount, count, change and rising flag of the candles: as the prices say, left out, or unrelated to them, by case")
}

// inZones runs the case in the zones chosen for it.
func (c *Ctx) inZones(idx int64, f func(*T)) {
	if derived = 0; c.derives {
		derived = int(uint64(idx) * 0x9e3779b97f4a7c15 >> 33 % 3)
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok && derived != 0 {
					fl.msg += [3]string{1: " (amount, count, change and rising flag left out)", 2: " (amount, count, change and rising flag unrelated to the prices)"}[derived]
					r = fl
				}
				panic(r)
			}
		}()
	}
	if c.zones == 0 {
		f(&T{c})
		return
	}
	old := time.Local
	defer func() { time.Local = old }()
	if c.zones == 2 {
		time.Local = time.UTC
		f(&T{c})
	}
	k := int(uint64(idx) * 0x9e3779b97f4a7c15 >> 40)
	name := zones[k%len(zones)]
	if c.zones == 2 {
		name = zones[1+k%(len(zones)-1)]
	}
	loc, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	time.Local = loc
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok && name != "UTC" {
				fl.msg += " (local time: " + name + ")"
				r = fl
			}
			panic(r)
		}
	}()
	f(&T{c})
}

type failure struct{ msg string }

// T is handed to each case.
type T struct{ c *Ctx }

func (t *T) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }
func (t *T) Steps(n int) {
	t.c.transitions += int64(n)
	if int64(n) > t.c.maxDepth {
		t.c.maxDepth = int64(n)
	}
}
func (t *T) States(n int64) { t.c.states += n }
func (t *T) Traces(n int64) { t.c.traces += n }
func (t *T) Count(k string, n int64) {
	t.c.extra[k] += n
}

// Bound records the bounds of what is enumerated (for the evidence).
func (c *Ctx) Bound(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, b := range c.bounds {
		if b == s {
			return
		}
	}
	c.bounds = append(c.bounds, s)
}

func (c *Ctx) Stop() bool { return c.stopped }

type childMsg struct {
	Type        string           `json:"type"`
	Idx         int64            `json:"idx"`
	Desc        string           `json:"desc,omitempty"`
	Msg         string           `json:"msg,omitempty"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	MaxDepth    int64            `json:"max_depth"`
	Cases       int64            `json:"cases"`
	Cut         bool             `json:"cut"`
	Bounds      []string         `json:"bounds,omitempty"`
	Extra       map[string]int64 `json:"extra,omitempty"`
	Samples     []string         `json:"samples,omitempty"`
}

// Case runs f as the next case of the enumeration if it belongs to this shard.
// It returns false if the enumeration should stop.
func (c *Ctx) Case(desc func() string, f func(t *T)) bool {
	if c.stopped {
		return false
	}
	idx := c.idx
	c.idx++
	if c.only >= 0 {
		if idx != c.only {
			if idx > c.only {
				c.stopped = true
			}
			return !c.stopped
		}
	} else if c.n > 1 && idx%int64(c.n) != int64(c.shard) {
		return true
	}
	if c.upto >= 0 && idx > c.upto {
		c.stopped = true
		return false
	}
	if time.Now().After(c.deadline) {
		c.stopped = true
		c.cut = true
		return false
	}
	c.curIdx.Store(idx)
	c.curT.Store(time.Now().UnixNano())
	c.curDesc = desc
	if c.curFile != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx))
		c.curFile.WriteAt(b[:], 0)
	}
	c.states++
	c.traces++
	if c.traces == c.nextSample || c.nextSample == 0 {
		c.nextSample = max(c.traces*8, 3)
		if len(c.samples) < 8 {
			d := desc()
			if len(d) > 400 {
				d = d[:400] + "..."
			}
			c.samples = append(c.samples, d)
		}
	}
	start := time.Now()
	c.runCase(idx, desc, f)
	if d := time.Since(start); slowCase > 0 && d > slowCase {
		fmt.Fprintf(os.Stderr, "slow: %.1f s case %d %s\n", d.Seconds(), idx, desc())
	}
	c.curIdx.Store(-1)
	return !c.stopped
}

func (c *Ctx) runCase(idx int64, desc func() string, f func(t *T)) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if fl, ok := r.(failure); ok {
			c.stopped = true
			c.out.Encode(childMsg{Type: "viol", Idx: idx, Desc: desc(), Msg: fl.msg})
			return
		}
		st := string(debug.Stack())
		if strings.Contains(st, "idoall/stockindicator") {
			c.stopped = true
			c.out.Encode(childMsg{Type: "viol", Idx: idx, Desc: desc(), Msg: fmt.Sprintf("panic: %v at %s", r, implFrame(st))})
			return
		}
		fmt.Fprintf(os.Stderr, "HARNESS ERROR case %d %s: %v\n%s\n", idx, desc(), r, st)
		os.Exit(3)
	}()
	c.inZones(idx, f)
}

func implFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	for k, l := range lines {
		if strings.Contains(l, "idoall/stockindicator") && !strings.HasPrefix(l, "\t") {
			loc := ""
			if k+1 < len(lines) {
				loc = strings.TrimSpace(lines[k+1])
				if j := strings.Index(loc, " +0x"); j > 0 {
					loc = loc[:j]
				}
			}
			return strings.SplitN(l, "(", 2)[0] + " " + loc
		}
	}
	return "?"
}

// slowCase (development): report cases that take longer
var slowCase, _ = time.ParseDuration(os.Getenv("MC_SLOW"))

const caseLimit = 150 * time.Second

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func child(id string, thorough bool, shard, n int, only, upto int64, cur string, budget time.Duration) {
	ck := checks[id]
	debug.SetMemoryLimit(3 << 30)
	c := &Ctx{ID: id, Thorough: thorough, shard: shard, n: n, only: only, upto: upto, deadline: time.Now().Add(budget), extra: map[string]int64{}}
	c.out = json.NewEncoder(os.Stdout)
	c.curIdx.Store(-1)
	if cur != "" {
		c.curFile, _ = os.OpenFile(cur, os.O_RDWR|os.O_CREATE, 0o600)
	}
	var mu sync.Mutex
	report := func(idx int64, msg string) {
		mu.Lock()
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		d := "?"
		if c.curDesc != nil {
			d = c.curDesc()
		}
		if !strings.Contains(string(buf), "idoall/stockindicator") {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s without implementation frames, case %d %s\n%s\n", msg, idx, d, buf)
			os.Exit(3)
		}
		c.out.Encode(childMsg{Type: "viol", Idx: idx, Desc: d, Msg: msg + " in " + implFrame(string(buf))})
		os.Exit(0)
	}
	caseLimit := caseLimit
	if thorough {
		caseLimit *= 2 // longer histories
	}
	go func() {
		var seen int64 = -2
		var wall, cpu time.Duration
		start := time.Now()
		cpu0 := cpuTime()
		for {
			time.Sleep(500 * time.Millisecond)
			k := c.curIdx.Load()
			if k != seen {
				seen, start, cpu0 = k, time.Now(), cpuTime()
				continue
			}
			if k < 0 {
				continue
			}
			wall, cpu = time.Since(start), cpuTime()-cpu0
			// a case takes milliseconds: no progress for minutes, with the
			// processor either used all along or not at all, is a hang
			if wall > caseLimit && (cpu > caseLimit/3 || (cpu < time.Second && wall > 2*caseLimit)) {
				report(k, fmt.Sprintf("no result after %.0f s (cpu %.0f s)", wall.Seconds(), cpu.Seconds()))
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2800<<20 {
				report(k, fmt.Sprintf("memory grew to %d MB", ms.HeapAlloc>>20))
			}
		}
	}()
	ck.Run(c)
	c.out.Encode(childMsg{Type: "done", States: c.states, Transitions: c.transitions, Traces: c.traces, MaxDepth: c.maxDepth, Cases: c.idx, Cut: c.cut, Bounds: c.bounds, Extra: c.extra, Samples: c.samples})
	os.Exit(0)
}

type shardResult struct {
	done   *childMsg
	viol   *childMsg
	stderr string
	err    error
	fatal  string
}

func spawn(id string, thorough bool, shard, n int, only, upto int64, budget time.Duration) shardResult {
	exe, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "vmc")
	if err != nil {
		return shardResult{err: err}
	}
	defer os.RemoveAll(tmp)
	cur := filepath.Join(tmp, "cur")
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cmd := exec.Command(exe, "child", id, tier, strconv.Itoa(shard), strconv.Itoa(n), strconv.FormatInt(only, 10), strconv.FormatInt(upto, 10), cur, budget.String())
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "GOGC=200")
	cmd.Dir = tmp
	var errb strings.Builder
	cmd.Stderr = &limited{w: &errb, n: 1 << 20}
	so, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return shardResult{err: err}
	}
	var r shardResult
	sc := bufio.NewReader(so)
	for {
		line, e := sc.ReadBytes('\n')
		if len(line) > 0 {
			var m childMsg
			if json.Unmarshal(line, &m) == nil {
				mm := m
				switch m.Type {
				case "viol":
					r.viol = &mm
				case "done":
					r.done = &mm
				}
			}
		}
		if e != nil {
			break
		}
	}
	err = cmd.Wait()
	r.stderr = errb.String()
	if os.Getenv("MC_SLOW") != "" {
		fmt.Fprint(os.Stderr, r.stderr)
	}
	if err != nil && r.viol == nil {
		// the process died: a fatal error or a panic on another goroutine
		if strings.Contains(r.stderr, "idoall/stockindicator") && !strings.Contains(r.stderr, "HARNESS ERROR") {
			var idx int64 = -1
			if b, e := os.ReadFile(cur); e == nil && len(b) == 8 {
				idx = int64(binary.LittleEndian.Uint64(b))
			}
			first := r.stderr
			for _, l := range strings.Split(r.stderr, "\n") {
				if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
					first = l
					break
				}
			}
			if len(first) > 300 {
				first = first[:300]
			}
			r.viol = &childMsg{Idx: idx, Desc: "(process died in this case)", Msg: first + " at " + implFrame(r.stderr)}
		} else {
			r.err = fmt.Errorf("child: %v\n%s", err, tail(r.stderr, 4000))
		}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

type replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Case     int64  `json:"case"`
	Mode     string `json:"mode"` // case: this case alone; shard: all cases of its shard up to it
	Desc     string `json:"case_description"`
	Msg      string `json:"message"`
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		a := os.Args[2:]
		sh, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		only, _ := strconv.ParseInt(a[4], 10, 64)
		upto, _ := strconv.ParseInt(a[5], 10, 64)
		bud, _ := time.ParseDuration(a[7])
		child(a[0], a[1] == "thorough", sh, n, only, upto, a[6], bud)
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "fresh" {
		freshMain(os.Args[2:])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "race35" {
		k, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		r, _ := strconv.Atoi(os.Args[4])
		race35(k, n, r)
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc ID [quick|thorough] [--replay FILE]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := "quick"
	replayFile := ""
	for k := 2; k < len(os.Args); k++ {
		switch os.Args[k] {
		case "quick", "thorough":
			tier = os.Args[k]
		case "--replay":
			if k+1 < len(os.Args) {
				replayFile = os.Args[k+1]
				k++
			}
		}
	}
	if id == "list" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if replayFile != "" {
		os.Exit(doReplay(replayFile))
	}
	os.Exit(supervise(ck, tier, root))
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp replay
	if err := json.Unmarshal(b, &rp); err != nil || checks[rp.Property] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file")
		return 2
	}
	fmt.Printf("replaying %s case %d (%s): %s\n", rp.Property, rp.Case, rp.Mode, rp.Desc)
	v := replayOnce(rp)
	if v == nil {
		fmt.Println("not reproduced: the property holds on this case")
		return 0
	}
	fmt.Println(v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

func replayOnce(rp replay) *childMsg {
	only, upto := rp.Case, rp.Case
	if rp.Mode == "shard" {
		only = -1
	}
	r := spawn(rp.Property, rp.Tier == "thorough", rp.Shard, rp.Shards, only, upto, 20*time.Minute)
	if r.viol != nil && r.viol.Idx == rp.Case {
		return r.viol
	}
	return nil
}

func supervise(ck *Check, tier, root string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	n := ck.Shards
	if n == 0 {
		n = 8
	}
	budget := 330 * time.Second
	if thorough {
		budget = 25 * time.Minute
		if s := os.Getenv("VERIF_THOROUGH_BUDGET"); s != "" {
			if d, e := time.ParseDuration(s); e == nil {
				budget = d
			}
		}
	}
	res := make([]shardResult, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			res[k] = spawn(ck.ID, thorough, k, n, -1, -1, budget)
		}(k)
	}
	wg.Wait()
	var viol *childMsg
	violShard := 0
	var states, trans, traces, maxDepth, cases int64
	cut := false
	var bounds []string
	extra := map[string]int64{}
	var samples []string
	for k, r := range res {
		if r.err != nil {
			fmt.Fprintf(os.Stderr, "%s: machinery error in shard %d: %v\n", ck.ID, k, r.err)
			return 2
		}
		if r.viol != nil && (viol == nil || r.viol.Idx < viol.Idx) {
			viol, violShard = r.viol, k
		}
		if r.done != nil {
			states += r.done.States
			trans += r.done.Transitions
			traces += r.done.Traces
			maxDepth = max(maxDepth, r.done.MaxDepth)
			cases = max(cases, r.done.Cases)
			cut = cut || r.done.Cut
			if len(bounds) < len(r.done.Bounds) {
				bounds = r.done.Bounds
			}
			for j, s := range r.done.Samples {
				if (j+k)%3 == 0 && len(samples) < 12 {
					samples = append(samples, s)
				}
			}
			for q, v := range r.done.Extra {
				extra[q] += v
			}
		}
	}
	var unrep []string
	for viol != nil {
		rp := replay{Property: ck.ID, Tier: tier, Shard: violShard, Shards: n, Case: viol.Idx, Mode: "case", Desc: viol.Desc, Msg: viol.Msg}
		ok := false
		if v := replayOnce(rp); v != nil {
			ok = true
		} else {
			rp.Mode = "shard"
			for k := 0; k < 3 && !ok; k++ {
				ok = replayOnce(rp) != nil
			}
		}
		if ok {
			dir := filepath.Join(root, "evidence", "replays")
			os.MkdirAll(dir, 0o755)
			file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ck.ID, rp.Case))
			b, _ := json.MarshalIndent(rp, "", "  ")
			os.WriteFile(file, b, 0o644)
			writeEvidence(root, ck, tier, states, trans, traces, maxDepth, samples, false, bounds, extra, time.Since(t0), []string{rp.Msg + " -- " + rp.Desc}, unrep)
			fmt.Printf("%s: %s\n  case %d: %s\n", ck.ID, rp.Msg, rp.Case, rp.Desc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, file)
			return 1
		}
		unrep = append(unrep, fmt.Sprintf("case %d: %s", viol.Idx, viol.Msg))
		fmt.Fprintf(os.Stderr, "%s: not reproduced, not reported: case %d %s: %s\n", ck.ID, viol.Idx, viol.Desc, viol.Msg)
		res[violShard].viol = nil
		viol = nil
		for k, r := range res {
			if r.viol != nil && (viol == nil || r.viol.Idx < viol.Idx) {
				viol, violShard = r.viol, k
			}
		}
		cut = true
	}
	writeEvidence(root, ck, tier, states, trans, traces, maxDepth, samples, !cut, bounds, extra, time.Since(t0), nil, unrep)
	fmt.Printf("%s: holds on %d states, %d transitions, %d cases (%s tier, exhaustive within bounds: %v) in %.1f s\n", ck.ID, states, trans, cases, tier, !cut, time.Since(t0).Seconds())
	return 0
}

func writeEvidence(root string, ck *Check, tier string, states, trans, traces, depth int64, samples []string, exhaustive bool, bounds []string, extra map[string]int64, wall time.Duration, viols, unrep []string) {
	seed := 1
	if s, e := strconv.Atoi(os.Getenv("VERIF_SEED")); e == nil {
		seed = s
	}
	cov := map[string]any{
		"states":                         states,
		"transitions":                    trans,
		"traces_validated_against_impl":  traces,
		"longest_trace":                  depth,
		"samples":                        samples,
		"exhaustive":                     exhaustive,
		"bounds":                         bounds,
		"what_is_a_state_and_transition": ck.What,
	}
	for k, v := range extra {
		cov[k] = v
	}
	if len(unrep) > 0 {
		cov["unreproduced"] = unrep
	}
	if samples == nil {
		samples = []string{}
	}
	cov["samples"] = samples
	if viols == nil {
		viols = []string{}
	}
	as := ck.Assume
	if as == nil {
		as = []string{}
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": as,
		"wall_s": math.Round(wall.Seconds()*100) / 100, "violations": len(viols), "violation_messages": viols,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), append(b, '\n'), 0o644)
}
