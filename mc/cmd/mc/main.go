// Command mc runs one part of one property's exploration against the library
// it is linked with, and writes what it covered.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fadhilkurnia/shamir/aaverif/cpumask"
	"github.com/fadhilkurnia/shamir/aaverif/emu"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/aaverif/vsched"
)

type viol struct {
	Index    int      `json:"index"`
	Case     string   `json:"case"`
	Message  string   `json:"message"`
	Schedule []int    `json:"schedule,omitempty"`
	Sites    []string `json:"sites,omitempty"`
}

type output struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	States     int            `json:"states"`
	Trans      int            `json:"transitions"`
	Scheds     int            `json:"schedules"`
	Complete   bool           `json:"complete"`
	Samples    []interface{}  `json:"samples"`
	Counters   map[string]int `json:"counters"`
	Notes      []string       `json:"notes"`
	Known      []string       `json:"known"`
	Viol       *viol          `json:"viol"`
}

// Ctx runs the cases of one part.
type Ctx struct {
	prop, part, variant string
	thorough            bool
	seed                uint64
	shard, shards       int
	only                int
	onlySchedule        []int
	hasSchedule         bool
	deadline            time.Time
	n                   int // cases announced
	res                 output
	seen                map[uint64]struct{}
	desc                func() string
	sites               []string
	known               map[string]bool
	halted              bool
	reset               bool
	onAll               bool // the next case runs in every shard
}

// stop is raised to end the part after a violation.
type stopT struct{}

var curIdx int64
var curStart int64
var curDesc atomic.Value
var outPath string
var traceOn bool

// Case runs one case: f returns "" when the property held. Everything random
// and every package-level variable is reset first.
func (c *Ctx) Case(desc func() string, f func() string) {
	i := c.n
	c.n++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else {
		if !c.onAll && i%c.shards != c.shard || c.halted {
			return
		}
		if time.Now().After(c.deadline) {
			c.halted = true
			c.res.Complete = false
			c.Note("time budget reached: stopped at case %d", i)
			return
		}
	}
	c.desc = desc
	atomic.StoreInt64(&curIdx, int64(i))
	curDesc.Store(desc)
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	if traceOn {
		noteCurrent()
	}
	c.fresh(c.seed)
	c.res.Evals++
	t0 := time.Now()
	msg := c.guard(f)
	c.Max("case_ms", int(time.Since(t0).Milliseconds()))
	atomic.StoreInt64(&curStart, 0)
	if msg != "" {
		c.fail(i, desc(), msg)
	}
	if len(c.res.Samples) < 3 || (i&(i-1)) == 0 && len(c.res.Samples) < 12 {
		c.res.Samples = append(c.res.Samples, desc())
	}
}

func (c *Ctx) fail(i int, desc, msg string) {
	if c.known[c.prop+" "+desc] {
		c.res.Known = append(c.res.Known, desc+": "+msg)
		return
	}
	c.res.Viol = &viol{Index: i, Case: desc, Message: msg}
	panic(stopT{})
}

// fresh puts the process into its initial state.
func (c *Ctx) fresh(seed uint64) {
	tape.Reset(seed)
	if c.reset {
		vsched.ResetGlobals()
	}
}

// Scenario is a set of concurrent calls to explore.
type Scenario struct {
	Name     string
	Bound    int // preemptions
	VisitCap int
	Seconds  int // time slice
	MaxSteps int
	Crowd    bool // all threads stopped at each point, instead of preemptions
	// Start returns the thread bodies and the check made after each
	// execution; the process state is initial when it is called.
	Start func() (bodies []func(), check func() string)
}

// Explore runs every interleaving of the scenario with at most Bound
// preemptions, split over the shards.
func (c *Ctx) Explore(sc Scenario) {
	c.onAll = true
	defer func() { c.onAll = false }()
	c.Case(func() string { return sc.Name }, func() string {
		until := time.Now().Add(time.Duration(sc.Seconds) * time.Second)
		if until.After(c.deadline) {
			until = c.deadline
		}
		if sc.MaxSteps == 0 {
			sc.MaxSteps = 3000000
		}
		e := &vsched.Explorer{VisitCap: sc.VisitCap, MaxSteps: sc.MaxSteps, Shard: c.shard, Shards: c.shards}
		e.Start = func() ([]func(), func(x *vsched.Exec) string) {
			c.fresh(c.seed)
			atomic.StoreInt64(&curStart, time.Now().UnixNano())
			b, check := sc.Start()
			return b, func(x *vsched.Exec) string { return check() }
		}
		e.Stop = func() bool { return time.Now().After(until) }
		if c.only >= 0 {
			e.Shards = 1
			if c.hasSchedule {
				msg := e.Replay(c.onlySchedule)
				if e.Diverged != "" {
					return "the schedule cannot be replayed: " + e.Diverged
				}
				if msg != "" {
					c.failSchedule(sc.Name, msg, e)
				}
				return ""
			}
		}
		done := -1
		if sc.Crowd {
			e.ExploreCrowd()
		}
		for b := 0; b <= sc.Bound && !sc.Crowd; b++ {
			// going up finds short counterexamples first
			e.Bound = b
			e.Explore()
			if e.Fail != "" || e.Diverged != "" || e.Truncated {
				break
			}
			done = b
		}
		c.res.Scheds += e.Execs
		c.res.States += e.Points
		c.res.Trans += e.Steps
		c.Eval(e.Execs)
		c.Max("points_per_execution", e.MaxPoints)
		c.Count("horizon_executions", e.Horizons)
		for i := 0; i < e.Execs; i++ {
			c.Distinct(hash(sc.Name, c.shard, i))
		}
		if e.Fail != "" {
			c.failSchedule(sc.Name, e.Fail, e)
		}
		if e.Diverged != "" {
			c.Partial("%s: not deterministic under the scheduler (%s)", sc.Name, e.Diverged)
		} else if e.Truncated {
			c.Partial("%s: time slice used up at bound %d, bound %d complete", sc.Name, e.Bound, done)
		}
		return ""
	})
}

func (c *Ctx) failSchedule(name, msg string, e *vsched.Explorer) {
	v := &viol{Index: int(atomic.LoadInt64(&curIdx)), Case: name, Message: msg, Schedule: e.FailPrefix}
	if c.known[c.prop+" "+name] {
		c.res.Known = append(c.res.Known, name+": "+msg)
		return
	}
	for i, p := range e.FailExec.Points {
		if p.Choice > 0 && len(v.Sites) < 40 {
			at := "(blocked or finished)"
			if p.Site >= 0 && p.Site < len(c.sites) {
				at = c.sites[p.Site]
			} else if p.Site < -3 {
				at = "synchronisation operation"
			}
			v.Sites = append(v.Sites, fmt.Sprintf("decision %d at %s: continue with thread %d", i, at, p.Enabled[p.Choice]))
		}
	}
	c.res.Viol = v
	panic(stopT{})
}

func (c *Ctx) guard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopT); ok {
				panic(r)
			}
			if e, ok := r.(tape.Exhausted); ok {
				msg = e.Error()
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

// Distinct counts a distinct, non-trivial instance by its fingerprint.
func (c *Ctx) Distinct(h uint64) {
	if len(c.seen) < 3000000 {
		c.seen[h] = struct{}{}
	}
}

// Eval counts k further evaluations inside the running case.
func (c *Ctx) Eval(k int) { c.res.Evals += k; beat() }

// beat restarts the clock of the watchdog: the running case made progress.
func beat() {
	if atomic.LoadInt64(&curStart) != 0 {
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
	}
}

func (c *Ctx) Count(name string, k int) { c.res.Counters[name] += k }
func (c *Ctx) Max(name string, k int) {
	if k > c.res.Counters["max_"+name] {
		c.res.Counters["max_"+name] = k
	}
}
func (c *Ctx) Note(f string, a ...interface{}) {
	if len(c.res.Notes) < 8 {
		c.res.Notes = append(c.res.Notes, fmt.Sprintf(f, a...))
	}
}
func (c *Ctx) Partial(f string, a ...interface{}) {
	c.res.Complete = false
	c.Note(f, a...)
}
func (c *Ctx) Late() bool { return time.Now().After(c.deadline) }

// hash mixes integers and byte strings into a fingerprint.
func hash(vs ...interface{}) uint64 {
	h := uint64(1469598103934665603)
	add := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	num := func(v uint64) {
		for i := uint(0); i < 64; i += 8 {
			add(byte(v >> i))
		}
	}
	for _, v := range vs {
		switch v := v.(type) {
		case int:
			num(uint64(v))
		case byte:
			num(uint64(v))
		case uint64:
			num(v)
		case string:
			for i := 0; i < len(v); i++ {
				add(v[i])
			}
			add(0xff)
		case []byte:
			for _, b := range v {
				add(b)
			}
			num(uint64(len(v)))
		case [][]byte:
			for _, r := range v {
				for _, b := range r {
					add(b)
				}
				num(uint64(len(r)))
			}
		default:
			panic("hash")
		}
	}
	h ^= h >> 29
	return h
}

type partFn func(c *Ctx)

var parts = map[string]partFn{}

func reg(prop, part string, f partFn) { parts[prop+"/"+part] = f }

func main() {
	if g := os.Getenv("MC_GIANT"); g != "" {
		giantChild(g)
	}
	if f := os.Getenv("MC_FAULT"); f != "" {
		faultChild(f)
	}
	var c Ctx
	prop := flag.String("prop", "", "")
	part := flag.String("part", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.String("only", "", "")
	out := flag.String("out", "", "")
	variant := flag.String("variant", "", "")
	deadline := flag.Int64("deadline", 0, "")
	sites := flag.String("sites", "", "")
	known := flag.String("known", "", "")
	limit := flag.Int("caselimit", 60, "seconds one case may take")
	trace := flag.Bool("trace", false, "keep the running case on disk")
	list := flag.Bool("list", false, "")
	emucheck := flag.Bool("emucheck", false, "can the assembly be emulated?")
	flag.Parse()
	if *emucheck {
		if err := emu.Check(); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		return
	}
	emu.Prepare()
	if *list {
		var ks []string
		for k := range parts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	f, ok := parts[*prop+"/"+*part]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: unknown part", *prop, *part)
		os.Exit(3)
	}
	outPath = *out
	traceOn = *trace
	c = Ctx{prop: *prop, part: *part, variant: *variant, thorough: *tier == "thorough", seed: uint64(*seed),
		shard: *shard, shards: *shards, only: -1, deadline: time.Unix(*deadline, 0), seen: map[uint64]struct{}{},
		known: map[string]bool{}, reset: vsched.CanReset()}
	if *deadline == 0 {
		c.deadline = time.Now().Add(time.Hour)
	}
	c.res.Complete = true
	c.res.Counters = map[string]int{}
	if *only != "" {
		f := strings.SplitN(*only, ":", 2)
		c.only, _ = strconv.Atoi(f[0])
		if len(f) == 2 {
			c.hasSchedule = true
			for _, s := range strings.Split(f[1], ",") {
				v, _ := strconv.Atoi(s)
				c.onlySchedule = append(c.onlySchedule, v)
			}
		}
	}
	if b, err := os.ReadFile(*sites); err == nil {
		json.Unmarshal(b, &c.sites)
	}
	if b, err := os.ReadFile(*known); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "finding: property=") {
				continue
			}
			l = strings.TrimPrefix(l, "finding: property=")
			if i := strings.Index(l, " | "); i >= 0 {
				l = l[:i]
			}
			c.known[l] = true
		}
	}
	want := os.Getenv("VERIF_CPU")
	if want != "" && cpumask.Level != want {
		fmt.Fprintln(os.Stderr, "harness: CPU level not applied")
		os.Exit(3)
	}
	go watchdog(time.Duration(*limit) * time.Second)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopT); !ok {
					panic(r)
				}
			}
		}()
		f(&c)
	}()
	c.res.Nontrivial = len(c.seen)
	b, err := json.Marshal(c.res)
	if err != nil {
		panic(err)
	}
	if *out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
	if c.res.Viol != nil {
		os.Exit(10)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog: a case that does not return is reported with all stacks. The limit
// is on the CPU time the case uses, so that a slow or halted machine raises no
// alarm; a case that is blocked (and uses none) gets several times as much
// wall-clock time.
func watchdog(limit time.Duration) {
	var cur int64
	var from, used time.Duration
	awake := 0 // half-second ticks this process was running for
	for {
		time.Sleep(500 * time.Millisecond)
		t := atomic.LoadInt64(&curStart)
		if t == 0 {
			continue
		}
		now := cpuTime()
		if t != cur {
			cur, from, awake = t, now, 0
		}
		used = now - from
		awake++
		if vsched.Active() && awake > 60 && used < limit/20 {
			// deadlocks are found by the scheduler: this waits for something
			// that it does not know of
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "blocked where the scheduler does not see it\n%s\n", buf[:n])
			os.Exit(12)
		}
		if used > limit || time.Duration(awake)*time.Second/2 > 2*limit && used < limit/20 || time.Duration(awake)*time.Second/2 > 4*limit {
			noteCurrent()
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "case running for more than %v of CPU time (%v, %d half-seconds)\n%s\n", limit, used, awake, buf[:n])
			os.Exit(11)
		}
	}
}

func noteCurrent() {
	d, _ := curDesc.Load().(func() string)
	s := ""
	if d != nil {
		s = d()
	}
	os.WriteFile(outPath+".cur", []byte(fmt.Sprintf("%d\t%s", atomic.LoadInt64(&curIdx), s)), 0o644)
}

func cpuLevel() string { return os.Getenv("VERIF_CPU") }
