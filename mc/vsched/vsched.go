// Package vsched is a cooperative scheduler for exhaustive, preemption-bounded
// exploration of the instrumented code. Exactly one registered thread runs at
// a time; every P() is a scheduling point; blocking operations wait on a
// predicate. When no exploration is active all operations behave natively.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// ---- resettable package-level state ----

type resetter struct {
	pkg         string
	vars, inits func()
}

var resetters []resetter

// OnReset registers how to restore one file's package-level state.
func OnReset(pkg string, vars, inits func()) {
	resetters = append(resetters, resetter{pkg, vars, inits})
}

// ResetGlobals restores the package-level state of the instrumented packages.
func ResetGlobals() {
	for i := 0; i < len(resetters); {
		j := i
		for j < len(resetters) && resetters[j].pkg == resetters[i].pkg {
			resetters[j].vars()
			j++
		}
		for k := i; k < j; k++ {
			resetters[k].inits()
		}
		i = j
	}
}

// CanReset tells whether the instrumented packages are linked in.
func CanReset() bool { return len(resetters) > 0 }

// ---- scheduler ----

// Waiter is a condition a thread waits for. Ready is evaluated while no thread
// runs, and must be marked go:norace.
type Waiter interface{ Ready() bool }

type thread struct {
	id     int
	wake   chan struct{}
	cond   Waiter // nil: runnable
	done   bool
	visits []int // by site + 64
	run    int   // points passed since last switch
	pts    int   // decisions it could have been preempted at
	held   bool  // has been stopped at its place (Crowd)
}

// Crowd is a rule that makes all decisions: every thread runs to its Stop-th
// point and is held there until the others are there too (or cannot go on),
// then each is run to its end, first or last one first. With Every > 0 the
// threads take turns after every so many points.
type Crowd struct {
	Stop, Every int
	Last        bool
}

//go:norace
func (w *Crowd) choose(sc *scheduler, en []int, running bool) int {
	me := sc.cur
	if w.Every > 0 {
		if running && me.pts%w.Every != 0 {
			return 0
		}
		// the next one in the circle
		best := -1
		for i, id := range en {
			if id > me.id && (best < 0 || id < en[best]) {
				best = i
			}
		}
		if best >= 0 {
			return best
		}
		for i, id := range en {
			if best < 0 || id < en[best] {
				best = i
			}
		}
		return best
	}
	if running {
		if !me.held && me.pts < w.Stop {
			return 0
		}
		if me.held {
			return 0
		}
		me.held = true
	}
	best := -1
	for i, id := range en {
		if sc.threads[id].held {
			continue
		}
		if best < 0 || id < en[best] {
			best = i
		}
	}
	if best >= 0 {
		return best
	}
	for i, id := range en {
		if best < 0 || (id < en[best]) != w.Last {
			best = i
		}
	}
	return best
}

// Point records one scheduling decision.
type Point struct {
	Site      int
	Enabled   []int // thread ids, running thread first if still enabled
	RunningOn bool  // the running thread was still enabled
	Choice    int   // index into Enabled
}

// Exec is one complete execution.
type Exec struct {
	Points   []Point
	Steps    int
	Deadlock bool
	Diverged string
	Panic    string
	Msg      string // what the check found
	Races    int
	Horizon  bool
	Threads  int
	Blocked  []int
	// ThreadPoints is the largest number of points one thread passed.
	ThreadPoints int
}

type scheduler struct {
	threads  []*thread
	cur      *thread
	prefix   []int
	x        *Exec
	over     chan struct{}
	abort    bool
	quiet    bool // set-up and checking: no choices
	visitCap int
	progress int
	maxSteps int
	unbuf    []interface{}
	closed   []interface{}
	join     int
	waited   int // milliseconds, for something outside
	crowd    *Crowd
}

var active int32
var s *scheduler

type abortT struct{}

// Run executes start and check, and between them the bodies start returns as
// concurrent threads under the given choice prefix; later choices are 0 (keep
// running the current thread). Threads that are still waiting for something
// when the bodies and the check are through (background workers) are ended.
func Run(start func() ([]func(), func(x *Exec) string), prefix []int, visitCap, maxSteps int) *Exec {
	return run(start, prefix, visitCap, maxSteps, nil)
}

func run(start func() ([]func(), func(x *Exec) string), prefix []int, visitCap, maxSteps int, crowd *Crowd) *Exec {
	sc := &scheduler{crowd: crowd, prefix: prefix, x: &Exec{}, over: make(chan struct{}, 1), visitCap: visitCap, maxSteps: maxSteps, quiet: true}
	s = sc
	active = 1
	sc.spawn(func() { sc.main(start) })
	sc.pick(-1)
	<-sc.over
	RaceAcquire(unsafe.Pointer(&sc.join))
	active = 0
	s = nil
	sc.x.Threads = len(sc.threads)
	return sc.x
}

// Do runs f alone, the goroutines it starts one after another.
func Do(f func()) *Exec {
	return Run(func() ([]func(), func(x *Exec) string) { f(); return nil, nil }, nil, 1, 1<<30)
}

//go:norace
func (sc *scheduler) main(start func() ([]func(), func(x *Exec) string)) {
	bodies, check := start()
	w := &allDone{}
	for _, b := range bodies {
		w.ts = append(w.ts, sc.spawn(b))
	}
	if len(bodies) > 0 {
		races := raceErrors()
		sc.quiet = false
		BlockOn(w)
		sc.quiet = true
		RaceAcquire(unsafe.Pointer(&sc.join))
		sc.x.Races = raceErrors() - races
	}
	if check != nil {
		sc.x.Msg = check(sc.x)
	}
}

type allDone struct{ ts []*thread }

//go:norace
func (w *allDone) Ready() bool {
	for _, t := range w.ts {
		if !t.done {
			return false
		}
	}
	return true
}

// Active reports whether an exploration is running.
//
//go:norace
func Active() bool { return active == 1 }

//go:norace
func (sc *scheduler) spawn(b func()) *thread {
	t := &thread{id: len(sc.threads), wake: make(chan struct{}, 1)}
	sc.threads = append(sc.threads, t)
	go threadMain(sc, t, b)
	return t
}

//go:norace
func threadMain(sc *scheduler, t *thread, b func()) {
	raceOff()
	<-t.wake
	raceOn()
	defer threadEnd(sc, t)
	if sc.abort {
		return
	}
	b()
}

//go:norace
func threadEnd(sc *scheduler, t *thread) {
	if r := recover(); r != nil {
		if _, ok := r.(abortT); !ok && !sc.abort {
			sc.x.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
			sc.abort = true
		}
	}
	RaceRelease(unsafe.Pointer(&sc.join))
	t.done = true
	sc.progress++
	if t.id == 0 {
		sc.abort = true // ends the threads left over
	}
	sc.pick(-1)
}

//go:norace
func (sc *scheduler) enabled(t *thread) bool {
	if t.done {
		return false
	}
	if sc.abort {
		return true
	}
	return t.cond == nil || t.cond.Ready()
}

//go:norace
func (sc *scheduler) unfinished() bool {
	for _, t := range sc.threads {
		if !t.done {
			return true
		}
	}
	return false
}

// pick chooses the next thread and hands it the token. The caller either
// continues (if chosen), or parks.
//
//go:norace
func (sc *scheduler) pick(site int) {
	me := sc.cur
	var en []int
	running := false
	if me != nil && sc.enabled(me) {
		en = append(en, me.id)
		running = true
	}
	for _, t := range sc.threads {
		if t != me && sc.enabled(t) {
			en = append(en, t.id)
			if sc.quiet && me != nil && !me.done {
				break
			}
		}
	}
	if len(en) == 0 && sc.unfinished() && sc.waited < 4000 {
		// something outside (a timer, say) may still let one of them go on
		raceOff()
		time.Sleep(time.Millisecond)
		raceOn()
		if sc.waited++; sc.waited%64 == 1 {
			sc.progress++ // tries the selects again
		}
		sc.pick(site)
		return
	}
	if len(en) == 0 {
		for _, t := range sc.threads {
			if !t.done {
				sc.x.Deadlock = true
				sc.abort = true
			}
		}
		if sc.x.Deadlock {
			for _, t := range sc.threads {
				if !t.done {
					sc.x.Blocked = append(sc.x.Blocked, t.id)
				}
			}
			// unwind: every thread panics(abortT) when it is woken
			if me != nil && !me.done {
				return
			}
			for _, t := range sc.threads {
				if !t.done {
					sc.cur = t
					raceOff()
					t.wake <- struct{}{}
					raceOn()
					return
				}
			}
		}
		raceOff()
		sc.over <- struct{}{}
		raceOn()
		return
	}
	c := 0
	if len(en) > 1 && !sc.abort && !sc.quiet {
		i := len(sc.x.Points)
		if i < len(sc.prefix) {
			c = sc.prefix[i]
			if c >= len(en) {
				sc.x.Diverged = fmt.Sprintf("choice %d of %d at point %d", c, len(en), i)
				sc.abort = true
				c = 0
			}
		} else if sc.crowd != nil {
			c = sc.crowd.choose(sc, en, running)
		}
		sc.x.Points = append(sc.x.Points, Point{Site: site, Enabled: en, RunningOn: running, Choice: c})
	}
	next := sc.threads[en[c]]
	if next == me {
		return
	}
	next.run = 0
	sc.cur = next
	sc.pass(me, next)
}

// pass hands the token from me to next, and waits until it comes back.
//
//go:norace
func (sc *scheduler) pass(me, next *thread) {
	raceOff()
	next.wake <- struct{}{}
	if me != nil && !me.done {
		<-me.wake
		raceOn()
		if sc.abort {
			panic(abortT{})
		}
		return
	}
	raceOn()
}

// P is a scheduling point.
//
//go:norace
func P(site int) {
	if active == 0 {
		return
	}
	sc := s
	if sc == nil || sc.cur == nil {
		return
	}
	if sc.abort {
		panic(abortT{})
	}
	t := sc.cur
	sc.progress++
	t.run++
	if sc.quiet {
		if t.run%20000 == 0 {
			sc.yield()
		}
		return
	}
	sc.x.Steps++
	if sc.x.Steps > sc.maxSteps {
		sc.x.Horizon = true
		sc.abort = true
		panic(abortT{})
	}
	k := site + 64
	for k >= len(t.visits) {
		t.visits = append(t.visits, make([]int, 512)...)
	}
	t.visits[k]++
	// the first visits of a statement, and then ever rarer ones
	if v := t.visits[k]; sc.visitCap < 0 && site >= 0 || sc.visitCap > 0 && v > sc.visitCap && (v&(v-1) != 0 || v&0x55555555 == 0 || v < 16) {
		if t.run%20000 == 0 {
			sc.yield()
		}
		return
	}
	t.pts++
	if t.pts > sc.x.ThreadPoints {
		sc.x.ThreadPoints = t.pts
	}
	sc.pick(site)
}

// yield moves on to another enabled thread without recording a choice
// (fairness towards threads a spinning one waits for).
//
//go:norace
func (sc *scheduler) yield() {
	me := sc.cur
	n := len(sc.threads)
	for k := 1; k < n; k++ {
		t := sc.threads[(me.id+k)%n]
		if sc.enabled(t) {
			t.run = 0
			sc.cur = t
			sc.pass(me, t)
			return
		}
	}
}

// BlockOn waits until the condition holds.
//
//go:norace
func BlockOn(cond Waiter) bool {
	if active == 0 || s == nil || s.cur == nil {
		return false
	}
	sc := s
	if sc.abort {
		panic(abortT{})
	}
	t := sc.cur
	for !cond.Ready() {
		t.cond = cond
		sc.pick(-2)
		t.cond = nil
		if sc.abort {
			panic(abortT{})
		}
	}
	sc.progress++
	return true
}

type never struct{}

//go:norace
func (never) Ready() bool { return false }

type moved struct {
	sc *scheduler
	p  int
}

//go:norace
func (m *moved) Ready() bool { return m.sc.progress != m.p }

// Block waits until another thread has made a step (select without default).
//
//go:norace
func Block() {
	if active == 0 || s == nil || s.cur == nil {
		// native: poll
		runtime.Gosched()
		return
	}
	sc := s
	t := sc.cur
	t.cond = &moved{sc, sc.progress}
	sc.pick(-3)
	t.cond = nil
	if sc.abort {
		panic(abortT{})
	}
}

func call(f interface{}, args []interface{}, slice bool) {
	if g, ok := f.(func()); ok && len(args) == 0 {
		g()
		return
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var want reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !slice {
			want = ft.In(ft.NumIn() - 1).Elem()
		} else {
			want = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(want)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(want) {
			v = v.Convert(want)
		}
		in[i] = v
	}
	if slice {
		fv.CallSlice(in)
	} else {
		fv.Call(in)
	}
}

// Go starts f(args...) as a new thread.
func Go(f interface{}, args ...interface{}) {
	if !Active() {
		go call(f, args, false)
		return
	}
	s.spawn(func() { call(f, args, false) })
}

// GoSlice starts f(args...) where the last argument is passed as a slice.
func GoSlice(f interface{}, args ...interface{}) {
	if !Active() {
		go call(f, args, true)
		return
	}
	s.spawn(func() { call(f, args, true) })
}

func ptr(ch interface{}) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

//go:norace
func has(l []interface{}, p unsafe.Pointer) bool {
	for _, c := range l {
		if ptr(c) == p {
			return true
		}
	}
	return false
}

// Unbuf turns a channel (made with capacity 1) into a rendezvous channel: under
// exploration an emulated one, else a real one.
//
//go:norace
func Unbuf[C any](c C) C {
	if active == 1 {
		s.unbuf = append(s.unbuf, c)
		return c
	}
	t := reflect.TypeOf(c)
	if t.ChanDir() != reflect.BothDir {
		return c
	}
	return reflect.MakeChan(t, 0).Interface().(C)
}

type canSend[T any] struct {
	ch   chan<- T
	sc   *scheduler
	p    unsafe.Pointer
	far  bool // made elsewhere, unbuffered: tried by sending
	sent bool
	v    T
}

//go:norace
func (w *canSend[T]) Ready() bool {
	if w.far {
		if !w.sent {
			select {
			case w.ch <- w.v:
				w.sent = true
			default:
			}
		}
		return w.sent
	}
	return len(w.ch) < cap(w.ch) || has(w.sc.closed, w.p)
}

type taken[T any] struct {
	ch chan<- T
	sc *scheduler
	p  unsafe.Pointer
}

//go:norace
func (w *taken[T]) Ready() bool { return len(w.ch) == 0 || has(w.sc.closed, w.p) }

type canRecv[T any] struct {
	ch  <-chan T
	sc  *scheduler
	p   unsafe.Pointer
	far bool // made elsewhere, unbuffered (a timer's, a context's): tried by receiving
	got bool
	v   T
	ok  bool
}

//go:norace
func (w *canRecv[T]) Ready() bool {
	if w.far {
		if !w.got {
			select {
			case w.v, w.ok = <-w.ch:
				w.got = true
			default:
			}
		}
		return w.got
	}
	return len(w.ch) > 0 || has(w.sc.closed, w.p)
}

// Send sends on ch.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	if active == 0 || s.cur == nil {
		ch <- v
		return
	}
	sc := s
	if ch == nil {
		BlockOn(never{})
	}
	p := ptr(ch)
	P(-4)
	w := &canSend[T]{ch: ch, sc: sc, p: p, v: v}
	w.far = cap(ch) == 0 && !has(sc.unbuf, p) && !has(sc.closed, p)
	BlockOn(w)
	if w.sent {
		return
	}
	ch <- v
	if has(sc.unbuf, p) {
		BlockOn(&taken[T]{ch, sc, p})
		RaceAcquire(p)
	}
}

// Recv receives from ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if active == 1 && s.cur != nil {
		sc := s
		if ch == nil {
			BlockOn(never{})
		}
		p := ptr(ch)
		P(-5)
		w := &canRecv[T]{ch: ch, sc: sc, p: p}
		w.far = cap(ch) == 0 && !has(sc.unbuf, p) && !has(sc.closed, p)
		BlockOn(w)
		if w.got {
			return w.v, w.ok
		}
		if has(sc.unbuf, p) {
			RaceRelease(p)
		}
	}
	v, ok := <-ch
	return v, ok
}

// Close closes ch.
//
//go:norace
func Close(ch interface{}) {
	if active == 1 {
		s.closed = append(s.closed, ch)
	}
	reflect.ValueOf(ch).Close()
}

// ---- explorer ----

// Explorer enumerates all executions with at most Bound preemptions.
type Explorer struct {
	Bound    int
	VisitCap int // points at the first visits of a statement; < 0: at synchronisation only
	MaxSteps int
	// Start resets everything and returns the thread bodies and the check to
	// run after the execution ("" means fine).
	Start         func() (bodies []func(), check func(x *Exec) string)
	Shard, Shards int
	Stop          func() bool

	crowd                *Crowd
	split                int
	Execs, Points, Steps int
	MaxPoints            int
	Horizons             int
	Truncated            bool
	Fail                 string
	FailPrefix           []int
	FailExec             *Exec
	Diverged             string
}

func (e *Explorer) one(prefix []int, counted bool) *Exec {
	x := run(e.Start, prefix, e.VisitCap, e.MaxSteps, e.crowd)
	if counted {
		e.Execs++
		e.Points += len(x.Points)
		e.Steps += x.Steps
	}
	if len(x.Points) > e.MaxPoints {
		e.MaxPoints = len(x.Points)
	}
	if x.Diverged != "" {
		e.Diverged = x.Diverged
		return x
	}
	msg := ""
	switch {
	case x.Panic != "":
		msg = "panic: " + x.Panic
	case x.Deadlock:
		msg = "deadlock: no thread can run"
	case x.Horizon:
		e.Horizons++
		return x
	default:
		msg = x.Msg
		if msg == "" && x.Races > 0 {
			msg = "data race: two goroutines use the same memory, at least one writing, with nothing ordering them (the report is below)"
		}
	}
	if msg != "" && e.Fail == "" {
		e.Fail = msg
		e.FailPrefix = choices(x)
		e.FailExec = x
	}
	return x
}

func choices(x *Exec) []int {
	c := make([]int, len(x.Points))
	for i, p := range x.Points {
		c[i] = p.Choice
	}
	// trailing zeros are implied
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

// Explore runs everything with at most Bound preemptions below prefix.
func (e *Explorer) Explore() {
	e.explore(nil, 0)
}

// ExploreCrowd runs the schedules in which all threads are stopped at the same
// point of theirs, for every point, and those in which they take turns.
func (e *Explorer) ExploreCrowd() {
	defer func() { e.crowd = nil }()
	try := func(w Crowd, counted bool) *Exec {
		if e.Fail != "" || e.Diverged != "" || e.Truncated {
			return nil
		}
		if e.Stop != nil && e.Stop() {
			e.Truncated = true
			return nil
		}
		e.crowd = &w
		return e.one(nil, counted)
	}
	x := try(Crowd{Stop: 1 << 30}, e.Shard == 0)
	if x == nil {
		return
	}
	n := 0
	mine := func() bool { n++; return e.Shards <= 1 || n%e.Shards == e.Shard }
	for _, every := range []int{1, 2, 3, 5, 8, 13, 21, 34, 55} {
		if mine() {
			try(Crowd{Every: every}, true)
		}
	}
	for stop := 1; stop <= x.ThreadPoints; stop++ {
		for _, last := range []bool{false, true} {
			if mine() {
				try(Crowd{Stop: stop, Last: last}, true)
			}
		}
	}
}

// Replay runs one schedule.
func (e *Explorer) Replay(prefix []int) string {
	e.Fail = ""
	e.one(prefix, true)
	return e.Fail
}

// explore runs prefix and everything below it. Executions that use all
// preemptions are divided among the shards, the few others run in each.
func (e *Explorer) explore(prefix []int, cost int) {
	if e.Fail != "" || e.Diverged != "" || e.Truncated {
		return
	}
	if e.Stop != nil && e.Stop() {
		e.Truncated = true
		return
	}
	x := e.one(prefix, e.Shard == 0 || cost == e.Bound && e.Bound > 0)
	if e.Fail != "" || x.Diverged != "" {
		return
	}
	for i := len(prefix); i < len(x.Points); i++ {
		p := x.Points[i]
		c := cost
		if p.RunningOn {
			c++
		}
		if c > e.Bound {
			continue
		}
		for alt := 1; alt < len(p.Enabled); alt++ {
			if c == e.Bound && cost < e.Bound && e.Shards > 1 {
				if e.split++; e.split%e.Shards != e.Shard {
					continue
				}
			}
			np := make([]int, i+1)
			for k := 0; k < i; k++ {
				np[k] = x.Points[k].Choice
			}
			np[i] = alt
			e.explore(np, c)
			if e.Fail != "" || e.Diverged != "" || e.Truncated {
				return
			}
		}
	}
}
