// Package vsync stands in for package sync in the instrumented code: under an
// active exploration the primitives block cooperatively, otherwise natively.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/fadhilkurnia/shamir/aaverif/vsched"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct {
	m sync.Mutex
	l bool
}

type freeM struct{ m *Mutex }

//go:norace
func (w freeM) Ready() bool { return !w.m.l }

//go:norace
func (m *Mutex) Lock() {
	if vsched.Active() {
		vsched.P(-10)
		vsched.BlockOn(freeM{m})
		m.l = true
		vsched.RaceAcquire(unsafe.Pointer(m))
		return
	}
	m.m.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	if vsched.Active() {
		vsched.P(-10)
		if m.l {
			return false
		}
		m.l = true
		vsched.RaceAcquire(unsafe.Pointer(m))
		return true
	}
	return m.m.TryLock()
}

//go:norace
func (m *Mutex) Unlock() {
	if vsched.Active() {
		if !m.l {
			panic("sync: unlock of unlocked mutex")
		}
		vsched.RaceRelease(unsafe.Pointer(m))
		m.l = false
		vsched.P(-11)
		return
	}
	m.m.Unlock()
}

// RWMutex: a is released by Unlock, b by RUnlock.
type RWMutex struct {
	m    sync.RWMutex
	w    bool
	r    int
	want int // writers waiting: they keep new readers out, as in package sync
	a, b int
}

type freeW struct{ m *RWMutex }

//go:norace
func (w freeW) Ready() bool { return !w.m.w && w.m.r == 0 }

type freeR struct{ m *RWMutex }

//go:norace
func (w freeR) Ready() bool { return !w.m.w && w.m.want == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if vsched.Active() {
		vsched.P(-12)
		m.want++
		vsched.BlockOn(freeW{m})
		m.want--
		m.lock()
		return
	}
	m.m.Lock()
}

//go:norace
func (m *RWMutex) lock() {
	m.w = true
	vsched.RaceAcquire(unsafe.Pointer(&m.a))
	vsched.RaceAcquire(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) rlock() {
	m.r++
	vsched.RaceAcquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *RWMutex) Unlock() {
	if vsched.Active() {
		if !m.w {
			panic("sync: Unlock of unlocked RWMutex")
		}
		vsched.RaceRelease(unsafe.Pointer(&m.a))
		m.w = false
		vsched.P(-13)
		return
	}
	m.m.Unlock()
}

//go:norace
func (m *RWMutex) RLock() {
	if vsched.Active() {
		vsched.P(-14)
		vsched.BlockOn(freeR{m})
		m.rlock()
		return
	}
	m.m.RLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vsched.Active() {
		if m.r <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		vsched.RaceRelease(unsafe.Pointer(&m.b))
		m.r--
		vsched.P(-15)
		return
	}
	m.m.RUnlock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if vsched.Active() {
		vsched.P(-12)
		if m.w || m.r > 0 {
			return false
		}
		m.lock()
		return true
	}
	return m.m.TryLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if vsched.Active() {
		vsched.P(-14)
		if m.w || m.want > 0 {
			return false
		}
		m.rlock()
		return true
	}
	return m.m.TryRLock()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	w sync.WaitGroup
	n int
}

type zero struct{ w *WaitGroup }

//go:norace
func (z zero) Ready() bool { return z.w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if vsched.Active() {
		if d < 0 {
			vsched.RaceRelease(unsafe.Pointer(w))
		}
		w.n += d
		if w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
		vsched.P(-16)
		return
	}
	w.w.Add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vsched.Active() {
		vsched.P(-17)
		vsched.BlockOn(zero{w})
		vsched.RaceAcquire(unsafe.Pointer(w))
		return
	}
	w.w.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	o    sync.Once
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.o.Do(func() {
			if !o.done {
				defer o.finish()
				f()
			}
		})
		return
	}
	vsched.P(-22)
	if o.done {
		vsched.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.slow(f)
}

//go:norace
func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	o.done = true
	vsched.RaceRelease(unsafe.Pointer(o))
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool: under exploration the most adversarial legal behaviour that keeps
// items is modelled, a LIFO shared by all threads. As in package sync, what was
// done before an item was put is ordered before what follows its Get.
type Pool struct {
	noCopy [0]func()
	New    func() any
	mu     sync.Mutex
	items  []any
}

var poolAddr [256]uint64

//go:norace
func addrOf(x any) unsafe.Pointer {
	p := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	return unsafe.Pointer(&poolAddr[uint32(uint64(uint32(p))*0x85ebca6b>>16)%256])
}

//go:norace
func (p *Pool) Get() any {
	var x any
	if vsched.Active() {
		vsched.P(-18)
		x = p.pop()
	} else {
		p.mu.Lock()
		x = p.pop()
		p.mu.Unlock()
	}
	if x != nil {
		vsched.RaceAcquire(addrOf(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) pop() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsched.RaceRelease(addrOf(x))
	if vsched.Active() {
		p.items = append(p.items, x)
		vsched.P(-19)
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type Cond struct {
	L   Locker
	mu  sync.Mutex
	c   *sync.Cond
	seq int
	q   []int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type woken struct {
	c  *Cond
	id int
}

//go:norace
func (w woken) Ready() bool {
	for _, x := range w.c.q {
		if x == w.id {
			return false
		}
	}
	return true
}

func (c *Cond) native() *sync.Cond {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.c == nil {
		c.c = sync.NewCond(c.L)
	}
	return c.c
}

//go:norace
func (c *Cond) Wait() {
	if vsched.Active() {
		c.seq++
		w := woken{c, c.seq}
		c.q = append(c.q, w.id)
		c.L.Unlock()
		vsched.BlockOn(w)
		vsched.RaceAcquire(unsafe.Pointer(c))
		c.L.Lock()
		return
	}
	c.native().Wait()
}

//go:norace
func (c *Cond) Signal() {
	if vsched.Active() {
		vsched.RaceRelease(unsafe.Pointer(c))
		if len(c.q) > 0 {
			c.q = c.q[1:]
		}
		vsched.P(-20)
		return
	}
	c.native().Signal()
}

//go:norace
func (c *Cond) Broadcast() {
	if vsched.Active() {
		vsched.RaceRelease(unsafe.Pointer(c))
		c.q = nil
		vsched.P(-21)
		return
	}
	c.native().Broadcast()
}
