//go:build go1.23

// Package simsync stands in for package sync: same contracts, decided by the
// simulator's scheduler.
package simsync

import (
	"sync"
	"unsafe"

	"go.opencensus.io/verifsim/simrt"
)

func misuse(s string) { panic("fatal error: sync: " + s) }

// Mutex is sync.Mutex: whoever comes first may take it, but one who has waited
// for long gets it handed over.
type Mutex struct {
	held       bool
	head, tail *mwaiter
	addr       byte
}

type mwaiter struct {
	since   int64
	passed  int // how often others may have gone first
	granted bool
	gone    bool
	next    *mwaiter
}

const starving = 1_000_000 // ns, as in package sync

// maxPassed bounds how long the one task that waits may be passed over in runs
// whose time hardly advances.
const maxPassed = 100

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(&m.addr) }

func (m *Mutex) Lock() {
	simrt.Y()
	m.lock("sync.Mutex.Lock")
	simrt.RaceAcquire(m.p())
}

func (m *Mutex) lock(why string) {
	if m.held {
		w := &mwaiter{since: simrt.Mono()}
		if m.tail == nil {
			m.head = w
		} else {
			m.tail.next = w
		}
		m.tail = w
		simrt.Block(why, func() bool { return w.granted || !m.held })
		w.gone = true
		for m.head != nil && m.head.gone {
			m.head = m.head.next
		}
		if m.head == nil {
			m.tail = nil
		}
	}
	m.held = true
}

func (m *Mutex) unlock() {
	if w := m.head; w != nil && !w.granted {
		if w.passed++; w.passed > maxPassed || simrt.Mono()-w.since >= starving {
			w.granted = true // held stays: it is w's now
			return
		}
	}
	m.held = false
}

func (m *Mutex) TryLock() bool {
	simrt.Y()
	if m.held {
		return false
	}
	m.held = true
	simrt.RaceAcquire(m.p())
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Killing() {
			return
		}
		misuse("unlock of unlocked mutex")
	}
	simrt.RaceRelease(m.p())
	m.unlock()
	simrt.Y()
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out, and the
// readers that waited for a writer go before the next writer.
type RWMutex struct {
	m       Mutex // held by the writer that is pending or active
	pending bool
	w       bool
	readers int
	rwait   *rwaiter
	a, b    byte
}

type rwaiter struct {
	granted bool
	next    *rwaiter
}

func (m *RWMutex) pr() unsafe.Pointer { return unsafe.Pointer(&m.a) }
func (m *RWMutex) pw() unsafe.Pointer { return unsafe.Pointer(&m.b) }

func (m *RWMutex) RLock() {
	simrt.Y()
	if m.w || m.pending {
		w := &rwaiter{next: m.rwait}
		m.rwait = w
		simrt.Block("sync.RWMutex.RLock", func() bool { return w.granted })
	} else {
		m.readers++
	}
	simrt.RaceAcquire(m.pr())
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y()
	if m.w || m.pending {
		return false
	}
	m.readers++
	simrt.RaceAcquire(m.pr())
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if simrt.Killing() {
			return
		}
		misuse("RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(m.pw())
	m.readers--
	simrt.Y()
}

func (m *RWMutex) Lock() {
	simrt.Y()
	m.m.lock("sync.RWMutex.Lock")
	m.pending = true
	if m.readers > 0 {
		simrt.Block("sync.RWMutex.Lock", func() bool { return m.readers == 0 })
	}
	m.w = true
	simrt.RaceAcquire(m.pr())
	simrt.RaceAcquire(m.pw())
}

func (m *RWMutex) TryLock() bool {
	simrt.Y()
	if m.m.held || m.w || m.readers > 0 {
		return false
	}
	m.m.held, m.pending, m.w = true, true, true
	simrt.RaceAcquire(m.pr())
	simrt.RaceAcquire(m.pw())
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if simrt.Killing() {
			return
		}
		misuse("Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(m.pr())
	m.w, m.pending = false, false
	for w := m.rwait; w != nil; w = w.next {
		w.granted = true
		m.readers++
	}
	m.rwait = nil
	m.m.unlock()
	simrt.Y()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	addr byte
}

func (o *Once) Do(f func()) {
	simrt.Y()
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.addr))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.RaceRelease(unsafe.Pointer(&o.addr))
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	addr byte
}

func (g *WaitGroup) Add(d int) {
	simrt.Y()
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&g.addr))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	simrt.Y()
	for g.n > 0 {
		simrt.Block("sync.WaitGroup.Wait", func() bool { return g.n == 0 })
	}
	simrt.RaceAcquire(unsafe.Pointer(&g.addr))
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L    sync.Locker
	q    []*bool
	addr byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	simrt.Block("sync.Cond.Wait", func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Y()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	simrt.Y()
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { simrt.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { simrt.Y(); simrt.Touch(k); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y()
	simrt.Touch(k)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { simrt.Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { simrt.Y(); simrt.Touch(k); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { simrt.Y(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { simrt.Y(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { simrt.Y(); m.m.Clear() }

// Range visits the keys present at the start, each if still present.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y()
	var ks []any
	m.m.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	var ord []int
	if len(ks) > 1 {
		ord = simrt.OrderAny(ks)
	} else {
		ord = make([]int, len(ks))
	}
	for _, i := range ord {
		simrt.Y()
		v, ok := m.m.Load(ks[i])
		if !ok {
			continue
		}
		if !f(ks[i], v) {
			return
		}
	}
}

// Pool is sync.Pool; it may forget any item.
type Pool struct {
	New   func() any
	items []any
	addr  byte
}

func (p *Pool) Get() any {
	simrt.Y()
	if n := len(p.items); n > 0 && simrt.Choose(8) != 1 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(&p.addr))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	simrt.Y()
	if x == nil {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.addr))
	p.items = append(p.items, x)
}
