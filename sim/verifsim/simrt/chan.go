//go:build go1.23

package simrt

import (
	"runtime"
	"unsafe"
)

// hchan mirrors the head of the runtime's channel; checkHchan verifies it.
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func init() { checkHchan() }

func checkHchan() {
	c := make(chan int32, 3)
	c <- 1
	h := *(**hchan)(unsafe.Pointer(&c))
	if h.qcount != 1 || h.dataqsiz != 3 || h.elemsize != 4 || h.closed != 0 {
		panic("simrt: unexpected channel layout")
	}
	close(c)
	if h.closed == 0 {
		panic("simrt: unexpected channel layout")
	}
}

// scase is one channel operation a task may be waiting for.
type scase struct {
	ch   *hchan
	send bool
	box  unsafe.Pointer // *T: the value to send, or where to receive
	ok   bool           // received a value (not closed)
	// xfer copies a value between boxes of the right type
	xfer func(dst, src unsafe.Pointer)
	// try performs the operation on the real channel without blocking
	try func() (done, ok bool)
}

// waiter is a parked channel operation or select.
type waiter struct {
	cases []*scase
	fired int // index of the case another task completed, or -1
	sync  byte
}

func (c *scase) peer(self *waiter) (*waiter, int) {
	// parked tasks with the opposite operation on the same unbuffered channel
	s := S
	var ws [32]*waiter
	var is [32]int
	n := 0
	for _, t := range s.tasks {
		w := t.w
		if w == nil || w == self || w.fired >= 0 {
			continue
		}
		for i, o := range w.cases {
			if o.ch == c.ch && o.send != c.send && n < len(ws) {
				ws[n], is[n] = w, i
				n++
				break
			}
		}
	}
	if n == 0 {
		return nil, 0
	}
	k := 0
	if n > 1 {
		k = chooseFair(n)
	}
	return ws[k], is[k]
}

func (c *scase) hasPeer(self *waiter) bool {
	for _, t := range S.tasks {
		w := t.w
		if w == nil || w == self || w.fired >= 0 {
			continue
		}
		for _, o := range w.cases {
			if o.ch == c.ch && o.send != c.send {
				return true
			}
		}
	}
	return false
}

func (c *scase) isReady(self *waiter) bool {
	h := c.ch
	if h == nil {
		return false
	}
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz > 0 {
		if c.send {
			return h.qcount < h.dataqsiz
		}
		return h.qcount > 0
	}
	return c.hasPeer(self)
}

// perform runs a ready case.
func (c *scase) perform(self *waiter) {
	h := c.ch
	if h.closed == 0 && h.dataqsiz == 0 {
		w, i := c.peer(self)
		o := w.cases[i]
		RaceAcquire(unsafe.Pointer(&w.sync))
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		raceDisable() // the copy is ordered by the two edges above and the one on wake-up
		if c.send {
			o.xfer(o.box, c.box)
			o.ok = true
		} else {
			c.xfer(c.box, o.box)
			c.ok = true
		}
		raceEnable()
		w.fired = i
		return
	}
	done, ok := c.try()
	if !done {
		panic("simrt: channel was ready but the operation would block")
	}
	c.ok = ok
}

func (w *waiter) readyIndex() int {
	var r [32]int
	n := 0
	for i, c := range w.cases {
		if n < len(r) && c.isReady(w) {
			r[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return r[0]
	}
	return r[chooseFair(n)]
}

func (w *waiter) anyReady() bool {
	if w.fired >= 0 {
		return true
	}
	for _, c := range w.cases {
		if c.isReady(w) {
			return true
		}
	}
	return false
}

// run performs one of the waiter's cases, blocking if it must; -1 means the
// default case.
func (w *waiter) run(why string, hasDefault bool) int {
	s := S
	if s.killing {
		runtime.Goexit()
	}
	Y()
	w.fired = -1
	me := s.cur
	for {
		if i := w.readyIndex(); i >= 0 {
			w.cases[i].perform(w)
			return i
		}
		if hasDefault {
			return -1
		}
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		me.w = w
		Block(why, w.anyReady)
		me.w = nil
		if w.fired >= 0 {
			RaceAcquire(unsafe.Pointer(&w.sync))
			return w.fired
		}
	}
}

func one(c *scase, why string) {
	w := &waiter{cases: []*scase{c}, fired: -1}
	w.run(why, false)
}

// Sel is a select statement.
type Sel struct {
	w   waiter
	def bool
}

// NewSel starts a select.
func NewSel(hasDefault bool) *Sel { return &Sel{def: hasDefault} }

func (s *Sel) add(c *scase) {
	n := make([]*scase, len(s.w.cases)+1)
	for i, o := range s.w.cases {
		n[i] = o
	}
	n[len(n)-1] = c
	s.w.cases = n
}

// Wait performs one case and returns its index, or -1 for the default.
func (s *Sel) Wait() int {
	if S == nil {
		for i, c := range s.w.cases {
			if c.ch == nil {
				continue
			}
			if done, ok := c.try(); done {
				c.ok = ok
				return i
			}
		}
		if s.def {
			return -1
		}
		panic("simrt: blocking select outside a run")
	}
	return s.w.run("select", s.def)
}
