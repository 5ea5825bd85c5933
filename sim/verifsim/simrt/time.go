//go:build go1.23

package simrt

// Timer is a pending event of the simulated clock.
type Timer struct {
	at  int64
	seq uint64
	f   func()
	idx int
	// a ticker's period, and whether firing it now would change nothing
	// because its channel still holds a tick
	period int64
	idle   func() bool
}

type timerHeap struct{ h []*Timer }

func (a *timerHeap) less(i, j int) bool {
	if a.h[i].at != a.h[j].at {
		return a.h[i].at < a.h[j].at
	}
	return a.h[i].seq < a.h[j].seq
}
func (a *timerHeap) swap(i, j int) {
	a.h[i], a.h[j] = a.h[j], a.h[i]
	a.h[i].idx, a.h[j].idx = i, j
}
func (a *timerHeap) push(t *Timer) {
	if len(a.h) == cap(a.h) {
		n := make([]*Timer, len(a.h), 2*len(a.h)+8)
		for i, o := range a.h {
			n[i] = o
		}
		a.h = n
	}
	a.h = a.h[:len(a.h)+1]
	t.idx = len(a.h) - 1
	a.h[t.idx] = t
	a.up(t.idx)
}
func (a *timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !a.less(i, p) {
			return
		}
		a.swap(i, p)
		i = p
	}
}
func (a *timerHeap) down(i int) {
	for {
		c := 2*i + 1
		if c >= len(a.h) {
			return
		}
		if c+1 < len(a.h) && a.less(c+1, c) {
			c++
		}
		if !a.less(c, i) {
			return
		}
		a.swap(i, c)
		i = c
	}
}
func (a *timerHeap) remove(i int) {
	last := len(a.h) - 1
	a.h[i].idx = -1
	if i != last {
		a.h[i] = a.h[last]
		a.h[i].idx = i
	}
	a.h[last] = nil
	a.h = a.h[:last]
	if i < last {
		a.down(i)
		a.up(i)
	}
}

func (s *Sim) addTimer(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &Timer{at: s.now + d, seq: s.tseq, f: f}
	s.timers.push(t)
	return t
}

func (s *Sim) delTimer(t *Timer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	s.timers.remove(t.idx)
	return true
}

func (s *Sim) fireDue() {
	for len(s.timers.h) > 0 && s.timers.h[0].at <= s.now {
		t := s.timers.h[0]
		s.timers.remove(0)
		s.Fired++
		raceDisable()
		t.f()
		raceEnable()
	}
}

// AddTimer calls f, which must not block, d ns from now.
func AddTimer(d int64, f func()) *Timer {
	if S == nil {
		return nil
	}
	return S.addTimer(d, f)
}

// AddTicker is AddTimer for one tick of a ticker with the given period; idle
// says whether a tick would be lost.
func AddTicker(d int64, f func(), idle func() bool) *Timer {
	if S == nil {
		return nil
	}
	t := S.addTimer(d, f)
	t.period, t.idle = d, idle
	return t
}

// skipIdle lets the ticks that would be lost pass: no task can run, so nobody
// empties their channels before the next timer that does something. It reports
// whether there is such a timer.
func (s *Sim) skipIdle() bool {
	strong := int64(-1)
	for _, t := range s.timers.h {
		if (t.idle == nil || !t.idle()) && (strong < 0 || t.at < strong) {
			strong = t.at
		}
	}
	if strong < 0 {
		return false
	}
	moved := false
	for _, t := range s.timers.h {
		if t.at < strong && t.period > 0 {
			t.at += (strong - t.at + t.period - 1) / t.period * t.period
			moved = true
		}
	}
	if moved {
		h := s.timers.h
		for i := len(h)/2 - 1; i >= 0; i-- {
			s.timers.down(i)
		}
	}
	return true
}

// DelTimer reports whether it stopped the timer before it fired.
func DelTimer(t *Timer) bool {
	if S == nil || t == nil {
		return false
	}
	return S.delTimer(t)
}

// Mono is the monotonic clock, Wall the wall clock (unix ns).
func Mono() int64 {
	if S == nil {
		return startMono
	}
	return S.now
}
func Wall() int64 {
	if S == nil {
		return 1_577_880_000_000_000_000
	}
	return S.now + S.wall
}

// JumpWall steps the wall clock; timers and the monotonic clock do not notice.
func JumpWall(d int64) { S.wall += d }

// AsyncTimers reports whether stopped timers may leave a stale value behind.
func AsyncTimers() bool { return S != nil && S.prof.AsyncTim }

func (s *Sim) sleep(d int64, why string) {
	fired := false
	s.addTimer(d, func() { fired = true })
	Block(why, func() bool { return fired })
}

// Sleep parks the running task for d ns of simulated time.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	if s.killing {
		Block("killed", nil)
	}
	if d <= 0 {
		Y()
		return
	}
	s.sleep(d, "sleeping")
}

// Wait blocks until the predicate holds or d ns have passed; it reports
// whether the predicate holds.
func Wait(why string, d int64, pred func() bool) bool {
	s := S
	fired := false
	var tm *Timer
	if d > 0 {
		tm = s.addTimer(d, func() { fired = true })
	}
	Block(why, func() bool { return fired || pred() })
	s.delTimer(tm)
	return pred()
}

// GoAt starts a library task whose goroutine exists now but runs when the
// timer fires, as with time.AfterFunc.
func GoAt(d int64, f func()) (*Timer, *bool) {
	s := S
	if s == nil || s.killing {
		return nil, new(bool)
	}
	fired := new(bool)
	t := s.newTask("afterfunc", true)
	t.state, t.why = blocked, "timer"
	t.ready = func() bool { return *fired }
	s.start(t, f)
	return s.addTimer(d, func() { *fired = true }), fired
}
