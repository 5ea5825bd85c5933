//go:build go1.23

// Package simtime stands in for the parts of package time that read a clock
// or wait for one.
package simtime

import (
	"time"
	"unsafe"

	"go.opencensus.io/verifsim/simrt"
)

// layout of time.Time
type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	wallEpoch    = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInt    = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

func build(wallNS, mono int64) time.Time {
	sec, ns := wallNS/1e9, wallNS%1e9
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMonotonic | uint64(sec+unixToInt-wallEpoch)<<30 | uint64(ns)
	r.ext = mono
	r.loc = time.Local
	return t
}

func init() {
	a := build(1_577_880_000_123_456_789, 1000)
	b := build(1_577_870_000_000_000_000, 5000)
	if !a.Round(0).Equal(time.Unix(1_577_880_000, 123_456_789)) || b.Sub(a) != 4000 {
		panic("simtime: unexpected time.Time layout")
	}
}

// Now is the simulated time, with a monotonic reading.
func Now() time.Time                  { return build(simrt.Wall(), simrt.Mono()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *simrt.Timer
	f  func()
	gp *bool
}

func (t *Timer) fire() {
	select {
	case t.c <- Now():
	default:
	}
}

func drain(c chan time.Time) {
	if simrt.AsyncTimers() {
		return
	}
	simrt.RaceDisable()
	select {
	case <-c:
	default:
	}
	simrt.RaceEnable()
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.t = simrt.AddTimer(int64(d), t.fire)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.t, t.gp = simrt.GoAt(int64(d), f)
	return t
}

func (t *Timer) Stop() bool {
	simrt.Y()
	ok := simrt.DelTimer(t.t)
	if t.c != nil {
		drain(t.c)
	}
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	simrt.Y()
	ok := simrt.DelTimer(t.t)
	if t.f != nil {
		t.t, t.gp = simrt.GoAt(int64(d), t.f)
		return ok
	}
	drain(t.c)
	t.t = simrt.AddTimer(int64(d), t.fire)
	return ok
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *simrt.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = simrt.AddTicker(int64(t.d), t.fire, func() bool { return len(t.c) == cap(t.c) })
}

func (t *Ticker) fire() {
	t.arm()
	select {
	case t.c <- Now():
	default: // a slow receiver loses ticks
	}
}

func (t *Ticker) Stop() {
	simrt.Y()
	simrt.DelTimer(t.t)
	drain(t.c)
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	simrt.Y()
	simrt.DelTimer(t.t)
	drain(t.c)
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
