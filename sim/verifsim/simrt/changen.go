//go:build go1.23

package simrt

import "unsafe"

// The generic halves of the channel operations: they are compiled into the
// code under test, and touch nothing but their own operation's memory and the
// real channel.

func hc[T any](c chan T) *hchan { return *(**hchan)(unsafe.Pointer(&c)) }

func sendCase[T any](c chan<- T, v *T) *scase {
	ch := *(*chan T)(unsafe.Pointer(&c))
	return &scase{ch: hc(ch), send: true, box: unsafe.Pointer(v), xfer: xfer[T],
		try: func() (bool, bool) {
			select {
			case ch <- *v:
				return true, true
			default:
				return false, false
			}
		}}
}

func recvCase[T any](c <-chan T, v *T) *scase {
	ch := *(*chan T)(unsafe.Pointer(&c))
	return &scase{ch: hc(ch), box: unsafe.Pointer(v), xfer: xfer[T],
		try: func() (bool, bool) {
			select {
			case x, ok := <-ch:
				*v = x
				return true, ok
			default:
				return false, false
			}
		}}
}

//go:norace
func xfer[T any](dst, src unsafe.Pointer) { *(*T)(dst) = *(*T)(src) }

// Sender is the channel of a send statement.
type Sender[T any] struct{ c chan<- T }

// SendTo starts a send statement.
func SendTo[T any](c chan<- T) Sender[T] { return Sender[T]{c} }

// Send completes it.
func (s Sender[T]) Send(v T) {
	if S == nil {
		select {
		case s.c <- v:
			return
		default:
			panic("simrt: blocking send outside a run")
		}
	}
	x := new(T)
	*x = v
	one(sendCase(s.c, x), "chan send")
}

// Recv is a receive expression.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is a receive expression with two results.
func Recv2[T any](c <-chan T) (T, bool) {
	if S == nil {
		select {
		case v, ok := <-c:
			return v, ok
		default:
			panic("simrt: blocking receive outside a run")
		}
	}
	x := new(T)
	k := recvCase(c, x)
	one(k, "chan receive")
	return *x, k.okay()
}

func (c *scase) okay() bool { return c.ok }

// Close closes a channel.
func Close[T any](c chan<- T) {
	Y()
	close(c)
}

// RecvC is a receive case of a select.
type RecvC[T any] struct {
	v *T
	k *scase
}

// SelRecv adds a receive case.
func SelRecv[T any](s *Sel, c <-chan T) RecvC[T] {
	x := new(T)
	k := recvCase(c, x)
	s.add(k)
	return RecvC[T]{x, k}
}

// Val is what the case received.
func (r RecvC[T]) Val() T          { return *r.v }
func (r RecvC[T]) Val2() (T, bool) { return *r.v, r.k.okay() }

// SendC is a send case of a select.
type SendC[T any] struct {
	s *Sel
	c chan<- T
}

// SelSend adds a send case; Set gives its value.
func SelSend[T any](s *Sel, c chan<- T) SendC[T] { return SendC[T]{s, c} }
func (c SendC[T]) Set(v T) {
	x := new(T)
	*x = v
	c.s.add(sendCase(c.c, x))
}

// ChanIt ranges over a channel.
type ChanIt[T any] struct{ c <-chan T }

// ChanIter starts ranging over c.
func ChanIter[T any](c <-chan T) (v T, it ChanIt[T]) { return v, ChanIt[T]{c} }
func (it ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.c)
	if ok && v != nil {
		*v = x
	}
	return ok
}
