//go:build go1.23

package harness

import (
	"crypto/tls"
	"errors"
	"net"
	"net/http/httptrace"
	"time"

	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// What the HTTP transport tells while a request is on its way: as net/http
// does, from several goroutines, and also after the response was read.

// ohHook is one call of a client trace's hook.
type ohHook struct {
	iv
	msg   string
	attrs map[string]any
}

var errOhHook = errors.New("hook error")

// hook calls one of ct's hooks and notes what is to come of it.
func (a *ohAttempt) hook(ct *httptrace.ClientTrace, msg string, arg int) {
	k := &ohHook{msg: msg, attrs: map[string]any{}}
	at := func(key string, v any) { k.attrs["httptrace."+key] = v }
	var err error
	if arg&1 != 0 {
		err = errOhHook
	}
	seterr := func(key string) {
		if err != nil {
			at(key, err.Error())
		}
	}
	var f func()
	switch msg {
	case "GetConn":
		if ct.GetConn != nil {
			at("get_connection.host_port", sf("h:%d", arg))
			f = func() { ct.GetConn(sf("h:%d", arg)) }
		}
	case "GotConn":
		if ct.GotConn != nil {
			in := httptrace.GotConnInfo{Reused: arg&1 != 0, WasIdle: arg&2 != 0}
			at("got_connection.reused", in.Reused)
			at("got_connection.was_idle", in.WasIdle)
			in.IdleTime = time.Duration(arg) * time.Millisecond
			if in.WasIdle {
				at("got_connection.idle_time", in.IdleTime.String())
			}
			f = func() { ct.GotConn(in) }
		}
	case "PutIdleConn":
		if ct.PutIdleConn != nil {
			seterr("put_idle_connection.error")
			f = func() { ct.PutIdleConn(err) }
		}
	case "GotFirstResponseByte":
		if ct.GotFirstResponseByte != nil {
			f = func() { ct.GotFirstResponseByte() }
		}
	case "Got100Continue":
		if ct.Got100Continue != nil {
			f = func() { ct.Got100Continue() }
		}
	case "DNSStart":
		if ct.DNSStart != nil {
			at("dns_start.host", sf("h%d", arg))
			f = func() { ct.DNSStart(httptrace.DNSStartInfo{Host: sf("h%d", arg)}) }
		}
	case "DNSDone":
		if ct.DNSDone != nil {
			in := httptrace.DNSDoneInfo{Err: err}
			joined := ""
			for i := 0; i < arg&3; i++ {
				ip := net.IPAddr{IP: net.IPv4(10, 0, byte(arg), byte(i))}
				in.Addrs = append(in.Addrs, ip)
				if i > 0 {
					joined += " , "
				}
				joined += ip.String()
			}
			at("dns_done.addrs", joined)
			seterr("dns_done.error")
			f = func() { ct.DNSDone(in) }
		}
	case "ConnectStart":
		if ct.ConnectStart != nil {
			at("connect_start.network", "tcp")
			at("connect_start.addr", sf("10.0.0.%d:80", arg))
			f = func() { ct.ConnectStart("tcp", sf("10.0.0.%d:80", arg)) }
		}
	case "ConnectDone":
		if ct.ConnectDone != nil {
			at("connect_done.network", "tcp")
			at("connect_done.addr", sf("10.0.0.%d:80", arg))
			seterr("connect_done.error")
			f = func() { ct.ConnectDone("tcp", sf("10.0.0.%d:80", arg), err) }
		}
	case "TLSHandshakeStart":
		if ct.TLSHandshakeStart != nil {
			f = func() { ct.TLSHandshakeStart() }
		}
	case "TLSHandshakeDone":
		if ct.TLSHandshakeDone != nil {
			seterr("tls_handshake_done.error")
			f = func() { ct.TLSHandshakeDone(tls.ConnectionState{}, err) }
		}
	case "WroteHeaders":
		if ct.WroteHeaders != nil {
			f = func() { ct.WroteHeaders() }
		}
	case "Wait100Continue":
		if ct.Wait100Continue != nil {
			f = func() { ct.Wait100Continue() }
		}
	case "WroteRequest":
		if ct.WroteRequest != nil {
			seterr("wrote_request.error")
			f = func() { ct.WroteRequest(httptrace.WroteRequestInfo{Err: err}) }
		}
	}
	if f == nil {
		return
	}
	a.hooks = append(a.hooks, k)
	k.iv = begin("hook", msg)
	f()
	k.iv.end("hook done")
	switch msg {
	case "GotConn", "ConnectStart", "WroteHeaders", "PutIdleConn":
		a.ownWant++
	}
}

// ownTrace is the caller's own client trace.
func (a *ohAttempt) ownTrace() *httptrace.ClientTrace {
	a.hasOwn = true
	return &httptrace.ClientTrace{
		GotConn:      func(httptrace.GotConnInfo) { a.ownHooks++ },
		ConnectStart: func(_, _ string) { a.ownHooks++ },
		WroteHeaders: func() { a.ownHooks++ },
		PutIdleConn:  func(error) { a.ownHooks++ },
	}
}

// connect plays the hooks of getting a connection and sending the request.
func (s *ohSim) connect(a *ohAttempt, ct *httptrace.ClientTrace) {
	n := a.net
	arg := n.d1 ^ n.status
	a.hook(ct, "GetConn", n.d1)
	if n.status&1 != 0 {
		a.hook(ct, "DNSStart", arg)
		simrt.Y()
		a.hook(ct, "DNSDone", arg)
	}
	if n.status&2 != 0 {
		// two connections are tried at the same time; one of them answers late
		for i := 0; i < 2; i++ {
			s.tasks = append(s.tasks, simrt.Spawn(sf("dial%d.%d", a.id, i), func() {
				a.hook(ct, "ConnectStart", i)
				if i == 1 {
					simrt.Sleep(durClass(n.d2))
				}
				simrt.Y()
				a.hook(ct, "ConnectDone", i)
			}))
		}
	}
	if n.status&4 != 0 {
		a.hook(ct, "TLSHandshakeStart", 0)
		a.hook(ct, "TLSHandshakeDone", n.d2)
	}
	a.hook(ct, "GotConn", arg)
	a.hook(ct, "WroteHeaders", 0)
	if n.slow {
		a.hook(ct, "Wait100Continue", 0)
		a.hook(ct, "Got100Continue", 0)
	}
	a.hook(ct, "WroteRequest", n.chunk)
}

// connected plays those from the response on.
func (s *ohSim) connected(a *ohAttempt, ct *httptrace.ClientTrace) {
	a.hook(ct, "GotFirstResponseByte", 0)
	s.tasks = append(s.tasks, simrt.Spawn(sf("idle%d", a.id), func() {
		simrt.Sleep(durClass(a.net.d2))
		a.hook(ct, "PutIdleConn", a.net.chunk)
	}))
}

// judgeOwnHooks says whether the caller's own hooks were called.
func (s *ohSim) judgeOwnHooks(a *ohAttempt) {
	if a.hasOwn {
		s.h.Check("C13", a.ownHooks == a.ownWant, "own-hooks", "the hooks the caller of request %d put in its context were called %d times for %d events", a.id, a.ownHooks, a.ownWant)
	}
}

// judgeHooks compares a client span's annotations with the hooks called.
func (s *ohSim) judgeHooks(a *ohAttempt, sd *trace.SpanData) {
	h := s.h
	_, _, endInv, endRet, _ := a.finish()
	if h.K("hooks") == 0 || a.health {
		h.Check("C13", len(sd.Annotations) == 0, "client-trace", "client span %d is annotated", a.id)
		return
	}
	used := make([]bool, len(a.hooks))
	last := -1 // no later annotation's call may have returned before this began
	for _, an := range sd.Annotations {
		found := -1
		for i, k := range a.hooks {
			if !used[i] && k.msg == an.Message && sp(k.attrs) == sp(an.Attributes) && (found < 0 || k.inv < a.hooks[found].inv) {
				found = i
			}
		}
		if !h.Check("C13", found >= 0, "client-trace", "client span %d has the annotation %q %v, for which there was no event", a.id, an.Message, an.Attributes) {
			return
		}
		k := a.hooks[found]
		used[found] = true
		h.Check("C13", k.inv < endRet, "client-trace", "client span %d has the annotation %q of after its end", a.id, an.Message)
		h.Check("C13", k.ret > last, "client-trace", "client span %d has the annotation %q out of order", a.id, an.Message)
		last = max(last, k.inv)
	}
	for i, k := range a.hooks {
		h.Check("C13", used[i] || k.ret > endInv, "client-trace", "client span %d lacks the annotation %q %v of an event before its end", a.id, k.msg, k.attrs)
	}
}
