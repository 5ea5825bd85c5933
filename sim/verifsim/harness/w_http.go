//go:build go1.23

package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/url"
	"strings"
	"time"

	"bufio"

	sdprop "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifsim/simrt"
)

// The HTTP workload: callers make requests through an instrumented transport
// over a simulated network that delays, loses, duplicates and damages, to an
// instrumented handler which writes, copies, flushes, panics, hijacks and calls
// on to further servers.

type bitr struct{ v uint64 }

func (b *bitr) n(k uint) int {
	x := b.v & (1<<k - 1)
	b.v >>= k
	return int(x)
}

type bitw struct {
	v  uint64
	at uint
}

func (b *bitw) add(k uint, x int) *bitw {
	b.v |= uint64(x) & (1<<k - 1) << b.at
	b.at += k
	return b
}

// durClass makes 0 nothing, else 1µs to about 1s.
func durClass(k int) int64 {
	if k == 0 {
		return 0
	}
	if k > 11 {
		k = 11
	}
	return int64(time.Microsecond) << uint(2*(k-1))
}

var ohStatuses = []int{200, 200, 204, 301, 400, 401, 403, 404, 409, 422, 429, 499, 500, 501, 503, 504}

// ohRare are statuses that are rare, and some that are not registered at all.
var ohRare = []int{200, 206, 203, 302, 402, 418, 498, 599, 502, 505, 600, 450, 451, 699, 999, 226}

func (s *ohSim) statuses(i int) int {
	if s.h.K("rare") != 0 {
		return ohRare[i]
	}
	return ohStatuses[i]
}

// ohStatus is the mapping of the OpenCensus HTTP trace specification.
func ohStatus(code int) trace.Status {
	m := map[int]trace.Status{
		499: {Code: 1, Message: "CANCELLED"}, 400: {Code: 3, Message: "INVALID_ARGUMENT"}, 422: {Code: 3, Message: "INVALID_ARGUMENT"},
		504: {Code: 4, Message: "DEADLINE_EXCEEDED"}, 404: {Code: 5, Message: "NOT_FOUND"}, 403: {Code: 7, Message: "PERMISSION_DENIED"},
		401: {Code: 16, Message: "UNAUTHENTICATED"}, 429: {Code: 8, Message: "RESOURCE_EXHAUSTED"}, 501: {Code: 12, Message: "UNIMPLEMENTED"},
		503: {Code: 14, Message: "UNAVAILABLE"}, 409: {Code: 6, Message: "ALREADY_EXISTS"},
	}
	if s, ok := m[code]; ok {
		return s
	}
	if code >= 200 && code < 400 {
		return trace.Status{Code: 0, Message: "OK"}
	}
	return trace.Status{Code: 2, Message: "UNKNOWN"}
}

const (
	ohFromServer = iota
	ohCanned
	ohRefused     // an error, nothing delivered
	ohReplyLost   // delivered, but the caller gets an error
	ohDuplicate   // delivered twice
	ohLate        // delivered after the caller got an error
	ohNilBody     // a response without a body
	ohErrAndReply // an error together with a response
)

type ohNet struct {
	mode, d1, d2, damage int
	chunk                int
	eofData, bodyErr     bool
	clen, slow, writer   bool
	status               int
	hooks                bool
}

func (n *ohNet) decode(v int64) {
	b := bitr{uint64(v)}
	n.mode, n.d1, n.d2, n.damage, n.chunk = b.n(4), b.n(4), b.n(4), b.n(4), b.n(2)
	n.eofData, n.bodyErr, n.clen, n.slow, n.writer = b.n(1) == 1, b.n(1) == 1, b.n(1) == 1, b.n(1) == 1, b.n(1) == 1
	n.status, n.hooks = b.n(4), b.n(1) == 1
}

func (n ohNet) encode() int64 {
	var b bitw
	bb := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	b.add(4, n.mode).add(4, n.d1).add(4, n.d2).add(4, n.damage).add(2, n.chunk)
	b.add(1, bb(n.eofData)).add(1, bb(n.bodyErr)).add(1, bb(n.clen)).add(1, bb(n.slow)).add(1, bb(n.writer))
	b.add(4, n.status).add(1, bb(n.hooks))
	return int64(b.v)
}

type ohReq struct {
	method, body, size, host, tags, parent, tstate, ua, query, via, health, retry, redirect int
}

func (q *ohReq) decode(v int64) {
	b := bitr{uint64(v)}
	q.method, q.body, q.size, q.host, q.tags, q.parent, q.tstate, q.ua, q.query, q.via, q.health, q.retry, q.redirect =
		b.n(2), b.n(2), b.n(10), b.n(2), b.n(2), b.n(3), b.n(2), b.n(1), b.n(1), b.n(1), b.n(2), b.n(1), b.n(1)
}

func (q ohReq) encode() int64 {
	var b bitw
	b.add(2, q.method).add(2, q.body).add(10, q.size).add(2, q.host).add(2, q.tags).add(3, q.parent).add(2, q.tstate).add(1, q.ua).add(1, q.query).add(1, q.via).add(2, q.health).add(1, q.retry).add(1, q.redirect)
	return int64(b.v)
}

// Actions of a handler.
const (
	haNone = iota
	haHeader
	haWrite
	haWriteBig
	haFlush
	haCopy
	haSleep
	haRoute
	haPanic
	haHijack
	haCall
	haInfo
	haReadBody
	haForward
	haSetHeader
	haWrite0
	haN
)

// ohAttempt is one request through the instrumented transport.
type ohAttempt struct {
	iv
	id         int
	path       string
	health     bool
	req        *http.Request // as the caller gave it
	hdr        http.Header   // its headers then
	net        ohNet
	hands      int64
	depth      int
	tags       map[string]string // of the caller's context
	parent     trace.SpanContext
	callerTask int

	base     iv // the base's RoundTrip
	arrived  bool
	sc       trace.SpanContext
	sampled  bool
	err      error
	resp     *http.Response
	origBody *ohBody
	hooks    []*ohHook
	hasOwn   bool
	ownHooks int // calls of the caller's own hooks
	ownWant  int

	reads    []*ohRead
	fins     []*iv // what may have ended it
	raced    bool  // several goroutines at the body
	readErrs []string
	exports  []*trace.SpanData
}

type ohRead struct {
	iv
	baseSeq int
	baseAt  int64
	n       int
	err     error
}

// ohDelivery is one request handled by the instrumented handler.
type ohDelivery struct {
	iv
	id       int
	a        *ohAttempt // whose it is
	req      *http.Request
	conn     *ohConn
	path     string
	health   bool
	expectOK bool // its headers still tell the trace
	noState  bool // but not the trace-state
	hv       iv   // the handler's time
	entered  bool
	sc       trace.SpanContext
	isRec    bool
	routes   []string
	panicked any
	bodyLen  int
	bodyRead bool
	events   []int64 // sizes of what it wrote
	exports  []*trace.SpanData
	baseTags map[string]string
}

type ohKey struct{ s string }

var (
	ohAttemptKey  = ohKey{"attempt"}
	ohDeliveryKey = ohKey{"delivery"}
	ohValueKey    = ohKey{"value"}
)

type ohSim struct {
	h          *H
	base       clockBase
	attempts   []*ohAttempt
	deliveries []*ohDelivery
	bySpan     map[trace.SpanID]any
	stray      []*trace.SpanData
	views      []*view.View
	keys       []tag.Key
	format     propagation.HTTPFormat
	fmtID      int64
	transport  *ochttp.Transport
	handler    *ochttp.Handler
	tasks      []*simrt.Task
	shared     http.Header // several callers make requests with
	exported   []*trace.SpanData
}

// ---------------------------------------------------------------- server side

// ohConn is a server's connection for one request: net/http's rules.
type ohConn struct {
	sim    *ohSim
	hdr    http.Header
	code   int
	infos  []int
	body   []byte
	limit  int // how many bytes the client takes before it goes away; -1 all
	flush  int
	hij    bool
	pushed int
	notify chan bool
}

type ohBase struct{ c *ohConn }

var errOhGone = errors.New("client went away")

func (b ohBase) Header() http.Header { return b.c.hdr }
func (b ohBase) WriteHeader(code int) {
	simrt.Y()
	if b.c.hij || b.c.code != 0 {
		return
	}
	if code < 200 && code != 101 {
		b.c.infos = append(b.c.infos, code)
		return
	}
	b.c.code = code
}
func (b ohBase) Write(p []byte) (int, error) {
	simrt.Y()
	c := b.c
	if c.hij {
		return 0, http.ErrHijacked
	}
	if c.code == 0 {
		c.code = 200
	}
	if c.limit >= 0 && len(c.body)+len(p) > c.limit {
		n := c.limit - len(c.body)
		c.body = append(c.body, p[:n]...)
		return n, errOhGone
	}
	c.body = append(c.body, p...)
	return len(p), nil
}

type ohHij struct{ c *ohConn }

func (b ohHij) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	simrt.Y()
	b.c.hij = true
	return nil, nil, nil
}

type ohCN struct{ c *ohConn }

func (b ohCN) CloseNotify() <-chan bool { return b.c.notify }

type ohPush struct{ c *ohConn }

func (b ohPush) Push(string, *http.PushOptions) error { b.c.pushed++; return nil }

type ohFlush struct{ c *ohConn }

func (b ohFlush) Flush() {
	simrt.Y()
	if b.c.code == 0 {
		b.c.code = 200
	}
	b.c.flush++
}

type ohRF struct{ c *ohConn }

func (b ohRF) ReadFrom(r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			w, werr := ohBase{b.c}.Write(buf[:n])
			total += int64(w)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func ifaces(w any) int {
	m := 0
	if _, ok := w.(http.Hijacker); ok {
		m |= 1
	}
	if _, ok := w.(http.CloseNotifier); ok {
		m |= 2
	}
	if _, ok := w.(http.Pusher); ok {
		m |= 4
	}
	if _, ok := w.(http.Flusher); ok {
		m |= 8
	}
	if _, ok := w.(io.ReaderFrom); ok {
		m |= 16
	}
	return m
}

// handle is the application's handler.
func (s *ohSim) handle(w http.ResponseWriter, r *http.Request) {
	h := s.h
	d, _ := r.Context().Value(ohDeliveryKey).(*ohDelivery)
	if d == nil {
		h.Bad("C14", "context-lost", "the handler's request does not have the server's context")
		return
	}
	d.hv = begin("handler", d.id)
	h.Check("C14", !d.entered, "handled-twice", "the handler was called twice for one request")
	d.entered = true
	span := trace.FromContext(r.Context())
	d.sc = span.SpanContext()
	d.isRec = span.IsRecordingEvents()
	s.bySpan[d.sc.SpanID] = d
	h.Check("C14", r.Body == d.req.Body && r.Method == d.req.Method && r.URL == d.req.URL && r.Host == d.req.Host && ohSameHeader(r.Header, d.req.Header) && r.ContentLength == d.req.ContentLength, "request-changed", "the handler got another request than the server received: %v %v", r, d.req)
	if !d.entered || !s.judgeHop(d) {
		return
	}
	if d.id%4 == 2 {
		s.started("C14", ochttp.ServerRequestCount.Name(), func() (n int) {
			for _, d := range s.deliveries {
				if d.entered {
					n++
				}
			}
			return
		}())
	}
	mask := int(h.K("ifaces"))
	h.Check("C14", ifaces(w) == mask, "interfaces", "the handler's ResponseWriter implements %05b, the server's %05b", ifaces(w), mask)
	defer func() { d.hv.end("handler done") }()
	b := bitr{uint64(d.a.hands)}
	route := b.n(2)
	if route == 1 {
		route := s.route("wrap", d.id%2)
		d.routes = append(d.routes, "", route)
		ochttp.WithRouteTag(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.script(d, w, r, b)
		}), route).ServeHTTP(w, r)
		d.routes = append(d.routes[2:], route)
		return
	}
	s.script(d, w, r, b)
}

func (s *ohSim) route(kind string, n int) string {
	if s.h.K("odd") != 0 && n == 1 {
		return kind + "/caf\u00e9" // no tag can hold it
	}
	return sf("%s%d", kind, n)
}

func (s *ohSim) script(d *ohDelivery, w http.ResponseWriter, r *http.Request, b bitr) {
	h := s.h
	var wrapped string
	if len(d.routes) == 2 && d.routes[0] == "" {
		wrapped = d.routes[1]
	}
	for i := 0; i < 8; i++ {
		act := b.n(4)
		arg := b.n(3)
		simrt.Y()
		if d.conn.hij {
			switch act { // the writer is not to be used after Hijack
			case haHeader, haInfo, haWrite, haWriteBig, haWrite0, haFlush, haCopy, haHijack:
				continue
			}
		}
		switch act {
		case haHeader:
			w.WriteHeader(s.statuses(arg * 2))
		case haInfo:
			w.WriteHeader(100 + arg%4)
		case haWrite, haWriteBig, haWrite0:
			n := arg + 1
			if act == haWriteBig {
				n = 100 * (arg + 1)
			} else if act == haWrite0 {
				n = 0
			}
			p := bytes.Repeat([]byte{byte('a' + i)}, n)
			before := len(d.conn.body)
			n, err := w.Write(p)
			wn := len(d.conn.body) - before
			h.Check("C14", n == wn, "write-result", "Write took %d bytes and said %d", wn, n)
			h.Check("C14", (err != nil) == (n < len(p) || d.conn.hij), "write-error", "Write of %d bytes took %d and returned %v", len(p), n, err)
			d.events = append(d.events, int64(n))
		case haFlush:
			if f, ok := w.(http.Flusher); ok {
				n := d.conn.flush
				f.Flush()
				h.Check("C14", d.conn.flush == n+1, "flush", "Flush was not passed on")
			}
		case haCopy:
			p := bytes.Repeat([]byte{byte('A' + i)}, 40*arg)
			before := len(d.conn.body)
			n, err := io.Copy(w, struct{ io.Reader }{bytes.NewReader(p)})
			wn := len(d.conn.body) - before
			h.Check("C14", n == int64(wn) && (err != nil) == (wn < len(p)), "copy-result", "copying %d bytes: %d taken, result %d %v", len(p), wn, n, err)
			if ifaces(w)&16 != 0 || len(p) > 0 {
				d.events = append(d.events, int64(wn))
			}
		case haSleep:
			simrt.Sleep(durClass(arg + 4))
		case haRoute:
			route := s.route("route", arg)
			ochttp.SetRoute(r.Context(), route)
			if wrapped == "" {
				d.routes = append(d.routes, route)
			}
		case haPanic:
			if arg < 3 {
				h.Fault("handler panics")
				var v any = sf("handler panic %d", d.id)
				if arg == 0 {
					v = http.ErrAbortHandler
				}
				d.panicked = v
				if wrapped != "" {
					d.routes = []string{wrapped}
				}
				panic(v)
			}
		case haHijack:
			if j, ok := w.(http.Hijacker); ok {
				j.Hijack()
				h.Check("C14", d.conn.hij, "hijack", "Hijack was not passed on")
			}
		case haCall, haForward:
			if d.a.depth < 2 && len(s.attempts) < 12 {
				s.nested(d, r, act == haForward, arg, i)
			}
		case haReadBody:
			if r.Body != nil {
				got, err := io.ReadAll(r.Body)
				h.Check("C14", err == nil && (len(got) == d.bodyLen || d.bodyRead && len(got) == 0), "request-body", "the handler read %d bytes of %d (error %v)", len(got), d.bodyLen, err)
				d.bodyRead = true
			}
		case haSetHeader:
			w.Header().Set("X-Test", "v")
			h.Check("C14", d.conn.hdr.Get("X-Test") == "v", "headers", "headers set by the handler did not reach the server")
		}
	}
}

func (s *ohSim) nested(d *ohDelivery, r *http.Request, forward bool, arg, i int) {
	mode := ohFromServer
	if arg%4 == 3 {
		mode = ohCanned
	}
	n := ohNet{mode: mode, d1: arg, chunk: 2, status: arg, damage: 0}
	if arg == 7 {
		n.mode = ohRefused
	}
	q := ohReq{method: 0, host: arg % 3}
	var hdr http.Header
	if forward {
		hdr = r.Header
	}
	hands := bitw{}
	hands.add(2, 0).add(4, haWrite).add(3, arg).add(4, []int{haNone, haForward, haCall, haNone}[i%4]).add(3, arg)
	s.request(r.Context(), q, n, int64(hands.v), 0, d.a.depth+1, hdr)
}

// serve handles one request as the server does, in a task of its own.
func (s *ohSim) serve(a *ohAttempt, req *http.Request, hdr http.Header, body []byte, n ohNet) *ohDelivery {
	d := &ohDelivery{id: len(s.deliveries), a: a, path: a.path, bodyLen: len(body), health: a.health || hdr.Get("X-Health") != "", expectOK: true}
	s.deliveries = append(s.deliveries, d)
	sreq := &http.Request{Method: req.Method, URL: &url.URL{Path: req.URL.Path, RawQuery: req.URL.RawQuery}, Host: req.Host, Header: hdr.Clone(), ContentLength: int64(len(body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	sreq.Body = io.NopCloser(bytes.NewReader(body))
	if len(body) == 0 {
		sreq.Body = http.NoBody
		if d.id%5 == 4 { // a body that turns out to be empty
			sreq.Body = io.NopCloser(bytes.NewReader(nil))
		}
	}
	if req.ContentLength < 0 || req.ContentLength == 0 && len(body) > 0 {
		sreq.ContentLength = -1 // chunked
	}
	if sreq.ContentLength > 0 && s.h.K("huge") != 0 { // as announced, whatever comes
		sreq.ContentLength += s.h.K("huge")
	}
	if n.damage != 0 {
		s.damage(sreq.Header, n.damage, d)
	}
	if hasTrace := ohHasTrace(s.fmtID, sreq.Header); !hasTrace {
		d.expectOK = false
	}
	d.conn = &ohConn{sim: s, hdr: http.Header{}, limit: -1, notify: make(chan bool)}
	if n.slow && n.bodyErr {
		s.h.Fault("client goes away during the response")
		d.conn.limit = 20
	}
	ctx := context.WithValue(context.Background(), ohDeliveryKey, d)
	if a.id%3 == 2 {
		ctx, _ = tag.New(ctx, tag.Insert(tagCaller, "srv"))
	}
	d.baseTags = s.tagsOf(ctx)
	if s.h.K("srvspan") != 0 { // the server's own context holds a span
		ctx, _ = trace.StartSpan(ctx, "listener", trace.WithSampler(trace.NeverSample()))
	}
	d.req = sreq.WithContext(ctx)
	w := d.conn.writer(int(s.h.K("ifaces")))
	d.iv = begin("serve", d.id)
	func() {
		defer func() {
			if v := recover(); v != nil {
				s.h.Check("C14", d.panicked != nil && v == d.panicked, "panic-value", "the handler panicked with %v, the server saw %v", d.panicked, v)
				d.panicked = v
			} else if !simrt.Killing() {
				s.h.Check("C14", d.panicked == nil, "panic-lost", "the handler panicked with %v but the server saw nothing", d.panicked)
			}
		}()
		s.handler.ServeHTTP(w, d.req)
	}()
	d.end("served")
	return d
}

func ohHasTrace(f int64, h http.Header) bool {
	switch f {
	case 0:
		return h.Get("X-B3-Traceid") != ""
	case 1:
		return h.Get("Traceparent") != ""
	}
	return h.Get("X-Cloud-Trace-Context") != ""
}

// damage alters trace headers in transit, so that they are certainly no longer
// what the format allows.
func (s *ohSim) damage(h http.Header, kind int, d *ohDelivery) {
	if !ohHasTrace(s.fmtID, h) {
		return
	}
	s.h.Fault("trace headers damaged or lost in transit")
	d.expectOK = false
	key := []string{"X-B3-Traceid", "Traceparent", "X-Cloud-Trace-Context"}[s.fmtID]
	v := h.Get(key)
	switch kind {
	case 1:
		h.Del(key)
	case 2:
		h.Set(key, "zz"+v[2:])
	case 3:
		h.Set(key, "")
	case 4:
		h.Set(key, v+v+v+v+v+v)
	case 5:
		h.Set(key, v[:len(v)/2]+"\x00\xff"+v[len(v)/2:])
	case 6:
		h.Set(key, strings.Repeat("f", 300))
	case 7: // another field
		switch s.fmtID {
		case 0:
			h.Del("X-B3-Spanid")
		case 1:
			h.Set(key, v[:36]+"0000000000000000"+v[52:])
		default:
			h.Set(key, v[:33]+"x"+v[33:])
		}
	case 8:
		switch s.fmtID {
		case 0:
			h.Set("X-B3-Spanid", h.Get("X-B3-Spanid")+"00")
		case 1:
			h.Set(key, "ff"+v[2:])
		default:
			h.Set(key, v[:32])
		}
	case 9:
		switch s.fmtID {
		case 0:
			h.Set(key, strings.Repeat("0", 32))
		case 1:
			h.Set(key, v[:3]+strings.Repeat("0", 32)+v[35:])
		default:
			h.Set(key, strings.Repeat("0", 32)+v[32:])
		}
	case 10:
		switch s.fmtID {
		case 0:
			h.Set(key, v[:31])
		case 1:
			h.Set(key, v[:30]+v[31:])
		default:
			h.Set(key, v[:30]+v[32:])
		}
	case 11:
		switch s.fmtID {
		case 0:
			h.Set("X-B3-Spanid", strings.Repeat("0", 16))
		case 1:
			h.Set(key, v[:52])
		default:
			h.Set(key, v[:33]+"99999999999999999999999;o=1")
		}
	case 12, 13: // only the trace-state
		d.expectOK = true
		if s.fmtID == 1 && h.Get("Tracestate") != "" {
			d.noState = true
			if kind == 12 {
				h.Set("Tracestate", h.Get("Tracestate")+",,=")
			} else {
				h.Del("Tracestate")
			}
		}
	case 14: // another one is added
		d.expectOK = s.fmtID != 1
		if s.fmtID == 1 {
			h.Add(key, v[:40]+"0123456789ab-01")
		}
	default: // nothing
		d.expectOK = true
	}
}

// started checks that requests count from when they start.
func (s *ohSim) started(prop, measure string, n int) {
	rows, _ := view.RetrieveData("v:" + measure)
	c := int64(0)
	for _, r := range rows {
		c += r.Data.(*view.DistributionData).Count
	}
	s.h.Check(prop, c >= int64(n), "not-counted-yet", "%d requests have started, %s counts %d", n, measure, c)
}

// judgeHop checks what trace the handler's span continues.
func (s *ohSim) judgeHop(d *ohDelivery) bool {
	h := s.h
	if d.health {
		if h.K("srvspan") == 0 {
			h.Check("C14", d.sc == (trace.SpanContext{}), "health-traced", "a health check got a span")
		}
		return true
	}
	if !h.Check("C14", d.sc.SpanID != trace.SpanID{} && d.sc.TraceID != trace.TraceID{}, "no-server-span", "no span in the handler's context") {
		return false
	}
	a := d.a
	public := h.K("public") != 0
	var par trace.SpanContext
	if d.expectOK && !public {
		par = a.sc
	}
	if want := s.wantSampled("ssampler", d.req, par); s.fmtID == 1 || d.a.net.damage == 0 {
		h.Check("C14", d.sc.IsSampled() == want, "sampled", "server span %d is sampled: %v; its parent is: %v, its sampler is %d", d.id, d.sc.IsSampled(), par.IsSampled(), s.samplerOf("ssampler", d.req))
	}
	if !d.expectOK || public {
		own := true
		for _, o := range s.attempts {
			if o.arrived && !o.health && o.sc.TraceID == d.sc.TraceID && o.depth <= a.depth {
				own = false
			}
		}
		if h.K("srvspan") == 0 {
			h.Check("C15", own, "trace-not-new", "request %d with damaged headers or to a public endpoint got a trace of another", d.id)
			h.Check("C15", d.sc.Tracestate == nil, "stray-tracestate", "request %d starts a trace but has trace-state %v", d.id, d.sc.Tracestate)
		}
		return true
	}
	h.Check("C15", d.sc.TraceID == a.sc.TraceID, "trace-broken", "server span %d is of trace %x, its client span of trace %x", d.id, d.sc.TraceID[:], a.sc.TraceID[:])
	h.Check("C15", d.sc.SpanID != a.sc.SpanID, "span-id", "server and client span have one identifier")
	if s.samplerOf("ssampler", d.req) == 0 {
		h.Check("C15", d.sc.IsSampled() == a.sc.IsSampled(), "sampling-broken", "server span %d is sampled: %v, its client span: %v", d.id, d.sc.IsSampled(), a.sc.IsSampled())
	}
	want := a.sc.Tracestate
	if s.fmtID != 1 || d.noState || len(ohStateHeader(want)) > 512 {
		want = nil
	}
	h.Check("C15", ohState(d.sc.Tracestate) == ohState(want), "tracestate-broken", "server span %d has trace-state %s, its client span %s", d.id, ohState(d.sc.Tracestate), ohState(want))
	return true
}

// samplerOf is the kind of sampler configured for a request: 0 none, 1 always,
// 2 never.
func (s *ohSim) samplerOf(knob string, r *http.Request) int64 {
	k := s.h.K(knob)
	if s.h.K("getopts") == 2 {
		k += int64(len(r.Method)) + int64(r.URL.Path[len(r.URL.Path)-1])
	}
	return k % 3
}

// sampled tells whether the span of a request is.
func (s *ohSim) wantSampled(knob string, r *http.Request, parent trace.SpanContext) bool {
	switch s.samplerOf(knob, r) {
	case 1:
		return true
	case 2:
		return false
	}
	return parent.IsSampled()
}

func ohStateHeader(t *tracestate.Tracestate) string {
	if t == nil {
		return ""
	}
	var es []string
	for _, e := range t.Entries() {
		es = append(es, e.Key+"="+e.Value)
	}
	return strings.Join(es, ",")
}

func ohState(t *tracestate.Tracestate) string {
	if t == nil || len(t.Entries()) == 0 {
		return ""
	}
	return sp(t.Entries())
}

func ohSameHeader(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w := b[k]
		if len(v) != len(w) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- client side

// ohNetwork is the transport's base.
type ohNetwork struct{ s *ohSim }

var errOhNet = errors.New("connection refused")

func (t ohNetwork) RoundTrip(req *http.Request) (*http.Response, error) {
	s, h := t.s, t.s.h
	a, _ := req.Context().Value(ohAttemptKey).(*ohAttempt)
	if a == nil {
		h.Bad("C13", "context-lost", "the request sent does not have the caller's context")
		return nil, errOhNet
	}
	a.base = begin("round trip", a.id)
	defer func() { a.base.end("round trip done") }()
	h.Check("C13", !a.arrived, "sent-twice", "request %d was sent twice", a.id)
	a.arrived = true
	o := a.req
	h.Check("C13", req.Method == o.Method && req.URL == o.URL && req.Host == o.Host && req.Body == o.Body && req.ContentLength == o.ContentLength && req.Context().Value(ohValueKey) == o.Context().Value(ohValueKey), "request-altered", "the request sent differs from the one made")
	span := trace.FromContext(req.Context())
	if a.health {
		h.Check("C13", req == o, "health-altered", "a health check was not passed on as it is")
	} else {
		a.sc = span.SpanContext()
		a.sampled = a.sc.IsSampled()
		if h.Check("C13", a.sc.SpanID != (trace.SpanID{}) && a.sc != a.parent, "no-client-span", "no span for request %d", a.id) {
			s.bySpan[a.sc.SpanID] = a
		}
		want := a.hdr.Clone()
		if want == nil {
			want = http.Header{}
		}
		switch s.fmtID {
		case 0:
			want.Set("X-B3-TraceId", hex.EncodeToString(a.sc.TraceID[:]))
			want.Set("X-B3-SpanId", hex.EncodeToString(a.sc.SpanID[:]))
			want.Set("X-B3-Sampled", sf("%d", a.sc.TraceOptions&1))
		case 1:
			want.Set("traceparent", sf("00-%x-%x-%02x", a.sc.TraceID[:], a.sc.SpanID[:], byte(a.sc.TraceOptions)))
			want.Del("tracestate")
			if a.sc.Tracestate != nil {
				if v := ohStateHeader(a.sc.Tracestate); v != "" && len(v) <= 512 {
					want.Set("tracestate", v)
				}
			}
		default:
			want.Set("X-Cloud-Trace-Context", sf("%x/%d;o=%d", a.sc.TraceID[:], binary.BigEndian.Uint64(a.sc.SpanID[:]), a.sc.TraceOptions))
		}
		h.Check("C15", ohSameHeader(req.Header, want), "headers-sent", "request %d was sent with headers %v; want %v", a.id, req.Header, want)
		h.Check("C13", a.sc.IsSampled() == s.wantSampled("csampler", req, a.parent), "sampled", "client span %d is sampled: %v; its parent is: %v, its sampler is %d", a.id, a.sc.IsSampled(), a.parent.IsSampled(), s.samplerOf("csampler", req))
		h.Check("C15", a.sc.Tracestate == a.parent.Tracestate, "client-tracestate", "client span %d does not have its parent's trace-state", a.id)
		if a.parent != (trace.SpanContext{}) {
			h.Check("C15", a.sc.TraceID == a.parent.TraceID, "client-trace", "client span %d is not of its parent's trace", a.id)
		}
	}
	if a.id%4 == 1 {
		s.started("C13", ochttp.ClientRequestCount.Name(), func() (n int) {
			for _, a := range s.attempts {
				if a.arrived && !a.health {
					n++
				}
			}
			return
		}())
	}
	ct := httptrace.ContextClientTrace(req.Context())
	if !a.net.hooks {
		ct = nil
	}
	if ct != nil {
		s.connect(a, ct)
	}
	n := a.net
	simrt.Sleep(durClass(n.d1))
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	deliver := func() *ohDelivery { return s.serve(a, req, req.Header, body, n) }
	var resp *http.Response
	var err error
	switch n.mode {
	case ohRefused:
		h.Fault("request fails")
		err = []error{errOhNet, context.Canceled, errOhNet, context.DeadlineExceeded, io.EOF}[a.id%5]
	case ohErrAndReply:
		err = errOhNet
		resp = s.canned(a, req)
		resp.Body = nil
	case ohReplyLost:
		h.Fault("response lost")
		deliver()
		simrt.Sleep(durClass(n.d2))
		err = errOhNet
	case ohLate:
		h.Fault("request delivered after it failed")
		hdr := req.Header.Clone()
		s.tasks = append(s.tasks, simrt.Spawn(sf("late%d", a.id), func() {
			simrt.Sleep(durClass(n.d2))
			s.serve(a, req, hdr, body, n)
		}))
		err = errOhNet
	case ohCanned, ohNilBody:
		resp = s.canned(a, req)
		if n.mode == ohNilBody {
			resp.Body, resp.ContentLength = nil, 0
		}
	default:
		var d *ohDelivery
		if n.mode == ohDuplicate {
			h.Fault("request duplicated")
			hdr := req.Header.Clone()
			s.tasks = append(s.tasks, simrt.Spawn(sf("dup%d", a.id), func() {
				simrt.Sleep(durClass(n.d2))
				s.serve(a, req, hdr, body, n)
			}))
		}
		d = deliver()
		if d.panicked != nil {
			err = errors.New("connection reset")
		} else {
			resp = s.response(a, req, d)
		}
	}
	if ct != nil && resp != nil {
		s.connected(a, ct)
	}
	a.resp, a.err = resp, err
	return resp, err
}

func (s *ohSim) canned(a *ohAttempt, req *http.Request) *http.Response {
	r := &http.Response{StatusCode: s.statuses(a.net.status), Header: http.Header{"X-Canned": {"1"}}, Request: req}
	r.Status = sf("%d x", r.StatusCode)
	if a.net.status == 3 { // a redirect
		r.Header.Set("Location", "/r"+a.path[1:])
	}
	s.setBody(a, r, bytes.Repeat([]byte{'x'}, a.net.d2*37))
	return r
}

func (s *ohSim) response(a *ohAttempt, req *http.Request, d *ohDelivery) *http.Response {
	r := &http.Response{StatusCode: d.conn.code, Header: d.conn.hdr.Clone(), Request: req}
	if r.StatusCode == 0 {
		r.StatusCode = 200
	}
	r.Status = sf("%d y", r.StatusCode)
	if d.conn.hij {
		r.StatusCode = 101
	}
	s.setBody(a, r, d.conn.body)
	return r
}

func (s *ohSim) setBody(a *ohAttempt, r *http.Response, data []byte) {
	b := &ohBody{s: s, a: a, data: data, net: a.net}
	if a.req.Method == "HEAD" {
		b.data = nil
	}
	a.origBody = b
	r.ContentLength = -1
	if a.net.clen {
		r.ContentLength = int64(len(data))
		if r.ContentLength > 0 {
			r.ContentLength += s.h.K("huge")
		}
	}
	if a.net.writer || r.StatusCode == 101 {
		r.Body = struct {
			*ohBody
			ohBodyWriter
		}{b, ohBodyWriter{b}}
	} else {
		r.Body = b
	}
}

// ohBody is a response's body as the network delivers it.
type ohBody struct {
	s      *ohSim
	a      *ohAttempt
	data   []byte
	net    ohNet
	closed bool
	closes int
	failed bool
	wrote  int
	got    int // bytes handed out
	last   map[int]*ohRead
}

type ohBodyWriter struct{ b *ohBody }

func (w ohBodyWriter) Write(p []byte) (int, error) { w.b.wrote += len(p); return len(p), nil }

var errOhBody = errors.New("connection reset by peer")
var errOhClosed = errors.New("read on closed body")

func (b *ohBody) Read(p []byte) (n int, err error) {
	if b.last == nil {
		b.last = map[int]*ohRead{}
	}
	defer func() {
		r := b.last[simrt.CurTask()]
		if r == nil {
			return
		}
		r.n, r.err = n, err
		r.baseSeq, r.baseAt = simrt.Log("body read", n), mnow()
	}()
	if b.net.slow {
		simrt.Sleep(durClass(b.net.d2 / 2))
	} else {
		simrt.Y()
	}
	if b.closed {
		return 0, errOhClosed
	}
	n = min(len(p), []int{1, 7, 100, 4096}[b.net.chunk])
	n = min(n, len(b.data))
	copy(p, b.data[:n])
	if b.net.chunk < 2 && len(b.data) > 200 {
		b.data = b.data[:200]
	}
	b.data = b.data[n:]
	b.got += n
	if len(b.data) == 0 {
		if b.net.bodyErr {
			if !b.failed {
				b.s.h.Fault("response body fails")
			}
			b.failed = true
			return n, []error{errOhBody, io.ErrUnexpectedEOF, errOhBody, context.Canceled, net.ErrClosed}[b.a.id%5]
		}
		if b.net.eofData || n == 0 {
			return n, io.EOF
		}
	}
	return n, nil
}

func (b *ohBody) Close() error {
	simrt.Y()
	b.closes++
	b.closed = true
	if b.net.bodyErr && b.net.eofData {
		return errOhClosed
	}
	return nil
}

// ohOuter wraps the instrumented transport to see what the caller gets.
type ohOuter struct {
	s     *ohSim
	net   ohNet
	hands int64
	depth int
	parSC trace.SpanContext
	last  *ohAttempt
}

func (s *ohSim) tagsOf(ctx context.Context) map[string]string {
	m := map[string]string{}
	tm := tag.FromContext(ctx)
	for _, k := range s.keys {
		if v, ok := tm.Value(k); ok {
			m[k.Name()] = v
		}
	}
	return m
}

func (t *ohOuter) RoundTrip(req *http.Request) (*http.Response, error) {
	s, h := t.s, t.s.h
	a := &ohAttempt{id: len(s.attempts), path: req.URL.Path, net: t.net, hands: t.hands, depth: t.depth, parent: t.parSC, callerTask: simrt.CurTask()}
	s.attempts = append(s.attempts, a)
	t.last = a
	a.health = a.path == "/healthz" || a.path == "/_ah/health"
	actx := context.WithValue(req.Context(), ohAttemptKey, a)
	if a.net.d2&1 != 0 {
		actx = httptrace.WithClientTrace(actx, a.ownTrace())
	}
	a.req = req.WithContext(actx)
	a.hdr = req.Header.Clone()
	a.tags = s.tagsOf(req.Context())
	ctx := a.req.Context()
	a.iv = begin("request", a.id)
	resp, err := s.transport.RoundTrip(a.req)
	a.iv.end("response")
	h.Check("C13", a.arrived, "not-sent", "request %d was never sent", a.id)
	h.Check("C13", a.req.Context() == ctx && ohSameHeader(a.req.Header, a.hdr), "caller-request-changed", "the caller's request was changed: headers %v, were %v", a.req.Header, a.hdr)
	h.Check("C13", err == a.err && resp == a.resp, "result-changed", "the caller got %p %v instead of %p %v", resp, err, a.resp, a.err)
	if err != nil {
		iv := iv{inv: a.base.ret, ret: a.iv.ret, t0: a.base.t1, t1: a.iv.t1}
		a.fins = append(a.fins, &iv)
		return resp, err
	}
	if resp == nil {
		return resp, err
	}
	if a.net.mode == ohNilBody {
		h.Check("C13", resp.Body == nil || a.health, "body-made-up", "the response had no body, but the caller got one")
		if a.health {
			return resp, err
		}
		if resp.Body == nil {
			iv := iv{inv: a.base.ret, ret: a.iv.ret, t0: a.base.t1, t1: a.iv.t1}
			a.fins = append(a.fins, &iv)
		}
		return resp, err
	}
	_, w0 := any(a.origBody).(io.Writer)
	w0 = w0 || a.net.writer || a.resp.StatusCode == 101
	wr, w1 := resp.Body.(io.Writer)
	h.Check("C13", w0 == w1, "body-writer", "the body can be written to: %v; the original: %v", w1, w0)
	if w1 {
		n := a.origBody.wrote
		wr.Write([]byte("abc"))
		h.Check("C13", a.origBody.wrote == n+3, "body-write", "what was written to the body did not get through")
	}
	resp.Body = &ohOuterBody{a: a, s: s, rc: resp.Body}
	return resp, err
}

type ohOuterBody struct {
	a  *ohAttempt
	s  *ohSim
	rc io.ReadCloser
}

func (b *ohOuterBody) Read(p []byte) (int, error) {
	a := b.a
	r := &ohRead{baseSeq: -1}
	r.iv = begin("read", a.id)
	if a.origBody.last == nil {
		a.origBody.last = map[int]*ohRead{}
	}
	me := simrt.CurTask()
	a.origBody.last[me] = r
	a.reads = append(a.reads, r)
	n, err := b.rc.Read(p)
	r.iv.end("read done")
	delete(a.origBody.last, me)
	b.s.h.Check("C13", r.baseSeq >= 0 && n == r.n && err == r.err, "read-changed", "a read of the body returned %d %v instead of %d %v", n, err, r.n, r.err)
	if err == io.EOF {
		f := r.iv
		f.t0 = r.baseAt
		a.fins = append(a.fins, &f)
	} else if err != nil {
		a.readErrs = append(a.readErrs, err.Error())
	}
	return n, err
}

func (b *ohOuterBody) Close() error {
	a := b.a
	f := begin("close", a.id)
	a.fins = append(a.fins, &f)
	n := a.origBody.closes
	err := b.rc.Close()
	f.end("closed")
	var want error
	if a.net.bodyErr && a.net.eofData {
		want = errOhClosed
	}
	b.s.h.Check("C13", a.origBody.closes > n && err == want, "close-changed", "closing the body returned %v instead of %v", err, want)
	return err
}

var tagCaller = tag.MustNewKey("caller")

// request makes one request and reads the response as its D bits say.
func (s *ohSim) request(ctx context.Context, q ohReq, n ohNet, hands, rd int64, depth int, hdr http.Header) {
	method := []string{"GET", "POST", "HEAD", "PUT"}[q.method]
	host := []string{"a.test", "b.test:8080", "", "c"}[q.host]
	if host == "" {
		host = "d.test"
	}
	path := sf("/c%d", len(s.attempts))
	switch n := len(s.attempts); s.h.K("odd") {
	case 1: // no tag can hold it
		path += []string{"", "/" + strings.Repeat("long", 70), "/\u00e9\u0436", "/x%0ay%ff"}[n%4]
	case 2: // a tag can just hold it, or not
		path += []string{strings.Repeat("l", 255-len(path)), "/~%20!", strings.Repeat("l", 256-len(path)), "/%7f"}[n%4]
	}
	switch q.health {
	case 1:
		path = "/healthz"
	case 2:
		path = "/_ah/health"
	}
	u := "http://" + host + path
	if q.query == 1 {
		u += "?q=1&r=%20"
	}
	var body io.Reader
	switch q.body {
	case 1:
		body = http.NoBody
	case 2:
		body = bytes.NewReader(make([]byte, q.size))
	case 3:
		body = struct{ io.Reader }{bytes.NewReader(make([]byte, q.size))}
	}
	if depth == 0 {
		ctx = context.WithValue(ctx, ohValueKey, path)
		var ms []tag.Mutator
		if q.tags&1 != 0 {
			ms = append(ms, tag.Insert(tagCaller, sf("t%d", q.size%3)))
		}
		if q.tags&2 != 0 {
			ms = append(ms, tag.Insert(ochttp.KeyClientMethod, "bogus"), tag.Insert(ochttp.StatusCode, "bogus"))
		}
		if ms != nil {
			ctx, _ = tag.New(ctx, ms...)
		}
		switch q.parent {
		case 1:
			ctx, _ = trace.StartSpan(ctx, "caller", trace.WithSampler(trace.AlwaysSample()))
		case 2:
			ctx, _ = trace.StartSpan(ctx, "caller", trace.WithSampler(trace.NeverSample()))
		case 3, 4, 5:
			sc := trace.SpanContext{TraceID: trace.TraceID{0xdd, byte(len(s.attempts))}, SpanID: trace.SpanID{1}, TraceOptions: trace.TraceOptions(q.parent - 2)}
			var es []tracestate.Entry
			for i := 0; i < q.tstate; i++ {
				es = append(es, tracestate.Entry{Key: sf("k%d", i), Value: sf("v %d", len(s.attempts))})
			}
			for i := int64(2); q.tstate == 2 && i < s.h.K("states"); i++ { // as many as there may be
				es = append(es, tracestate.Entry{Key: sf("m%d", i), Value: sf("%d", i)})
			}
			if k := s.h.K("statelen"); q.tstate == 3 && k != 0 { // around what fits a header
				tmp, _ := tracestate.New(nil, es...)
				n := 510 + int(k) - len(ohStateHeader(tmp)) - len(",p=")
				es = append(es, tracestate.Entry{Key: "p", Value: strings.Repeat("y", 250)}, tracestate.Entry{Key: "q", Value: strings.Repeat("z", n-250-len(",q="))})
			} else if q.tstate == 3 { // too long for a header
				es = append(es, tracestate.Entry{Key: "long", Value: strings.Repeat("x", 250)}, tracestate.Entry{Key: "long2", Value: strings.Repeat("x", 250)})
			}
			sc.Tracestate, _ = tracestate.New(nil, es...)
			ctx, _ = trace.StartSpanWithRemoteParent(ctx, "caller", sc)
		}
	}
	req, err := http.NewRequestWithContext(ctx, method, u, body)
	if err != nil {
		panic(err)
	}
	switch {
	case hdr == nil && q.size%4 == 0:
		req.Header = s.shared
	case hdr != nil && hdr.Get("X-Health") == "" && q.host == 1:
		req.Header = hdr
	default:
		for k, v := range hdr {
			req.Header[k] = append([]string(nil), v...)
		}
		if q.ua == 1 {
			req.Header.Set("User-Agent", "agent")
			if q.size%5 == 1 {
				req.Header.Add("User-Agent", "again")
			}
		}
		if q.health == 3 {
			req.Header.Set("X-Health", "1")
		} else {
			req.Header.Del("X-Health")
		}
	}
	t := &ohOuter{s: s, net: n, hands: hands, depth: depth, parSC: trace.FromContext(ctx).SpanContext()}
	do := t.RoundTrip
	if q.via == 1 {
		do = (&http.Client{Transport: t}).Do
	}
	for try := 0; try <= q.retry; try++ {
		if try > 0 {
			if req.Body != nil && req.GetBody != nil {
				req.Body, _ = req.GetBody()
			} else if req.Body != nil && req.Body != http.NoBody {
				break
			}
			t.net.mode = ohFromServer
			s.h.Fault("request retried")
		}
		resp, err := do(req)
		if err == nil && resp != nil && resp.Body != nil {
			s.consume(t.last, resp, rd)
		}
		if err == nil && try == 0 {
			break
		}
	}
}

func (s *ohSim) consume(a *ohAttempt, resp *http.Response, rd int64) {
	b := bitr{uint64(rd)}
	mode, buf, t1 := b.n(3), make([]byte, []int{1, 16, 300, 5000}[b.n(2)]), durClass(b.n(4))
	all := func() {
		for i := 0; ; i++ {
			_, err := resp.Body.Read(buf)
			if err != nil || i > 300 {
				return
			}
		}
	}
	simrt.Sleep(t1)
	switch mode {
	case 0:
		all()
		resp.Body.Close()
	case 1:
		resp.Body.Close()
	case 2:
		resp.Body.Read(buf)
		resp.Body.Close()
	case 3:
		all()
	case 4:
		all()
		resp.Body.Close()
		resp.Body.Close()
		resp.Body.Read(buf)
	case 5, 6:
		a.raced = true
		s.h.Fault("body closed while it is read")
		t := simrt.Spawn(sf("closer%d", a.id), func() {
			simrt.Sleep(t1)
			resp.Body.Close()
		})
		s.tasks = append(s.tasks, t)
		if mode == 5 {
			all()
		}
		resp.Body.Close()
	case 7: // the caller forgets
		resp.Body.Read(buf)
	}
}

type ohExporter struct{ s *ohSim }

func (e ohExporter) ExportSpan(sd *trace.SpanData) {
	s := e.s
	simrt.Log("export", nil)
	s.exported = append(s.exported, sd)
}

func (s *ohSim) run() {
	h := s.h
	s.base = newClockBase()
	s.bySpan = map[trace.SpanID]any{}
	s.fmtID = h.K("fmt")
	switch s.fmtID {
	case 0:
		s.format = &b3.HTTPFormat{}
	case 1:
		s.format = &tracecontext.HTTPFormat{}
	default:
		s.format = &sdprop.HTTPFormat{}
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(0)})
	trace.RegisterExporter(ohExporter{s})
	s.keys = []tag.Key{ochttp.KeyClientHost, ochttp.Host, ochttp.KeyClientPath, ochttp.Path, ochttp.KeyClientMethod, ochttp.Method, ochttp.StatusCode, ochttp.KeyClientStatus, ochttp.KeyServerRoute, tagCaller}
	ms := []stats.Measure{
		ochttp.ClientRequestCount, ochttp.ClientRequestBytes, ochttp.ClientResponseBytes, ochttp.ClientLatency, ochttp.ClientSentBytes, ochttp.ClientReceivedBytes, ochttp.ClientRoundtripLatency,
		ochttp.ServerRequestCount, ochttp.ServerRequestBytes, ochttp.ServerResponseBytes, ochttp.ServerLatency,
	}
	for _, m := range ms {
		s.views = append(s.views, &view.View{Name: "v:" + m.Name(), Measure: m, Aggregation: view.Distribution(), TagKeys: append([]tag.Key(nil), s.keys...)})
	}
	view.SetReportingPeriod(vpIdle) // nothing is exported
	if err := view.Register(s.views...); err != nil {
		h.Bad("C13", "register", "%v", err)
		return
	}
	s.shared = http.Header{"X-Fwd": {"v"}, "X-B3-Traceid": {strings.Repeat("7", 32)}, "X-B3-Spanid": {strings.Repeat("7", 16)}, "Traceparent": {"00-" + strings.Repeat("7", 32) + "-" + strings.Repeat("7", 16) + "-01"}}
	sampler := func(k int64) trace.Sampler {
		switch k {
		case 1:
			return trace.AlwaysSample()
		case 2:
			return trace.NeverSample()
		}
		return nil
	}
	s.transport = &ochttp.Transport{Base: ohNetwork{s}}
	s.handler = &ochttp.Handler{Handler: http.HandlerFunc(s.handle), IsPublicEndpoint: h.K("public") != 0}
	if h.K("defaults") != 0 { // without a transport and a handler of their own they use net/http's
		mux, rt := http.DefaultServeMux, http.DefaultTransport
		defer func() { http.DefaultServeMux, http.DefaultTransport = mux, rt }()
		http.DefaultServeMux, http.DefaultTransport = http.NewServeMux(), s.transport.Base
		http.DefaultServeMux.Handle("/", s.handler.Handler)
		s.transport.Base, s.handler.Handler = nil, nil
	}
	if s.fmtID != 0 || h.K("explicit") != 0 {
		s.transport.Propagation, s.handler.Propagation = s.format, s.format
	}
	if h.K("getopts") != 0 {
		s.transport.GetStartOptions = func(r *http.Request) trace.StartOptions {
			return trace.StartOptions{Sampler: sampler(s.samplerOf("csampler", r))}
		}
		s.handler.GetStartOptions = func(r *http.Request) trace.StartOptions {
			simrt.Y()
			return trace.StartOptions{Sampler: sampler(s.samplerOf("ssampler", r))}
		}
		s.transport.StartOptions.Sampler, s.handler.StartOptions.Sampler = trace.NeverSample(), trace.NeverSample()
	} else {
		s.transport.StartOptions.Sampler, s.handler.StartOptions.Sampler = sampler(h.K("csampler")), sampler(h.K("ssampler"))
	}
	if h.K("names") != 0 {
		f := func(r *http.Request) string { return r.Method + " " + r.URL.Path }
		s.transport.FormatSpanName, s.handler.FormatSpanName = f, f
	}
	if h.K("hooks") != 0 {
		s.transport.NewClientTrace = ochttp.NewSpanAnnotatingClientTrace
	}
	s.handler.IsHealthEndpoint = func(r *http.Request) bool { return r.Header.Get("X-Health") != "" }
	ok := h.RunClients("C13", h.HangLimit(), func(c int, op Op) {
		switch op.K {
		case "req":
			var q ohReq
			q.decode(op.A)
			var n ohNet
			n.decode(op.B)
			s.request(context.Background(), q, n, op.C, op.D, 0, nil)
		case "sleep":
			simrt.Sleep(op.A)
		case "jump":
			h.Fault("wall clock jump")
			simrt.JumpWall(op.A)
		}
	})
	if !ok {
		return
	}
	for i := 0; i < len(s.tasks); i++ {
		if !h.JoinAll("C14", h.HangLimit(), s.tasks[i:i+1]) {
			return
		}
	}
	s.judge()
}

// ---------------------------------------------------------------- oracle

// finish bounds the moment an attempt ended.
func (a *ohAttempt) finish() (lo, hi int64, lastInv, firstRet int, ended bool) {
	lo, hi, lastInv, firstRet = math.MaxInt64, math.MaxInt64, never, never
	for _, f := range a.fins {
		lo = min(lo, f.t0)
		hi = min(hi, f.t1)
		lastInv = min(lastInv, f.inv)
		firstRet = min(firstRet, f.ret)
	}
	// of several that end it at once any may be the one that does
	first := firstRet
	for _, f := range a.fins {
		if f.inv < first && f.ret != never {
			hi, firstRet = max(hi, f.t1), max(firstRet, f.ret)
		}
	}
	return lo, hi, lastInv, firstRet, len(a.fins) > 0
}

// received bounds the bytes counted when it ended.
func (a *ohAttempt) received() (lo, hi int64) {
	_, _, firstInv, firstRet, _ := a.finish()
	for _, r := range a.reads {
		if r.baseSeq < 0 {
			continue
		}
		own := r.err == io.EOF && r.inv == firstInv && len(a.fins) > 0
		sole := own && !a.raced
		if r.ret < firstInv || sole {
			lo += int64(r.n)
		}
		if r.baseSeq < firstRet {
			hi += int64(r.n)
		}
	}
	return
}

func (s *ohSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := s.h
	for _, sd := range s.exported {
		switch o := s.bySpan[sd.SpanID].(type) {
		case *ohAttempt:
			o.exports = append(o.exports, sd)
		case *ohDelivery:
			o.exports = append(o.exports, sd)
		default:
			if sd.Name != "caller" && sd.Name != "listener" {
				h.Bad("C13", "unknown-span", "a span was exported that belongs to no request: %s", dumpSpan(sd))
			}
		}
	}
	for _, a := range s.attempts {
		s.judgeOwnHooks(a)
		if a.arrived && !a.health {
			s.judgeClientSpan(a)
		}
	}
	for _, d := range s.deliveries {
		if !d.health {
			s.judgeServerSpan(d)
		} else if len(d.exports) > 0 {
			h.Bad("C14", "health-traced", "a health check was traced")
		}
	}
	view.Find("")
	for _, v := range s.views {
		s.judgeView(v)
	}
}

func ohAttrs(path, u, host, method, ua string, status int) map[string]any {
	m := map[string]any{"http.path": path, "http.url": u, "http.host": host, "http.method": method}
	if ua != "" {
		m["http.user_agent"] = ua
	}
	if status != 0 {
		m["http.status_code"] = int64(status)
	}
	return m
}

func (s *ohSim) spanName(method, path string) string {
	if s.h.K("names") != 0 {
		return method + " " + path
	}
	return path
}

func (s *ohSim) judgeClientSpan(a *ohAttempt) {
	h := s.h
	lo, hi, _, _, ended := a.finish()
	if !ended || !a.sampled {
		h.Check("C13", len(a.exports) == 0, "span-unended", "the span of request %d was exported (sampled %v, ended %v)", a.id, a.sampled, ended)
		return
	}
	if !h.Check("C13", len(a.exports) == 1, "span-count", "request %d gave %d client spans", a.id, len(a.exports)) {
		return
	}
	sd := a.exports[0]
	status := 0
	if a.err == nil {
		status = a.resp.StatusCode
	}
	want := ohAttrs(a.path, a.req.URL.String(), a.req.Host, a.req.Method, a.hdr.Get("User-Agent"), status)
	h.Check("C13", sp(sd.Attributes) == sp(want), "attributes", "client span %d has attributes %v; want %v", a.id, sd.Attributes, want)
	h.Check("C13", sd.SpanKind == trace.SpanKindClient && sd.Name == s.spanName(a.req.Method, a.path), "name-kind", "client span %d is %q of kind %d", a.id, sd.Name, sd.SpanKind)
	h.Check("C15", sd.ParentSpanID == a.parent.SpanID && !sd.HasRemoteParent, "client-parent", "client span %d has parent %x, the caller's span is %x", a.id, sd.ParentSpanID[:], a.parent.SpanID[:])
	if a.err != nil {
		h.Check("C13", sd.Status == (trace.Status{Code: 2, Message: a.err.Error()}), "status", "client span %d has status %v after error %v", a.id, sd.Status, a.err)
	} else {
		ok := sd.Status == ohStatus(status)
		if len(a.readErrs) > 0 {
			ok = ok && a.raced
			for _, e := range a.readErrs {
				if sd.Status == (trace.Status{Code: 2, Message: e}) {
					ok = true
				}
			}
			// an error after the end has no effect
			first := true
			_, _, firstInv, _, _ := a.finish()
			for _, r := range a.reads {
				if r.err != nil && r.err != io.EOF && r.inv < firstInv {
					first = false
				}
			}
			if first && sd.Status == ohStatus(status) {
				ok = true
			}
		}
		h.Check("C13", ok, "status", "client span %d has status %v after status %d and read errors %v", a.id, sd.Status, status, a.readErrs)
	}
	d := int64(sd.EndTime.Sub(sd.StartTime))
	at := s.base.mono(sd.StartTime)
	h.Check("C11", at >= a.t0 && at <= a.base.t0 && at+d >= lo && at+d <= hi, "client-span-times", "client span %d runs from %d to %d; the request from [%d,%d] to [%d,%d]", a.id, at, at+d, a.t0, a.base.t0, lo, hi)
	s.judgeHooks(a, sd)
}

func (s *ohSim) judgeServerSpan(d *ohDelivery) {
	h := s.h
	if !h.Check("C14", d.entered, "not-handled", "a request never reached the handler") {
		return
	}
	if !d.sc.IsSampled() {
		h.Check("C14", len(d.exports) == 0, "unsampled-exported", "unsampled server span %d was exported", d.id)
		return
	}
	if !h.Check("C14", len(d.exports) == 1, "span-count", "request %d gave %d server spans", d.id, len(d.exports)) {
		return
	}
	sd := d.exports[0]
	status := d.status()
	want := ohAttrs(d.path, d.req.URL.String(), d.req.Host, d.req.Method, d.req.Header.Get("User-Agent"), status)
	h.Check("C14", sp(sd.Attributes) == sp(want), "attributes", "server span %d has attributes %v; want %v", d.id, sd.Attributes, want)
	h.Check("C14", sd.Status == ohStatus(status), "status", "server span %d has status %v after %d was sent", d.id, sd.Status, status)
	h.Check("C14", sd.SpanKind == trace.SpanKindServer && sd.Name == s.spanName(d.req.Method, d.path), "name-kind", "server span %d is %q of kind %d", d.id, sd.Name, sd.SpanKind)
	at := s.base.mono(sd.StartTime)
	dur := int64(sd.EndTime.Sub(sd.StartTime))
	h.Check("C11", at >= d.t0 && at <= d.hv.t0 && at+dur >= d.hv.t1 && at+dur <= d.t1, "server-span-times", "server span %d runs from %d to %d; the request from [%d,%d] to [%d,%d]", d.id, at, at+dur, d.t0, d.hv.t0, d.hv.t1, d.t1)
	var ev []int64
	if d.req.Body != http.NoBody && d.req.ContentLength > 0 {
		ev = append(ev, -d.req.ContentLength)
	}
	ev = append(ev, d.events...)
	var got []int64
	for _, m := range sd.MessageEvents {
		if m.EventType == trace.MessageEventTypeRecv {
			got = append(got, -m.UncompressedByteSize)
		} else {
			got = append(got, m.UncompressedByteSize)
		}
	}
	h.Check("C14", sp(got) == sp(ev), "message-events", "server span %d has messages %v (received negative); the handler's were %v", d.id, got, ev)
	public := h.K("public") != 0
	if d.expectOK && !public {
		h.Check("C15", sd.ParentSpanID == d.a.sc.SpanID && sd.HasRemoteParent, "server-parent", "server span %d has parent %x, its client span is %x", d.id, sd.ParentSpanID[:], d.a.sc.SpanID[:])
		h.Check("C15", len(sd.Links) == 0, "links", "server span %d has links", d.id)
	} else {
		if h.K("srvspan") == 0 {
			h.Check("C15", sd.ParentSpanID == trace.SpanID{} && !sd.HasRemoteParent, "server-root", "server span %d has parent %x", d.id, sd.ParentSpanID[:])
		}
		if d.expectOK {
			ok := len(sd.Links) == 1 && sd.Links[0].TraceID == d.a.sc.TraceID && sd.Links[0].SpanID == d.a.sc.SpanID && sd.Links[0].Type == trace.LinkTypeParent
			h.Check("C15", ok, "public-link", "server span %d of a public endpoint has links %v; its client span is %x", d.id, sd.Links, d.a.sc.SpanID[:])
		} else {
			h.Check("C15", len(sd.Links) == 0, "links", "server span %d has links", d.id)
		}
	}
}

func (d *ohDelivery) status() int {
	if d.conn.code == 0 {
		return 200
	}
	return d.conn.code
}

// judgeView compares a view's rows with what happened.
func (s *ohSim) judgeView(v *view.View) {
	h := s.h
	rows, err := view.RetrieveData(v.Name)
	if err != nil {
		h.Bad("C13", "retrieve", "%v", err)
		return
	}
	name := v.Measure.Name()
	server := strings.Contains(name, "/server/")
	prop := "C13"
	if server {
		prop = "C14"
	}
	want := newRecords()
	add := func(tags map[string]string, lo, hi float64) { want.add(v, tags, lo, hi, nil) }
	merged := func(ms ...map[string]string) map[string]string {
		o := map[string]string{}
		for _, m := range ms {
			for k, v := range m {
				o[k] = v
			}
		}
		return o
	}
	if server {
		for _, d := range s.deliveries {
			if !d.entered {
				continue
			}
			tags := merged(d.baseTags, map[string]string{"http.host": d.req.Host, "http.method": d.req.Method})
			setTag(tags, "http.path", d.path)
			if name == ochttp.ServerRequestCount.Name() {
				add(tags, 1, 1)
				continue
			}
			tags = merged(tags, map[string]string{"http.status": sf("%d", d.status())})
			if len(d.routes) > 0 {
				setTag(tags, "http_server_route", d.routes[len(d.routes)-1])
			}
			switch name {
			case ochttp.ServerRequestBytes.Name():
				if d.req.Body != http.NoBody {
					n := float64(max(0, d.req.ContentLength))
					add(tags, n, n)
				}
			case ochttp.ServerResponseBytes.Name():
				n := float64(len(d.conn.body))
				add(tags, n, n)
			case ochttp.ServerLatency.Name():
				add(tags, float64(d.hv.t1-d.hv.t0)/1e6, float64(d.t1-d.t0)/1e6)
			}
		}
	} else {
		for _, a := range s.attempts {
			if !a.arrived || a.health {
				continue
			}
			host, m := a.req.Host, a.req.Method
			tags := merged(a.tags, map[string]string{"http_client_host": host, "http.host": host, "http_client_method": m, "http.method": m})
			setTag(tags, "http_client_path", a.path)
			setTag(tags, "http.path", a.path)
			if name == ochttp.ClientRequestCount.Name() {
				add(tags, 1, 1)
				continue
			}
			lo, hi, _, _, ended := a.finish()
			if !ended {
				continue
			}
			st := "error"
			if a.err == nil {
				st = sf("%d", a.resp.StatusCode)
			}
			tags["http.status"], tags["http_client_status"] = st, st
			req := float64(max(0, a.req.ContentLength))
			rlo, rhi := a.received()
			switch name {
			case ochttp.ClientRequestBytes.Name():
				if a.req.Body != nil {
					add(tags, req, req)
				}
			case ochttp.ClientSentBytes.Name():
				add(tags, req, req)
			case ochttp.ClientResponseBytes.Name():
				add(tags, float64(rlo), float64(rhi))
			case ochttp.ClientReceivedBytes.Name():
				if a.err == nil && m != "HEAD" && a.resp.ContentLength > 0 && rlo == 0 {
					if rhi == 0 { // nothing was read: what was announced counts
						rlo, rhi = a.resp.ContentLength, a.resp.ContentLength
					} else {
						rhi = max(rhi, a.resp.ContentLength)
					}
				}
				add(tags, float64(rlo), float64(rhi))
			default:
				add(tags, float64(lo-a.base.t0)/1e6, float64(hi-a.t0)/1e6)
			}
		}
	}
	want.judge(h, prop, v, rows)
}

// ---------------------------------------------------------------- plans

func genHTTPPlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	k := p.Knobs
	k["fmt"] = r.I64(0, 2)
	k["ifaces"] = r.I64(0, 31)
	if r.Bool(0.3) {
		k["ifaces"] = 8 | 16 | 1
	}
	for _, b := range []string{"names", "hooks", "explicit"} {
		k[b] = r.I64(0, 1)
	}
	if r.Bool(0.12) {
		k["odd"] = r.I64(1, 2)
	}
	k["getopts"] = r.I64(0, 2)
	if r.Bool(0.2) {
		k["public"] = 1
	}
	if r.Bool(0.1) {
		k["srvspan"] = 1
	}
	k["csampler"] = int64(r.PickW(3, 4, 1))
	k["ssampler"] = int64(r.PickW(5, 2, 1))
	if r.Bool(0.15) {
		k["defaults"] = 1
	}
	if r.Bool(0.3) {
		k["states"], k["statelen"] = r.I64(3, 32), r.I64(0, 3)
	}
	if r.Bool(0.15) {
		k["rare"] = 1
	}
	if r.Bool(0.1) {
		k["huge"] = 1 << uint(r.Range(20, 50))
	}
	jumps := r.Bool(0.3)
	nc := r.Range(1, 3)
	per := r.Range(1, 3)
	if deep {
		per = r.Range(1, 6)
	}
	focus := r.Intn(3) // 0 all, 1 client and bodies, 2 handlers
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			q := ohReq{method: r.PickW(4, 4, 1, 1), body: r.PickW(3, 1, 4, 1), size: r.Range(0, 1023), host: r.Range(0, 3), tags: r.Intn(4), parent: r.Intn(6), tstate: r.Intn(4), ua: r.Intn(2), query: r.Intn(2)}
			if r.Bool(0.25) {
				q.via = 1
			}
			if r.Bool(0.12) {
				q.health = r.Range(1, 3)
			}
			if r.Bool(0.3) {
				q.retry = 1
			}
			if q.method == 0 || q.method == 2 {
				if r.Bool(0.8) {
					q.body = 0
				}
			}
			n := ohNet{mode: r.PickW(10, 3, 2, 2, 2, 2, 1, 1), d1: r.PickW(2, 1, 1, 1, 1, 1, 1), d2: r.Range(0, 11), chunk: r.Intn(4), eofData: r.Bool(0.4), bodyErr: r.Bool(0.2), clen: r.Bool(0.6), slow: r.Bool(0.4), writer: r.Bool(0.1), status: r.Intn(16), hooks: r.Bool(0.5)}
			if focus == 1 {
				n.mode = r.PickW(2, 10, 2, 0, 0, 0, 1, 1)
			}
			if focus == 2 {
				n.mode = r.PickW(10, 0, 0, 1, 3, 2, 0, 0)
			}
			if r.Bool(0.3) {
				n.damage = r.Range(1, 15)
			}
			if q.via == 1 { // http.Client does not accept these
				if n.mode == ohErrAndReply {
					n.mode = ohCanned
				}
				q.retry = 0
			}
			var b bitw
			b.add(2, r.PickW(3, 1))
			na := r.Range(0, 6)
			for j := 0; j < na; j++ {
				act := r.PickW(1, 4, 5, 2, 2, 3, 3, 2, 1, 1, 2, 2, 2, 1, 1, 1)
				b.add(4, act).add(3, r.Intn(8))
			}
			rd := bitw{}
			rd.add(3, r.PickW(5, 2, 2, 2, 1, 3, 1, 1)).add(2, r.Intn(4)).add(4, r.PickW(4, 1, 1, 1, 1, 1, 1, 1))
			ops = append(ops, Op{K: "req", A: q.encode(), B: n.encode(), C: int64(b.v), D: int64(rd.v)})
			if jumps && r.Bool(0.5) {
				d := r.Dur(time.Millisecond, 1000*time.Hour)
				if r.Bool(0.5) {
					d = -d
				}
				ops = append(ops, Op{K: "jump", A: d})
			}
			if r.Bool(0.1) {
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Second)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "http", Props: []string{"C13", "C14", "C15", "C11"}, Gen: genHTTPPlan, Weight: 3, MaxYields: 20000000,
		Run:  func(h *H) { (&ohSim{h: h}).run() },
		Stub: []string{"network between HTTP client and server", "net/http's transport and server (http.Client is real)"},
	})
}
